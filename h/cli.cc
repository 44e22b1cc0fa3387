// C28: the command-line tools, run as processes on ROM and source files.
#include "h/assemble.h"
#include "h/romfile.h"

using namespace prog;
using vf::CartOffset;
using vf::Proc;
using vf::Spawn;

namespace {

struct Rom {
  int mode = vf::kLo;
  bool header = false;
  std::string payload;
  std::string Bytes() const { return std::string(header ? 0x200 : 0, 'h') + payload; }
};
std::string Path(const std::string& name) { return R().o.scratch + vf::Fmt("/%d_", R().o.shard) + name; }
std::string Tool(const std::string& n) { return R().o.bin + "/" + n; }
uint32_t Int(nsasm::Address a) { return (uint32_t(a.Bank()) << 16) | a.BankAddress(); }

Rom MakeRom(Rng& r, int fill) {
  Rom m;
  m.header = r.Chance(1, 4);
  m.mode = r.Chance(1, 60) ? vf::kExHi : r.Coin() ? vf::kLo : vf::kHi;
  size_t size = m.mode == vf::kExHi ? 0x400000 + 0x1000 * r.Below(12) : 0x10000 + 0x1000 * r.Below(33);
  auto p = vf::RomPayload(size, m.mode, r.Below(1000));
  m.payload.assign(p.begin(), p.end());
  if (fill >= 0) {
    for (size_t i = 0; i < size; ++i)
      if (!((i & 0x7fff) >= 0x7fc0 && i < 0x10000)) m.payload[i] = char(fill);
  }
  return m;
}
// Puts a generator's regions where the ROM is.
void Confine(Gen& g, const Rom& m, Rng& r) {
  for (uint32_t b : {0x00, 0x01, 0x02, 0x03, 0x3f, 0x40, 0x41, 0x42, 0x70, 0x80, 0x81, 0x82, 0x83, 0xc0, 0xc1, 0xc2, 0xff})
    for (uint32_t a : {0x0000, 0x8000}) {
      int64_t o = CartOffset((b << 16) | a, m.mode);
      if (o >= 0 && o < int64_t(m.payload.size())) { g.only_banks.push_back(b); break; }
    }
  if (g.only_banks.size() > 2 && r.Coin()) {
    uint32_t keep = r.Pick(g.only_banks);
    g.only_banks = {keep};
  }
  g.fits = [&m](uint32_t bank, uint32_t from, uint32_t size) {
    for (uint32_t i = 0; i < size; ++i) {
      int64_t o = CartOffset((bank << 16) | ((from + i) & 0xffff), m.mode);
      if (o < 0 || o >= int64_t(m.payload.size()) || ((o & 0x7fff) >= 0x7fc0 && o < 0x10000)) return false;
    }
    return true;
  };
}
bool Make(Rng& r, Gen& g, const Rom& m, int files, int size, Program* p, Image* im) {
  for (int t = 0; t < 30; ++t) {
    if (!g.WellFormed(p, files, size)) continue;
    *im = Encode(*p);
    if (im->overlap || im->bad_branch || im->unresolved) continue;
    std::set<int64_t> offsets;
    bool ok = true;
    for (auto& b : im->bytes) ok = ok && offsets.insert(CartOffset(b.first, m.mode)).second;
    if (!ok) continue;
    for (auto& f : p->files) Render(f, r, r.Coin());
    return true;
  }
  return false;
}
std::vector<std::string> WriteSources(const Program& p) {
  std::vector<std::string> v;
  for (size_t i = 0; i < p.files.size(); ++i) {
    v.push_back(Path(vf::Fmt("f%zu.asm", i)));
    vf::WriteFile(v.back(), p.files[i].text);
  }
  return v;
}
Proc Call(const std::string& tool, std::vector<std::string> args) {
  args.insert(args.begin(), Tool(tool));
  std::string line;
  for (auto& a : args) line += a + " ";
  R().Arm();
  Proc q = Spawn(args, vf::Fmt("run%d", R().o.shard), 60);
  R().Eval();
  ++R().Count("runs_" + tool);
  return q;
}
// False, and a violation, if the tool did not end in its own way.
bool Sane(const Proc& q, const std::string& tool) {
  if (q.timeout) { R().Violation("hang:" + tool, tool + " does not stop"); return false; }
  bool san = q.err.find("Sanitizer") != std::string::npos || q.err.find("runtime error") != std::string::npos;
  if (!q.exited() || san || q.code() > 1) {
    R().Violation("crash:" + tool, tool + vf::Fmt(" died, status %d: ", q.status) + q.err.substr(0, 1500));
    return false;
  }
  return true;
}
bool Exists(const std::string& p) { struct stat st; return lstat(p.c_str(), &st) == 0; }
std::string FirstDifference(const std::string& a, const std::string& b) {
  if (a.size() != b.size()) return vf::Fmt("sizes %zu and %zu", a.size(), b.size());
  for (size_t i = 0; i < a.size(); ++i)
    if (a[i] != b[i]) return vf::Fmt("at file offset $%zx: %02x, expected %02x", i, uint8_t(a[i]), uint8_t(b[i]));
  return "";
}

// ---- assembling ----
void AssembleCase(Rng& r) {
  Rom m = MakeRom(r, -1);
  Gen g(r);
  Confine(g, m, r);
  Program p;
  Image im;
  if (!Make(r, g, m, 3, 5, &p, &im)) { ++R().Count("generator_retries"); return; }
  std::string rom = Path("in.sfc"), out = Path("out.sfc");
  vf::WriteFile(rom, m.Bytes());
  unlink(out.c_str());
  std::vector<std::string> src = WriteSources(p);
  R().Describe("assembling over a ROM\n" + ShowText(p));
  auto call = [&](const std::string& rom_in, const std::string& to) {
    std::vector<std::string> a = {rom_in, to};
    a.insert(a.end(), src.begin(), src.end());
    return Call("quick_assemble", a);
  };
  Rom want = m;
  for (auto& b : im.bytes) want.payload[CartOffset(b.first, m.mode)] = char(b.second);
  bool same = want.payload == m.payload;
  int kind = r.Below(8);
  if (kind == 0) {  // cannot be written
    std::string bad = r.Coin() ? R().o.scratch : r.Coin() ? R().o.scratch + "/no/such/place.sfc" : "/dev/full";
    Proc q = call(rom, bad);
    if (!Sane(q, "quick_assemble")) return;
    if (q.code() == 0) R().Violation("unwritten", "reports success, but cannot have written " + bad + ": " + q.out);
    else if (q.out.empty()) R().Violation("silent", "fails without a word");
    ++R().Count("unwritable");
    return;
  }
  if (kind == 1) {  // a fault in what it is given
    int what = r.Below(5);
    std::string target = out, in = rom;
    bool existing = r.Coin();
    if (existing) vf::WriteFile(out, "precious");
    if (what == 0) src[r.Below(src.size())] = Path("missing.asm");
    if (what == 1) in = Path("missing.sfc");
    if (what == 2) { target = Path("careful.asm"); unlink(target.c_str()); if (existing) vf::WriteFile(target, "precious"); }
    if (what >= 3) {
      int f = r.Below(p.files.size());
      std::string t = p.files[f].text + "\n" + r.Pick<std::string>({"lda #", ".org $123456\n.dw nowhere", "}", "nop", ".org -1", "{", ".org $7e0000\n.db 1", ".org $002100\n.db 1"});
      vf::WriteFile(src[f], t);
    }
    Proc q = call(in, target);
    if (!Sane(q, "quick_assemble")) return;
    if (q.code() == 0) { R().Violation("accepted", vf::Fmt("reports success for fault %d: ", what) + q.out); return; }
    if (q.out.empty()) { R().Violation("silent", "fails without a word"); return; }
    if (Exists(target) != existing || (existing && vf::ReadFile(target) != "precious")) { R().Violation("left-behind", "a failed assembly changed the output file"); return; }
    if (vf::ReadFile(rom) != m.Bytes()) { R().Violation("input-changed", "a failed assembly changed the ROM"); return; }
    if (what >= 3 && q.out.find(".asm:") == std::string::npos) { R().Violation("no-place", "the error names no line: " + q.out); return; }
    ++R().Count("refused");
    unlink(target.c_str());
    return;
  }
  bool in_place = r.Chance(1, 6);
  if (in_place) out = rom;
  else if (r.Coin()) vf::WriteFile(out, std::string(r.Below(200000), 'x'));
  Proc q = call(rom, out);
  if (!Sane(q, "quick_assemble")) return;
  if (q.code() != 0) { R().Violation("refused", "a correct program is refused: " + q.out); return; }
  std::string d = FirstDifference(vf::ReadFile(out), want.Bytes());
  if (!d.empty()) { R().Violation("bytes", "the output file is wrong " + d); return; }
  if (!in_place && vf::ReadFile(rom) != m.Bytes()) { R().Violation("input-changed", "the ROM it read was changed"); return; }
  ++R().Count("created");
  if (in_place) ++R().Count("in_place");
  // Checking, against what was made.
  q = call(out, "-");
  if (!Sane(q, "quick_assemble")) return;
  if (q.code() != 0) { R().Violation("not-identical", "the output does not match the sources it was made from: " + q.out); return; }
  Outcome o;
  Assemble(p, InOrder(p), false, &o);
  if (!o.ok) { R().Violation("rejected", o.error); return; }
  std::string report;
  auto targets = o.a->JumpTargets();
  report = vf::Fmt("%zu jump targets found\n", targets.size());
  for (auto& t : targets) report += "  " + t.first.ToString() + " " + t.second.ToString() + "\n";
  if (q.out != report) { R().Violation("report", "prints\n" + q.out + "instead of\n" + report); return; }
  ++R().Count("verified");
  R().Count("targets_printed") += targets.size();
  if (im.bytes.empty()) return;
  // One byte is not what it was.
  Rom other = want;
  std::vector<uint32_t> at;
  for (auto& b : im.bytes) at.push_back(b.first);
  size_t off;
  bool covered = r.Chance(3, 4);
  if (covered) {
    off = CartOffset(r.Pick(at), m.mode);
  } else {
    std::set<int64_t> in;
    for (uint32_t a : at) in.insert(CartOffset(a, m.mode));
    do off = r.Below(m.payload.size()); while (in.count(off) || ((off & 0x7fff) >= 0x7fc0 && off < 0x10000));
  }
  other.payload[off] ^= char(1 << r.Below(8));
  vf::WriteFile(rom, other.Bytes());
  q = call(rom, "-");
  if (!Sane(q, "quick_assemble")) return;
  if ((q.code() != 0) != covered) {
    R().Violation(covered ? "difference-missed" : "difference-imagined", vf::Fmt("the ROM differs at offset $%zx, %s the program; exit status %d: ", off, covered ? "inside" : "outside", q.code()) + q.out);
    return;
  }
  if (covered && q.out.empty()) { R().Violation("silent", "fails without a word"); return; }
  ++R().Count(covered ? "differences_found" : "differences_ignored");
  if (same) ++R().Count("no_change");
  R().Distinct(ShowText(p));
  R().MaybeSample(ShowText(p));
}

// ---- disassembling ----
struct Line { uint32_t at = 0; std::string label, text, mode, after; bool entry = false; };
struct Listed {
  std::vector<Line> lines;
  std::vector<std::string> errors, junk;
};
std::string Trim(std::string s) {
  while (!s.empty() && isspace(uint8_t(s.back()))) s.pop_back();
  size_t i = 0;
  while (i < s.size() && isspace(uint8_t(s[i]))) ++i;
  return s.substr(i);
}
Listed ParseListing(const std::string& out) {
  Listed l;
  size_t i = 0;
  bool entry = false;
  std::string held, mode;
  while (i < out.size()) {
    size_t e = out.find('\n', i);
    if (e == std::string::npos) e = out.size();
    std::string s = out.substr(i, e - i);
    i = e + 1;
    if (s.compare(0, 7, "; ERROR") == 0) { l.errors.push_back(s); continue; }
    if (s.empty() || s[0] == ';') continue;
    std::string t = Trim(s);
    if (t.compare(0, 4, ".org") == 0) continue;
    if (t.find(".entry ") != std::string::npos) {
      entry = true;
      mode = Trim(t.substr(t.find(".entry ") + 7));
      if (t[0] != '.') held = t.substr(0, t.find(':'));
      continue;
    }
    size_t semi = s.rfind(" ; $");
    if (semi == std::string::npos) { l.junk.push_back(s); continue; }
    Line n;
    n.at = strtoul(s.c_str() + semi + 4, nullptr, 16);
    n.text = Trim(s.substr(0, semi));
    size_t space = s.find(' ', semi + 3);
    if (space != std::string::npos) n.after = Trim(s.substr(space));
    size_t colon = n.text.find(": ");
    if (colon != std::string::npos && n.text.find(' ') > colon) { n.label = n.text.substr(0, colon); n.text = Trim(n.text.substr(colon + 1)); }
    if (n.label.empty()) n.label = held;
    held.clear();
    n.entry = entry;
    if (entry) n.mode = mode;
    entry = false;
    l.lines.push_back(n);
  }
  return l;
}
struct Space {
  const Rom& m;
  int At(uint32_t a) const {
    int64_t o = CartOffset(a, m.mode);
    return o < 0 || o >= int64_t(m.payload.size()) ? -1 : uint8_t(m.payload[o]);
  }
};
uint32_t InBank(uint32_t a, int n) { return (a & 0xff0000) | ((a + n) & 0xffff); }
// How long the instruction of a line is, from its text and the ROM; 0 if they
// do not agree.
int LineSize(const Space& s, const Line& l) {
  std::string t = nsx::Lower(l.text);
  std::string mn = t.substr(0, t.find(' '));
  char suffix = 0;
  size_t dot = mn.find('.');
  if (dot != std::string::npos) { suffix = mn[dot + 1]; mn = mn.substr(0, dot); }
  (void)suffix;
  int prefix = IsPseudo(mn);
  if (prefix && s.At(l.at) != (mn == "add" ? 0x18 : 0x38)) return 0;
  int op = s.At(InBank(l.at, prefix));
  if (op < 0 || RealMn(mn) != cpu::kOps[op].mn) return 0;
  int n = 0;
  cpu::Mode mode = cpu::kOps[op].mode;
  size_t digits = 0, d = t.find('$');
  uint32_t value = 0;
  if (d != std::string::npos) {
    while (d + 1 + digits < t.size() && isxdigit(t[d + 1 + digits])) ++digits;
    value = strtoul(t.c_str() + d + 1, nullptr, 16);
  }
  if (mode == cpu::IMMM || mode == cpu::IMMX) n = int(digits / 2);
  else n = cpu::OperandBytes(mode);
  if (digits && mode != cpu::REL8 && mode != cpu::REL16 && mode != cpu::MOV) {
    uint32_t v = 0;
    for (int k = 0; k < n; ++k) v |= uint32_t(s.At(InBank(l.at, prefix + 1 + k)) & 0xff) << (8 * k);
    if (v != value || int(digits) != 2 * n) return 0;
  }
  return prefix + 1 + n;
}

// A listing against the ROM, and assembled over it.
void CheckListing(const Rom& m, const std::string& rom, const std::string& out, const char* tool, const std::set<uint32_t>& excused, Rng& r) {
  Listed l = ParseListing(out);
  if (!l.junk.empty()) { R().Violation(std::string("junk:") + tool, "prints `" + l.junk[0] + "`"); return; }
  Space s{m};
  std::set<uint32_t> bytes;
  bool overlap = false, wraps = false, per = false;
  for (auto& n : l.lines) {
    int size = LineSize(s, n);
    if (!size) { R().Violation(std::string("line:") + tool, vf::Fmt("prints `%s` at $%06x, where the ROM has %02x %02x %02x %02x", n.text.c_str(), n.at, s.At(n.at) & 0xff, s.At(InBank(n.at, 1)) & 0xff, s.At(InBank(n.at, 2)) & 0xff, s.At(InBank(n.at, 3)) & 0xff)); return; }
    for (int k = 0; k < size; ++k) {
      if (!bytes.insert(InBank(n.at, k)).second) overlap = true;
      if (excused.count(InBank(n.at, k))) overlap = true;
    }
    if ((n.at & 0xffff) + size >= 0x10000) wraps = true;
    if (nsx::Lower(n.text).compare(0, 4, "per ") == 0) per = true;
  }
  R().Count("lines") += l.lines.size();
  if (l.lines.empty()) { ++R().Count("empty_listings"); return; }
  std::string asmf = Path("listing.asm"), made = Path("made.sfc");
  vf::WriteFile(asmf, out);
  Proc q = Call("quick_assemble", {rom, "-", asmf});
  if (!Sane(q, "quick_assemble")) return;
  if (q.code() != 0) {
    if (overlap || wraps || per) { ++R().Count("excused"); return; }
    // The state a place is entered in may be one no mode name describes.
    if (out.find("unk") != std::string::npos) { ++R().Count("excused"); return; }
    R().Violation(std::string("listing:") + tool, "the listing does not assemble: " + q.out + out);
    return;
  }
  q = Call("quick_assemble", {rom, made, asmf});
  if (!Sane(q, "quick_assemble")) return;
  std::string d = q.code() ? q.out : FirstDifference(vf::ReadFile(made), m.Bytes());
  if (!d.empty()) { R().Violation(std::string("reproduced:") + tool, "the listing assembles to another ROM: " + d); return; }
  ++R().Count("reproduced");
  ++R().Count(std::string("reproduced_") + tool);
  R().Distinct(out);
  R().MaybeSample(out);
  (void)r;
}

// Every place called or jumped to from a listing is listed too, and entered in a
// mode that covers the state of the call, or else reported.
void CheckCalls(const Listed& l, const std::set<uint32_t>& elsewhere, const std::string& out, const char* tool) {
  std::map<std::string, uint32_t> labels;
  std::map<uint32_t, const Line*> by;
  std::string errors;
  for (auto& n : l.lines) {
    by[n.at] = &n;
    if (!n.label.empty()) labels[nsx::Lower(n.label)] = n.at;
  }
  for (auto& e : l.errors) errors += e + "\n";
  auto bits = [](const std::string& name) {  // e, m, x; -1 unknown
    std::string n = name.substr(0, name.find(','));
    std::array<int, 3> b = {-1, -1, -1};
    if (n == "unk") return b;
    if (n == "emu") return std::array<int, 3>{1, 1, 1};
    b[0] = 0;
    for (int k = 0; k < 2; ++k) {
      size_t at = n.find("mx"[k]);
      if (n != "native" && at != std::string::npos) b[1 + k] = n[at + 1] == '8';
    }
    return b;
  };
  for (auto& n : l.lines) {
    std::string t = nsx::Lower(n.text);
    std::string mn = t.substr(0, t.find(' '));
    if ((mn != "jsr" && mn != "jsl" && mn != "jmp") || t.find('(') != std::string::npos || t.find('[') != std::string::npos) continue;
    std::string place = t.substr(4);
    bool yields = place.find(" yields ") != std::string::npos;
    place = place.substr(0, place.find(' '));
    uint32_t a;
    if (place[0] == '$') {
      a = strtoul(place.c_str() + 1, nullptr, 16);
      if (place.size() == 5) a |= n.at & 0xff0000;
    } else {
      auto it = labels.find(place[0] == '@' ? place.substr(1) : place);
      if (it == labels.end()) continue;
      a = it->second;
    }
    if (elsewhere.count(a) || errors.find(vf::Fmt("$%06x", a)) != std::string::npos) continue;
    auto to = by.find(a);
    if (to == by.end()) {
      // It may be the second half of a pseudo instruction only if nothing names it.
      R().Violation(std::string("call-lost:") + tool, vf::Fmt("$%06x, which `%s` leads to, is neither listed nor refused\n", a, n.text.c_str()) + out);
      return;
    }
    if (!to->second->entry) { R().Violation(std::string("call-no-entry:") + tool, vf::Fmt("$%06x, which `%s` leads to, is not entered\n", a, n.text.c_str()) + out); return; }
    ++R().Count("calls_listed");
    if (yields) continue;
    auto have = bits(n.after), want = bits(to->second->mode);
    for (int k = 0; k < 3; ++k)
      if (want[k] >= 0 && want[k] != have[k]) {
        R().Violation(std::string("call-state:") + tool, vf::Fmt("$%06x is entered as %s, but `%s` at $%06x leads to it in state %s\n", a, to->second->mode.c_str(), n.text.c_str(), n.at, n.after.c_str()) + out);
        return;
      }
  }
}

// Routines that call and jump to each other in various states.
struct Tree { uint32_t at = 0; std::vector<std::pair<uint32_t, std::string>> roots; };
bool MakeTree(Rng& r, const Gen& g, const Image& im, Rom* m, Tree* c) {
  int n = 3 + r.Below(7);
  for (int t = 0; t < 20; ++t) {
    uint32_t bank = r.Pick(g.only_banks), at = 0x8000 + r.Below(0x7c00), size = 0x40 * n;
    bool ok = g.fits(bank, at, size);
    std::set<int64_t> used;
    for (auto& b : im.bytes) used.insert(CartOffset(b.first, m->mode));
    for (uint32_t k = 0; k < size && ok; ++k) ok = !used.count(CartOffset((bank << 16) | (at + k), m->mode));
    if (!ok) continue;
    c->at = (bank << 16) | at;
    for (int i = 0; i < n; ++i) {
      std::string b;
      int w = -1;  // the widths are known: bit 0 for m, bit 1 for x
      auto to = [&] { return c->at + 0x40 * (r.Chance(5, 6) ? std::min(n - 1, i + 1 + int(r.Below(3))) : r.Below(n)); };
      for (int k = 1 + r.Below(4); k > 0; --k)
        switch (r.Below(6)) {
          case 0: {
            int keep = r.Pick({0x30, 0x30, 0x20, 0x10});
            bool set = r.Coin();
            b += set ? '\xe2' : '\xc2';
            b += char(keep);
            if (keep == 0x30) w = set ? 3 : 0;
            else if (w >= 0) { int bit = keep == 0x20 ? 1 : 2; w = set ? w | bit : w & ~bit; }
            break;
          }
          case 1: {
            if (w < 0) { b += '\xea'; break; }
            bool x = r.Coin();
            b += x ? '\xa2' : '\xa9';
            b += char(r.Below(256));
            if (!((w >> x) & 1)) b += char(r.Below(256));
            break;
          }
          case 2: b += r.Pick({'\xea', '\x1a', '\xe8', '\x8a'}); break;
          default: {
            uint32_t a = to();
            bool far = r.Coin();
            b += far ? '\x22' : '\x20';
            b += char(a);
            b += char(a >> 8);
            if (far) b += char(a >> 16);
          }
        }
      if (r.Chance(1, 4) && i + 1 < n) {
        uint32_t a = to();
        bool far = r.Coin();
        b += far ? '\x5c' : '\x4c';
        b += char(a);
        b += char(a >> 8);
        if (far) b += char(a >> 16);
      } else {
        b += r.Pick({'\x60', '\x6b'});
      }
      for (size_t k = 0; k < b.size(); ++k) m->payload[CartOffset(c->at + 0x40 * i + k, m->mode)] = b[k];
    }
    static const char* modes[] = {"native", "m8x8", "m16x16", "m8x16", "m16x8", "m8", "x16"};
    for (int i = 0; i < 1 + int(r.Below(2)); ++i) c->roots.push_back({c->at + 0x40 * i, modes[r.Below(7)]});
    return true;
  }
  return false;
}

// Code no source has, which calls places declared to return in some way.
struct Calls { uint32_t at = 0; std::string bytes, remotes; std::vector<uint32_t> lines; };
bool MakeCalls(Rng& r, const Gen& g, const Image& im, Rom* m, Calls* c) {
  for (int t = 0; t < 20; ++t) {
    uint32_t bank = r.Pick(g.only_banks), at = 0x8000 + r.Below(0x7e00);
    bool ok = g.fits(bank, at, 0x100);
    for (int k = 0; k < 0x100 && ok; ++k) ok = !im.bytes.count((bank << 16) | (at + k));
    std::set<int64_t> used;
    for (auto& b : im.bytes) used.insert(CartOffset(b.first, m->mode));
    for (int k = 0; k < 0x100 && ok; ++k) ok = !used.count(CartOffset((bank << 16) | (at + k), m->mode));
    if (!ok) continue;
    c->at = (bank << 16) | at;
    bool w[2] = {r.Coin(), r.Coin()};  // m and x are 8 bits wide
    c->remotes = vf::Fmt(".remote $%06x m%sx%s\n", c->at, w[0] ? "8" : "16", w[1] ? "8" : "16");
    std::string& b = c->bytes;
    auto load = [&] {
      bool x = r.Coin();
      c->lines.push_back(c->at + b.size());
      b += x ? '\xa2' : '\xa9';
      b += char(r.Below(256));
      if (!w[x]) b += char(r.Below(256));
    };
    load();
    int n = 1 + r.Below(4);
    bool ends = false;
    for (int k = 0; k < n; ++k) {
      uint32_t to = c->at + 0x80 + 4 * k;
      bool far = r.Coin();
      c->lines.push_back(c->at + b.size());
      b += far ? '\x22' : '\x20';
      b += char(to);
      b += char(to >> 8);
      if (far) b += char(to >> 16);
      int conv = r.Below(4);
      std::string text = vf::Fmt(".remote $%06x native", to);
      if (conv == 1) {
        w[0] = r.Coin(); w[1] = r.Coin();
        text += vf::Fmt(" yields m%sx%s", w[0] ? "8" : "16", w[1] ? "8" : "16");
      } else if (conv == 2 && k + 1 == n) {
        text += " noreturn";
        ends = true;
      } else if (conv == 3) {
        w[0] = w[1] = true;
        text += " yields emu";
      }
      c->remotes = r.Coin() ? c->remotes + text + "\n" : text + "\n" + c->remotes;
      if (ends) break;
      if (conv == 3) break;  // an emulation mode call needs an emulation mode place
      load();
    }
    if (!ends) { c->lines.push_back(c->at + b.size()); b += r.Coin() ? '\x60' : '\x6b'; }
    for (size_t k = 0; k < b.size(); ++k) m->payload[CartOffset(c->at + k, m->mode)] = b[k];
    for (int k = 0; k < n; ++k) m->payload[CartOffset(c->at + 0x80 + 4 * k, m->mode)] = '\x6b';
    return true;
  }
  return false;
}

void DisassembleCase(Rng& r) {
  Rom m = MakeRom(r, r.Chance(1, 5) ? -1 : 0x60);
  Gen g(r);
  Confine(g, m, r);
  Program p;
  Image im;
  if (!Make(r, g, m, 2, 6, &p, &im)) { ++R().Count("generator_retries"); return; }
  for (auto& b : im.bytes) m.payload[CartOffset(b.first, m.mode)] = char(b.second);
  int kind = r.Below(3);
  Calls calls;
  Tree tree;
  if (kind < 2 && r.Coin() && MakeTree(r, g, im, &m, &tree)) {
    ++R().Count("trees");
    for (auto& t : tree.roots)
      if (kind == 1) {
        auto& text = p.files[r.Below(p.files.size())].text;
        text = vf::Fmt(" .remote $%06x ", t.first) + t.second + "\n" + text;
      }
  } else if (kind == 1 && r.Chance(2, 3) && MakeCalls(r, g, im, &m, &calls)) {
    auto& text = p.files[r.Below(p.files.size())].text;
    text = calls.remotes + text;
  }
  std::string rom = Path("dis.sfc");
  vf::WriteFile(rom, m.Bytes());
  R().Describe("disassembling a ROM\n" + ShowText(p));
  if (kind == 0) {  // from every entry
    std::vector<std::string> args = {rom};
    std::set<uint32_t> starts;
    for (auto& f : p.files)
      for (size_t i = 0; i < f.st.size(); ++i) {
        const Stmt& s = f.st[i];
        if (s.kind != ENTRY || i + 1 >= f.st.size() || !im.bytes.count(s.addr)) continue;
        args.push_back(r.Coin() ? vf::Fmt("%06x", s.addr) : vf::Fmt("0x%X", s.addr));
        args.push_back(Case(ModeText(s.mode), r));
        starts.insert(s.addr);
      }
    for (auto& t : tree.roots) {
      args.push_back(vf::Fmt("%06x", t.first));
      args.push_back(t.second);
      starts.insert(t.first);
    }
    if (starts.empty()) { ++R().Count("no_entry"); return; }
    Proc q = Call("quick_disassemble", args);
    if (!Sane(q, "quick_disassemble")) return;
    if (q.code() != 0) { R().Violation("failed:quick_disassemble", q.out); return; }
    Listed l = ParseListing(q.out);
    std::set<uint32_t> shown;
    std::string errors;
    for (auto& n : l.lines) shown.insert(n.at);
    for (auto& e : l.errors) errors += e + "\n";
    for (uint32_t a : starts)
      if (!shown.count(a) && errors.find(vf::Fmt("$%06x", a)) == std::string::npos) { R().Violation("entry-lost", vf::Fmt("$%06x was asked for and is neither listed nor refused\n", a) + q.out); return; }
    ++R().Count("disassembled");
    CheckCalls(l, {}, q.out, "quick_disassemble");
    CheckListing(m, rom, q.out, "quick_disassemble", {}, r);
    return;
  }
  if (kind == 1) {  // what one file leads to
    std::vector<std::string> src = WriteSources(p);
    int keep = r.Below(p.files.size());
    bool all = calls.at || tree.at || r.Coin();
    std::vector<std::string> args = {rom};
    Program part;
    for (size_t i = 0; i < src.size(); ++i) if (all || int(i) == keep) { args.push_back(src[i]); part.files.push_back(p.files[i]); }
    Outcome o;
    Assemble(part, InOrder(part), false, &o);
    bool breaks = r.Chance(1, 6);
    if (breaks && o.ok && !o.sink.bytes.empty()) {
      Rom other = m;
      auto it = o.sink.bytes.begin();
      std::advance(it, r.Below(o.sink.bytes.size()));
      other.payload[CartOffset(it->first, m.mode)] ^= 0x10;
      vf::WriteFile(rom, other.Bytes());
    }
    Proc q = Call("disassemble_more", args);
    if (!Sane(q, "disassemble_more")) return;
    if (!o.ok || (breaks && !o.sink.bytes.empty())) {
      if (q.code() == 0) R().Violation("accepted:disassemble_more", "reports success though the sources " + std::string(o.ok ? "differ from the ROM" : "do not assemble"));
      ++R().Count("more_refused");
      return;
    }
    if (q.code() != 0) { R().Violation("failed:disassemble_more", q.out); return; }
    Listed l = ParseListing(q.out);
    std::set<uint32_t> shown, ours;
    std::map<std::string, uint32_t> labels;
    std::string errors;
    for (auto& n : l.lines) {
      shown.insert(n.at);
      if (!n.label.empty()) labels[nsx::Lower(n.label)] = n.at;
    }
    for (auto& e : l.errors) errors += e + "\n";
    for (auto& b : o.sink.bytes) ours.insert(b.first);
    for (auto& t : o.a->JumpTargets())
      if (!shown.count(Int(t.first)) && errors.find(t.first.ToString()) == std::string::npos) { R().Violation("target-lost", "the target " + t.first.ToString() + " is neither listed nor refused\n" + q.out); return; }
    if (calls.at)
      for (uint32_t a : calls.lines)
        if (!shown.count(a)) { R().Violation("calls:disassemble_more", vf::Fmt("$%06x is reached by the declarations\n", a) + calls.remotes + "and is not listed\n" + q.out); return; }
    // A call to a place with a declared way of returning shows it.
    auto conv = o.a->JumpTargetReturnConventions();
    for (auto& n : l.lines) {
      std::string t = nsx::Lower(n.text);
      bool jsr = t.compare(0, 4, "jsr ") == 0, jsl = t.compare(0, 4, "jsl ") == 0;
      if ((!jsr && !jsl) || t.find('(') != std::string::npos) continue;
      size_t sp = t.find(' ', 4);
      std::string place = Trim(t.substr(4, sp == std::string::npos ? sp : sp - 4));
      uint32_t a;
      if (place[0] == '$') {
        a = strtoul(place.c_str() + 1, nullptr, 16);
        if (jsr) a |= n.at & 0xff0000;
      } else {
        if (place[0] == '@') place = place.substr(1);
        auto it = labels.find(place);
        if (it == labels.end()) { R().Violation("convention:disassemble_more", "`" + n.text + "` names a label that is not there\n" + q.out); return; }
        a = it->second;
      }
      auto it = conv.find(nsasm::Address(a));
      std::string want = it == conv.end() ? "" : nsx::Lower(it->second.ToSuffixString());
      std::string has = sp == std::string::npos ? "" : Trim(t.substr(sp));
      if (Trim(want) != has) { R().Violation("convention:disassemble_more", "a call to a place declared `" + want + "` is shown as `" + n.text + "`\n" + q.out); return; }
      if (!want.empty()) ++R().Count("declared_calls");
    }
    ++R().Count("disassembled_more");
    CheckCalls(l, ours, q.out, "disassemble_more");
    CheckListing(m, rom, q.out, "disassemble_more", ours, r);
    return;
  }
  // One after the other.
  std::vector<std::pair<uint32_t, Mode3>> at;
  for (auto& f : p.files)
    for (size_t i = 0; i + 1 < f.st.size(); ++i)
      if (f.st[i].kind == ENTRY && im.bytes.count(f.st[i].addr)) at.push_back({f.st[i].addr, f.st[i].mode});
  if (at.empty()) { ++R().Count("no_entry"); return; }
  auto start = r.Pick(at);
  if (r.Chance(1, 5)) {  // near the end of the ROM
    int64_t off = int64_t(m.payload.size()) - 1 - r.Below(5);
    start.first = m.mode == vf::kLo ? uint32_t(off / 0x8000) << 16 | 0x8000 | uint32_t(off % 0x8000) : 0xc00000 | uint32_t(off & 0x3fffff);
    if (m.mode == vf::kExHi) start.first &= ~0x800000u;
  }
  Proc q = Call("dumb_disassemble", {rom, vf::Fmt("%x", start.first), ModeText(start.second)});
  if (!Sane(q, "dumb_disassemble")) return;
  Space s{m};
  uint32_t pc = start.first;
  size_t i = 0, lines = 0;
  bool refused = false, ended = false, exits = false;
  std::set<uint32_t> targets;
  std::string tail;
  while (i < q.out.size()) {
    size_t e = q.out.find('\n', i);
    if (e == std::string::npos) e = q.out.size();
    std::string t = q.out.substr(i, e - i);
    i = e + 1;
    if (t.empty() || t[0] != '$' || ended) { ended = true; tail += t + "\n"; continue; }
    if (strtoul(t.c_str() + 1, nullptr, 16) != pc) { R().Violation("line:dumb_disassemble", vf::Fmt("expected $%06x next, not ", pc) + t); return; }
    if (t.find(" - ERROR") != std::string::npos) { refused = true; break; }
    size_t semi = t.rfind(" ; ");
    Line n;
    n.at = pc;
    if (semi != std::string::npos) n.text = Trim(t.substr(10, semi - 10));
    int size = LineSize(s, n);
    if (!size) { R().Violation("line:dumb_disassemble", "prints `" + t + vf::Fmt("`, where the ROM has %02x %02x %02x", s.At(pc) & 0xff, s.At(InBank(pc, 1)) & 0xff, s.At(InBank(pc, 2)) & 0xff)); return; }
    const cpu::Op& o = cpu::kOps[s.At(pc)];
    // Where a branch leads.
    std::string leads;
    if (o.mode == cpu::REL8 || (o.mode == cpu::REL16 && std::string(o.mn) == "brl")) {
      int off = o.mode == cpu::REL8 ? int8_t(s.At(InBank(pc, 1))) : int16_t(s.At(InBank(pc, 1)) | s.At(InBank(pc, 2)) << 8);
      uint32_t to = InBank(pc, size + off);
      leads = vf::Fmt(" to $%06x (", to) + (targets.insert(to).second ? "new)" : "was ");
    }
    size_t has = t.find(" to $", semi == std::string::npos ? 0 : semi);
    if (leads.empty() ? has != std::string::npos : has == std::string::npos || t.compare(has, leads.size(), leads)) { R().Violation("branch:dumb_disassemble", "prints `" + t + "`, where the branch leads `" + leads + "`"); return; }
    exits = IsExit(Insn(o.mn, o.mode));
    ++lines;
    pc = InBank(pc, size);
  }
  if (ended) {  // why it stopped, and what it has not listed
    std::string want;
    auto next = targets.lower_bound(pc);
    if (tail.compare(0, 8, "Reached ") == 0) want = lines < 0x4000 ? "?" : "Reached the whole bank.\n";
    else if (!exits) want = "?";
    else if (next == targets.end()) want = "End of subroutine.\n";
    else if (*next > pc) want = vf::Fmt("Gap found here.  Nearest local jump target is $%06x (", *next);
    else want = "?";
    bool ok = tail.compare(0, want.size(), want) == 0;
    size_t at = tail.find('\n');
    std::string last = at == std::string::npos ? "" : tail.substr(at + 1);
    std::string first = targets.empty() ? "" : vf::Fmt("Earliest branch target $%06x (", *targets.begin());
    ok = ok && (first.empty() ? last.empty() : last.compare(0, first.size(), first) == 0);
    if (!ok) { R().Violation("end:dumb_disassemble", vf::Fmt("stops at $%06x, having branched to %zu places, with\n", pc, targets.size()) + tail); return; }
    R().Seen("dumb_ends", tail.substr(0, 5) + (targets.empty() ? "" : "+"));
  }
  if (refused != (q.code() != 0)) { R().Violation("status:dumb_disassemble", vf::Fmt("exit status %d after ", q.code()) + q.out); return; }
  if (refused) {  // not for want of bytes
    int op = s.At(pc);
    const cpu::Op& o = cpu::kOps[op < 0 ? 0 : op];
    bool whole = op >= 0;
    for (int k = 0; k <= cpu::OperandBytes(o.mode, false, false); ++k) whole = whole && s.At(InBank(pc, k)) >= 0;
    bool sized = o.mode != cpu::IMMM && o.mode != cpu::IMMX && std::string(o.mn) != "rep" && std::string(o.mn) != "sep";
    if (whole && sized) { R().Violation("refused:dumb_disassemble", vf::Fmt("stops at $%06x, which can be read: ", pc) + q.out); return; }
  }
  R().Count("dumb_lines") += lines;
  ++R().Count(refused ? "dumb_refused" : "dumb_done");
}

}  // namespace

int main(int argc, char** argv) {
  R().Init(argc, argv);
  R().Cases(R().o.cases, [&](uint64_t, Rng& r) { if (r.Coin()) AssembleCase(r); else DisassembleCase(r); });
  return R().Finish();
}
