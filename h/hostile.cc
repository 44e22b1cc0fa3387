// C25: input nobody would write, through the library and the tools.
#include <sys/resource.h>

#include "h/jobs.h"
#include "h/mutate.h"
#include "h/romfile.h"
#include "nsasm/rom.h"
#include "nsasm/token.h"
using vf::Spawn;

namespace {
bool child = false;  // under valgrind

std::string Path(const std::string& n) { return R().o.scratch + Fmt("/h%d_", R().o.shard) + n; }

// Does with a source all that the tools do.
void AssembleAll(const std::vector<nsasm::File>& files, nsasm::OutputSink* sink) {
  nsasm::Assembler a;
  for (auto& f : files) {
    auto e = a.AddAsmFile(f);
    if (!e.ok()) {
      if (e.error().ToString().empty()) R().Violation("no-message", "a refusal without a word");
      ++R().Count("refused");
      return;
    }
  }
  ++R().Count("loaded");
  auto e = a.Assemble(sink);
  if (!e.ok()) {
    if (e.error().ToString().empty()) R().Violation("no-message", "a refusal without a word");
    ++R().Count("refused");
    return;
  }
  ++R().Count("assembled");
  for (auto& t : a.JumpTargets()) { (void)t.first.ToString(); (void)t.second.ToString(); (void)a.NameForAddress(t.first); }
  for (auto& t : a.JumpTargetReturnConventions()) (void)t.second.ToSuffixString();
}
void Try(const std::vector<std::string>& texts, Rng& r, bool disk) {
  std::string all;
  for (auto& t : texts) all += "==== file\n" + t + "\n";
  R().Describe(all);
  R().Distinct(all);
  std::vector<nsasm::File> files;
  for (size_t i = 0; i < texts.size(); ++i) {
    if (disk) {
      std::string p = Path(Fmt("%zu.asm", i));
      vf::WriteFile(p, texts[i]);
      auto f = nsasm::OpenFile(p);
      if (!f.ok()) { R().Violation("unreadable", f.error().ToString()); return; }
      files.push_back(*std::move(f));
    } else {
      files.push_back(nsasm::MakeFakeFile(Fmt("%zu.asm", i), texts[i]));
    }
  }
  if (r.Coin()) {
    nsx::RecordingSink s;
    AssembleAll(files, &s);
    return;
  }
  static std::string path;
  if (path.empty()) {
    auto p = vf::RomPayload(0x20000, vf::kLo, 3);
    path = Path("rom.sfc");
    vf::WriteFile(path, p.data(), p.size());
  }
  auto l = nsasm::LoadRomFile(path);
  if (!l.ok()) { R().Violation("rom", l.error().ToString()); return; }
  if (r.Coin()) {
    nsasm::RomIdentityTest s(*std::move(l));
    AssembleAll(files, &s);
  } else {
    nsasm::RomOverwriter s(*std::move(l));
    AssembleAll(files, &s);
  }
}

void Sources(Rng& r) {
  std::vector<std::string> texts;
  int style = r.Below(5);
  if (style == 0) {
    for (int n = 1 + r.Below(2); n > 0; --n) texts.push_back(mut::Soup(r));
    ++R().Count("soups");
  } else {
    Gen g(r);
    Program p;
    if (!g.WellFormed(&p, 3, r.Chance(1, 10) ? 12 : 4)) { ++R().Count("generator_retries"); return; }
    for (auto& f : p.files) { Render(f, r, r.Coin()); texts.push_back(f.text); }
    size_t i = r.Below(texts.size());
    texts[i] = style >= 3 ? mut::MutateLines(r, texts[i], r.Pick(texts)) : mut::Mutate(r, texts[i], r.Pick(texts));
    if (style == 1) for (auto& t : texts) t = mut::Mutate(r, t, r.Pick(texts));
    if (style == 2 && r.Chance(1, 3)) texts.push_back(texts[0]);
    if (r.Chance(1, 10)) texts[i].resize(r.Below(texts[i].size() + 1));
    if (r.Chance(1, 20)) { std::string t; for (char c : texts[i]) { if (c == '\n') t += '\r'; t += c; } texts[i] = t; }
    ++R().Count("damaged");
  }
  R().MaybeSample(texts[0]);
  Try(texts, r, r.Chance(1, 10));
}

// As interactive_parse does.
void Lines(Rng& r) {
  std::string text;
  if (r.Coin()) text = mut::Soup(r);
  else for (int n = 1 + r.Below(8); n > 0; --n) text += mut::Token(r) + (r.Coin() ? " " : "");
  R().Describe(text);
  R().Distinct(text);
  std::string line;
  auto one = [&] {
    auto tokens = nsasm::Tokenize(line, nsasm::Location());
    if (!tokens.ok()) { (void)tokens.error().ToString(); ++R().Count("untokenized"); return; }
    for (auto& t : *tokens) (void)t.ToString();
    auto e = nsasm::Parse(*tokens);
    if (!e.ok()) { (void)e.error().ToString(); ++R().Count("unparsed"); return; }
    for (auto& x : *e) {
      if (auto* l = absl::get_if<nsasm::ParsedLabel>(&x)) (void)l->ToString();
      if (auto* st = absl::get_if<nsasm::Statement>(&x)) {
        (void)st->ToString();
        (void)st->SerializedSize();
        nsx::MapContext c;
        nsx::RecordingSink sink;
        auto w = st->Assemble(nsasm::Address(r.Below(0x1000000)), c, &sink);
        if (!w.ok()) (void)w.error().ToString();
        ++R().Count("statements");
      }
    }
    ++R().Count("parsed");
  };
  for (char c : text) {
    if (c == '\n') { one(); line.clear(); } else line += c;
  }
  one();
}

void Bytes(Rng& r) {
  Job j;
  if (!MakeJob(r, &j) || j.seeds.empty()) { ++R().Count("generator_retries"); return; }
  if (r.Coin()) {
    std::vector<uint32_t> at;
    for (auto& b : j.mem.bytes) at.push_back(b.first);
    std::sort(at.begin(), at.end());
    for (int n = r.Below(20); n > 0 && !at.empty(); --n) j.mem.bytes[r.Pick(at)] = r.Below(256);
    for (int n = r.Below(6); n > 0; --n) j.seeds.push_back({uint32_t(r.Below(0x1000000)), AnyMode(r), false});
  }
  R().Describe(Show(j));
  R().Distinct(Show(j));
  Drive v;
  Go(j, 1 + r.Below(5), &v);
  auto e = v.d->Cleanup();
  if (!e.ok()) (void)e.error().ToString();
  (void)Listing(v.d->Result());
  ++R().Count("memories");
}

void RomFiles(Rng& r) {
  size_t n = r.Coin() ? r.Below(0x30) : r.Coin() ? 0x1000 * r.Below(0x50) + 0x200 * r.Below(2) : r.Below(0x50000);
  std::string b(n, 0);
  int fill = r.Below(3);
  for (auto& c : b) c = fill == 0 ? 0 : fill == 1 ? char(0xff) : char(r.Next());
  for (int k = 0; k < 6; ++k) {
    size_t h = r.Pick({0x7fdc, 0xffdc}) + (r.Coin() ? 0 : 0x200);
    if (h + 4 > n || r.Coin()) continue;
    uint16_t sum = r.Below(0x10000);
    b[h] = char(~sum), b[h + 1] = char(~sum >> 8), b[h + 2] = char(sum), b[h + 3] = char(sum >> 8);
  }
  std::string path = Path("x.sfc");
  vf::WriteFile(path, b);
  R().Describe(Fmt("a ROM file of $%zx bytes", n));
  auto rom = nsasm::LoadRomFile(path);
  if (!rom.ok()) {
    if (rom.error().ToString().empty()) R().Violation("no-message", "a refusal without a word");
    ++R().Count("roms_refused");
    return;
  }
  ++R().Count("roms_loaded");
  auto twin = nsasm::LoadRomFile(path);
  if (!twin.ok()) { R().Violation("rom", twin.error().ToString()); return; }
  nsasm::RomOverwriter over(*std::move(twin));
  for (int k = 0; k < 40; ++k) {
    nsasm::Address a(r.Coin() ? r.Below(0x1000000) : (r.Below(256) << 16 | (0xffff & (r.Pick({0x0000, 0x7fff, 0x8000, 0xffff, 0xff00}) + r.Range(-3, 3)))));
    int len = r.Pick<int>({0, 1, 2, 3, 0x7fff, 0x8000, 0xffff, 0x10000, 0x10001, 0x20000, -1, -0x10000, INT32_MIN});
    auto e = (*rom)->Read(a, len);
    if (!e.ok()) (void)e.error().ToString();
    std::vector<uint8_t> d(len < 0 || len > 0x20000 ? 5 : len, 7);
    auto w = over.Write(a, d);
    if (!w.ok()) (void)w.error().ToString();
    (void)(*rom)->ReadByte(a);
    (void)(*rom)->ReadWord(a);
    (void)(*rom)->ReadLong(a);
  }
  auto c = over.CreateFile(Path("y.sfc"));
  if (!c.ok()) (void)c.error().ToString();
}

std::string Times(const std::string& s, int n) {
  std::string t;
  for (int i = 0; i < n; ++i) t += s;
  return t;
}
// Much of one thing.
void Huge(Rng& r, uint64_t which) {
  int n = r.Pick({300, 3000, 30000});
  int m = std::min(n, 3000);
  std::string head = ".org $8000\n.entry m8x8\n", t, what;
  switch (which % 30) {
    case 0: what = "parentheses"; t = head + "lda " + Times("(", n) + "1" + Times(")", n); break;
    case 1: what = "open parentheses"; t = head + "lda #" + Times("(", n); break;
    case 2: what = "minus signs"; t = head + "lda #" + Times("- ", n) + "1"; break;
    case 3: what = "a sum"; t = head + "lda #1" + Times("+1-1", n); break;
    case 4: what = "a product"; t = head + "lda #1" + Times("*1", n); break;
    case 5: what = "size operators"; t = head + "lda #" + Times("<", n) + "1"; break;
    case 6: what = "scopes"; t = head + Times("{\n", m) + "nop\n" + Times("}\n", m) + "rts"; break;
    case 7: what = "open scopes"; t = head + Times("{", m); break;
    case 8: what = "statements on a line"; t = head + Times("nop:", n) + "rts"; break;
    case 9: what = "labels"; t = head; for (int i = 0; i < n; ++i) t += Fmt("l%d:\n", i); t += "rts"; break;
    case 10: what = "labels and jumps"; t = head; for (int i = 0; i < m; ++i) t += Fmt("l%d: beq l%d\n", i, i > 50 ? i - 50 : 0); t += "rts"; break;
    case 11: what = "a chain of names"; t = head; for (int i = 0; i < m; ++i) t += Fmt("n%d .equ n%d+1\n", i, i + 1); t += Fmt("n%d .equ 1\nrts", m); break;
    case 12: what = "a chain of names, backwards"; t = Fmt("n%d .equ 1\n", m); for (int i = m; i > 0; --i) t += Fmt("n%d .equ n%d+n%d\n", i - 1, i, i); break;
    case 13: what = "data"; t = head + "rts\n.db 1" + Times(",2", n); break;
    case 14: what = "a long name"; t = head + std::string(n * 10, 'a') + ": jmp " + std::string(n * 10, 'a'); break;
    case 15: what = "a long number"; t = head + "lda #$" + std::string(n * 10, 'f'); break;
    case 16: what = "zero bytes"; t = std::string(n * 30, '\0'); break;
    case 17: what = "empty lines"; t = std::string(n * 10, '\n'); break;
    case 18: what = "colons"; t = std::string(n, ':'); break;
    case 19: what = "pushes"; t = head + Times("php\n", m) + Times("plp\n", m) + "rts"; break;
    case 20: what = "pushes in a loop"; t = head + "l: php\n" + Times("beq l\n", 30) + "bra l"; break;
    case 21: what = "branches"; t = head; for (int i = 0; i < m; ++i) t += Fmt("beq l%d\nrep #$20\nlda #$1234\nsep #$20\nl%d:\n", i, i); t += "rts"; break;
    case 22: what = "plus labels"; t = head; for (int i = 0; i < m; ++i) t += "beq " + std::string(1 + i % 40, '+') + "\n" + std::string(1 + i % 40, '+') + "\n"; t += Times("++++++++\n", 5) + "rts"; break;
    case 23: what = "a long plus label"; t = head + "beq " + std::string(n * 3, '+') + "\n" + std::string(n * 3, '+') + " rts"; break;
    case 24: what = "exports"; t = ".module a\n" + head; for (int i = 0; i < m; ++i) t += Fmt("export e%d:\n", i); t += "rts"; break;
    case 25: what = "origins"; for (int i = 0; i < m; ++i) t += Fmt(".org $%06x\n.db 1\n", i * 4); break;
    case 26: what = "origins downward"; for (int i = m; i > 0; --i) t += Fmt(".org $%06x\n.db 1\n", i * 2); break;
    case 27: what = "a comment"; t = ";" + std::string(n * 30, 'x'); break;
    case 28: what = "entries"; for (int i = 0; i < m; ++i) t += Fmt(".org $%06x\n.entry m8x%d\nl%d: jsr l%d\nrts\n", i * 8, i % 2 ? 8 : 16, i, (i * 7) % m); break;
    case 29: what = "qualified names"; t = head + "lda a" + Times("::a", n); break;
  }
  R().Describe(what + Fmt(", %d times", n));
  ++R().Count("huge");
  R().Seen("huge", what);
  nsx::RecordingSink s;
  AssembleAll({nsasm::MakeFakeFile("huge.asm", t)}, &s);
}

// ---- the tools, as processes ----
std::string HostileArg(Rng& r, const std::vector<std::string>& files) {
  static const std::vector<std::string> odd = {"", "-", "--", "-x", "0", "1", "-1", "ffffff", "1000000", "FFFFFFFFFFFFFFFFFF", "0x", "0x8000", "$8000", "8000", "08000", " 8000", "8000 ", "80:8000", "g", "m8x8", "m16", "M8X16", "emu", "native", "unk", "m8x8,", "m4x4", "m", "x", "c",
                                               "%s%s%s%n", "/", "/nonexistent/x", "/dev/null", ".", "\xff\xfe", "a\nb", "9999999999", "2147483648", "-2147483648", "4294967296", "1e9", "+5", "0.5", "NaN", "16", "65536"};
  if (r.Chance(2, 5)) return r.Pick(files);
  if (r.Chance(1, 12)) return std::string(1 + r.Below(5000), char(r.Range(33, 126)));
  return r.Pick(odd);
}
void Tools(Rng& r) {
  static std::vector<std::string> files;
  if (files.empty()) {
    auto add = [&](const std::string& n, const std::string& b) { vf::WriteFile(Path(n), b); files.push_back(Path(n)); };
    for (int m : {vf::kLo, vf::kHi}) {
      auto p = vf::RomPayload(0x20000, m, 5 + m);
      add(Fmt("t%d.sfc", m), std::string(p.begin(), p.end()));
    }
    add("zero.sfc", "");
    add("short.sfc", std::string(0x8000, 'x'));
    add("a.asm", ".org $8000\n.entry m8x8\nlda #1\njsl $018000\nrts\n");
    add("b.asm", "lda (");
    add("c.txt", std::string("\0\xff\x80 ;\r\n", 7));
    mkdir(Path("dir").c_str(), 0755);
    files.push_back(Path("dir"));
    files.push_back(Path("missing"));
  }
  std::string tool = r.Pick<std::string>({"quick_dump", "quick_assemble", "quick_disassemble", "disassemble_more", "dumb_disassemble", "interactive_parse", "print_opcode_map"});
  std::vector<std::string> args = {R().o.bin + "/" + tool};
  std::string in;
  if (tool == "interactive_parse") {
    in = r.Coin() ? mut::Soup(r) : mut::Token(r) + " " + mut::Token(r);
    if (r.Coin()) in += '\n';
  }
  if (r.Chance(9, 10) && tool != "interactive_parse") {
    std::vector<std::string> shape;
    if (r.Coin()) args.push_back(files[r.Below(2)]);  // a good start
    if (tool == "quick_assemble") args.push_back(r.Coin() ? "-" : Path("made.sfc"));
  }
  for (int n = r.Below(5); n > 0; --n) {
    std::string a = HostileArg(r, files);
    if (tool == "quick_assemble" && args.size() == 2 && a != "-") a = Path("made.sfc");  // what it writes
    args.push_back(a);
  }
  std::string line;
  for (auto& a : args) line += "`" + a.substr(0, 200) + "` ";
  R().Describe(line + "\nstdin: " + in);
  R().Distinct(line + in);
  R().Arm();
  auto q = Spawn(args, Fmt("tool%d", R().o.shard), 30, in);
  ++R().Count("runs_" + tool);
  if (q.timeout) { R().Violation("hang:" + tool, tool + " does not stop"); return; }
  bool san = q.err.find("Sanitizer") != std::string::npos || q.err.find("runtime error:") != std::string::npos;
  if (!q.exited() || san || q.code() > 1) {
    R().Violation("crash:" + tool, Fmt("status %d: ", q.status) + q.err.substr(0, 2500));
    return;
  }
  if (q.code() == 1 && q.out.empty() && q.err.empty()) R().Violation("silent:" + tool, "fails without a word");
  ++R().Count(q.code() ? "tools_refused" : "tools_done");
}

// The same, without sanitizers, watched for reads of what was never written.
void Memcheck(uint64_t from, int n) {
  auto& o = R().o;
  setenv("VF_CHILD", "1", 1);
  R().Describe(Fmt("cases %llu to %llu under valgrind", (unsigned long long)from, (unsigned long long)from + n));
  R().Disarm();
  auto q = Spawn({"/usr/bin/valgrind", "-q", "--error-exitcode=97", "--exit-on-first-error=yes", "--leak-check=no", "--main-stacksize=8388608", o.bin + "/plain_hostile", "--prop", o.prop, "--out", o.scratch + "/mc", "--scratch",
                  o.scratch, "--seed", Fmt("%llu", (unsigned long long)o.seed), "--from", Fmt("%llu", (unsigned long long)from), "--cases", Fmt("%llu", (unsigned long long)from + n), "--cpu", "400"},
                 "mc", 600);
  unsetenv("VF_CHILD");
  if (q.code() == 97) R().Violation("memcheck", q.err.substr(0, 4000));
  else if (q.code() != 0) {
    fprintf(stderr, "valgrind run: status %d\n%s\n", q.status, q.err.substr(0, 2000).c_str());
    exit(64);
  }
  ++R().Count("memcheck_runs");
  R().Count("memcheck_cases") += n;
}

void Case(uint64_t i, Rng& r) {
  int k = r.Below(100);
  bool huge = i % 64 == 17;
  if (huge) { if (!child) Huge(r, i / 64); return; }
  if (k < 60) Sources(r);
  else if (k < 78) Lines(r);
  else if (k < 92) Bytes(r);
  else if (k < 96) RomFiles(r);
  else if (!child) Tools(r);
  if (!child && (i / R().o.shards) % 1000 == 5) Memcheck(i, 40);
}

}  // namespace

int main(int argc, char** argv) {
  R().Init(argc, argv);
  child = getenv("VF_CHILD");
  R().Cases(R().o.cases, [](uint64_t i, Rng& r) { Case(i, r); });
  return R().Finish();
}
