// C16, C17, C18, C24: whole programs assembled and compared with the model.
#include <algorithm>

#include "h/assemble.h"

using namespace prog;
using vf::R;

namespace {

std::string Diff(const std::map<uint32_t, uint8_t>& want, const std::map<uint32_t, uint8_t>& got, const Program& p) {
  auto where = [&](uint32_t a) -> std::string {
    for (auto& f : p.files)
      for (auto& s : f.st)
        if (s.size && ((a - s.addr) & 0xffff) < uint32_t(s.size) && (a >> 16) == (s.addr >> 16)) {
          Rng q(1);
          return Fmt(" (%s:%d %s)", f.path.c_str(), s.line, Spell(s, q).c_str());
        }
    return "";
  };
  for (auto& [a, v] : want) {
    auto it = got.find(a);
    if (it == got.end()) return Fmt("$%06x should be %02x, not written%s", a, v, where(a).c_str());
    if (it->second != v) return Fmt("$%06x should be %02x, got %02x%s", a, v, it->second, where(a).c_str());
  }
  for (auto& [a, v] : got)
    if (!want.count(a)) return Fmt("$%06x should not be written, got %02x", a, v);
  return "";
}

bool MakeProgram(Rng& r, int files, int size, Gen& g, Program* p, Image* im) {
  for (int t = 0; t < 30; ++t) {
    if (!g.WellFormed(p, files, size)) { ++R().Count("generator_retries"); continue; }
    *im = Encode(g.p);
    if (im->unresolved || im->overlap) { fprintf(stderr, "generator: %s\n", im->overlap ? "overlap" : "unresolved"); exit(64); }
    if (im->bad_branch) { ++R().Count("generator_far_branches"); continue; }
    for (auto& f : g.p.files) Render(f, r, false);
    *p = g.p;
    return true;
  }
  return false;
}

void CountFeatures(const Program& p) {
  for (auto& f : p.files)
    for (auto& s : f.st) {
      if (s.kind == INSN) R().Seen("instructions", s.mn + Fmt("/%d", s.form));
      for (auto& a : s.args) if (HasName(a)) ++R().Count("names_used");
      if (IsBranch(s)) ++R().Count("branches");
      if (s.conv) ++R().Count("conventions");
      if (s.size && (s.addr & 0xffff) + s.size > 0x10000) ++R().Count("statements_across_a_bank_end");
      if (s.kind == BEGIN) ++R().Count("scopes");
      if (s.kind == EQU) ++R().Count("equs");
    }
  ++R().Count(p.files.size() == 1 ? "single_file" : "multi_file");
}

// ---- C16 ----

class FailingSink : public nsx::RecordingSink {
 public:
  int left;
  explicit FailingSink(int n) : left(n) {}
  nsasm::ErrorOr<void> Write(nsasm::Address a, absl::Span<const std::uint8_t> d) override {
    if (left-- == 0) return nsasm::Error("the sink is full");
    return nsx::RecordingSink::Write(a, d);
  }
};

// A plain number just outside what a byte or word can hold, or far outside.
Expr OutOf(Rng& r, int bits) {
  int64_t top = int64_t(1) << bits, low = top / 2;
  int64_t v = r.Pick({top, top, top + 1, top + int64_t(r.Below(1000)), top * 2 - 1, -low - 1, -low - 1, -low - 2,
                      -low - 1 - int64_t(r.Below(1000)), -top, top << 8});
  if (v >= 0) return Num(v, 0);
  Expr e;
  e.kind = Expr::NEG;
  e.sub = {Num(-v, 0)};
  return e;
}

// A change to one statement that makes the program wrong.  Returns what was
// done, or nothing if it does not apply there.
std::string BreakStatement(Rng& r, Program& p, Gen& g) {
  for (int t = 0; t < 60; ++t) {
    int fi = r.Below(p.files.size());
    Source& f = p.files[fi];
    if (f.st.empty()) continue;
    int i = r.Below(f.st.size());
    Stmt& s = f.st[i];
    if (s.kind != INSN) continue;
    switch (r.Below(5)) {
      case 0: {  // a suffix the state contradicts
        char w = cpu::WidthOf(s.mn);
        if (!w) continue;
        int k = g.behaviour[fi].at[i].known(w == 'm' ? 2 : 1);
        if (k == 2 || g.behaviour[fi].at[i].emxc.empty()) continue;
        s.suffix = k ? 'w' : 'b';
        return "suffix";
      }
      case 1: {  // a suffix on an instruction that has no width
        if (cpu::WidthOf(s.mn)) continue;
        s.suffix = r.Coin() ? 'w' : 'b';
        return "suffix";
      }
      case 2: {  // no such addressing mode
        if (cpu::IsBranch(s.mn) || s.mn == "per" || s.args.size() > 1) continue;
        static const cpu::Mode forms[] = {cpu::D, cpu::ABS, cpu::LNG, cpu::DX, cpu::ABSX, cpu::LNGX, cpu::DY, cpu::ABSY,
                                          cpu::ID, cpu::IDX, cpu::IDY, cpu::LD, cpu::LDY, cpu::IA, cpu::IAX, cpu::LA,
                                          cpu::SR, cpu::ISY, cpu::IMM8, cpu::ACC, cpu::MOV};
        cpu::Mode m = forms[r.Below(21)];
        auto has = [&](cpu::Mode q) { return cpu::FindOp(RealMn(s.mn), q) >= 0; };
        if (has(m) || (m == cpu::ACC && has(cpu::IMP))) continue;  // `A` may be left out
        if (m == cpu::IMM8 && (has(cpu::IMMM) || has(cpu::IMMX) || has(cpu::IMM16))) continue;
        s.form = m;
        s.args = g.Operands(m);
        for (auto& a : s.args) if (HasName(a)) a = g.Literal(Rank(a));
        
        return "operand";
      }
      case 3: {  // a name nobody defines
        if (s.args.empty()) continue;
        bool wide = Rank(s.args[0]) == 3;
        if (Rank(s.args[0]) < 2) continue;
        s.args[0] = Name("nowhere", wide);
        s.target = -1;
        return "undefined";
      }
      default: {  // an operand that is not a byte or a word
        if (s.args.empty() || s.form == cpu::IMMM || s.form == cpu::IMMX || cpu::IsBranch(s.mn) || s.mn == "per") continue;
        int n = cpu::OperandBytes(s.form);
        if (s.form == cpu::IMM8 || s.form == cpu::SR || s.form == cpu::ISY || s.form == cpu::MOV) {
          int j = s.form == cpu::MOV ? r.Below(2) : 0;
          if (r.Chance(1, 3)) s.args[j] = g.Literal(2);
          else s.args[j] = OutOf(r, 8);
          return "operand";
        }
        if (s.form == cpu::IMM16) { s.args[0] = r.Chance(1, 3) ? g.Literal(3) : OutOf(r, 16); return "operand"; }
        (void)n;
        s.args[0] = Num(r.Below(200), 0);  // an address without a size
        return "operand";
      }
    }
  }
  return "";
}

// A relative operand at or near the edge of its reach, anywhere in a bank.
void ReachCase(Rng& r) {
  bool longer = r.Chance(2, 5);
  std::string mn = longer ? r.Pick({"brl", "per"}) : r.Pick({"bra", "beq", "bne", "bcc", "bcs", "bpl", "bmi", "bvc", "bvs"});
  int size = longer ? 3 : 2;
  int off = longer ? r.Pick({32767, 32766, -32768, -32767, 0, -3, 127, 128, -128, -129, 255, 256, -256, -257, int(r.Below(65536)) - 32768})
                   : r.Pick({127, 126, -128, -127, 0, -2, 128, 129, -129, -130, 255, 256, -256, 32767, -32768, int(r.Below(256)) - 128});
  bool far = !longer && (off < -128 || off > 127);
  uint32_t bank = r.Coin() ? 0 : r.Below(256) << 16;
  uint32_t base = r.Chance(1, 3) ? 0xffff - r.Below(6) : r.Chance(1, 3) ? r.Below(140) : r.Below(0x10000);
  auto at = [&](int64_t a) { return bank | (uint32_t(a) & 0xffff); };
  uint32_t target = at(base + size + off);
  bool itself = target == at(base), next = target == at(base + size);
  bool exits = mn == "bra" || mn == "brl";
  for (int k = 1; k < size; ++k) if (target == at(base + k)) return;
  if (!exits && !next && target == at(base + size)) return;
  if (itself && exits) return;  // nothing follows, but nothing is wrong either
  std::string here = Fmt(" .org $%06x\n .entry m8x8\n", at(base)) + (itself ? "there " : " ") + mn + " there\n";
  if (next) here += "there rts\n";
  else if (!exits) here += " rts\n";
  std::string text = here;
  if (!itself && !next) {
    std::string there = Fmt(" .org $%06x\n", target) + (mn == "per" && r.Coin() ? "there .db $60\n" : mn == "per" ? " .entry native\nthere rts\n" : "there rts\n");
    text = r.Coin() ? here + there : there + here;
  }
  std::map<uint32_t, uint8_t> want;
  want[at(base)] = cpu::FindOp(mn, longer ? cpu::REL16 : cpu::REL8);
  for (int k = 1; k < size; ++k) want[at(base + k)] = uint8_t(off >> (8 * (k - 1)));
  if (next || !exits) want[at(base + size)] = 0x60;
  if (!itself) want[target] = 0x60;
  R().Describe(text);
  nsasm::Assembler a;
  nsx::RecordingSink sink;
  auto loaded = a.AddAsmFile(nsasm::MakeFakeFile("f.asm", text));
  if (!loaded.ok()) { R().Violation("rejected", "a correct program is refused: " + loaded.error().ToString()); return; }
  auto done = a.Assemble(&sink);
  if (far) {
    if (done.ok()) R().Violation("accepted:far branch", "a branch out of reach is assembled");
    ++R().Count("refused_far");
    return;
  }
  if (!done.ok()) { R().Violation("rejected", "a correct program is refused: " + done.error().ToString()); return; }
  Program none;
  std::string d = Diff(want, sink.bytes, none);
  if (!d.empty()) R().Violation("bytes", d);
  R().Seen("reaches", mn + Fmt(" %d", off));
  R().Distinct(text);
  ++R().Count("reach_edges");
}

void BytesCase(Rng& r) {
  if (r.Chance(1, 8)) { ReachCase(r); return; }
  Gen g(r);
  Program p;
  Image im;
  if (!MakeProgram(r, 3, 8, g, &p, &im)) return;
  bool disk = r.Chance(1, 10);
  if (r.Chance(1, 3)) {  // a wrong program
    Program q = p;
    std::string what;
    if (r.Chance(1, 4)) {  // a branch that cannot reach
      int n = 0;
      for (auto& f : q.files)
        for (size_t i = 0; i < f.st.size() && !n; ++i) {
          Stmt& s = f.st[i];
          if (s.kind != INSN || s.form != cpu::REL8) continue;
          int lo = std::min<int>(i, s.target), hi = std::max<int>(i, s.target);
          if (hi <= lo) continue;
          int gap = 0;
          for (int k = lo + 1; k < hi; ++k) gap += f.st[k].size;
          // Enough that it is just out of reach, or far out.
          int max = s.target > int(i) ? 127 : 126 - (f.st[lo].size);
          n = std::max(1, max - gap + 1) + (r.Coin() ? 0 : r.Below(200));
          if (lo == int(i)) n = 128 - gap + (r.Coin() ? 0 : r.Below(200));
          else n = 129 - 2 - gap - f.st[lo].size + (r.Coin() ? 0 : r.Below(200));
          if (n < 1) { n = 0; continue; }
          std::vector<Stmt> nops(n, Insn("nop"));
          // After the first of the two statements; that point is never entered
          // by falling if it is an exit, so put them where control passes.
          int at = lo + 1;
          if (IsExit(f.st[lo])) { n = 0; continue; }
          f.st.insert(f.st.begin() + at, nops.begin(), nops.end());
          for (auto& t : f.st) if (t.target >= at) t.target += n;
          what = "far branch";
        }
      if (what.empty()) return;
    } else {
      what = BreakStatement(r, q, g);
      if (what.empty()) return;
    }
    for (auto& f : q.files) Render(f, r, false);
    R().Describe(what + "\n" + ShowText(q));
    Outcome o;
    Assemble(q, InOrder(q), disk, &o);
    if (o.ok) R().Violation("accepted:" + what, "assembles, though it has a wrong " + what);
    ++R().Count("refused_" + what.substr(0, what.find(' ')));
    return;
  }
  R().Describe(ShowText(p));
  if (r.Chance(1, 6)) {  // a sink that fails
    int writes = 0;
    for (auto& f : p.files) for (auto& s : f.st) writes += s.size > 0;
    if (!writes) return;
    FailingSink sink(r.Below(writes));
    nsasm::Assembler a;
    for (auto& f : p.files) if (!a.AddAsmFile(ToFile(f, false)).ok()) { R().Violation("rejected", "a file is refused"); return; }
    auto e = a.Assemble(&sink);
    if (e.ok()) R().Violation("sink-failure", "a failed write is not reported");
    else if (e.error().ToString().find("the sink is full") == std::string::npos)
      R().Violation("sink-failure", "a failed write is reported as: " + e.error().ToString());
    ++R().Count("sink_failures");
    return;
  }
  Outcome o;
  Assemble(p, InOrder(p), disk, &o);
  if (!o.ok) { R().Violation("rejected", "a correct program is refused: " + o.error); return; }
  std::string d = Diff(im.bytes, o.sink.bytes, p);
  if (!d.empty()) { R().Violation("bytes", d); return; }
  CountFeatures(p);
  R().Count("bytes_compared") += im.bytes.size();
  ++R().Count("assembled");
  R().Distinct(ShowText(p));
  R().MaybeSample(ShowText(p));
}

// ---- C17 ----

void FootprintCase(Rng& r) {
  Gen g(r);
  Program p;
  Image im;
  if (!MakeProgram(r, 4, 6, g, &p, &im)) return;
  bool collide = r.Coin();
  std::string what;
  if (collide) {
    // Move a region so that it covers some byte of another (or of a fresh
    // statement), by little or much.
    struct Region { int f, st; uint32_t at, size; };
    std::vector<Region> regions;
    for (size_t f = 0; f < p.files.size(); ++f)
      for (size_t i = 0; i < p.files[f].st.size(); ++i) {
        Stmt& s = p.files[f].st[i];
        if (s.kind == ORG) regions.push_back({int(f), int(i), s.addr, 0});
        else if (s.size) regions.back().size += s.size;
      }
    std::vector<Region> full;
    for (auto& q : regions) if (q.size) full.push_back(q);
    if (full.size() < 2) return;
    size_t a = r.Below(full.size()), b = r.Below(full.size());
    if (a == b) return;
    // Region a gets to overlap region b: by its last byte, its first, or any.
    int k = r.Below(3);
    uint32_t low = k == 0 ? full[b].at - full[a].size + 1 : k == 1 ? full[b].at + full[b].size - 1
                                                           : full[b].at + r.Below(full[b].size) - r.Below(full[a].size);
    uint32_t at = (full[b].at & 0xff0000) | (low & 0xffff);
    p.files[full[a].f].st[full[a].st].args = {Num(at, 3)};
    for (auto& f : p.files) PlaceFile(f);
    EvaluateEqus(p);
    Image q = Encode(p);
    if (q.bad_branch || q.unresolved) return;
    if (!q.overlap) { fprintf(stderr, "generator: no overlap\n"); exit(64); }
    what = full[a].f == full[b].f ? "module" : "modules";
    for (auto& f : p.files) Render(f, r, false);
  }
  R().Describe(ShowText(p));
  Outcome o;
  Assemble(p, InOrder(p), false, &o);
  if (collide) {
    if (o.ok) R().Violation("overlap-" + what, Fmt("two statements claim the same byte and it assembles; the sink saw %zu bytes twice", o.sink.again.size()));
    ++R().Count("collisions_" + what);
    R().Distinct(ShowText(p));
    return;
  }
  if (!o.ok) { R().Violation("rejected", "a correct program is refused: " + o.error); return; }
  if (!o.sink.again.empty()) { R().Violation("twice", Fmt("$%06x is written twice", o.sink.again[0])); return; }
  // Every boundary, and places elsewhere.
  std::set<uint32_t> probe;
  for (auto& [a, v] : o.sink.bytes)
    for (int d : {-0x10000, -1, 0, 1, 0x10000}) if (int64_t(a) + d >= 0 && a + d <= 0xffffff) probe.insert(a + d);
  for (auto& [a, v] : o.sink.bytes) { probe.insert(a & 0xff0000); probe.insert(a | 0xffff); }
  probe.insert({0u, 0xffffffu});
  for (int i = 0; i < 8; ++i) probe.insert(r.Below(0x1000000));
  for (uint32_t a : probe) {
    bool want = o.sink.bytes.count(a), got = o.a->Contains(nsasm::Address(a));
    ++R().Count(want ? "inside_probes" : "outside_probes");
    if (want != got) {
      R().Violation("footprint", Fmt("$%06x is %s but %s", a, want ? "written" : "not written", got ? "reported" : "not reported"));
      return;
    }
  }
  CountFeatures(p);
  ++R().Count("assembled");
  R().Distinct(ShowText(p));
  R().MaybeSample(ShowText(p));
}

// ---- C18 ----

Expr Plus1(Expr a) {
  Expr e;
  e.kind = Expr::ADD;
  e.sub = {std::move(a), Num(1, 0)};
  return e;
}

bool RenameFault(Rng& r, Program& p, std::string* what) {
  std::vector<std::pair<int, int>> named;
  for (size_t f = 0; f < p.files.size(); ++f)
    for (size_t i = 0; i < p.files[f].st.size(); ++i)
      if (p.files[f].st[i].labels.size()) named.push_back({int(f), int(i)});
  if (named.empty()) return false;
  auto [f, i] = named[r.Below(named.size())];
  Source& s = p.files[f];
  auto add = [&](int fi, Stmt st) { p.files[fi].st.push_back(std::move(st)); };
  auto equ = [&](const std::string& n, Expr e) { Stmt q = Dir(EQU, {std::move(e)}); q.labels.push_back({n, false}); return q; };
  switch (r.Below(6)) {
    case 0: {  // a label defined again in its scope
      const Label l = s.st[i].labels[r.Below(s.st[i].labels.size())];
      int n = s.st.size();
      // Another statement of the same scope (or, exported, any).
      for (int t = 0; t < 20; ++t) {
        int k = r.Below(n);
        if (!(s.st[k].scopes == s.st[i].scopes || (l.exported && r.Coin()))) continue;
        bool global_i = l.exported || s.st[i].scopes.empty();
        Label d = l;
        if (s.st[k].scopes.empty()) d.exported = r.Coin();
        if (!global_i) d.exported = false;
        if (global_i && !s.st[k].scopes.empty()) d.exported = true;
        if (s.st[k].kind == ORG || s.st[k].kind == MODULE) continue;
        s.st[k].labels.push_back(d);
        *what = "duplicate";
        return true;
      }
      return false;
    }
    case 1: {  // two modules of one name export the same
      if (p.files.size() < 2) return false;
      int a = r.Below(p.files.size()), b = r.Below(p.files.size());
      if (a == b || p.files[a].module != p.files[b].module) {
        // Give two modules without names a common one.
        if (a == b) return false;
        for (int q : {a, b}) {
          for (auto& t : p.files[q].st) if (t.kind == MODULE) return false;
          for (auto& t : p.files) for (auto& u : t.st) for (auto& e : u.args) if (HasName(e)) { /* may change meaning: an error anyway */ }
        }
      }
      add(a, equ("both", Num(1, 0)));
      add(b, equ("both", Num(1, 0)));
      *what = "duplicate export";
      return true;
    }
    case 2: {  // values that need each other, in one file
      add(f, equ("cyc1", Plus1(Name("cyc2"))));
      add(f, equ("cyc2", Name("cyc1")));
      *what = "cycle";
      return true;
    }
    case 3: {  // across files
      if (p.files.size() < 2) return false;
      int n = p.files.size(), from = r.Below(n), len = 2 + r.Below(n - 1);
      for (int k = 0; k < len; ++k) {
        int me = (from + k) % n, next = (from + (k + 1) % len) % n;
        Expr e = Name(Fmt("cyc%d", next));
        e.qualified = true;
        e.mod = p.files[next].module;
        add(me, equ(Fmt("cyc%d", me), e));
      }
      *what = "cycle";
      return true;
    }
    case 4: {  // itself
      add(f, equ("self", Plus1(Name("self"))));
      *what = "cycle";
      return true;
    }
    default: {  // a name out of its scope
      for (int t = 0; t < 30; ++t) {
        auto [f2, i2] = named[r.Below(named.size())];
        Stmt& d = p.files[f2].st[i2];
        const Label& l = d.labels[0];
        int f3 = r.Below(p.files.size());
        if (p.files[f3].st.empty()) continue;
        int i3 = r.Below(p.files[f3].st.size());
        Stmt& u = p.files[f3].st[i3];
        if (u.kind != DB && u.kind != DW && u.kind != DL && u.kind != EQU) continue;
        Expr e = Name(l.name, r.Coin());
        int k = r.Below(4);
        if (k == 0) { e.qualified = true; e.mod = p.files[f2].module; }
        if (k == 1) { e.qualified = true; e.mod = ""; }
        if (k == 2) { e.qualified = true; e.mod = "nomodule"; }
        if (Resolve(p, f3, i3, e).file >= 0) continue;
        if (u.args.empty()) continue;
        u.args[0] = e;
        *what = "unresolved";
        return true;
      }
      return false;
    }
  }
}

void NamesCase(Rng& r) {
  Gen g(r);
  Program p;
  Image im;
  if (!MakeProgram(r, 4, 5, g, &p, &im)) return;
  std::string what;
  if (r.Chance(2, 5)) {
    if (!RenameFault(r, p, &what)) return;
    for (auto& f : p.files) Render(f, r, false);
  }
  std::vector<int> order = InOrder(p);
  int tried = 0;
  do {
    ++tried;
    std::string head = what + " order";
    for (int i : order) head += Fmt(" %d", i);
    R().Describe(head + "\n" + ShowText(p));
    Outcome o;
    Assemble(p, order, false, &o);
    if (!what.empty()) {
      if (o.ok) { R().Violation("accepted:" + what, "assembles, though it has a wrong name: " + what); return; }
      ++R().Count("refused_" + what.substr(0, what.find(' ')));
      continue;
    }
    if (!o.ok) { R().Violation("rejected", "a correct program is refused in this order: " + o.error); return; }
    std::string d = Diff(im.bytes, o.sink.bytes, p);
    if (!d.empty()) { R().Violation("bytes", d); return; }
    ++R().Count("orders");
  } while (std::next_permutation(order.begin(), order.end()) && tried < 24);
  if (what.empty()) {
    CountFeatures(p);
    if (p.files.size() > 1) { ++R().Count("permuted"); R().Distinct(ShowText(p)); }
  }
  R().MaybeSample(ShowText(p));
}

// ---- C24 ----

void TargetsCase(Rng& r) {
  Gen g(r);
  Program p;
  Image im;
  if (!MakeProgram(r, 4, 8, g, &p, &im)) return;
  R().Describe(ShowText(p));
  // What is named, and in which states.
  struct Want { int known[3]; };
  std::map<uint32_t, std::set<int>> states;  // e*8+m*4+x*2 (+c)
  std::map<uint32_t, std::set<std::string>> conv;
  auto mode_states = [](const Mode3& f) {
    std::set<int> s;
    for (int e = 0; e < 2; ++e) for (int m = 0; m < 2; ++m) for (int x = 0; x < 2; ++x)
      if ((f.e == 2 || f.e == e) && (f.m == 2 || f.m == m) && (f.x == 2 || f.x == x) && !(e && !(m && x))) s.insert(e * 8 + m * 4 + x * 2);
    return s;
  };
  auto conv_text = [](const Stmt& s) { return s.conv == 2 ? std::string("noreturn") : "yields " + ModeText(s.yields); };
  for (size_t f = 0; f < p.files.size(); ++f)
    for (size_t i = 0; i < p.files[f].st.size(); ++i) {
      const Stmt& s = p.files[f].st[i];
      auto eval = [&](bool names) {
        return Eval(s.args[0], [&](const Expr& e) -> std::optional<int64_t> {
          Ref q = names ? Resolve(p, f, i, e) : Ref();
          return q.file < 0 ? std::nullopt : p.files[q.file].st[q.st].value;
        });
      };
      if (s.kind == INSN && (s.form == cpu::ABS || s.form == cpu::LNG) && (s.mn == "jmp" || s.mn == "jsr" || s.mn == "jsl")) {
        auto v = eval(false);
        if (!v) continue;
        uint32_t a = s.form == cpu::LNG ? uint32_t(*v) & 0xffffff : (s.addr & 0xff0000) | (uint32_t(*v) & 0xffff);
        for (int q : g.behaviour[f].at[i].emxc) states[a].insert(q & ~1);
        ++R().Count("literal_jumps");
      } else if (s.kind == REMOTE) {
        auto v = eval(true);
        uint32_t a = uint32_t(*v) & 0xffffff;
        for (int q : mode_states(s.mode)) states[a].insert(q);
        if (s.conv) conv[a].insert(conv_text(s));
        ++R().Count("remotes");
      } else if (s.kind == ENTRY && s.conv) {
        conv[s.addr].insert(conv_text(s));
      }
    }
  Outcome o;
  Assemble(p, InOrder(p), false, &o);
  if (!o.ok) { R().Violation("rejected", "a correct program is refused: " + o.error); return; }
  auto got = o.a->JumpTargets();
  for (auto& [a, s] : states) {
    bool inside = im.bytes.count(a);
    auto it = got.find(nsasm::Address(a));
    ++R().Count(inside ? "targets_inside" : "targets_outside");
    if (inside && it != got.end()) { R().Violation("inside", Fmt("$%06x is part of the program but reported as a target", a)); return; }
    if (inside) continue;
    if (it == got.end()) { R().Violation("missing", Fmt("the target $%06x is not reported", a)); return; }
    const nsasm::StatusFlags& fl = it->second;
    nsasm::BitState bits[3] = {fl.EBit(), fl.MBit(), fl.XBit()};
    for (int k = 0; k < 3; ++k) {
      int bit = 3 - k;
      bool z = false, one = false;
      for (int q : s) ((q >> bit) & 1 ? one : z) = true;
      int want = z && one ? 2 : one;
      int is = bits[k] == nsasm::B_on ? 1 : bits[k] == nsasm::B_off ? 0 : 2;
      ++R().Count(want == 2 ? "bits_unknown" : "bits_known");
      if (want != is) {
        R().Violation("state", Fmt("the target $%06x is reported with %s; the %c bit there is %s", a, nsx::FlagText(fl).c_str(), "emx"[k], want == 2 ? "not fixed" : want ? "1" : "0"));
        return;
      }
    }
  }
  for (auto& [a, fl] : got) {
    uint32_t n = (a.Bank() << 16) | a.BankAddress();
    if (!states.count(n)) { R().Violation("extra", Fmt("$%06x is reported, but nothing in the program names it", n)); return; }
  }
  auto rc = o.a->JumpTargetReturnConventions();
  for (auto& [a, w] : conv) {
    auto it = rc.find(nsasm::Address(a));
    if (it == rc.end()) { R().Violation("convention-missing", Fmt("the return convention of $%06x is not reported", a)); return; }
    std::string t = nsx::Lower(it->second.ToSuffixString());
    bool any = false;
    for (auto& s : w) any = any || " " + s == t;
    if (!any) { R().Violation("convention", Fmt("$%06x is reported as '%s'", a, t.c_str())); return; }
    ++R().Count("conventions_checked");
  }
  for (auto& [a, c] : rc) {
    uint32_t n = (a.Bank() << 16) | a.BankAddress();
    if (!conv.count(n)) { R().Violation("convention-extra", Fmt("$%06x has no return convention but %s is reported", n, c.ToSuffixString().c_str())); return; }
  }
  // Names of addresses.
  std::map<uint32_t, std::set<std::string>> by_addr;
  for (auto& f : p.files)
    if (!f.module.empty())
      for (auto& [n, i] : f.globals)
        if (f.st[i].value && f.st[i].kind != EQU) by_addr[uint32_t(*f.st[i].value)].insert(f.module + "::" + n);
  std::map<uint32_t, std::set<std::string>> equs;  // values may be named, and if they are, rightly
  for (auto& f : p.files)
    if (!f.module.empty())
      for (auto& [n, i] : f.globals)
        if (f.st[i].kind == EQU && *f.st[i].value >= 0 && *f.st[i].value <= 0xffffff) equs[uint32_t(*f.st[i].value)].insert(f.module + "::" + n);
  std::set<uint32_t> probe;
  for (auto& [a, v] : im.bytes) probe.insert(a);
  for (auto& [a, v] : by_addr) probe.insert(a);
  for (auto& [a, v] : equs) probe.insert(a);
  for (uint32_t a : probe) {
    auto n = o.a->NameForAddress(nsasm::Address(a));
    auto it = by_addr.find(a);
    auto eq = equs.find(a);
    if (n.has_value() && eq != equs.end() && eq->second.count(n->ToString())) { ++R().Count("values_named"); continue; }
    if (it == by_addr.end()) {
      if (n.has_value()) { R().Violation("name-extra", Fmt("$%06x is called %s, which is elsewhere", a, n->ToString().c_str())); return; }
      continue;
    }
    if (!n.has_value()) { R().Violation("name-missing", Fmt("$%06x is %s but has no name", a, it->second.begin()->c_str())); return; }
    if (!it->second.count(n->ToString())) { R().Violation("name", Fmt("$%06x is called %s, which is elsewhere", a, n->ToString().c_str())); return; }
    ++R().Count("names_checked");
  }
  ++R().Count("assembled");
  R().Distinct(ShowText(p));
  R().MaybeSample(ShowText(p));
}

}  // namespace

int main(int argc, char** argv) {
  R().Init(argc, argv);
  const std::string& p = R().o.prop;
  auto run = [&](void (*f)(Rng&)) { R().Cases(R().o.cases, [&](uint64_t, Rng& r) { f(r); }); };
  if (p == "C16") run(BytesCase);
  else if (p == "C17") run(FootprintCase);
  else if (p == "C18") run(NamesCase);
  else if (p == "C24") run(TargetsCase);
  else return 64;
  return R().Finish();
}
