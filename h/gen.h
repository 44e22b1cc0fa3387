// Generates programs of the model: well formed by construction, or wild.
#pragma once
#include "h/prog.h"

namespace prog {

struct Interval { uint32_t bank; uint32_t from, to; };  // [from, to) inside a bank; to may exceed 64 KiB (wraps)

class Gen {
 public:
  explicit Gen(Rng& r) : r(r) {}
  // A program that must assemble.  False: this attempt did not work out.
  bool WellFormed(Program* out, int max_files, int size) {
    p = Program();
    int n = 1 + r.Below(max_files);
    for (int i = 0; i < n; ++i) {
      Source f;
      f.path = Fmt("%s%d.asm", r.Coin() ? "dir/f" : "f", i);
      p.files.push_back(f);
      cur = i;
      File(size);
    }
    if (!Finish()) return false;
    *out = p;
    return true;
  }
  // Labels, names, widths, places.  False if it cannot be completed.
  bool Finish(bool wild = false) {
    for (auto& f : p.files) if (!BindFile(f)) return false;
    NameThings();
    for (auto& f : p.files) if (!BindFile(f)) return false;
    return Measure(wild) && Place() && EvaluateEqus(p);
  }
  bool Measure(bool wild) {
    behaviour.clear();
    for (size_t i = 0; i < p.files.size(); ++i) {
      Behaviour b = Explorer(p, i, false).Run();
      if (!wild && !b.complete) return false;
      if (!wild && (b.off_end >= 0 || b.into_data >= 0)) {
        fprintf(stderr, "generator: execution leaves the code\n");
        exit(64);
      }
      Source& f = p.files[i];
      bool ok = true;
      SizeFile(f, [&](int st) {
        bool isx = f.st[st].form == cpu::IMMX;
        int k = b.at[st].known(isx ? 1 : 2);
        if (b.at[st].emxc.empty() || k == 2) ok = false;
        return k == 0 ? 2 : 1;
      });
      if (!ok && !wild) return false;
      behaviour.push_back(std::move(b));
    }
    return true;
  }
  Program p;
  std::vector<Behaviour> behaviour;

  // -- emitting --
  Rng& r;
  int cur = 0;
  std::vector<Stmt>& st() { return p.files[cur].st; }
  Mode3 now;
  bool has_k = false;  // kk and kx are names of masks
  bool anchored = false;
  int Emit(Stmt s) {
    if (anchored && s.kind == EQU) st().push_back(Insn("nop"));
    anchored = false;
    st().push_back(std::move(s));
    return int(st().size()) - 1;
  }
  int Next() { anchored = true; return int(st().size()); }

  Mode3 RandomMode() {
    Mode3 m;
    int k = r.Below(12);
    if (k == 0) return m;
    if (k == 1) { m.e = m.m = m.x = 1; return m; }
    m.e = 0;
    if (k == 2) return m;
    m.m = k == 3 ? 2 : r.Below(2);
    m.x = k == 4 ? 2 : r.Below(2);
    return m;
  }
  static bool Same(const Mode3& a, const Mode3& b) { return a.e == b.e && a.m == b.m && a.x == b.x; }

  // -- operands --
  Expr Literal(int rank) {
    static const int64_t edge[] = {0, 1, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffff, 0x800000, 0xffffff};
    int64_t max = rank == 1 ? 0xff : rank == 2 ? 0xffff : 0xffffff;
    int64_t v = r.Chance(1, 3) ? edge[r.Below(13)] & max : int64_t(r.Below(max + 1));
    if (rank == 0) { if (r.Chance(1, 3)) v = r.Below(256); return Num(v, 0); }
    Expr e = Num(v, rank);
    int digits = rank * 2;
    if (r.Chance(1, 6)) {  // fewer digits, if they still make this size
      if (rank > 1 && v < (int64_t(1) << (8 * rank - 4))) e.text = Fmt("$%0*llx", digits - 1, (long long)v);
    } else if (r.Chance(1, 8)) {  // binary
      std::string d;
      for (int i = rank * 8 - 1; i >= 0; --i) d += (v >> i) & 1 ? '1' : '0';
      e.text = "%" + d;
    } else if (r.Chance(1, 8)) {
      e.text = "0x" + e.text.substr(1);
    }
    if (e.text[0] == '$' && r.Chance(1, 3)) for (char& c : e.text) c = toupper(c);
    return e;
  }
  Expr Placeholder(bool wide) { return Name("?", wide); }
  Expr Bin(Expr::Kind k, Expr a, Expr b) {
    Expr e;
    e.kind = k;
    e.sub = {std::move(a), std::move(b)};
    return e;
  }
  Expr Un(Expr::Kind k, Expr a) {
    Expr e;
    e.kind = k;
    e.sub = {std::move(a)};
    return e;
  }
  // An expression of the given size (0: no size of its own).
  Expr Sized(int rank, bool names = true, int depth = 2) {
    int k = depth <= 0 ? 0 : r.Below(10);
    if (k < 5) {
      if (names && rank >= 2 && r.Chance(2, 5)) return Placeholder(rank == 3);
      return Literal(rank);
    }
    if (k < 8) {
      static const Expr::Kind ops[] = {Expr::ADD, Expr::SUB, Expr::MUL, Expr::DIV};
      Expr::Kind o = ops[r.Chance(2, 3) ? r.Below(2) : r.Below(4)];
      int other = r.Range(0, rank);
      Expr a = Sized(rank, names, depth - 1), b = Sized(other, names, depth - 1);
      if (o == Expr::DIV) { b = Literal(other); if (b.value == 0) b = Num(1 + r.Below(9), other); return Bin(o, a, b); }
      return r.Coin() ? Bin(o, a, b) : Bin(o, b, a);
    }
    if (k == 8 && rank == 1) {
      static const Expr::Kind ops[] = {Expr::LO, Expr::HI, Expr::BANK};
      return Un(ops[r.Below(3)], Sized(r.Range(0, 3), names, depth - 1));
    }
    if (k == 9) return Un(Expr::NEG, Sized(rank, names, depth - 1));
    return Literal(rank);
  }
  // A byte, or a plain number that fits one.
  Expr ByteArg(bool names = true) {
    if (r.Chance(1, 5)) return Num(r.Chance(1, 4) ? 255 : r.Below(256), 0);
    if (r.Chance(1, 12)) return Un(Expr::NEG, Num(r.Chance(1, 4) ? 128 : 1 + r.Below(128), 0));
    return Sized(1, names);
  }
  std::vector<Expr> Operands(cpu::Mode m) {
    switch (m) {
      case cpu::IMP: case cpu::ACC: return {};
      case cpu::IMM8: case cpu::SR: case cpu::ISY: return {ByteArg()};
      case cpu::IMM16:
        if (r.Chance(1, 6)) return {Un(Expr::NEG, Num(r.Chance(1, 4) ? 32768 : 1 + r.Below(32768), 0))};
        return {r.Chance(1, 5) ? Num(r.Chance(1, 4) ? 65535 : r.Below(65536), 0) : Sized(2)};
      case cpu::IMMM: case cpu::IMMX: return {Sized(r.Below(4))};
      case cpu::MOV: return {ByteArg(), ByteArg()};
      case cpu::LNG: case cpu::LNGX: return {Sized(3)};
      case cpu::ABS: case cpu::ABSX: case cpu::ABSY: case cpu::IA: case cpu::IAX: case cpu::LA: return {Sized(2)};
      default: return {Sized(1)};
    }
  }
  static bool Special(const std::string& mn) {
    static const std::set<std::string> s = {"rep", "sep", "xce", "php", "plp", "pha", "pla", "phx", "plx", "phy", "ply",
                                            "phb", "plb", "phd", "pld", "phk", "pea", "pei", "per", "txs", "tcs", "brk",
                                            "cop", "jsr", "jsl", "jmp", "rts", "rtl", "rti", "stp"};
    return s.count(mn) || cpu::IsBranch(mn);
  }
  void MaybeSuffix(Stmt& s) {
    char w = cpu::WidthOf(s.mn);
    if (!w || !r.Chance(1, 4)) return;
    int k = w == 'm' ? now.m : now.x;
    s.suffix = k == 2 ? (r.Coin() ? 'b' : 'w') : k ? 'b' : 'w';
  }
  void Plain() {
    for (;;) {
      const cpu::Op& o = cpu::kOps[r.Below(256)];
      Stmt s = Insn(o.mn, o.mode);
      if (Special(s.mn)) continue;
      if (o.mode == cpu::IMMM && now.m == 2) continue;
      if (o.mode == cpu::IMMX && now.x == 2) continue;
      if (s.mn == "adc" && r.Coin()) s.mn = "add";
      if (s.mn == "sbc" && r.Coin()) s.mn = "sub";
      s.args = Operands(o.mode);
      MaybeSuffix(s);
      Emit(s);
      return;
    }
  }
  void Width(bool sep, int bits) {
    Stmt s = Insn(sep ? "sep" : "rep", cpu::IMM8);
    Expr e = Num(bits, 1);
    if (r.Chance(1, 5)) e = Num(bits, 0);
    if (r.Chance(1, 6)) e = Bin(Expr::ADD, Num(bits & 0x20, 1), Num(bits & ~0x20, 1));
    s.args = {e};
    Emit(s);
    for (int b : {0x20, 0x10}) {
      if (!(bits & b)) continue;
      int& f = b == 0x20 ? now.m : now.x;
      if (sep) f = 1;
      else if (now.e == 0) f = 0;
      else if (now.e == 2) f = 2;
    }
  }
  void ChangeWidth() { Width(r.Coin(), r.Pick({0x20, 0x10, 0x30, 0x30, 0x00, 0xff, 0x21, 0x11}) | (r.Chance(1, 4) ? r.Below(16) : 0)); }
  void SwitchE() {
    bool on = r.Coin();
    Emit(Insn(on ? "sec" : "clc"));
    Emit(Insn("xce"));
    if (on || now.e == 1) now.m = now.x = 1;
    now.e = on;
  }
  // Which changes a block may make.
  struct May { bool widths = true, e = true; };

  // A block after which the state is as before.
  void Preserving(int n, int depth, May may) {
    Mode3 before = now;
    int style = r.Below(3);
    if (style == 0) {
      Emit(Insn("php"));
      Block(n, depth, {true, false});
      Emit(Insn("plp"));
      now = before;
    } else if (style == 1 && may.widths && before.e == 0 && before.m != 2 && before.x != 2) {
      Block(n, depth, {true, false});
      if (now.m != before.m) Width(before.m, 0x20);
      if (now.x != before.x) Width(before.x, 0x10);
      now = before;
    } else {
      Block(n, depth, {false, false});
      now = before;
    }
  }
  void StackPair(int depth) {
    struct P { const char* mn; int bytes; };  // bytes: 0 by m, -1 by x
    static const P push[] = {{"pha", 0}, {"phx", -1}, {"phy", -1}, {"phb", 1}, {"phk", 1}, {"phd", 2}, {"pea", 2}, {"pei", 2}, {"per", 2}};
    static const P pull[] = {{"pla", 0}, {"plx", -1}, {"ply", -1}, {"plb", 1}, {"pld", 2}};
    auto bytes = [&](const P& q) { return q.bytes > 0 ? q.bytes : q.bytes == 0 ? (now.m == 2 ? 0 : 2 - now.m) : (now.x == 2 ? 0 : 2 - now.x); };
    const P& a = push[r.Below(9)];
    int n = bytes(a);
    if (!n) return;
    Stmt s = Insn(a.mn);
    if (s.mn == "pea") { s.form = cpu::IMM16; s.args = {r.Coin() ? Literal(2) : Sized(2)}; }
    if (s.mn == "pei") { s.form = cpu::D; s.args = {Sized(1)}; }
    if (s.mn == "per") { s.form = cpu::REL16; s.args = {Placeholder(false)}; s.target = Next(); }
    MaybeSuffix(s);
    Emit(s);
    if (depth > 0 && r.Coin()) Preserving(1 + r.Below(3), depth - 1, {true, false});
    for (int t = 0; t < 40; ++t) {
      const P& b = pull[r.Below(5)];
      if (bytes(b) != n) continue;
      Stmt q = Insn(b.mn);
      MaybeSuffix(q);
      Emit(q);
      return;
    }
    // There is always plb or pld.
    Emit(Insn(n == 1 ? "plb" : "pld"));
  }
  std::string Cond() { return r.Pick({"bcc", "bcs", "beq", "bne", "bpl", "bmi", "bvc", "bvs"}); }
  Stmt BranchTo(const std::string& mn, int target) {
    Stmt s = Insn(mn, mn == "brl" ? cpu::REL16 : cpu::REL8, {Placeholder(false)});
    s.target = target;
    return s;
  }
  void If(int depth, May may) {
    int b = Emit(BranchTo(Cond(), -1));
    Preserving(1 + r.Below(3), depth - 1, may);
    if (r.Chance(1, 3)) {
      int over = Emit(BranchTo(r.Coin() ? "bra" : "brl", -1));
      st()[b].target = Next();
      Preserving(1 + r.Below(3), depth - 1, may);
      st()[over].target = Next();
    } else {
      st()[b].target = Next();
    }
  }
  void Loop(int depth, May may) {
    int start = Next();
    Preserving(1 + r.Below(3), depth - 1, may);
    Emit(BranchTo(Cond(), start));
  }
  void MakeCall(bool noreturn, May may) {
    int k = r.Below(8);
    Stmt s;
    if (k < 3) s = Insn("jsr", cpu::ABS, {Sized(2)});
    else if (k < 6) s = Insn("jsl", cpu::LNG, {Sized(3)});
    else if (k == 6) s = Insn("jsr", cpu::IAX, {Sized(2)});
    else { s = Insn(r.Coin() ? "brk" : "cop", cpu::IMM8, {ByteArg()}); if (noreturn) s = Insn("jsr", cpu::ABS, {Sized(2)}); }
    bool call = s.mn == "jsr" || s.mn == "jsl";
    s.fix_target = s.form == cpu::ABS || s.form == cpu::LNG;
    if (noreturn) s.conv = 2;
    else if (call && r.Chance(1, 3)) {
      Mode3 m = RandomMode();
      if ((may.e || m.e == now.e) && (may.widths || Same(m, now))) {
        s.conv = 1;
        s.yields = m;
      }
    }
    Emit(s);
    if (s.conv == 1) now = s.yields;
  }
  void EquHere() {
    Stmt s = Dir(EQU, {Sized(r.Below(4))});
    s.labels.push_back({PoolName(), r.Chance(1, 4)});
    Emit(s);
  }
  // A local name that a qualified reference has to look past: to the module's,
  // here or in another file of the same module.
  void Shadow() {
    std::string n = PoolName();
    auto equ = [&](const std::string& name, Expr e) { Stmt s = Dir(EQU, {std::move(e)}); s.labels.push_back({name, false}); Emit(s); };
    if (r.Coin()) equ(n, Sized(r.Below(4)));
    Emit(Dir(BEGIN));
    int shape = r.Below(3);
    if (shape != 1) equ(n, Sized(r.Below(4)));
    if (shape == 2) Emit(Dir(BEGIN));
    Expr look = Name("?", r.Coin());
    look.mod = n;  // to be named so if it can be
    equ(FreshName(), look);
    if (shape == 1) equ(n, Sized(r.Below(4)));
    if (shape == 2) Emit(Dir(END));
    Emit(Dir(END));
    if (r.Below(3) == 0) equ(n, Sized(r.Below(4)));
    wanted.push_back({n, p.files[cur].module});
  }
  std::vector<std::pair<std::string, std::string>> wanted;
  void Data() {
    Stmt s = Dir(r.Pick({DB, DB, DW, DL}));
    for (int n = 1 + r.Below(r.Chance(1, 10) ? 20 : 4); n > 0; --n) s.args.push_back(Sized(r.Below(4)));
    if (r.Chance(1, 400)) for (int n = 400 + r.Below(400); n > 0; --n) s.args.push_back(Un(Expr::NEG, Num(1 + r.Below(100), 0)));
    Emit(s);
  }
  void Remote() {
    Stmt s = Dir(REMOTE, {r.Chance(2, 3) ? Literal(3) : r.Coin() ? Literal(2) : Placeholder(r.Coin())});
    s.mode = RandomMode();
    s.fix_target = true;
    s.conv = r.Below(3);
    if (s.conv == 1) s.yields = RandomMode();
    Emit(s);
  }
  void Block(int n, int depth, May may) {
    for (int i = 0; i < n; ++i) {
      switch (r.Below(20)) {
        case 0: case 1: if (may.widths) ChangeWidth(); else Plain(); break;
        case 2: if (may.e && r.Chance(1, 2)) SwitchE(); else Plain(); break;
        case 3: StackPair(depth); break;
        case 4: if (depth > 0) Preserving(1 + r.Below(3), depth - 1, may); break;
        case 5: if (depth > 0) If(depth, may); break;
        case 6: if (depth > 0) Loop(depth, may); break;
        case 7: case 8: MakeCall(false, may); break;
        case 9:
          if (may.e && may.widths && r.Chance(1, 3)) { Stmt s = Dir(MODE); s.mode = now = RandomMode(); Emit(s); }
          break;
        case 10:
          if (depth > 0) { Emit(Dir(BEGIN)); Block(1 + r.Below(4), depth - 1, may); Emit(Dir(END)); }
          break;
        case 11:
          if (r.Coin()) {
            int b = Emit(BranchTo(r.Coin() ? "bra" : "brl", -1));
            Data();
            st()[b].target = Next();
          } else {
            EquHere();
          }
          break;
        case 12: if (r.Chance(1, 2)) Remote(); break;
        default: Plain();
      }
    }
  }
  void Routine(int size) {
    if (r.Chance(1, 4)) { Emit(Dir(BEGIN)); Routine(size); Emit(Dir(END)); return; }
    Stmt e = Dir(ENTRY);
    e.mode = now = RandomMode();
    e.conv = r.Chance(2, 3) ? 0 : 1 + r.Below(2);
    if (e.conv == 1) e.yields = RandomMode();
    Mode3 first = now;
    int start = Emit(e) + 1;
    anchored = true;
    Block(2 + r.Below(size), 3, {});
    int k = r.Below(9);
    if (k == 0 && Same(first, now)) Emit(BranchTo(r.Coin() ? "brl" : "bra", start));
    else if (k == 1) { Stmt s = Insn("jmp", cpu::ABS, {Sized(2)}); s.fix_target = true; Emit(s); }
    else if (k == 2) { Stmt s = Insn("jmp", cpu::LNG, {Sized(3)}); s.fix_target = true; Emit(s); }
    else if (k == 3) { cpu::Mode f = r.Pick({cpu::IA, cpu::IAX, cpu::LA}); Emit(Insn("jmp", f, {Sized(2)})); }
    else if (k == 4) MakeCall(true, {});
    else if (k == 5) Emit(Dir(HALT));
    else if (k == 6) Emit(Insn(r.Pick({"rti", "stp"})));
    else Emit(Insn(r.Pick({"rts", "rtl"})));
  }
  void File(int size) {
    static const char* mods[] = {"", "", "one", "two", "three", "m8x8", "Lda2"};
    std::string mod = mods[r.Below(7)];
    if (cur > 0 && r.Chance(1, 4)) mod = p.files[r.Below(cur)].module;
    p.files[cur].module = mod;
    auto module_here = [&] { if (!mod.empty()) { Stmt s = Dir(MODULE); s.raw = mod; Emit(s); mod.clear(); } };
    if (r.Coin()) module_here();
    if (r.Chance(1, 3)) EquHere();
    for (auto& w : wanted)
      if (w.second == p.files[cur].module && r.Coin()) {
        Stmt s = Dir(EQU, {Sized(r.Below(4))});
        s.labels.push_back({w.first, false});
        Emit(s);
      }
    if (r.Chance(1, 4)) Shadow();
    for (int regions = 1 + r.Below(3); regions > 0; --regions) {
      Emit(Dir(ORG, {Num(0, 3)}));
      for (int n = 1 + r.Below(3); n > 0; --n) {
        switch (r.Below(6)) {
          case 0: Data(); break;
          case 1: if (r.Coin()) Remote(); else EquHere(); break;
          case 2: if (r.Chance(1, 3)) module_here(); break;
          default: Routine(size);
        }
      }
      if (r.Chance(1, 6)) Emit(Dir(HALT));
    }
    if (r.Chance(1, 4)) Shadow();
    module_here();
    if (r.Chance(1, 5)) {  // labels after everything
      Stmt s = Dir(DB);
      s.labels.push_back({PoolName(), r.Chance(1, 4)});
      Emit(s);
    }
  }

  // -- names --
  std::string PoolName() {
    static const char* pool[] = {"a1", "b", "loop", "done", "Data", "_x", "one", "xx", "lda_", "next", "m8x8", "unk", "i", "Loop"};
    return pool[r.Below(14)];
  }
  int fresh = 0;
  std::string FreshName() { return Fmt("L%d", ++fresh); }

  void NameThings() {
    // Labels, each name once per scope, globals once per module name.
    std::map<std::string, std::set<std::string>> taken;
    for (auto& f : p.files) {
      std::map<int, std::set<std::string>> local;
      bool pc = false;
      for (size_t i = 0; i < f.st.size(); ++i) {
        Stmt& s = f.st[i];
        if (s.kind == ORG) pc = true;
        if (s.kind != RAW && r.Chance(s.kind == ENTRY ? 70 : 22, 100)) s.labels.push_back({PoolName(), r.Chance(1, 5)});
        if (r.Chance(1, 25)) s.labels.push_back({PoolName(), r.Chance(1, 5)});
        if (!pc && s.kind != EQU) s.labels.clear();
        std::vector<Label> keep;
        for (auto& l : s.labels) {
          bool global = s.scopes.empty() || l.exported;
          auto& t = global ? taken[f.module] : local[s.scopes.back()];
          if (!t.insert(l.name).second) {
            if (s.kind != EQU && r.Coin()) continue;
            l.name = FreshName();
            t.insert(l.name);
          }
          keep.push_back(l);
        }
        s.labels = keep;
      }
    }
    for (auto& f : p.files) BindFile(f);
    // Branches.
    for (size_t fi = 0; fi < p.files.size(); ++fi) {
      Source& f = p.files[fi];
      for (size_t i = 0; i < f.st.size(); ++i) {
        Stmt& s = f.st[i];
        if (s.kind != INSN || s.target < 0) continue;
        Stmt& t = f.st[s.target];
        std::string name;
        for (auto& l : t.labels) {
          Ref q = FindLocal(p, fi, s.scopes, l.name);
          if (q.file >= 0 && q.st == s.target) name = l.name;
        }
        if (name.empty()) {
          name = FreshName();
          bool visible = t.scopes.empty() || (t.scopes.size() <= s.scopes.size() && std::equal(t.scopes.begin(), t.scopes.end(), s.scopes.begin()));
          t.labels.push_back({name, !visible});
          if (!visible || t.scopes.empty()) f.globals[name] = s.target;
          else f.locals[t.scopes.back()][name] = s.target;
        }
        s.args = {Name(name)};
      }
    }
    // Other names.
    std::vector<int> rank(p.files.size());
    for (size_t i = 0; i < rank.size(); ++i) rank[i] = i;
    for (size_t i = rank.size(); i > 1; --i) std::swap(rank[i - 1], rank[r.Below(i)]);
    std::vector<std::pair<int, Label>> all;
    for (size_t fi = 0; fi < p.files.size(); ++fi)
      for (auto& s : p.files[fi].st) for (auto& l : s.labels) all.push_back({int(fi), l});
    for (size_t fi = 0; fi < p.files.size(); ++fi)
      for (size_t i = 0; i < p.files[fi].st.size(); ++i)
        for (auto& a : p.files[fi].st[i].args) Fill(a, fi, i, all, rank);
  }
  void Fill(Expr& e, int fi, int i, const std::vector<std::pair<int, Label>>& all, const std::vector<int>& rank) {
    for (auto& s : e.sub) Fill(s, fi, i, all, rank);
    if (e.kind != Expr::NAME || e.name != "?") return;
    for (int t = 0; t < 8 && !all.empty(); ++t) {
      auto& [lf, l] = all[r.Below(all.size())];
      Expr n = Name(l.name, e.wide);
      int k = r.Below(4);
      if (!e.mod.empty() && t < 3) {
        n.name = e.mod;
        n.qualified = true;
        n.mod = p.files[fi].module;
        k = 3;
      }
      if (k == 0) { n.qualified = true; n.mod = p.files[lf].module; }
      if (k == 1 && r.Coin()) { n.qualified = true; n.mod = ""; }
      Ref q = Resolve(p, fi, i, n);
      if (q.file < 0) continue;
      if (p.files[fi].st[i].kind == EQU) {
        if (q.file == fi && p.files[fi].st[q.st].kind == EQU && q.st >= i) continue;
        if (q.file != fi && rank[q.file] >= rank[fi]) continue;
      }
      // A declared address must be one.
      if (p.files[fi].st[i].kind == REMOTE && p.files[q.file].st[q.st].kind == EQU) continue;
      e = n;
      return;
    }
    e = Literal(e.wide ? 3 : 2);
  }

  // -- places --
  std::vector<Interval> used;
  std::function<bool(uint32_t bank, uint32_t from, uint32_t size)> fits;  // where regions may go, if not anywhere
  std::vector<uint32_t> only_banks;
  bool Free(uint32_t bank, uint32_t from, uint32_t size) {
    for (auto& u : used) {
      if (u.bank != bank) continue;
      for (int a : {0, 0x10000}) for (int b : {0, 0x10000})
        if (from + a < u.to + b && u.from + b < from + a + size) return false;
    }
    return true;
  }
  bool Place() {
    used.clear();
    uint32_t banks[3] = {uint32_t(r.Below(256)), uint32_t(r.Below(256)), uint32_t(r.Pick({0, 1, 0x7e, 0x80, 0xff}))};
    if (!only_banks.empty()) for (uint32_t& b : banks) b = only_banks[r.Below(only_banks.size())];
    struct Region { int file, st; uint32_t size; };
    std::vector<Region> regions;
    for (size_t f = 0; f < p.files.size(); ++f)
      for (size_t i = 0; i < p.files[f].st.size(); ++i) {
        if (p.files[f].st[i].kind == ORG) regions.push_back({int(f), int(i), 0});
        else if (p.files[f].st[i].size) { if (regions.empty() || regions.back().file != int(f)) return false; regions.back().size += p.files[f].st[i].size; }
      }
    for (size_t i = regions.size(); i > 1; --i) std::swap(regions[i - 1], regions[r.Below(i)]);
    for (auto& g : regions) {
      bool done = false;
      for (int t = 0; t < 60 && !done; ++t) {
        uint32_t bank = banks[r.Below(3)], from;
        int k = r.Below(8);
        if (k < 4 && !used.empty()) {  // next to another
          auto& u = used[r.Below(used.size())];
          bank = u.bank;
          int gap = r.Chance(3, 4) ? 0 : r.Below(4);
          from = r.Coin() ? (u.to + gap) & 0xffff : (u.from - g.size - gap) & 0xffff;
        } else if (k == 4) {
          from = (0x10000 - r.Below(g.size + 2)) & 0xffff;  // at or across the end of a bank
        } else if (k == 5) {
          from = 0;
        } else {
          from = r.Below(0x10000);
        }
        if (fits && !fits(bank, from, g.size)) continue;
        if (g.size >= 0x10000 || !Free(bank, from, g.size)) continue;
        if (g.size) used.push_back({bank, from, from + g.size});
        Expr e = Num((bank << 16) | from, 3);
        if (r.Chance(1, 4)) e = Num((bank << 16) | from, 0);
        if (r.Chance(1, 6)) e = Bin(Expr::ADD, Num(bank << 16, 3), Num(from, r.Coin() ? 2 : 0));
        p.files[g.file].st[g.st].args = {e};
        done = true;
      }
      if (!done) return false;
    }
    for (auto& f : p.files) PlaceFile(f);
    // Some jumps go to places in the program.
    std::vector<uint32_t> places;
    for (auto& u : used) for (uint32_t a : {u.from, u.from + 1, u.to - 1, u.to, u.from - 1}) places.push_back((u.bank << 16) | (a & 0xffff));
    for (auto& f : p.files)
      for (auto& s : f.st)
        if (s.fix_target && s.args[0].kind == Expr::NUM && !places.empty() && r.Coin()) {
          uint32_t a = places[r.Below(places.size())];
          if (s.args[0].rank == 3) s.args[0] = Num(a, 3);
          else if (s.args[0].rank == 2 && s.kind == INSN) s.args[0] = Num(a & 0xffff, 2);
        }
    return true;
  }
};

// All text of a program, for reports.
inline std::string ShowText(const Program& p) {
  std::string s;
  for (auto& f : p.files) s += "==== " + f.path + "\n" + f.text + "\n";
  return s;
}

}  // namespace prog
