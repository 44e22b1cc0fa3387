// Programs of arbitrary flow, with no plan.
#pragma once
#include "h/gen.h"

namespace prog {
namespace {

// Inserts a statement, keeping branches on what they meant.
void Insert(Source& f, int at, Stmt s) {
  for (auto& t : f.st) if (t.target >= at) ++t.target;
  if (s.target >= at) ++s.target;
  f.st.insert(f.st.begin() + at, std::move(s));
}
void Erase(Source& f, int at) {
  f.st.erase(f.st.begin() + at);
  for (auto& t : f.st) if (t.target > at || t.target == int(f.st.size())) --t.target;
}

bool Probe(const Stmt& s) { return WidthBound(s); }
Stmt MakeProbe(Rng& r) {
  std::string mn = r.Pick({"lda", "ldx", "ldy", "lda", "ldx", "cmp", "cpx", "and", "adc", "add", "bit"});
  cpu::Mode m = cpu::WidthOf(mn) == 'x' ? cpu::IMMX : cpu::IMMM;
  return Insn(mn, m, {Num(r.Below(256), r.Below(2))});
}
Expr Bits(Rng& r, Gen& g) {
  int bits = r.Pick({0x20, 0x10, 0x30, 0x30, 0x20, 0x10, 0x01, 0x31, 0x00, 0xff, 0x21, 0x11, 0xcf});
  if (g.has_k && r.Chance(1, 4)) {
    std::string n = r.Coin() ? "kk" : "kx";
    return g.Un(Expr::LO, Name(n));
  }
  return Num(bits, r.Chance(1, 6) ? 0 : 1);
}
Mode3 FlowMode(Rng& r, Gen& g) { return r.Chance(1, 3) ? g.RandomMode() : [&] { Mode3 m; m.e = 0; m.m = r.Below(3); m.x = r.Below(3); return m; }(); }

// Names of masks whose values the flow analysis does not look up: one of this
// file and one of another.
void MaskNames(Rng& r, Gen& g) {
  Stmt s = Dir(EQU, {Num(r.Pick({0x20, 0x10, 0x30, 0, 0x01, 0x21, 0xff}), 1)});
  s.labels.push_back({"kk", false});
  g.p.files[0].st.push_back(s);
  Source x;
  x.path = "x.asm";
  Stmt t = Dir(EQU, {Num(r.Pick({0x20, 0x10, 0x30, 0x01, 0x11, 0x31}), 1)});
  t.labels.push_back({"kx", false});
  x.st.push_back(t);
  g.p.files.push_back(x);
}

Stmt Flowy(Rng& r, Gen& g, int size) {
  switch (r.Below(32)) {
    case 0: case 1: case 2: case 3: case 4: return Insn("rep", cpu::IMM8, {Bits(r, g)});
    case 5: case 6: case 7: case 8: return Insn("sep", cpu::IMM8, {Bits(r, g)});
    case 9: return Insn(r.Pick({"clc", "sec"}));
    case 10: return Insn("xce");
    case 11: case 12: return Insn("php");
    case 13: case 14: return Insn("plp");
    case 15: case 16: return Insn(r.Pick({"pha", "phx", "phy", "pha", "phx"}));
    case 17: case 18: return Insn(r.Pick({"pla", "plx", "ply", "pla", "plx"}));
    case 19: {
      std::string mn = r.Pick({"phb", "phk", "plb", "phd", "pld", "plb"});
      return Insn(mn);
    }
    case 20: {
      if (r.Coin()) return Insn("pei", cpu::D, {Num(r.Below(256), 1)});
      return Insn("pea", cpu::IMM16, {Num(r.Below(65536), 2)});
    }
    case 21: return Insn(r.Pick({"tcs", "txs", "tsc", "tsx"}));
    case 22: case 23: case 24: {
      std::string mn = r.Pick({"bcc", "bcs", "beq", "bne", "bcc", "bcs", "bmi", "bvs", "bra", "brl"});
      return g.BranchTo(mn, 1 + r.Below(size));
    }
    case 25: {
      Stmt s = r.Coin() ? Insn("jsr", cpu::ABS, {Num(r.Below(65536), 2)}) : Insn("jsl", cpu::LNG, {Num(r.Below(0x1000000), 3)});
      if (r.Chance(2, 3)) { s.conv = 1; s.yields = FlowMode(r, g); }
      return s;
    }
    case 26: {
      if (r.Coin()) { Stmt s = Dir(MODE); s.mode = FlowMode(r, g); return s; }
      return Insn(r.Pick({"brk", "cop"}), cpu::IMM8, {Num(r.Below(256), 1)});
    }
    case 27: { Stmt s = Dir(ENTRY); s.mode = FlowMode(r, g); return s; }
    case 28: return Insn(r.Pick({"inx", "dex", "iny", "dey", "nop", "tax", "txa", "tay", "tya", "tdc", "xba", "txy", "tyx"}));
    case 29: { std::string mn = r.Pick({"inc", "dec", "asl", "lsr", "rol", "ror"}); return Insn(mn, cpu::ACC); }
    case 30: return r.Chance(1, 4) ? Insn(r.Coin() ? "mvn" : "mvp", cpu::MOV, {Num(r.Below(256), 1), Num(r.Below(256), 1)}) : MakeProbe(r);
    default: {
      std::string mn = r.Pick({"cmp", "adc", "sbc", "lda", "ora", "cpx", "ldx", "add", "sub", "sta", "stz", "inc"});
      return Insn(mn, r.Coin() ? cpu::D : cpu::ABS, {Num(0, 0)});
    }
  }
}

void FixSizes(Rng& r, Source& f) {
  for (auto& s : f.st)
    if (s.kind == INSN && (s.form == cpu::D || s.form == cpu::ABS) && !s.args.empty() && s.args[0].kind == Expr::NUM && s.args[0].rank == 0)
      s.args[0] = Num(r.Below(s.form == cpu::D ? 256 : 65536), s.form == cpu::D ? 1 : 2);
}

// A program of flow statements, with no plan.
void Random(Rng& r, Gen& g, int size) {
  Source& f0 = g.p.files[0];
  f0.st.push_back(Dir(ORG, {Num(0, 3)}));
  int base = f0.st.size();
  Stmt e = Dir(ENTRY);
  e.mode = FlowMode(r, g);
  f0.st.push_back(e);
  int n = 2 + r.Below(size);
  for (int i = 0; i < n; ++i) {
    Stmt s = Flowy(r, g, n);
    if (s.target >= 0) s.target = base + s.target;
    f0.st.push_back(s);
  }
  f0.st.push_back(Insn(r.Pick({"rts", "rtl", "rti", "stp"})));
  for (auto& s : f0.st) if (s.target >= int(f0.st.size())) s.target = f0.st.size() - 1;
  FixSizes(r, f0);
}

// Pushes and pulls that match, mostly, with changes of state between them.
struct Palette { std::vector<int> pairs, ops; };  // few kinds at a time, so that they meet
void Nested(Rng& r, Gen& g, std::vector<Stmt>& st, int depth, const Palette& pal) {
  for (int n = 1 + r.Below(3); n > 0; --n) {
    if (depth > 0 && r.Chance(3, 5)) {
      static const char* pairs[][2] = {{"php", "plp"}, {"php", "plp"}, {"php", "plp"}, {"pha", "pla"}, {"phx", "plx"}, {"phy", "ply"},
                                       {"phx", "ply"}, {"phb", "plb"}, {"phk", "plb"}, {"phd", "pld"}};
      auto& q = pairs[r.Pick(pal.pairs)];
      st.push_back(Insn(q[0]));
      Nested(r, g, st, depth - 1, pal);
      if (!r.Chance(1, 12)) st.push_back(Insn(q[1]));
      continue;
    }
    switch (r.Pick(pal.ops)) {
      case 0: case 1: st.push_back(Insn("rep", cpu::IMM8, {Bits(r, g)})); break;
      case 2: case 3: st.push_back(Insn("sep", cpu::IMM8, {Bits(r, g)})); break;
      case 4: st.push_back(Insn("xce")); break;
      case 5: case 6: st.push_back(Insn(r.Pick({"clc", "sec"}))); st.push_back(Insn("xce")); break;
      case 7: st.push_back(Insn(r.Pick({"clc", "sec"}))); break;
      case 8: { Stmt s = g.BranchTo(r.Pick({"bcc", "bcs", "beq"}), int(st.size()) + 2); st.push_back(s); st.push_back(Insn(r.Pick({"nop", "inx", "clc", "xce", "php", "plp"}))); break; }
      case 9: { Stmt s = g.BranchTo(r.Pick({"bcc", "bcs", "bne"}), std::max<int>(2, int(st.size()) - int(r.Below(6)))); st.push_back(s); break; }
      case 10: { Stmt s = Insn("jsr", cpu::ABS, {Num(r.Below(65536), 2)}); s.conv = r.Below(2); s.yields = FlowMode(r, g); st.push_back(s); break; }
      default: st.push_back(Insn(r.Pick({"nop", "adc", "tax", "lda"}))); if (cpu::FindOp(st.back().mn, cpu::IMP) < 0) { st.back().form = cpu::D; st.back().args = {Num(3, 1)}; }
    }
  }
}
void Stacked(Rng& r, Gen& g, int depth) {
  auto& st = g.p.files[0].st;
  st.push_back(Dir(ORG, {Num(0, 3)}));
  Stmt e = Dir(ENTRY);
  e.mode = FlowMode(r, g);
  st.push_back(e);
  Palette pal;
  for (int n = 1 + r.Below(3); n > 0; --n) pal.pairs.push_back(r.Below(10));
  if (r.Coin()) pal.pairs.push_back(0);
  for (int n = 1 + r.Below(4); n > 0; --n) pal.ops.push_back(r.Below(12));
  Nested(r, g, st, depth, pal);
  st.push_back(Insn("rtl"));
  for (auto& s : st) if (s.target >= int(st.size())) s.target = st.size() - 1;
}

// Two ways to the same place that differ in little.
Stmt ArmOp(Rng& r, Gen& g) {
  switch (r.Below(14)) {
    case 0: case 1: case 2: return Insn("rep", cpu::IMM8, {g.has_k ? Bits(r, g) : Num(r.Pick({0x20, 0x10, 0x30, 0x20, 0x30, 0x01, 0x21}), 1)});
    case 3: case 4: case 5: return Insn("sep", cpu::IMM8, {g.has_k ? Bits(r, g) : Num(r.Pick({0x20, 0x10, 0x30, 0x20, 0x30, 0x01, 0x11}), 1)});
    case 6: case 7: case 8: return Insn("php");
    case 9: return Insn(r.Pick({"pha", "phx", "phy", "phk", "phd"}));
    case 10: return Insn(r.Pick({"plp", "plp", "pla", "plx", "plb"}));
    case 11: return Insn(r.Pick({"clc", "sec"}));
    case 12: return Insn(r.Pick({"xce", "nop", "inx", "asl"}));
    default: {
      if (r.Coin()) return Insn("pea", cpu::IMM16, {Num(r.Below(65536), 2)});
      Stmt s = Insn("jsr", cpu::ABS, {Num(r.Below(65536), 2)});
      s.conv = r.Below(2);
      s.yields = FlowMode(r, g);
      return s;
    }
  }
}
void Joined(Rng& r, Gen& g) {
  auto& st = g.p.files[0].st;
  st.push_back(Dir(ORG, {Num(0, 3)}));
  Stmt e = Dir(ENTRY);
  e.mode = FlowMode(r, g);
  st.push_back(e);
  auto put = [&](Stmt s) { if (s.mn == "asl") s.form = cpu::ACC; st.push_back(std::move(s)); };
  for (int n = r.Below(3); n > 0; --n) put(ArmOp(r, g));
  struct Late { int fork, join; std::vector<Stmt> arm; };
  std::vector<Late> late;  // arms that come after the place they lead to
  for (int k = 1 + r.Below(2); k > 0; --k) {
    std::vector<Stmt> a, b;
    for (int n = 1 + r.Below(4); n > 0; --n) a.push_back(ArmOp(r, g));
    b = a;
    switch (r.Below(5)) {
      case 0: b[r.Below(b.size())] = ArmOp(r, g); break;
      case 1: std::swap(b[r.Below(b.size())], b[r.Below(b.size())]); break;
      case 2: b.insert(b.begin() + r.Below(b.size() + 1), ArmOp(r, g)); break;
      case 3: b.erase(b.begin() + r.Below(b.size())); break;
      default: std::swap(b[r.Below(b.size())], b[r.Below(b.size())]); b.push_back(ArmOp(r, g));
    }
    if (r.Chance(1, 4)) {  // as a loop
      int top = st.size();
      for (auto& s : a) put(s);
      put(g.BranchTo(r.Pick({"bne", "bcc", "bcs"}), top + r.Below(2)));
    } else {
      if (r.Coin()) std::swap(a, b);
      int fork = st.size();
      put(g.BranchTo(r.Pick({"beq", "bne", "bcc", "bcs"}), 0));
      for (auto& s : a) put(s);
      if (r.Coin()) {
        late.push_back({fork, int(st.size()), b});
        for (int n = r.Below(3); n > 0; --n) put(r.Coin() ? Insn("plp") : ArmOp(r, g));
        continue;
      }
      int over = st.size();
      put(g.BranchTo(r.Coin() ? "bra" : "brl", 0));
      st[fork].target = st.size();
      for (auto& s : b) put(s);
      st[over].target = st.size();
    }
    for (int n = r.Below(3); n > 0; --n) put(r.Coin() ? Insn("plp") : ArmOp(r, g));
  }
  for (int n = r.Below(3); n > 0; --n) put(Insn(r.Pick({"plp", "plp", "pla", "plx", "xce"})));
  st.push_back(Insn("rtl"));
  for (auto& l : late) {
    st[l.fork].target = st.size();
    for (auto& s : l.arm) put(s);
    put(g.BranchTo(r.Coin() ? "bra" : "brl", l.join));
  }
}

// Changes of the carry and of what hangs on it, with little else.
void Carried(Rng& r, Gen& g) {
  auto& st = g.p.files[0].st;
  st.push_back(Dir(ORG, {Num(0, 3)}));
  Stmt e = Dir(ENTRY);
  e.mode = FlowMode(r, g);
  st.push_back(e);
  for (int n = 3 + r.Below(6); n > 0; --n) {
    switch (r.Below(12)) {
      case 0: case 1: st.push_back(Insn("clc")); break;
      case 2: st.push_back(Insn("sec")); break;
      case 3: case 4: case 5: st.push_back(Insn("xce")); break;
      case 6: st.push_back(Insn(r.Pick({"rep", "sep"}), cpu::IMM8, {Bits(r, g)})); break;
      case 7: st.push_back(Insn("rep", cpu::IMM8, {Num(r.Pick({0x30, 0x20, 0x10, 0x31, 0x01}), 1)})); break;
      case 8: st.push_back(g.BranchTo(r.Pick({"bcc", "bcs", "bcc", "bcs", "beq"}), int(st.size()) + 1 + r.Below(3))); break;
      case 9: st.push_back(g.BranchTo(r.Pick({"bcc", "bcs"}), std::max<int>(2, int(st.size()) - r.Below(4)))); break;
      case 10: st.push_back(Insn(r.Pick({"php", "plp"}))); break;
      default: {
        Stmt s = r.Coin() ? Insn("jsr", cpu::ABS, {Num(r.Below(65536), 2)}) : Insn(r.Pick({"cmp", "cpx", "cpy", "adc", "sbc", "asl", "lsr", "rol", "ror", "add", "sub", "inc", "and"}), cpu::D, {Num(r.Below(256), 1)});
        if (s.mn == "jsr") { s.conv = r.Below(2); s.yields = FlowMode(r, g); }
        if (r.Coin()) st.push_back(Insn(r.Pick({"clc", "clc", "sec"})));
        st.push_back(s);
        if (r.Coin()) st.push_back(Insn("xce"));
      }
    }
  }
  if (r.Coin()) st.push_back(Insn("xce"));
  if (r.Coin()) st.push_back(Insn("rep", cpu::IMM8, {Num(r.Pick({0x30, 0x20, 0x10}), 1)}));
  st.push_back(Insn("rtl"));
  for (auto& s : st) if (s.target >= int(st.size())) s.target = st.size() - 1;
}

void Mutate(Rng& r, Gen& g) {
  Source& f = g.p.files[0];
  for (int n = 1 + r.Below(5); n > 0; --n) {
    int at = 1 + r.Below(f.st.size() - 1);
    switch (r.Below(9)) {
      case 0: case 1: case 2: {
        Stmt s = Flowy(r, g, int(f.st.size()) - 1);
        Insert(f, at, s);
        break;
      }
      case 3:
        if (f.st[at].kind != BEGIN && f.st[at].kind != END && f.st[at].kind != ORG && f.st[at].kind != MODULE && f.st.size() > 3) Erase(f, at);
        break;
      case 4: {  // retarget
        for (int t = 0; t < 20; ++t) {
          Stmt& s = f.st[r.Below(f.st.size())];
          if (!IsBranch(s)) continue;
          s.target = r.Chance(1, 3) ? s.target + int(r.Below(5)) - 2 : r.Below(f.st.size());
          s.target = std::max(0, std::min<int>(s.target, f.st.size() - 1));
          break;
        }
        break;
      }
      case 5: {  // another mode
        for (int t = 0; t < 20; ++t) {
          Stmt& s = f.st[r.Below(f.st.size())];
          if (s.kind == ENTRY || s.kind == MODE) { s.mode = FlowMode(r, g); break; }
          if (s.kind == INSN && s.conv == 1) { s.yields = FlowMode(r, g); break; }
        }
        break;
      }
      case 6: {
        int b = 1 + r.Below(f.st.size() - 1);
        auto plain = [](const Stmt& s) { return s.kind == INSN || s.kind == ENTRY || s.kind == MODE || s.kind == HALT; };
        if (plain(f.st[at]) && plain(f.st[b])) std::swap(f.st[at], f.st[b]);
        break;
      }
      case 7: {  // another condition
        for (int t = 0; t < 20; ++t) {
          Stmt& s = f.st[r.Below(f.st.size())];
          if (!IsBranch(s) || s.mn == "brl") continue;
          s.mn = r.Pick({"bcc", "bcs", "bne", "bra"});
          break;
        }
        break;
      }
      case 8: Insert(f, at, MakeProbe(r)); break;
    }
  }
  FixSizes(r, f);
}

}  // namespace
}  // namespace prog
