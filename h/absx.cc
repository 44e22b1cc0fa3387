// C30: what static analysis says of flags, registers and stack, against
// concrete machines taken through the same instructions.
#include <memory>

#include "h/nsx.h"
#include "nsasm/token.h"

using namespace nsasm;
using vf::Fmt;
using vf::R;
using vf::Rng;

namespace {

// One 65816, with what it was started with.
struct Machine {
  uint16_t a = 0, x = 0, y = 0;
  uint8_t dbr = 0;
  bool e = false, m = false, xf = false, c = false, d = false;
  std::vector<uint8_t> stack;  // this routine's; top at the back
  bool lost = false;           // the stack pointer has left this routine's stack
  struct { uint16_t a, x, y; uint8_t dbr; bool e, m, xf, c; } was;

  void Settle() {
    if (e) m = xf = true;
    if (xf) { x &= 0xff; y &= 0xff; }
  }
  void Push(uint8_t v) { stack.push_back(v); }
  void Push16(uint16_t v) { Push(v >> 8); Push(v & 0xff); }
  void Lose(Rng& r) {
    lost = true;
    stack.clear();
    for (int i = 0; i < 48; ++i) stack.push_back(r.Next());
  }
  uint8_t Pull(Rng& r) {
    if (stack.empty()) Lose(r);  // into the caller's
    uint8_t v = stack.back();
    stack.pop_back();
    return v;
  }
  uint16_t Pull16(Rng& r) { int lo = Pull(r); return lo | (Pull(r) << 8); }
  uint8_t Flags(Rng& r) const {
    return (r.Next() & 0x8e & ~8) | (d ? 8 : 0) | (c ? 1 : 0) | ((xf || e) ? 0x10 : 0) | ((m || e) ? 0x20 : 0);
  }
  void SetFlags(uint8_t p) {
    c = p & 1; d = p & 8; xf = p & 0x10; m = p & 0x20;
    Settle();
  }
  void SetA(int v) { a = m ? (a & 0xff00) | (v & 0xff) : v & 0xffff; }
  void SetX(int v) { x = v & (xf ? 0xff : 0xffff); }
  void SetY(int v) { y = v & (xf ? 0xff : 0xffff); }
  std::string Text() const {
    std::string s;
    for (uint8_t b : stack) s += Fmt("%02x ", b);
    return Fmt("A=%04x X=%04x Y=%04x DBR=%02x e=%d m=%d x=%d c=%d stack [ %s]%s (entered with A=%04x X=%04x Y=%04x DBR=%02x e=%d m=%d x=%d c=%d)",
               a, x, y, dbr, e, m, xf, c, lost ? "elsewhere" : s.c_str(), lost ? "" : "", was.a, was.x, was.y, was.dbr, was.e, was.m, was.xf, was.c);
  }
};

bool Fits(BitState s, bool now, bool was) {
  return s == B_unknown || (s == B_on && now) || (s == B_off && !now) || (s == B_original && now == was);
}

struct Step {
  Instruction ins;
  int op = 0;
  std::string mn;
  cpu::Mode mode = cpu::IMP;
  int v1 = 0, v2 = 0;   // operand values
  bool named = false, resolved = false;
  int taken = -1;       // branches
};

// The machine does what the instruction says.  False if it cannot go that way.
bool Do(Machine& s, const Step& t, Rng& r) {
  const std::string& mn = t.mn;
  int v1 = t.v1, v2 = t.v2;
  if (t.named && !t.resolved) { v1 = r.Coin() ? int(r.Next() & 0xffff) : int(r.Below(64)); v2 = r.Next() & 0xff; }
  bool imm = t.mode == cpu::IMMM || t.mode == cpu::IMMX;
  auto data = [&] { return imm ? v1 : int(r.Next() & 0xffff); };
  int am = s.m ? 0xff : 0xffff, at = s.m ? 0x80 : 0x8000;
  if (t.taken >= 0) {
    if (mn == "bcc" && s.c == (t.taken == 1)) return false;
    if (mn == "bcs" && s.c != (t.taken == 1)) return false;
    return true;
  }
  if (mn == "clc") s.c = false;
  else if (mn == "sec") s.c = true;
  else if (mn == "cld") s.d = false;
  else if (mn == "sed") s.d = true;
  else if (mn == "rep" || mn == "sep") {
    bool to = mn == "sep";
    if (v1 & 1) s.c = to;
    if (v1 & 8) s.d = to;
    if (v1 & 0x10) s.xf = to;
    if (v1 & 0x20) s.m = to;
    s.Settle();
  } else if (mn == "xce") { std::swap(s.e, s.c); s.Settle(); }
  else if (mn == "adc" || mn == "sbc" || mn == "add" || mn == "sub") {
    bool sub = mn == "sbc" || mn == "sub";
    if (mn == "add") s.c = false;
    if (mn == "sub") s.c = true;
    if (s.d) { s.SetA(r.Next()); s.c = r.Coin(); }
    else {
      int q = data() & am;
      if (sub) q ^= am;
      int z = (s.a & am) + q + s.c;
      s.SetA(z);
      s.c = z > am;
    }
  } else if (mn == "and") s.SetA(s.a & data());
  else if (mn == "eor") s.SetA(s.a ^ data());
  else if (mn == "ora") s.SetA(s.a | data());
  else if (mn == "asl" || mn == "lsr" || mn == "rol" || mn == "ror") {
    int q = t.mode == cpu::ACC ? s.a & am : int(r.Next()) & am;
    bool in = (mn == "rol" || mn == "ror") && s.c, left = mn == "asl" || mn == "rol";
    bool out = q & (left ? at : 1);
    q = left ? (q << 1) | (in ? 1 : 0) : (q >> 1) | (in ? at : 0);
    if (t.mode == cpu::ACC) s.SetA(q);
    s.c = out;
  } else if (mn == "cmp" || mn == "cpx" || mn == "cpy") {
    int mask = mn == "cmp" ? am : s.xf ? 0xff : 0xffff;
    s.c = ((mn == "cmp" ? s.a : mn == "cpx" ? s.x : s.y) & mask) >= (data() & mask);
  } else if (mn == "inc" || mn == "dec") {
    if (t.mode == cpu::ACC) s.SetA(s.a + (mn == "inc" ? 1 : -1));
  } else if (mn == "inx") s.SetX(s.x + 1);
  else if (mn == "dex") s.SetX(s.x - 1);
  else if (mn == "iny") s.SetY(s.y + 1);
  else if (mn == "dey") s.SetY(s.y - 1);
  else if (mn == "lda") s.SetA(data());
  else if (mn == "ldx") s.SetX(data());
  else if (mn == "ldy") s.SetY(data());
  else if (mn == "tax") s.SetX(s.a);
  else if (mn == "tay") s.SetY(s.a);
  else if (mn == "txa") s.SetA(s.x);
  else if (mn == "tya") s.SetA(s.y);
  else if (mn == "txy") s.SetY(s.x);
  else if (mn == "tyx") s.SetX(s.y);
  else if (mn == "tsx") s.SetX(r.Next());
  else if (mn == "tsc" || mn == "tdc") s.a = r.Next();
  else if (mn == "tcs" || mn == "txs") s.Lose(r);
  else if (mn == "xba") s.a = (s.a >> 8) | (s.a << 8);
  else if (mn == "mvn" || mn == "mvp") {
    int by = (mn == "mvn" ? 1 : -1) * (s.a + 1);
    s.SetX(s.x + by);
    s.SetY(s.y + by);
    s.a = 0xffff;
    s.dbr = v2;
  } else if (mn == "pea") s.Push16(v1);
  else if (mn == "pei" || mn == "per" || mn == "phd") s.Push16(r.Next());
  else if (mn == "pha") { if (s.m) s.Push(s.a); else s.Push16(s.a); }
  else if (mn == "phx") { if (s.xf) s.Push(s.x); else s.Push16(s.x); }
  else if (mn == "phy") { if (s.xf) s.Push(s.y); else s.Push16(s.y); }
  else if (mn == "phb") s.Push(s.dbr);
  else if (mn == "phk") s.Push(r.Next());
  else if (mn == "php") s.Push(s.Flags(r));
  else if (mn == "pla") s.SetA(s.m ? s.Pull(r) : s.Pull16(r));
  else if (mn == "plx") s.SetX(s.xf ? s.Pull(r) : s.Pull16(r));
  else if (mn == "ply") s.SetY(s.xf ? s.Pull(r) : s.Pull16(r));
  else if (mn == "plb") s.dbr = s.Pull(r);
  else if (mn == "pld") s.Pull16(r);
  else if (mn == "plp") s.SetFlags(s.Pull(r));
  else if (mn == "jsr" || mn == "jsl" || mn == "brk" || mn == "cop") {
    auto y = t.ins.return_convention.YieldFlags();
    if (y) {
      auto bit = [&](BitState b, bool now) { return b == B_on ? true : b == B_off ? false : b == B_original ? now : r.Coin(); };
      s.e = bit(y->EBit(), s.e); s.m = bit(y->MBit(), s.m); s.xf = bit(y->XBit(), s.xf);
    }
    s.c = r.Coin();
    s.d = r.Coin();
    s.a = r.Next(); s.x = r.Next(); s.y = r.Next(); s.dbr = r.Next();
    s.Settle();
  }
  return true;
}

const Stack& Abandoned() {
  static const Stack s = [] { Stack a; a.Abandon(); return a; }();
  return s;
}

// The carry a routine was entered with is never tracked: an "original" carry is
// the `e` the routine was entered with, exchanged by XCE.
//
// The first claim that is false of the machine, or "".
std::string Wrong(const ExecutionState& es, const Machine& s) {
  const StatusFlags& f = es.Flags();
  struct { const char* n; BitState b; bool now, was; } bits[] = {
      {"e", f.EBit(), s.e, s.was.e}, {"m", f.MBit(), s.m, s.was.m}, {"x", f.XBit(), s.xf, s.was.xf}, {"c", f.CBit(), s.c, s.was.e}};
  for (auto& b : bits) {
    if (!Fits(b.b, b.now, b.was)) return Fmt("flag %s said to be %s", b.n, nsx::BitText(b.b));
    R().Count("flag_claims") += b.b != B_unknown;
  }
  struct { const char* n; const RegisterValue& v; BitState w; uint16_t now, was; bool wide_was; } regs[] = {
      {"A", es.Accumulator(), f.MBit(), s.a, s.was.a, !s.was.m},
      {"X", es.XRegister(), f.XBit(), s.x, s.was.x, !s.was.xf},
      {"Y", es.YRegister(), f.XBit(), s.y, s.was.y, !s.was.xf},
      {"DBR", es.DataBankRegister(), B_on, s.dbr, s.was.dbr, false}};
  for (auto& g : regs) {
    bool wide = g.w == B_off || (g.w == B_original && g.wide_was && !g.v.HasValue());
    int mask = wide ? 0xffff : 0xff;
    if (g.v.HasValue()) {
      if ((*g.v ^ g.now) & mask) return Fmt("%s said to be %04x", g.n, *g.v);
      ++R().Count(std::string("claims_") + g.n);
    } else if (g.v.type() == RegisterValue::T_original) {
      if ((g.was ^ g.now) & mask) return Fmt("%s said to have its original value", g.n);
      ++R().Count("original_claims");
    }
  }
  Stack left = es.GetStack();
  if (left == Abandoned()) return "";
  size_t depth = s.stack.size();
  auto pull = [&](uint8_t* v) { if (!depth) return false; *v = s.stack[--depth]; return true; };
  for (int k = 0; !(left == Stack()); ++k) {
    Stack other = left;
    StackValue v = left.PullByte();
    if (left == Abandoned()) {
      v = other.PullVarsize();
      if (other == Abandoned()) return "a stack that neither a byte nor a register can be pulled from";
      left = other;
    }
    uint8_t b = 0, b2 = 0;
    if (!pull(&b)) return Fmt("stack said to hold %d entries or more", k + 1);
    switch (v.type()) {
      case StackValue::T_unknown: break;
      case StackValue::T_byte:
        if (v.value() != b) return Fmt("stack entry %d said to be %02x, is %02x", k, v.value(), b);
        ++R().Count("stack_bytes");
        break;
      case StackValue::T_flags: {
        StatusFlags p = v.flags();
        if (!Fits(p.MBit(), b & 0x20, s.was.m) || !Fits(p.XBit(), b & 0x10, s.was.xf) || !Fits(p.CBit(), b & 1, s.was.e))
          return Fmt("stack entry %d said to be flags %s, is %02x", k, nsx::FlagText(p).c_str(), b);
        ++R().Count("stack_flags");
        break;
      }
      case StackValue::T_a_lo: case StackValue::T_x_lo: case StackValue::T_y_lo:
      case StackValue::T_a_hi: case StackValue::T_x_hi: case StackValue::T_y_hi: case StackValue::T_dbr: {
        auto ty = v.type();
        int w = ty == StackValue::T_dbr ? s.was.dbr
                : ty == StackValue::T_a_lo || ty == StackValue::T_a_hi ? s.was.a
                : ty == StackValue::T_x_lo || ty == StackValue::T_x_hi ? s.was.x : s.was.y;
        if (ty == StackValue::T_a_hi || ty == StackValue::T_x_hi || ty == StackValue::T_y_hi) w >>= 8;
        if ((w & 0xff) != b) return Fmt("stack entry %d said to be an original register, is %02x", k, b);
        ++R().Count("stack_originals");
        break;
      }
      default: {  // as wide as on entry
        bool wide = v.type() == StackValue::T_a_varsize ? !s.was.m : !s.was.xf;
        if (wide && !pull(&b2)) return Fmt("stack entry %d said to be two bytes", k);
        int w = v.type() == StackValue::T_a_varsize ? s.was.a : v.type() == StackValue::T_x_varsize ? s.was.x : s.was.y;
        if (v.HoldsOriginalVarSize() && ((w ^ (b | (b2 << 8))) & (wide ? 0xffff : 0xff)))
          return Fmt("stack entry %d said to be an original register, is %02x %02x", k, b, b2);
        ++R().Count("stack_varsize");
      }
    }
  }
  if (depth && !s.lost) return Fmt("stack said to be %zu bytes, is %zu", s.stack.size() - depth, s.stack.size());
  return "";
}

struct Path {
  ExecutionState es;
  std::vector<Machine> ms;
};

class Walk {
 public:
  explicit Walk(Rng& r) : r_(r) {}
  bool Start() {
    const std::vector<BitState> all = {B_off, B_on, B_original, B_unknown};
    StatusFlags f(r_.Pick(all), r_.Pick(all), r_.Pick(all), r_.Pick({B_off, B_on, B_unknown}));
    if (r_.Below(3) == 0) f = StatusFlags(B_off, r_.Pick({B_off, B_on}), r_.Pick({B_off, B_on}), B_unknown);
    p_.es = ExecutionState(f);
    stack_ = r_.Below(3) == 0;  // little but pushes, pulls and widths
    bool orig = stack_ || r_.Coin();
    if (orig) {
      p_.es.Accumulator() = RegisterValue(RegisterValue::T_original);
      p_.es.XRegister() = RegisterValue(RegisterValue::T_original);
      p_.es.YRegister() = RegisterValue(RegisterValue::T_original);
      p_.es.DataBankRegister() = RegisterValue(RegisterValue::T_original);
    }
    text_ = "start " + nsx::FlagText(p_.es.Flags()) + (orig ? ", registers original" : "") + ": ";
    for (int i = 0; i < 24; ++i) {
      Machine s;
      auto bit = [&](BitState b) { return b == B_on ? true : b == B_off ? false : r_.Coin(); };
      s.e = bit(f.EBit()); s.m = bit(f.MBit()); s.xf = bit(f.XBit()); s.c = bit(f.CBit());
      s.d = r_.Below(4) == 0;
      s.a = r_.Next(); s.x = r_.Next(); s.y = r_.Next(); s.dbr = r_.Next();
      if (s.e && ((f.MBit() == B_off) || (f.XBit() == B_off))) continue;
      s.Settle();
      s.was = {s.a, s.x, s.y, s.dbr, s.e, s.m, s.xf, s.c};
      p_.ms.push_back(s);
    }
    return !p_.ms.empty() && Check("at the start");
  }
  bool Steps(int n, int depth) {
    for (int i = 0; i < n; ++i) {
      if (depth && n > 3 && r_.Below(8) == 0) {
        if (!Fork(1 + r_.Below(5), depth - 1)) return false;
        continue;
      }
      if (!One()) return false;
    }
    return true;
  }
  const std::string& text() const { return text_; }

 private:
  bool Fork(int n, int depth) {
    Path start = p_;
    text_ += "{ ";
    if (!Steps(n, depth)) return false;
    Path one = std::move(p_);
    p_ = start;
    text_ += "| ";
    if (r_.Below(4) && !Steps(1 + r_.Below(5), depth)) return false;
    text_ += "} ";
    ExecutionState merged = one.es | p_.es;
    ExecutionState back = p_.es;
    back |= one.es;
    if (merged != back) { R().Violation("merge-order", "merging two paths' states depends on their order: " + text_); return false; }
    p_.es = merged;
    for (auto& m : one.ms) p_.ms.push_back(m);
    while (p_.ms.size() > 32) { p_.ms[r_.Below(p_.ms.size())] = p_.ms.back(); p_.ms.pop_back(); }
    ++R().Count("joins");
    return Check("where the two paths meet");
  }
  bool Check(const std::string& where) {
    for (auto& m : p_.ms) {
      std::string w = Wrong(p_.es, m);
      if (w.empty()) continue;
      R().Violation("claim", w + " " + where + "; a machine there has " + m.Text());
      return false;
    }
    return true;
  }
  std::optional<Step> Choose() {
    static const std::vector<std::string> often = {
        "pha", "phx", "phy", "pla", "plx", "ply", "php", "plp", "rep", "sep", "xce", "clc", "sec", "lda", "ldx", "ldy", "pea",
        "rep", "sep", "php", "plp", "pha", "pla", "phx", "plx", "phy", "ply", "lda", "ldx", "ldy", "inc", "dec", "inx", "dex", "iny", "dey", "mvn", "mvp", "phb", "plb"};
    static const std::vector<std::string> stack = {"pha", "pha", "pla", "pla", "phx", "plx", "phy", "ply", "phb", "pea", "php", "plp", "rep", "rep", "sep", "sep", "ldx", "tya"};
    Step t;
    if (stack_ || r_.Below(3)) {
      static const std::map<std::string, std::vector<int>> ops = [] {
        std::map<std::string, std::vector<int>> m;
        for (int i = 0; i < 256; ++i) {
          m[cpu::kOps[i].mn].push_back(i);
          if (cpu::kOps[i].mode == cpu::IMMM || cpu::kOps[i].mode == cpu::IMMX || cpu::kOps[i].mode == cpu::ACC)
            for (int k = 0; k < 20; ++k) m[cpu::kOps[i].mn].push_back(i);
        }
        return m;
      }();
      t.op = r_.Pick(ops.at(r_.Pick(stack_ && r_.Below(15) ? stack : often)));
    } else {
      t.op = r_.Below(256);
    }
    t.mn = cpu::kOps[t.op].mn;
    t.mode = cpu::kOps[t.op].mode;
    if (cpu::IsExit(t.mn) && !cpu::IsBranch(t.mn)) return {};
    std::vector<uint8_t> bytes = {uint8_t(t.op), uint8_t(r_.Next()), uint8_t(r_.Next()), uint8_t(r_.Next())};
    if (r_.Below(3) == 0) bytes[2] = 0;
    if (stack_ && (t.mn == "rep" || t.mn == "sep")) bytes[1] = r_.Pick({0x10, 0x20, 0x20, 0x30});
    else if (t.mn == "rep" || t.mn == "sep") bytes[1] = r_.Below(4) ? r_.Pick({0x10, 0x20, 0x30, 0x31, 0x01, 0x21, 0x11}) : r_.Next();
    auto got = Decode(bytes, p_.es.Flags());
    if (!got.ok()) { ++R().Count("undecodable"); return {}; }
    t.ins = *got;
    int w = cpu::OperandBytes(t.mode);
    if (t.mode == cpu::IMMM) w = p_.es.Flags().MBit() == B_on ? 1 : 2;
    if (t.mode == cpu::IMMX) w = p_.es.Flags().XBit() == B_on ? 1 : 2;
    for (int k = 0; k < w; ++k) t.v1 |= bytes[1 + k] << (8 * k);
    if (t.mode == cpu::MOV) { t.v1 = bytes[2]; t.v2 = bytes[1]; }
    if ((t.mn == "adc" || t.mn == "sbc") && r_.Below(3) == 0) {
      t.ins.mnemonic = t.mn == "adc" ? PM_add : PM_sub;
      t.mn = t.mn == "adc" ? "add" : "sub";
    }
    bool call = t.mn == "jsr" || t.mn == "jsl" || t.mn == "brk" || t.mn == "cop";
    if (call && r_.Coin()) {
      const std::vector<BitState> all = {B_off, B_on, B_unknown};
      t.ins.return_convention = ReturnConvention(StatusFlags(r_.Pick(all), r_.Pick(all), r_.Pick(all), B_unknown));
    }
    bool nameable = (!stack_ || r_.Below(4) == 0) && (t.mode == cpu::IMMM || t.mode == cpu::IMMX || t.mode == cpu::MOV || t.mn == "rep" || t.mn == "sep" || t.mn == "pea");
    if (nameable && r_.Below(3) == 0) {
      std::string src = t.mn + " " + cpu::OperandText(t.mode, "first", "second");
      auto tokens = Tokenize(src, Location());
      if (!tokens.ok()) return {};
      auto parsed = Parse(*tokens);
      if (!parsed.ok() || parsed->size() != 1 || !absl::holds_alternative<Statement>((*parsed)[0])) return {};
      Statement st = absl::get<Statement>((*parsed)[0]);
      if (!st.Instruction()) return {};
      Instruction numbers = t.ins;
      t.ins = *st.Instruction();
      if (!t.ins.FixAddressingMode(p_.es.Flags()).ok()) return {};
      t.named = true;
      t.resolved = r_.Coin();
      // With the names' values, the same as with the numbers.
      nsx::MapContext names;
      names.names = {{"first", t.v1}, {"second", t.v2}};
      ExecutionState by_name = p_.es, by_number = p_.es, by_none = p_.es;
      bool again = false, again2 = false;
      auto r1 = t.ins.Execute(&by_name, {}, names, &again);
      auto r2 = numbers.Execute(&by_number);
      auto r3 = t.ins.Execute(&by_none, {}, NullLookupContext(), &again2);
      ++R().Count("named_operands");
      if (r1.ok() != r2.ok() || r1.ok() != r3.ok() || (r1.ok() && by_name != by_number) || again) {
        R().Violation("named", "`" + src + "` with the names' values does not act as with the numbers" + (again ? ", or asks for them again" : "") + ", after: " + text_);
        return {};
      }
      if (r3.ok() && by_none != by_name && !again2) {
        R().Violation("reeval", "`" + src + "` acts differently once its names are known, but does not ask to be looked at again, after: " + text_);
        return {};
      }
      R().Count("asks_again") += again2;
    }
    return t;
  }
  bool One() {
    auto t = Choose();
    if (!t) return true;
    ExecutionState next = p_.es;
    nsx::MapContext names;
    if (t->named && t->resolved) names.names = {{"first", t->v1}, {"second", t->v2}};
    if (cpu::IsBranch(t->mn)) {
      t->taken = t->mn == "bra" || t->mn == "brl" ? 1 : int(r_.Below(2));
      auto ok = t->taken ? t->ins.ExecuteBranch(&next) : t->ins.Execute(&next, {}, names);
      if (!ok.ok()) return true;
    } else {
      if (!t->ins.Execute(&next, {}, names).ok()) { ++R().Count("refused"); return true; }
    }
    std::vector<Machine> went;
    for (auto& m : p_.ms) {
      Machine n = m;
      if (Do(n, *t, r_)) went.push_back(std::move(n));
    }
    if (went.empty()) return true;  // nobody can go that way
    R().Count("branches") += t->taken >= 0;
    p_.es = next;
    p_.ms = std::move(went);
    for (auto& m : p_.ms) if (m.stack.size() > 400) return true;
    std::string said = t->ins.ToString() + (t->named ? t->resolved ? Fmt(" (%x,%x)", t->v1, t->v2) : " (?)" : "") + (t->taken < 0 ? "" : t->taken ? " (taken)" : " (not taken)");
    text_ += said + "; ";
    R().Describe(text_);
    R().Eval();
    R().Seen("opcodes", std::to_string(t->op));
    ++R().Count("steps");
    return Check("after `" + said + "`");
  }
  Rng& r_;
  Path p_;
  std::string text_;
  bool stack_ = false;
};

}  // namespace

int main(int argc, char** argv) {
  R().Init(argc, argv);
  R().Cases(R().o.cases, [&](uint64_t, Rng& r) {
    for (int k = 0; k < 40; ++k) {
      Walk w(r);
      if (!w.Start()) continue;
      w.Steps(3 + r.Below(30), 2);
      R().Distinct(w.text());
      R().MaybeSample(w.text());
    }
  });
  return R().Finish();
}
