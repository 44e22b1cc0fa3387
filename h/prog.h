// A model of assembly programs: what they say, how they may be spelled, what
// they assemble to, and what a processor does when it runs them.  It shares
// nothing with nsasm.
#pragma once
#include <cstdint>
#include <map>
#include <optional>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

#include "h/common.h"
#include "h/cpu.h"

namespace prog {

using vf::Fmt;
using vf::Rng;

// ---- expressions ----
struct Expr {
  enum Kind { NUM, NAME, NEG, LO, HI, BANK, ADD, SUB, MUL, DIV } kind = NUM;
  int64_t value = 0;   // NUM
  int rank = 0;        // NUM: 0 unsized, 1..3 bytes
  std::string text;    // NUM
  bool wide = false, qualified = false;
  std::string mod, name;
  std::vector<Expr> sub;
};

inline Expr Num(int64_t v, int rank) {
  Expr e;
  e.value = v;
  e.rank = rank;
  static const int digits[] = {0, 2, 4, 6};
  e.text = rank ? Fmt("$%0*llx", digits[rank], (long long)v) : Fmt("%lld", (long long)v);
  return e;
}
inline Expr Name(const std::string& n, bool wide = false) {
  Expr e;
  e.kind = Expr::NAME;
  e.name = n;
  e.wide = wide;
  return e;
}
inline int Rank(const Expr& e) {
  switch (e.kind) {
    case Expr::NUM: return e.rank;
    case Expr::NAME: return e.wide ? 3 : 2;
    case Expr::NEG: return Rank(e.sub[0]);
    case Expr::LO: case Expr::HI: case Expr::BANK: return 1;
    default: return std::max(Rank(e.sub[0]), Rank(e.sub[1]));
  }
}
inline bool HasName(const Expr& e) {
  if (e.kind == Expr::NAME) return true;
  for (auto& s : e.sub) if (HasName(s)) return true;
  return false;
}
inline int64_t Wrap(int64_t v) { return int32_t(uint32_t(uint64_t(v))); }
// lookup: (const Expr& name) -> optional<int64_t>
template <typename L> std::optional<int64_t> Eval(const Expr& e, L lookup) {
  if (e.kind == Expr::NUM) return e.value;
  if (e.kind == Expr::NAME) return lookup(e);
  auto a = Eval(e.sub[0], lookup);
  if (!a) return {};
  switch (e.kind) {
    case Expr::NEG: return Wrap(-*a);
    case Expr::LO: return *a & 0xff;
    case Expr::HI: return (*a >> 8) & 0xff;
    case Expr::BANK: return (*a >> 16) & 0xff;
    default: break;
  }
  auto b = Eval(e.sub[1], lookup);
  if (!b) return {};
  switch (e.kind) {
    case Expr::ADD: return Wrap(*a + *b);
    case Expr::SUB: return Wrap(*a - *b);
    case Expr::MUL: return Wrap(*a * *b);
    default: if (*b == 0) return {};
      return Wrap(*a / *b);
  }
}
inline std::string NameText(const Expr& e) {
  std::string s = e.wide ? "@" : "";
  if (e.qualified) s += e.mod + "::";
  return s + e.name;
}
// Minimal parentheses.  level: 0 sum, 1 product, 2 unary
inline std::string Text(const Expr& e, int level, Rng& r) {
  auto sp = [&] { return r.Chance(1, 3) ? " " : ""; };
  switch (e.kind) {
    case Expr::NUM: return e.text;
    case Expr::NAME: return NameText(e);
    case Expr::NEG: case Expr::LO: case Expr::HI: case Expr::BANK: {
      const char* o = e.kind == Expr::NEG ? "-" : e.kind == Expr::LO ? "<" : e.kind == Expr::HI ? ">" : "^";
      std::string s = Text(e.sub[0], 2, r);
      return std::string(o) + (s[0] == '-' ? " " : sp()) + s;
    }
    default: {
      bool sum = e.kind == Expr::ADD || e.kind == Expr::SUB;
      const char* o = e.kind == Expr::ADD ? "+" : e.kind == Expr::SUB ? "-" : e.kind == Expr::MUL ? "*" : "/";
      std::string a = Text(e.sub[0], sum ? 0 : 1, r), b = Text(e.sub[1], sum ? 1 : 2, r);
      std::string s = a + sp() + o + (b[0] == '-' || b[0] == '+' ? " " : sp()) + b;
      return level > (sum ? 0 : 1) ? "(" + s + ")" : s;
    }
  }
}

// ---- statements ----
struct Mode3 { int e = 2, m = 2, x = 2; };  // 0, 1, or 2: not known
inline std::string ModeText(const Mode3& f) {
  if (f.e == 2) return "unk";
  if (f.e == 1) return "emu";
  if (f.m == 2 && f.x == 2) return "native";
  std::string s;
  if (f.m != 2) s += f.m ? "m8" : "m16";
  if (f.x != 2) s += f.x ? "x8" : "x16";
  return s;
}

enum Kind { INSN, DB, DW, DL, ORG, ENTRY, EQU, MODE, MODULE, REMOTE, HALT, BEGIN, END, RAW };
struct Label { std::string name; bool exported = false; };
struct Stmt {
  Kind kind = INSN;
  std::vector<Label> labels;
  std::string mn;              // INSN; "add" and "sub" are spelled out too
  char suffix = 0;
  cpu::Mode form = cpu::IMP;   // the forms IMMM and IMMX stay as written
  std::vector<Expr> args;
  Mode3 mode, yields;
  int conv = 0;                // 1 yields, 2 noreturn
  int target = -1;             // branches: the statement meant
  std::string raw;             // RAW and MODULE
  bool fix_target = false;     // operand may become an address of the program
  // filled in by the passes below
  std::vector<int> scopes;
  int line = 0;                // where its last line is; first: where its labels begin
  int first = 0;
  bool placed = false;
  uint32_t addr = 0;
  int size = 0;
  std::optional<int64_t> value;
};
inline Stmt Insn(const std::string& mn, cpu::Mode form = cpu::IMP, std::vector<Expr> args = {}) {
  Stmt s;
  s.mn = mn;
  s.form = form;
  s.args = std::move(args);
  return s;
}
inline Stmt Dir(Kind k, std::vector<Expr> args = {}) {
  Stmt s;
  s.kind = k;
  s.args = std::move(args);
  return s;
}

struct Source {
  std::string path, module, text;
  std::vector<Stmt> st;
  std::map<std::string, int> globals;
  std::map<int, std::map<std::string, int>> locals;  // by BEGIN statement
};
struct Program { std::vector<Source> files; };

inline std::string RealMn(const std::string& mn) { return mn == "add" ? "adc" : mn == "sub" ? "sbc" : mn; }
inline bool IsPseudo(const std::string& mn) { return mn == "add" || mn == "sub"; }
inline bool IsBranch(const Stmt& s) { return s.kind == INSN && cpu::IsBranch(s.mn); }
inline bool IsExit(const Stmt& s) {
  return s.kind == HALT || (s.kind == INSN && (cpu::IsExit(s.mn) || s.conv == 2));
}
inline bool WidthBound(const Stmt& s) { return s.kind == INSN && (s.form == cpu::IMMM || s.form == cpu::IMMX); }

// ---- names ----

// Fills scopes and label tables.  False if a name is defined twice or scopes
// do not match.
inline bool BindFile(Source& f) {
  f.globals.clear();
  f.locals.clear();
  std::vector<int> scopes;
  bool ok = true;
  int modules = 0;
  for (size_t i = 0; i < f.st.size(); ++i) {
    Stmt& s = f.st[i];
    s.scopes = scopes;
    for (auto& l : s.labels) {
      auto& table = scopes.empty() || l.exported ? f.globals : f.locals[scopes.back()];
      if (!table.emplace(l.name, int(i)).second) ok = false;
    }
    if (s.kind == BEGIN) scopes.push_back(i);
    if (s.kind == END) {
      if (scopes.empty()) ok = false;
      else scopes.pop_back();
    }
    if (s.kind == MODULE) { f.module = s.raw; if (++modules > 1) ok = false; }
  }
  return ok && scopes.empty();
}
struct Ref { int file = -1, st = -1; };
inline Ref FindLocal(const Program& p, int file, const std::vector<int>& scopes, const std::string& name) {
  const Source& f = p.files[file];
  for (auto it = scopes.rbegin(); it != scopes.rend(); ++it) {
    auto t = f.locals.find(*it);
    if (t == f.locals.end()) continue;
    auto n = t->second.find(name);
    if (n != t->second.end()) return {file, n->second};
  }
  auto n = f.globals.find(name);
  if (n != f.globals.end()) return {file, n->second};
  return {};
}
inline Ref FindGlobal(const Program& p, const std::string& mod, const std::string& name) {
  for (size_t i = 0; i < p.files.size(); ++i) {
    if (p.files[i].module != mod) continue;
    auto n = p.files[i].globals.find(name);
    if (n != p.files[i].globals.end()) return {int(i), n->second};
  }
  return {};
}
// What a name used at statement `st` of `file` stands for.
inline Ref Resolve(const Program& p, int file, int st, const Expr& e) {
  const Source& f = p.files[file];
  if (!e.qualified) {
    Ref r = FindLocal(p, file, f.st[st].scopes, e.name);
    return r.file >= 0 ? r : FindGlobal(p, "", e.name);
  }
  if (e.mod == f.module) {
    Ref r = FindLocal(p, file, {}, e.name);
    if (r.file >= 0) return r;
  }
  return FindGlobal(p, e.mod, e.name);
}

// ---- what the processor does ----
//
// A set of concrete machine states is followed from every entry point.  Flags
// and the stack are exact; results of arithmetic, memory and callees are
// whatever they might be, except that a callee returns as declared.
struct Machine {
  int pc = 0;
  uint8_t e = 0, m = 0, x = 0, c = 0;
  int16_t r[6] = {-1, -1, -1, -1, -1, -1};  // A, X, Y low and high; -1: anything
  std::vector<int16_t> stack;  // byte, -1: anything, 256+: a status register
  bool lost = false;           // the stack pointer was moved
  std::string Key() const {
    std::string k = Fmt("%d/%d%d%d%d%d/", pc, e, m, x, c, lost);
    k.append(reinterpret_cast<const char*>(r), sizeof r);
    k.append(reinterpret_cast<const char*>(stack.data()), stack.size() * 2);
    return k;
  }
};

struct Behaviour {
  struct At {
    std::set<int> emxc;  // e*8 + m*4 + x*2 + c
    bool has(int bit, int v) const {
      for (int s : emxc) if (((s >> bit) & 1) == v) return true;
      return false;
    }
    int known(int bit) const { bool z = has(bit, 0), o = has(bit, 1); return z && o ? 2 : o ? 1 : 0; }
  };
  std::vector<At> at;          // by statement
  bool complete = true;        // nothing was left out for size
  int off_end = -1, into_data = -1;  // a statement from which execution gets there
  size_t states = 0;
};

// How deep a stack and how many states are followed.
struct Limits { size_t states = 6000, depth = 14; };

// One instruction's effect.  Results of arithmetic, memory and callees are
// whatever they might be.
template <typename F> void ForMode(Machine s, const Mode3& f, F go) {
  for (int e = 0; e < 2; ++e)
    for (int m = 0; m < 2; ++m)
      for (int x = 0; x < 2; ++x)
        for (int c = 0; c < 2; ++c) {
          if ((f.e != 2 && f.e != e) || (f.m != 2 && f.m != m) || (f.x != 2 && f.x != x)) continue;
          if (e && !(m && x)) continue;
          s.e = e, s.m = m, s.x = x, s.c = c;
          go(s);
        }
}
class Stepper {
 public:
  virtual ~Stepper() = default;

 protected:
  explicit Stepper(bool feasible) : feasible_(feasible) {}
  virtual void Push(Machine s) = 0;
  static void Normalise(Machine& s) {
    if (s.e) s.m = s.x = 1;
    if (s.x) s.r[3] = s.r[5] = 0;
  }
  struct What {
    std::string mn;
    bool width_bound = false;       // an immediate whose size is a width's
    std::optional<int64_t> known;   // the operand's value
    int conv = 0;
    Mode3 yields;
    int next = 0, target = -1;      // where to go on; where a branch goes
    bool acc = false;               // inc a, dec a
  };
  void Instruction(const Machine& s, const What& w) {
    const std::string& mn = w.mn;
    Machine n = s;
    n.pc = w.next;
    auto narrow = [&](char r) { return r == 'm' ? s.m : s.x; };
    auto wipe = [&](int i) { n.r[2 * i] = -1; n.r[2 * i + 1] = -1; };
    if (cpu::IsBranch(mn)) {
      bool take = true, fall = mn != "bra" && mn != "brl";
      if (feasible_ && mn == "bcc") { take = !s.c; fall = s.c; }
      if (feasible_ && mn == "bcs") { take = s.c; fall = !s.c; }
      Machine t = s;
      t.pc = w.target;
      // Whichever way it goes says what the carry was.
      if (mn == "bcc" || mn == "bcs") { t.c = mn == "bcs"; n.c = mn == "bcc"; }
      if (take && w.target >= 0) Push(t);
      if (fall) Push(n);
      return;
    }
    if (mn == "jsr" || mn == "jsl" || mn == "brk" || mn == "cop") {
      if (w.conv == 2) return;
      for (int i = 0; i < 3; ++i) wipe(i);
      if (w.conv == 1) ForMode(n, w.yields, [&](const Machine& t) { Push(t); });
      else AnyCarry(n);
      return;
    }
    if (cpu::IsExit(mn)) return;
    if (mn == "sec" || mn == "clc") n.c = mn == "sec";
    else if (mn == "rep" || mn == "sep") {
      bool to = mn == "sep";
      if (!w.known) {  // some value
        for (int bits = 0; bits < 8; ++bits) {
          Machine t = n;
          if (bits & 1) t.c = to;
          if (bits & 2) t.x = to;
          if (bits & 4) t.m = to;
          Push(t);
        }
        return;
      }
      if (*w.known & 1) n.c = to;
      if (*w.known & 0x10) n.x = to;
      if (*w.known & 0x20) n.m = to;
    } else if (mn == "xce") {
      std::swap(n.c, n.e);
    } else if (mn == "php") {
      PushByte(n, 256 + s.m * 32 + s.x * 16 + s.c);
    } else if (mn == "plp") {
      int v = PullByte(n);
      if (v < 0) { Mode3 any; any.e = s.e; ForMode(n, any, [&](const Machine& u) { Push(u); }); return; }
      n.m = (v >> 5) & 1, n.x = (v >> 4) & 1, n.c = v & 1;
    } else if (mn == "pha") PushReg(n, 0, s.m);
    else if (mn == "phx") PushReg(n, 1, s.x);
    else if (mn == "phy") PushReg(n, 2, s.x);
    else if (mn == "pla") PullReg(n, 0, s.m);
    else if (mn == "plx") PullReg(n, 1, s.x);
    else if (mn == "ply") PullReg(n, 2, s.x);
    else if (mn == "phb" || mn == "phk") PushByte(n, -1);
    else if (mn == "plb") PullByte(n);
    else if (mn == "phd" || mn == "pei" || mn == "per") { PushByte(n, -1); PushByte(n, -1); }
    else if (mn == "pld") { PullByte(n); PullByte(n); }
    else if (mn == "pea") {
      PushByte(n, w.known ? (*w.known >> 8) & 0xff : -1);
      PushByte(n, w.known ? *w.known & 0xff : -1);
    } else if (mn == "txs" || mn == "tcs") {
      n.lost = true;
      n.stack.clear();
    } else if ((mn == "lda" || mn == "ldx" || mn == "ldy") && w.width_bound) {
      int i = mn == "lda" ? 0 : mn == "ldx" ? 1 : 2;
      n.r[2 * i] = w.known ? *w.known & 0xff : -1;
      if (!narrow(i ? 'x' : 'm')) n.r[2 * i + 1] = w.known ? (*w.known >> 8) & 0xff : -1;
    } else if (RealMn(mn) == "adc" || RealMn(mn) == "sbc" || mn == "asl" || mn == "lsr" || mn == "rol" || mn == "ror") {
      wipe(0);
      AnyCarry(n);
      return;
    } else if (mn == "cmp" || mn == "cpx" || mn == "cpy") {
      AnyCarry(n);
      return;
    } else if (mn == "lda" || mn == "and" || mn == "ora" || mn == "eor" || mn == "txa" || mn == "tya" || mn == "tdc" ||
               mn == "tsc" || mn == "xba" || ((mn == "inc" || mn == "dec") && w.acc)) wipe(0);
    else if (mn == "ldx" || mn == "tax" || mn == "tsx" || mn == "tyx" || mn == "inx" || mn == "dex") wipe(1);
    else if (mn == "ldy" || mn == "tay" || mn == "txy" || mn == "iny" || mn == "dey") wipe(2);
    else if (mn == "mvn" || mn == "mvp") for (int i = 0; i < 3; ++i) wipe(i);
    Push(n);
  }

 private:
  static void PushByte(Machine& s, int v) { if (!s.lost) s.stack.push_back(v); }
  static int PullByte(Machine& s) {
    if (s.lost || s.stack.empty()) return -1;
    int v = s.stack.back();
    s.stack.pop_back();
    return v;
  }
  static void PushReg(Machine& s, int i, bool narrow) {
    if (!narrow) PushByte(s, s.r[2 * i + 1]);
    PushByte(s, s.r[2 * i]);
  }
  static void PullReg(Machine& s, int i, bool narrow) {
    auto plain = [](int v) { return v > 255 ? -1 : v; };
    s.r[2 * i] = plain(PullByte(s));
    if (!narrow) s.r[2 * i + 1] = plain(PullByte(s));
  }
  void AnyCarry(Machine s) {
    for (int c = 0; c < 2; ++c) { s.c = c; Push(s); }
  }
  bool feasible_;
};

class Explorer : public Stepper {
 public:
  // feasible: follow bcc and bcs only as the carry says.
  Explorer(const Program& p, int file, bool feasible, Limits lim = Limits())
      : Stepper(feasible), p_(p), f_(p.files[file]), file_(file), lim_(lim) {
    b_.at.resize(f_.st.size());
  }
  Behaviour Run() {
    for (size_t i = 0; i < f_.st.size(); ++i) {
      if (f_.st[i].kind != ENTRY) continue;
      Machine s;
      s.pc = i + 1;
      from_ = i;
      ForMode(s, f_.st[i].mode, [&](const Machine& t) { Push(t); });
    }
    while (!todo_.empty()) {
      Machine s = std::move(todo_.back());
      todo_.pop_back();
      Step(s);
    }
    return std::move(b_);
  }

 private:
  void Push(Machine s) override {
    if (s.pc >= int(f_.st.size())) { b_.off_end = from_; return; }
    const Stmt& st = f_.st[s.pc];
    if (st.kind == DB || st.kind == DW || st.kind == DL || st.kind == ORG) { b_.into_data = s.pc; return; }
    Normalise(s);
    if (s.stack.size() > lim_.depth) { b_.complete = false; return; }
    if (b_.states >= lim_.states) { b_.complete = false; return; }
    if (!seen_.insert(s.Key()).second) return;
    ++b_.states;
    b_.at[s.pc].emxc.insert(s.e * 8 + s.m * 4 + s.x * 2 + s.c);
    todo_.push_back(std::move(s));
  }
  void Step(const Machine& s) {
    const Stmt& st = f_.st[s.pc];
    from_ = s.pc;
    if (st.kind == HALT) return;
    if (st.kind != INSN) {
      Machine n = s;
      ++n.pc;
      if (st.kind == MODE) ForMode(n, st.mode, [&](const Machine& t) { Push(t); });
      else Push(n);
      return;
    }
    What w;
    w.mn = st.mn;
    w.width_bound = WidthBound(st);
    w.acc = st.form == cpu::ACC;
    w.conv = st.conv;
    w.yields = st.yields;
    w.next = s.pc + 1;
    w.target = st.target;
    bool wants = st.mn == "rep" || st.mn == "sep" || st.mn == "pea" || ((st.mn == "lda" || st.mn == "ldx" || st.mn == "ldy") && w.width_bound);
    if (wants && !st.args.empty())
      w.known = Eval(st.args[0], [&](const Expr& e) -> std::optional<int64_t> {
        Ref r = Resolve(p_, file_, int(s.pc), e);
        if (r.file < 0) return {};
        const Stmt& d = p_.files[r.file].st[r.st];
        return d.kind == EQU ? d.value : std::nullopt;
      });
    Instruction(s, w);
  }
  const Program& p_;
  const Source& f_;
  int file_;
  Limits lim_;
  Behaviour b_;
  int from_ = -1;
  std::vector<Machine> todo_;
  std::unordered_set<std::string> seen_;
};

// Whether control can get to each statement by some path.
inline std::vector<bool> Reachable(const Source& f) {
  std::vector<bool> seen(f.st.size() + 1);
  std::vector<int> todo;
  for (size_t i = 0; i < f.st.size(); ++i) if (f.st[i].kind == ENTRY) todo.push_back(i + 1);
  while (!todo.empty()) {
    int i = todo.back();
    todo.pop_back();
    if (seen[i]) continue;
    seen[i] = true;
    if (i == int(f.st.size())) continue;
    if (IsBranch(f.st[i]) && f.st[i].target >= 0) todo.push_back(f.st[i].target);
    if (!IsExit(f.st[i])) todo.push_back(i + 1);
  }
  return seen;
}

// ---- what it assembles to ----
struct Image {
  std::map<uint32_t, uint8_t> bytes;
  bool overlap = false, bad_branch = false, unresolved = false;
};

inline int DataWidth(Kind k) { return k == DB ? 1 : k == DW ? 2 : k == DL ? 3 : 0; }

// Sizes; width(i) gives the number of operand bytes of a width-bound immediate.
template <typename W> void SizeFile(Source& f, W width) {
  for (size_t i = 0; i < f.st.size(); ++i) {
    Stmt& s = f.st[i];
    if (s.kind == INSN) {
      int n = WidthBound(s) ? width(int(i)) : cpu::OperandBytes(s.form);
      s.size = 1 + n + IsPseudo(s.mn);
    } else {
      s.size = DataWidth(s.kind) * int(s.args.size());
    }
  }
}
inline void PlaceFile(Source& f) {
  bool have = false;
  uint32_t pc = 0;
  for (Stmt& s : f.st) {
    if (s.kind == ORG) {
      have = true;
      pc = uint32_t(*Eval(s.args[0], [](const Expr&) { return std::optional<int64_t>(); })) & 0xffffff;
    }
    s.placed = have;
    s.addr = pc;
    s.value.reset();
    if (have && s.kind != EQU) s.value = pc;
    pc = (pc & 0xff0000) | ((pc + s.size) & 0xffff);
  }
}
// Values of .equ; false if some name has none.
inline bool EquValue(Program& p, int file, int st, std::set<std::pair<int, int>>& busy) {
  Stmt& s = p.files[file].st[st];
  if (s.value) return true;
  if (s.kind != EQU || !busy.insert({file, st}).second) return false;
  bool ok = true;
  auto v = Eval(s.args[0], [&](const Expr& e) -> std::optional<int64_t> {
    Ref r = Resolve(p, file, st, e);
    if (r.file < 0 || (r.file == file && p.files[r.file].st[r.st].kind == EQU && r.st >= st) ||
        !EquValue(p, r.file, r.st, busy)) {
      ok = false;
      return {};
    }
    return p.files[r.file].st[r.st].value;
  });
  busy.erase({file, st});
  if (!ok || !v) return false;
  s.value = v;
  return true;
}
inline bool EvaluateEqus(Program& p) {
  bool ok = true;
  for (size_t f = 0; f < p.files.size(); ++f)
    for (size_t i = 0; i < p.files[f].st.size(); ++i)
      if (p.files[f].st[i].kind == EQU) {
        std::set<std::pair<int, int>> busy;
        ok = EquValue(p, f, i, busy) && ok;
      }
  return ok;
}
inline Image Encode(const Program& p) {
  Image im;
  for (size_t f = 0; f < p.files.size(); ++f) {
    for (size_t i = 0; i < p.files[f].st.size(); ++i) {
      const Stmt& s = p.files[f].st[i];
      std::vector<uint8_t> out;
      auto val = [&](size_t a) -> int64_t {
        auto v = Eval(s.args[a], [&](const Expr& e) -> std::optional<int64_t> {
          Ref r = Resolve(p, f, i, e);
          return r.file < 0 ? std::nullopt : p.files[r.file].st[r.st].value;
        });
        if (!v) im.unresolved = true;
        return v.value_or(0);
      };
      auto put = [&](int64_t v, int n) { for (int k = 0; k < n; ++k) out.push_back(uint8_t(v >> (8 * k))); };
      if (s.kind == INSN) {
        if (s.mn == "add") out.push_back(0x18);
        if (s.mn == "sub") out.push_back(0x38);
        int op = cpu::FindOp(RealMn(s.mn), s.form);
        if (op < 0) { fprintf(stderr, "model has no %s/%d\n", s.mn.c_str(), s.form); exit(64); }
        out.push_back(op);
        int n = s.size - int(out.size());
        if (s.form == cpu::MOV) { put(val(1), 1); put(val(0), 1); }
        else if (s.form == cpu::REL8 || s.form == cpu::REL16) {
          int64_t t = val(0);
          int32_t d = int16_t(uint16_t(t - (s.addr + s.size)));
          if ((t >> 16) != int64_t(s.addr >> 16)) im.bad_branch = true;
          if (s.form == cpu::REL8 && (d < -128 || d > 127)) im.bad_branch = true;
          put(d, n);
        } else if (n > 0) put(val(0), n);
      } else {
        for (size_t a = 0; a < s.args.size() && DataWidth(s.kind); ++a) put(val(a), DataWidth(s.kind));
        if (s.kind == REMOTE) val(0);
      }
      for (size_t k = 0; k < out.size(); ++k) {
        uint32_t at = (s.addr & 0xff0000) | ((s.addr + k) & 0xffff);
        if (!im.bytes.emplace(at, out[k]).second) im.overlap = true;
      }
    }
  }
  return im;
}

// ---- how it may be spelled ----
inline std::string Case(const std::string& s, Rng& r) {
  std::string t = s;
  int k = r.Below(4);
  for (char& c : t) if (k == 1 || (k == 2 && r.Coin())) c = toupper(c);
  return t;
}
inline std::string Spell(const Stmt& s, Rng& r) {
  auto arg = [&](size_t i) { return Text(s.args[i], 0, r); };
  auto conv = [&]() -> std::string {
    if (s.conv == 1) return " " + Case("yields", r) + " " + Case(ModeText(s.yields), r);
    return s.conv == 2 ? " " + Case("noreturn", r) : "";
  };
  switch (s.kind) {
    case INSN: {
      std::string t = Case(s.mn, r);
      if (s.suffix) t += std::string(".") + (r.Coin() ? char(toupper(s.suffix)) : s.suffix);
      std::string o = s.form == cpu::ACC ? (r.Coin() ? "a" : "") :
          cpu::OperandText(s.form, s.args.size() > 0 ? arg(0) : "", s.args.size() > 1 ? arg(1) : "");
      std::string spaced;
      // Registers in either case, more or less space around punctuation.
      for (size_t i = 0; i < o.size(); ++i) {
        if (o[i] == ' ' && o[i - 1] == ',' && r.Coin()) continue;
        bool reg = (i + 1 == o.size() || !(isalnum(o[i + 1]) || o[i + 1] == '_' || o[i + 1] == ':')) &&
                   (i == 0 || o[i - 1] == ' ' || o[i - 1] == ',') && strchr("XYSA", o[i]) && o[i];
        spaced += reg && r.Coin() ? char(tolower(o[i])) : o[i];
        if (o[i] == ',' && r.Chance(1, 6)) spaced += "\t";
      }
      if (!spaced.empty()) t += (isalnum(spaced[0]) || spaced[0] == '_' || r.Chance(4, 5) ? r.Chance(1, 8) ? "   " : " " : "") + spaced;
      return t + conv();
    }
    case DB: case DW: case DL: {
      if (s.args.empty()) return "";  // only labels, at the end of a file
      std::string t = Case(s.kind == DB ? ".db" : s.kind == DW ? ".dw" : ".dl", r) + " ";
      for (size_t i = 0; i < s.args.size(); ++i) t += (i ? r.Coin() ? ", " : "," : "") + arg(i);
      return t;
    }
    case ORG: return Case(".org", r) + " " + arg(0);
    case ENTRY: return Case(".entry", r) + " " + Case(ModeText(s.mode), r) + conv();
    case EQU: return Case(".equ", r) + " " + arg(0);
    case MODE: return Case(".mode", r) + " " + Case(ModeText(s.mode), r);
    case MODULE: return Case(".module", r) + " " + s.raw;
    case REMOTE: return Case(".remote", r) + " " + arg(0) + " " + Case(ModeText(s.mode), r) + conv();
    case HALT: return Case(".halt", r);
    case BEGIN: return r.Coin() ? "{" : Case(".begin", r);
    case END: return r.Coin() ? "}" : Case(".end", r);
    case RAW: return s.raw;
  }
  return "?";
}
// Writes the file's text and notes each statement's line.  plain: one
// statement to a line.
inline void Render(Source& f, Rng& r, bool plain) {
  std::string out, line;
  int lineno = 1;
  bool crlf = r.Chance(1, 12);
  auto flush = [&] {
    if (r.Chance(1, 8)) line += std::string(r.Coin() ? " " : "") + "; " + (r.Coin() ? "nop : rts }" : "don't \"stop\"");
    out += line + (crlf ? "\r\n" : "\n");
    line.clear();
    ++lineno;
    if (!plain && r.Chance(1, 12)) { out += r.Coin() ? "\n" : "   ; a comment: lda #1\n"; ++lineno; }
  };
  bool open = false;  // the line has a statement that must be separated from the next
  for (Stmt& s : f.st) {
    bool brace_after = false;
    if (!line.empty()) {
      bool join = !plain && r.Chance(1, 5);
      if (join) line += open ? r.Coin() ? " : " : ":" : " ";
      if (join && r.Chance(1, 8)) line += r.Coin() ? " : " : " : : ";  // an empty statement
      else flush();
    }
    s.first = lineno;
    for (size_t i = 0; i < s.labels.size(); ++i) {
      const Label& l = s.labels[i];
      std::string t = (l.exported ? Case("export", r) + " " : "") + l.name;
      bool last = i + 1 == s.labels.size();
      if (!plain && r.Chance(1, 4)) {  // on a line of its own
        line += t + (r.Coin() ? ":" : "");
        flush();
      } else if (last && r.Coin()) {
        line += t + (s.kind == BEGIN || s.kind == END || s.kind == RAW ? ": " : " ");
      } else {
        line += t + (r.Chance(1, 5) ? " : " : ": ");
      }
    }
    if (line.empty() && r.Coin()) line += r.Coin() ? "  " : "\t";
    if (!plain && r.Chance(1, 40)) line += " : ";
    std::string t = Spell(s, r);
    line += t;
    s.line = lineno;
    brace_after = t == "{" || t == "}";
    open = !brace_after;
  }
  if (!line.empty()) {
    if (!plain && open && r.Chance(1, 10)) line += " :";
    flush();
  }
  if (!plain && r.Chance(1, 5) && !out.empty()) out.pop_back();  // no end of line
  f.text = out;
}

}  // namespace prog
