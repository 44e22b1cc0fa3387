// Executes the bytes of a memory, following sets of concrete machine states.
#pragma once
#include <unordered_map>

#include "h/prog.h"

namespace prog {

struct Memory {
  std::unordered_map<uint32_t, uint8_t> bytes;
  bool filled = false;   // elsewhere: some byte, or nothing readable
  uint64_t salt = 0;
  std::optional<uint8_t> At(uint32_t a) const {
    auto it = bytes.find(a);
    if (it != bytes.end()) return it->second;
    if (!filled) return {};
    return uint8_t(vf::Mix64(a ^ salt));
  }
};
inline uint32_t InBank(uint32_t a, int64_t off) { return (a & 0xff0000) | ((a + uint32_t(off)) & 0xffff); }

struct Conv { int kind = 0; Mode3 yields; };

// One instruction as its bytes say, with known widths.
struct Code {
  int op = 0, length = 0;
  const cpu::Op* what = nullptr;
  int64_t operand = 0;           // as written; signed for branches and per
  std::optional<uint32_t> branch, far;
};
inline std::optional<Code> Fetch(const Memory& mem, uint32_t pc, bool m8, bool x8) {
  auto op = mem.At(pc);
  if (!op) return {};
  Code c;
  c.op = *op;
  c.what = &cpu::kOps[*op];
  int n = cpu::OperandBytes(c.what->mode, m8, x8);
  c.length = 1 + n;
  for (int i = 0; i < n; ++i) {
    auto b = mem.At(InBank(pc, 1 + i));
    if (!b) return {};
    c.operand |= int64_t(*b) << (8 * i);
  }
  if (c.what->mode == cpu::REL8) c.operand = int8_t(c.operand);
  if (c.what->mode == cpu::REL16) c.operand = int16_t(c.operand);
  std::string mn = c.what->mn;
  if (cpu::IsBranch(mn)) c.branch = InBank(pc, c.length + c.operand);
  if (mn == "jmp" || mn == "jsr" || mn == "jsl") {
    if (c.what->mode == cpu::ABS) c.far = (pc & 0xff0000) | uint32_t(c.operand);
    if (c.what->mode == cpu::LNG) c.far = uint32_t(c.operand);
  }
  return c;
}

struct Trace {
  std::map<uint32_t, std::set<int>> at, after, far;  // e*8 + m*4 + x*2 + c; after: on falling through
  bool unreadable = false, complete = true;
  size_t states = 0;
};
inline int Bit(int emxc, int bit) { return (emxc >> bit) & 1; }

class ByteExplorer : public Stepper {
 public:
  ByteExplorer(const Memory& mem, const std::map<uint32_t, Conv>& convs, bool feasible, Limits lim = Limits())
      : Stepper(feasible), mem_(mem), convs_(convs), lim_(lim) {}
  void Seed(uint32_t addr, const Mode3& mode, int c) {
    Machine s;
    s.pc = addr;
    from_ = ~0u;
    ForMode(s, mode, [&](const Machine& t) { if (c == 2 || t.c == c) Push(t); });
  }
  Trace Run() {
    while (!todo_.empty()) {
      Machine s = std::move(todo_.back());
      todo_.pop_back();
      Step(s);
    }
    return std::move(t_);
  }

 private:
  static int Emxc(const Machine& s) { return s.e * 8 + s.m * 4 + s.x * 2 + s.c; }
  void Push(Machine s) override {
    Normalise(s);
    if (from_ != ~0u && uint32_t(s.pc) == next_) t_.after[from_].insert(Emxc(s));
    if (s.stack.size() > lim_.depth || t_.states >= lim_.states) { t_.complete = false; return; }
    if (!seen_.insert(s.Key()).second) return;
    ++t_.states;
    t_.at[s.pc].insert(Emxc(s));
    todo_.push_back(std::move(s));
  }
  void Step(const Machine& s) {
    auto c = Fetch(mem_, s.pc, s.m, s.x);
    if (!c) { t_.unreadable = true; return; }
    from_ = s.pc;
    next_ = InBank(s.pc, c->length);
    if (c->far) t_.far[*c->far].insert(Emxc(s));
    What w;
    w.mn = c->what->mn;
    w.width_bound = c->what->mode == cpu::IMMM || c->what->mode == cpu::IMMX;
    w.acc = c->what->mode == cpu::ACC;
    w.known = c->operand;
    w.next = next_;
    if (c->branch) w.target = *c->branch;
    if (c->far && w.mn != "jmp") {
      auto v = convs_.find(*c->far);
      if (v != convs_.end()) { w.conv = v->second.kind; w.yields = v->second.yields; }
    }
    Instruction(s, w);
  }
  const Memory& mem_;
  const std::map<uint32_t, Conv>& convs_;
  Limits lim_;
  Trace t_;
  uint32_t from_ = ~0u, next_ = 0;
  std::vector<Machine> todo_;
  std::unordered_set<std::string> seen_;
};

}  // namespace prog
