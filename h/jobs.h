// Memories and entries for the disassembler, and driving it as the tools do.
#pragma once
#include "h/assemble.h"
#include "h/exec.h"
#include "h/flowgen.h"
#include "nsasm/disassemble.h"

using namespace prog;
using vf::R;

namespace {

class MemSource : public nsasm::InputSource {
 public:
  explicit MemSource(const Memory* m) : m_(m) {}
  std::string Path() const override { return "mem"; }
  nsasm::ErrorOr<std::vector<uint8_t>> Read(nsasm::Address a, int n) const override {
    uint32_t at = (uint32_t(a.Bank()) << 16) | a.BankAddress();
    std::vector<uint8_t> out;
    for (int i = 0; i < n; ++i) {
      auto b = m_->At(InBank(at, i));
      if (!b) return nsasm::Error("nothing there");
      out.push_back(*b);
    }
    return out;
  }

 private:
  const Memory* m_;
};

nsasm::BitState ToBit(int v) { return v == 2 ? nsasm::B_unknown : v ? nsasm::B_on : nsasm::B_off; }
nsasm::StatusFlags ToFlags(const Mode3& m) { return nsasm::StatusFlags(ToBit(m.e), ToBit(m.m), ToBit(m.x)); }
int FromBit(nsasm::BitState b) { return b == nsasm::B_on ? 1 : b == nsasm::B_off ? 0 : 2; }
bool Admits(nsasm::BitState b, int v) { return FromBit(b) == 2 || FromBit(b) == v; }
bool Admits(const nsasm::StatusFlags& f, int emxc, bool carry = true) {
  return Admits(f.EBit(), Bit(emxc, 3)) && Admits(f.MBit(), Bit(emxc, 2)) && Admits(f.XBit(), Bit(emxc, 1)) &&
         (!carry || Admits(f.CBit(), Bit(emxc, 0)));
}
uint32_t Int(nsasm::Address a) { return (uint32_t(a.Bank()) << 16) | a.BankAddress(); }
std::string Emxc(int s) { return Fmt("e=%d m=%d x=%d c=%d", Bit(s, 3), Bit(s, 2), Bit(s, 1), Bit(s, 0)); }

struct Seed { uint32_t addr; Mode3 mode; bool must = false; };
struct Job {
  Memory mem;
  std::vector<Seed> seeds;
  std::map<uint32_t, Conv> convs;
  std::string origin;
};

std::string Show(const Job& j) {
  std::string s = "seeds:";
  for (auto& q : j.seeds) s += Fmt(" $%06x %s%s", q.addr, ModeText(q.mode).c_str(), q.must ? "!" : "");
  s += "\nconventions:";
  for (auto& c : j.convs) s += Fmt(" $%06x %s", c.first, c.second.kind == 2 ? "noreturn" : c.second.kind ? ("yields " + ModeText(c.second.yields)).c_str() : "-");
  std::map<uint32_t, uint8_t> sorted(j.mem.bytes.begin(), j.mem.bytes.end());
  uint32_t next = ~0u;
  for (auto& b : sorted) {
    if (b.first != next) s += Fmt("\n$%06x:", b.first);
    s += Fmt(" %02x", b.second);
    next = b.first + 1;
  }
  return s + (j.mem.filled ? "\nelsewhere: random\n" : "\nelsewhere: nothing\n") + j.origin;
}

std::string Snapshot(const nsasm::Disassembler& d) {
  std::string s;
  for (auto& n : d.Result()) {
    auto& v = n.second;
    s += Fmt("%06x %s| %s |%d ", Int(n.first), v.label.c_str(), v.instruction.ToString().c_str(), v.is_entry) +
         nsx::FlagText(v.current_execution_state.Flags()) + nsx::FlagText(v.next_execution_state.Flags()) + "\n";
  }
  return s;
}

struct Drive {
  std::optional<nsasm::Disassembler> d;
  std::vector<std::pair<Seed, int>> done;   // successful starts; the carry
  std::map<uint32_t, nsasm::StatusFlags> far;
  bool failed_must = false;
  std::string error;
};

// As the tools do: the places found are tried next, several times over.
void Go(const Job& j, int passes, Drive* out) {
  out->d.emplace(std::make_unique<MemSource>(&j.mem));
  std::map<nsasm::Address, nsasm::ReturnConvention> conv;
  for (auto& c : j.convs)
    if (c.second.kind == 1) conv.emplace(nsasm::Address(c.first), nsasm::ReturnConvention(ToFlags(c.second.yields)));
    else if (c.second.kind == 2) conv.emplace(nsasm::Address(c.first), nsasm::ReturnConvention(nsasm::NoReturn()));
  out->d->AddTargetReturnConventions(conv);
  std::vector<std::pair<Seed, nsasm::StatusFlags>> now;
  for (auto& s : j.seeds) now.push_back({s, ToFlags(s.mode)});
  for (int pass = 0; pass < passes && !now.empty(); ++pass) {
    std::map<nsasm::Address, nsasm::StatusFlags> next;
    for (auto& [s, flags] : now) {
      std::string before = Snapshot(*out->d);
      auto t = out->d->Disassemble(nsasm::Address(s.addr), flags);
      if (!t.ok()) {
        ++R().Count("refused");
        if (s.must && !out->failed_must) {
          out->failed_must = true;
          out->error = Fmt("$%06x %s: ", s.addr, ModeText(s.mode).c_str()) + t.error().ToString();
        }
        if (Snapshot(*out->d) != before) out->error = "changed", R().Violation("failure-changes", "a disassembly that failed changed the listing");
        continue;
      }
      ++R().Count("disassemblies");
      Seed k = s;
      k.mode.e = FromBit(flags.EBit()), k.mode.m = FromBit(flags.MBit()), k.mode.x = FromBit(flags.XBit());
      out->done.push_back({k, FromBit(flags.CBit())});
      for (auto& q : *t) {
        auto it = out->far.find(Int(q.first));
        if (it == out->far.end()) out->far.emplace(Int(q.first), q.second);
        else it->second |= q.second;
        auto n = next.find(q.first);
        if (n == next.end()) next.emplace(q.first, q.second);
        else n->second |= q.second;
      }
    }
    now.clear();
    for (auto& q : next) now.push_back({Seed{Int(q.first), {}, false}, q.second});
  }
}

// The listing as the command-line tools print it.
// names: the operands of PER are given these instead.
std::string Listing(const nsasm::DisassemblyMap& map, std::string* names = nullptr) {
  std::string s;
  int k = 0;
  std::optional<uint32_t> pc;
  for (auto& n : map) {
    uint32_t at = Int(n.first);
    if (!pc || *pc != at) s += "         .org " + n.first.ToString() + "\n";
    std::string label = n.second.label;
    if (!label.empty()) label += ':';
    if (n.second.is_entry) {
      s += label + " .entry " + n.second.current_execution_state.Flags().ToName() + "\n";
      label.clear();
    }
    std::string text = n.second.instruction.ToString();
    if (names && n.second.instruction.mnemonic == nsasm::M_per) {
      auto d = n.second.instruction.arg1.Evaluate(nsasm::NullLookupContext());
      text = Fmt("per p%d", ++k);
      *names += Fmt("p%d .equ $%06x\n", k, InBank(at, 3 + (d.ok() ? *d : 0)));
    }
    s += label + " " + text + "\n";
    pc = InBank(at, n.second.instruction.SerializedSize());
  }
  return s;
}

// ---- what is disassembled ----
Mode3 AnyMode(Rng& r) {
  Mode3 m;
  int k = r.Below(8);
  if (k == 0) return m;
  if (k == 1) { m.e = m.m = m.x = 1; return m; }
  m.e = 0;
  m.m = r.Chance(1, 5) ? 2 : r.Below(2);
  m.x = r.Chance(1, 5) ? 2 : r.Below(2);
  return m;
}
// Where the calls that could execute go.
std::set<uint32_t> Callees(const Job& j) {
  const std::map<uint32_t, Conv> none;
  ByteExplorer x(j.mem, none, false, Limits{1500, 10});
  for (auto& s : j.seeds) x.Seed(s.addr, s.mode, 2);
  std::set<uint32_t> out;
  Trace tr = x.Run();
  for (auto& t : tr.far) out.insert(t.first);
  return out;
}

void FromProgram(const Program& p, bool well_formed, Rng& r, Job* j) {
  Image im = Encode(p);
  for (auto& b : im.bytes) j->mem.bytes.emplace(b.first, b.second);
  bool must = well_formed && !im.overlap && !im.bad_branch && !im.unresolved;
  std::map<uint32_t, Conv> convs;
  std::map<uint32_t, std::string> said;
  for (size_t f = 0; f < p.files.size(); ++f) {
    for (size_t i = 0; i < p.files[f].st.size(); ++i) {
      const Stmt& s = p.files[f].st[i];
      if (s.kind == MODE || s.kind == HALT) must = false;
      if (s.kind == ENTRY && i + 1 < p.files[f].st.size()) j->seeds.push_back({s.addr, s.mode, true});
      if (s.kind != INSN) continue;
      bool direct = (s.mn == "jsr" && s.form == cpu::ABS) || (s.mn == "jsl" && s.form == cpu::LNG);
      if (s.conv && !direct) must = false;
      if (!direct) continue;
      auto code = Fetch(j->mem, s.addr, true, true);
      if (!code || !code->far) { must = false; continue; }
      std::string k = s.conv == 1 ? ModeText(s.yields) : Fmt("%d", s.conv);
      if (!said.emplace(*code->far, k).second && said[*code->far] != k) must = false;
      if (s.conv) convs[*code->far] = {s.conv, s.yields};
    }
  }
  j->convs = convs;
  for (auto& s : j->seeds) s.must = must;
  r.Shuffle(j->seeds);
  if (must) ++R().Count("must_succeed");
}

void RandomCode(Rng& r, Job* j) {
  // A palette of opcodes, so that a program stays with a few kinds.
  static const std::vector<std::string> flow = {"rep", "sep", "clc", "sec", "xce", "php", "plp", "bcc", "bcs", "beq", "bra", "brl", "adc", "sbc", "lda", "ldx", "jsr", "jsl", "jmp", "per", "pha", "pla"};
  int blobs = 1 + r.Below(3);
  std::vector<uint32_t> starts;
  uint32_t bank = r.Below(256);
  for (int b = 0; b < blobs; ++b) {
    int n = 3 + r.Below(30);
    uint32_t from = r.Chance(1, 3) ? 0x10000 - r.Below(n * 2 + 1) : r.Below(0x10000);
    from = (bank << 16) | (from & 0xffff);
    if (r.Chance(1, 4)) bank = r.Below(256);
    uint32_t pc = from;
    std::vector<uint32_t> at;
    for (int i = 0; i < n; ++i) {
      at.push_back(pc);
      int op = r.Below(256);
      if (r.Chance(2, 3)) {
        std::string mn = r.Pick(flow);
        for (int t = 0; t < 400 && mn != cpu::kOps[op].mn; ++t) op = r.Below(256);
      }
      bool exit = cpu::IsExit(cpu::kOps[op].mn);
      if (exit && r.Chance(2, 3)) op = 0xea;
      if (i + 1 == n) op = r.Pick({0x60, 0x6b, 0x40, 0xdb, 0x4c, 0x5c, 0x80, 0x82, 0x6c});
      std::vector<uint8_t> bytes = {uint8_t(op)};
      const cpu::Op& o = cpu::kOps[op];
      int k = cpu::OperandBytes(o.mode, r.Coin(), r.Coin());
      for (int q = 0; q < k; ++q) bytes.push_back(r.Chance(1, 4) ? r.Pick({0x00, 0x30, 0x20, 0x10, 0xff, 0x80, 0x18, 0x38, 0x69}) : r.Below(256));
      std::string mn = o.mn;
      if (mn == "rep" || mn == "sep") bytes[1] = r.Pick({0x30, 0x20, 0x10, 0x31, 0x00, 0xff});
      if (o.mode == cpu::REL8 || o.mode == cpu::REL16) {
        int d = r.Chance(3, 4) ? r.Range(-12, 12) : r.Range(-128, 127);
        if (r.Chance(1, 2) && !at.empty()) d = int16_t(at[r.Below(at.size())] - (pc + 1 + k));
        if (o.mode == cpu::REL8 && (d < -128 || d > 127)) d = -2;
        bytes[1] = d;
        if (k == 2) bytes[2] = d >> 8;
      }
      if ((mn == "jsr" || mn == "jsl" || mn == "jmp") && r.Coin()) {
        uint32_t t = r.Coin() && !starts.empty() ? r.Pick(starts) : r.Pick(at);
        bytes[1] = t, bytes[2] = t >> 8;
        if (k == 3) bytes[3] = t >> 16;
      }
      for (uint8_t v : bytes) { j->mem.bytes[pc] = v; pc = InBank(pc, 1); }
    }
    starts.push_back(at[0]);
    j->seeds.push_back({at[0], AnyMode(r), false});
    if (r.Chance(1, 3)) j->seeds.push_back({r.Pick(at), AnyMode(r), false});
  }
}

// Carry set or cleared before an addition or subtraction, entered at either.
void CarryPairs(Rng& r, Gen& g) {
  Source& f = g.p.files[0];
  for (int n = 1 + r.Below(3); n > 0; --n) {
    int at = 2 + r.Below(f.st.size() - 1);
    if (at > int(f.st.size()) || IsExit(f.st[at - 1])) continue;
    auto alu = [&] {
      std::string mn = r.Pick({"adc", "sbc"});
      return r.Chance(1, 3) ? Insn(mn, cpu::IMMM, {Num(r.Below(256), 0)}) : Insn(mn, cpu::D, {Num(r.Below(256), 1)});
    };
    Insert(f, at, alu());
    if (r.Chance(1, 6)) { Stmt e = Dir(ENTRY); e.mode = AnyMode(r); Insert(f, at, e); }
    Insert(f, at, Insn(r.Pick({"clc", "sec"})));
    std::vector<int> branches;
    for (size_t i = 0; i < f.st.size(); ++i) if (IsBranch(f.st[i])) branches.push_back(i);
    if (r.Coin()) Insert(f, at, g.BranchTo(r.Pick({"beq", "bne", "bcc", "bcs"}), at + int(r.Below(2)))), branches.clear();
    else if (!branches.empty() && r.Coin()) f.st[r.Pick(branches)].target = at + r.Below(2);
    ++R().Count("carry_pairs");
  }
}

// False if nothing came of it.
bool MakeJob(Rng& r, Job* out) {
  Job& j = *out;
  j.mem.filled = r.Chance(1, 3);
  j.mem.salt = r.Next();
  int style = r.Below(6);
  if (style < 2) {
    Gen g(r);
    Program p;
    if (!g.WellFormed(&p, 2, r.Chance(1, 20) ? 30 : 7)) { ++R().Count("generator_retries"); return false; }
    for (auto& f : p.files) Render(f, r, true);
    j.origin = ShowText(p);
    FromProgram(p, true, r, &j);
    ++R().Count("structured");
  } else if (style < 4) {
    Gen g(r);
    g.p = Program();
    Source f;
    f.path = "w.asm";
    g.p.files.push_back(f);
    g.has_k = r.Chance(1, 6);
    if (r.Chance(1, 3)) Joined(r, g);
    else if (r.Coin()) Stacked(r, g, 1 + r.Below(4));
    else Random(r, g, r.Coin() ? 10 : 24);
    if (r.Chance(1, 3)) CarryPairs(r, g);
    if (g.has_k) MaskNames(r, g);
    if (!g.Finish(true)) { ++R().Count("generator_retries"); return false; }
    for (auto& q : g.p.files) Render(q, r, true);
    j.origin = ShowText(g.p);
    FromProgram(g.p, false, r, &j);
    ++R().Count("flow");
  } else {
    RandomCode(r, &j);
    ++R().Count("random_bytes");
  }
  if (j.seeds.empty()) { ++R().Count("no_entry"); return false; }
  bool changed = false;
  if (r.Chance(1, 4)) {
    std::vector<uint32_t> at;
    for (auto& b : j.mem.bytes) at.push_back(b.first);
    std::sort(at.begin(), at.end());
    for (int n = 1 + r.Below(3); n > 0 && !at.empty(); --n) {
      uint32_t a = r.Pick(at);
      if (r.Chance(1, 5)) j.mem.bytes.erase(a);
      else j.mem.bytes[a] = r.Below(256);
    }
    changed = true;
    ++R().Count("mutated");
  }
  if (r.Chance(1, 4)) {
    auto t = Callees(j);
    for (uint32_t a : t) {
      if (r.Coin()) continue;
      Conv c;
      c.kind = 1 + r.Below(2);
      if (c.kind == 1) c.yields = AnyMode(r);
      j.convs[a] = c;
      changed = true;
    }
  }
  if (changed) for (auto& s : j.seeds) s.must = false;
  if (r.Chance(1, 4)) {
    std::vector<uint32_t> at;
    for (auto& b : j.mem.bytes) at.push_back(b.first);
    std::sort(at.begin(), at.end());
    if (!at.empty()) j.seeds.push_back({r.Pick(at), AnyMode(r), false});
  }
  return true;
}

}  // namespace
