// C22, C23: the disassembler, watched against a concrete execution of the same
// bytes, and its listing assembled again.
#include "h/jobs.h"

namespace {

// What is wrong with a listed instruction, given the widths it has.
std::string Wrong(const Job& j, const nsasm::DisassemblyMap& map, uint32_t at, const nsasm::DisassembledInstruction& di, bool m8, bool x8) {
  auto c = Fetch(j.mem, at, m8, x8);
  if (!c) return "is not readable";
  const nsasm::Instruction& ins = di.instruction;
  if (nsx::Lower(std::string(nsasm::ToString(ins.mnemonic))) != c->what->mn) return Fmt("is %s, not %s", c->what->mn, std::string(nsasm::ToString(ins.mnemonic)).c_str());
  nsasm::AddressingMode want = nsx::ToNs(c->what->mode);
  if (want == nsasm::A_imm_fm) want = m8 ? nsasm::A_imm_b : nsasm::A_imm_w;
  if (want == nsasm::A_imm_fx) want = x8 ? nsasm::A_imm_b : nsasm::A_imm_w;
  if (ins.addressing_mode != want) return "has another operand form: " + ins.ToString();
  if (ins.SerializedSize() != c->length) return "has another length";
  if (c->branch) {
    auto t = map.find(nsasm::Address(*c->branch));
    if (t == map.end()) return Fmt("branches to $%06x, which is not listed", *c->branch);
    if (t->second.label.empty() || ins.arg1.ToString() != t->second.label) return Fmt("does not name its target $%06x", *c->branch);
    return "";
  }
  if (c->what->mode == cpu::MOV) {
    auto a = ins.arg1.Evaluate(nsasm::NullLookupContext()), b = ins.arg2.Evaluate(nsasm::NullLookupContext());
    if (!a.ok() || !b.ok() || *a != ((c->operand >> 8) & 0xff) || *b != (c->operand & 0xff)) return "has other operands: " + ins.ToString();
    return "";
  }
  if (c->length > 1) {
    auto v = ins.arg1.Evaluate(nsasm::NullLookupContext());
    // A relative operand may also be shown as the place it leads to.
    if (!v.ok() || (*v != c->operand && !(c->what->mode == cpu::REL16 && uint32_t(*v) == InBank(at, c->length + c->operand))))
      return "has another operand: " + ins.ToString();
  }
  return "";
}

void Watch(const Job& j, Drive& v) {
  const nsasm::DisassemblyMap& map = v.d->Result();
  if (v.failed_must) { R().Violation("refused", "refuses code with known widths throughout: " + v.error); return; }
  if (v.done.empty()) { ++R().Count("nothing_listed"); return; }
  ByteExplorer real(j.mem, j.convs, true), loose(j.mem, j.convs, false);
  for (auto& s : v.done) {
    real.Seed(s.first.addr, s.first.mode, s.second);
    loose.Seed(s.first.addr, s.first.mode, s.second);
  }
  Trace t = real.Run(), l = loose.Run();
  R().Count("states_followed") += t.states;
  if (!t.complete) ++R().Count("exploration_cut");
  if (t.unreadable) { R().Violation("unreadable", "lists code that executes where nothing can be read"); return; }
  for (auto& a : t.at) {
    auto it = map.find(nsasm::Address(a.first));
    if (it == map.end()) { R().Violation("missing", Fmt("$%06x executes and is not listed", a.first)); return; }
    for (int s : a.second) {
      ++R().Count("instructions_executed");
      std::string w = Wrong(j, map, a.first, it->second, Bit(s, 2), Bit(s, 1));
      if (!w.empty()) { R().Violation("decoded", Fmt("$%06x executed with %s %s", a.first, Emxc(s).c_str(), w.c_str())); return; }
      if (!Admits(it->second.current_execution_state.Flags(), s)) {
        R().Violation("state", Fmt("$%06x executes with %s, listed with ", a.first, Emxc(s).c_str()) + nsx::FlagText(it->second.current_execution_state.Flags()));
        return;
      }
      if (it->second.instruction.suffix != nsasm::S_none) {
        char k = cpu::WidthOf(cpu::kOps[*j.mem.At(a.first)].mn);
        bool b = it->second.instruction.suffix == nsasm::S_b;
        if (!k || b != bool(Bit(s, k == 'm' ? 2 : 1))) { R().Violation("suffix", Fmt("$%06x executes with %s, listed as ", a.first, Emxc(s).c_str()) + it->second.instruction.ToString()); return; }
        ++R().Count("suffixes");
      }
    }
    R().Seen("opcodes", Fmt("%02x", *j.mem.At(a.first)));
  }
  for (auto& a : t.after)
    for (int s : a.second) {
      auto it = map.find(nsasm::Address(a.first));
      if (it != map.end() && !Admits(it->second.next_execution_state.Flags(), s, false)) {
        R().Violation("next-state", Fmt("$%06x leaves %s, listed as leaving ", a.first, Emxc(s).c_str()) + nsx::FlagText(it->second.next_execution_state.Flags()));
        return;
      }
    }
  for (auto& a : t.far) {
    auto it = v.far.find(a.first);
    if (it == v.far.end()) { R().Violation("target-missing", Fmt("a jump to $%06x executes and is not reported", a.first)); return; }
    ++R().Count("far_targets");
    for (int s : a.second)
      if (!Admits(it->second, s)) {
        R().Violation("target-state", Fmt("$%06x is entered with %s, reported with ", a.first, Emxc(s).c_str()) + nsx::FlagText(it->second));
        return;
      }
  }
  // Nothing is listed but what flow leads to, whatever the conditions.
  std::map<std::string, uint32_t> labels;
  for (auto& n : map) {
    uint32_t at = Int(n.first);
    const auto& f = n.second.current_execution_state.Flags();
    if (!n.second.label.empty() && !labels.emplace(n.second.label, at).second) { R().Violation("label-twice", n.second.label); return; }
    if (l.complete && !l.at.count(at)) { R().Violation("extra", Fmt("$%06x is listed, and nothing leads there\n", at) + Snapshot(*v.d)); return; }
    if (t.at.count(at)) continue;
    ++R().Count("listed_unexecuted");
    std::string w = Wrong(j, map, at, n.second, f.MBit() != nsasm::B_off, f.XBit() != nsasm::B_off);
    if (!w.empty()) { R().Violation("decoded", Fmt("$%06x ", at) + w); return; }
  }
  if (l.complete && !l.unreadable)
    for (auto& q : v.far) {
      if (!l.far.count(q.first)) { R().Violation("target-extra", Fmt("$%06x is reported, and nothing jumps there", q.first)); return; }
    }
  // Where only rep and sep (and what callees declare) change the widths, each
  // point's are known exactly.
  bool plain = l.complete;
  std::set<int> es;
  for (auto& a : l.at) {
    std::string mn = cpu::kOps[j.mem.At(a.first).value_or(0xea)].mn;
    if (mn == "plp" || mn == "xce") plain = false;
    for (int s : a.second) es.insert(Bit(s, 3));
  }
  if (plain && es.size() == 1) {
    ++R().Count("exact");
    auto exact = [&](const std::set<int>& s, const nsasm::StatusFlags& f) {
      for (int bit : {1, 2}) {
        std::set<int> b;
        for (int k : s) b.insert(Bit(k, bit));
        if (b.size() == 1 && FromBit(bit == 2 ? f.MBit() : f.XBit()) == 2) return false;
      }
      return true;
    };
    for (auto& a : l.at) {
      auto it = map.find(nsasm::Address(a.first));
      if (it != map.end() && !exact(a.second, it->second.current_execution_state.Flags())) {
        R().Violation("vague", Fmt("the widths at $%06x are one and the same, yet listed as ", a.first) + nsx::FlagText(it->second.current_execution_state.Flags()));
        return;
      }
    }
    for (auto& a : l.far) {
      auto it = v.far.find(a.first);
      if (it != v.far.end() && !exact(a.second, it->second)) {
        R().Violation("vague", Fmt("the widths on entry to $%06x are one and the same, yet reported as ", a.first) + nsx::FlagText(it->second));
        return;
      }
    }
  }
  R().Distinct(Show(j));
  R().MaybeSample(Show(j) + Snapshot(*v.d));
  // The places shown as entries are those it was started from.
  auto e = v.d->Cleanup();
  if (!e.ok()) { R().Violation("cleanup", e.error().ToString()); return; }
  // Two instructions shown as one leave what the second one leaves.
  for (auto& n : v.d->Result()) {
    if (n.second.instruction.mnemonic != nsasm::PM_add && n.second.instruction.mnemonic != nsasm::PM_sub) continue;
    auto after = t.after.find(InBank(Int(n.first), 1));
    if (after == t.after.end()) continue;
    ++R().Count("folded");
    for (int s : after->second)
      if (!Admits(n.second.next_execution_state.Flags(), s, false)) {
        R().Violation("next-state", Fmt("the pair at $%06x leaves %s, listed as leaving ", Int(n.first), Emxc(s).c_str()) + nsx::FlagText(n.second.next_execution_state.Flags()));
        return;
      }
  }
  std::set<uint32_t> starts, shown;
  for (auto& s : v.done) starts.insert(s.first.addr);
  for (auto& n : v.d->Result()) if (n.second.is_entry) shown.insert(Int(n.first));
  R().Count("entries") += starts.size();
  for (uint32_t a : starts) if (!shown.count(a)) { R().Violation("entry-missing", Fmt("$%06x is not shown as an entry", a)); return; }
  for (uint32_t a : shown) if (!starts.count(a)) { R().Violation("failure-changes", Fmt("$%06x is shown as an entry, though disassembling from there failed", a)); return; }
}

void Reassemble(const Job& j, Drive& v) {
  if (v.done.empty()) { ++R().Count("nothing_listed"); return; }
  // What the listing covers.
  std::map<uint32_t, uint8_t> want;
  bool overlap = false, wraps = false, vague = false;
  for (auto& n : v.d->Result()) {
    uint32_t at = Int(n.first);
    const auto& ins = n.second.instruction;
    const auto& f = n.second.current_execution_state.Flags();
    int len = ins.SerializedSize();
    for (int i = 0; i < len; ++i) {
      auto b = j.mem.At(InBank(at, i));
      if (!b) { R().Violation("unreadable", Fmt("lists $%06x, where nothing can be read", at)); return; }
      if (!want.emplace(InBank(at, i), *b).second) overlap = true;
    }
    if ((at & 0xffff) + len >= 0x10000 && !(cpu::IsExit(cpu::kOps[*j.mem.At(at)].mn))) wraps = true;
    // There is no way to write some states down.
    if (FromBit(f.EBit()) == 2 && (FromBit(f.MBit()) != 2 || FromBit(f.XBit()) != 2)) vague = true;
  }
  auto e = v.d->Cleanup();
  if (!e.ok()) { R().Violation("cleanup", e.error().ToString()); return; }
  std::string text = Listing(v.d->Result());
  Program p;
  Source src;
  src.path = "listing.asm";
  src.text = text;
  p.files.push_back(src);
  R().Arm();
  Outcome o;
  Assemble(p, InOrder(p), false, &o);
  if (!o.ok && o.error.find("instruction per requires a named branch target") != std::string::npos) {
    // PER is shown as a bare displacement.  Once reported, give the place it
    // leads to a name and see about the rest.
    static bool reported = false;
    if (!reported) R().Violation("per-without-name", o.error + "\n" + text);
    reported = true;
    ++R().Count("named_per");
    std::string names;
    std::string body = Listing(v.d->Result(), &names);
    text = names + body;
    p.files[0].text = text;
    o = Outcome();
    Assemble(p, InOrder(p), false, &o);
  }
  bool must = !overlap && !wraps && !vague;
  if (overlap) ++R().Count("overlapping");
  if (vague) ++R().Count("inexpressible");
  if (wraps) ++R().Count("wrapping");
  if (!o.ok) {
    ++R().Count(must ? "unassembled" : "unassembled_excused");
    if (must) R().Violation("listing-refused", o.error + "\n" + text);
    return;
  }
  ++R().Count("reassembled");
  R().Count("bytes_compared") += want.size();
  if (text.find("add") != std::string::npos || text.find("sub") != std::string::npos) ++R().Count("folded");
  if (text.find("per") != std::string::npos) ++R().Count("with_per");
  if (text.find(".org", text.find(".org") + 4) != std::string::npos) ++R().Count("with_gaps");
  for (auto& b : o.sink.bytes) {
    auto w = want.find(b.first);
    if (w == want.end()) { R().Violation("listing-extra", Fmt("the listing writes $%06x, which was not disassembled\n", b.first) + text); return; }
    if (w->second != b.second) { R().Violation("listing-bytes", Fmt("the listing writes %02x at $%06x, where the ROM has %02x\n", b.second, b.first, w->second) + text); return; }
  }
  if (!o.sink.again.empty()) { R().Violation("listing-twice", Fmt("$%06x is written twice\n", o.sink.again[0]) + text); return; }
  if (o.sink.bytes.size() != want.size()) {
    for (auto& w : want)
      if (!o.sink.bytes.count(w.first)) { R().Violation("listing-missing", Fmt("the listing leaves out $%06x\n", w.first) + text); return; }
  }
  R().Distinct(text);
  R().MaybeSample(text);
}

void Case(Rng& r) {
  Job j;
  if (!MakeJob(r, &j)) return;
  R().Describe(Show(j));
  Drive v;
  Go(j, 1 + r.Below(4), &v);
  if (R().o.prop == "C22") Watch(j, v);
  else Reassemble(j, v);
}

}  // namespace

int main(int argc, char** argv) {
  R().Init(argc, argv);
  R().Cases(R().o.cases, [&](uint64_t, Rng& r) { Case(r); });
  return R().Finish();
}
