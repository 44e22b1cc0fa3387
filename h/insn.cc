// C13: decoding and encoding against the 65816 table.
// C14: printed instructions parse back to the same instruction and bytes.
#include <memory>

#include "h/gen.h"
#include "h/nsx.h"

using namespace nsasm;
using cpu::Mode;
using vf::Fmt;
using vf::R;
using vf::Rng;

namespace {

std::vector<StatusFlags> AllFlags() {
  std::vector<StatusFlags> r;
  const BitState s[] = {B_off, B_on, B_original, B_unknown};
  for (auto e : s)
    for (auto m : s)
      for (auto x : s)
        for (auto c : s) r.push_back(StatusFlags(e, m, x, c));
  return r;
}

std::vector<uint8_t> Sample(Rng& r, int op, int n, int k) {
  static const uint8_t edge[] = {0, 1, 0x7f, 0x80, 0x81, 0xfe, 0xff, 0x0f, 0x10, 0x1a, 0xa1};
  std::vector<uint8_t> v{uint8_t(op)};
  for (int i = 0; i < n; ++i) v.push_back(k < 4 ? edge[k] : r.Coin() ? edge[r.Below(sizeof edge)] : uint8_t(r.Next()));
  return v;
}

// A copy with nothing readable after it.
struct Exact {
  explicit Exact(const std::vector<uint8_t>& v) : n(v.size()), p(new uint8_t[v.size()]) { std::copy(v.begin(), v.end(), p.get()); }
  absl::Span<const uint8_t> span() const { return absl::Span<const uint8_t>(p.get(), n); }
  size_t n;
  std::unique_ptr<uint8_t[]> p;
};

int Signed(int v, int bits) { return v >= (1 << (bits - 1)) ? v - (1 << bits) : v; }

// Width of the operand under `f`; -1 when not known.
int Width(Mode m, const StatusFlags& f) {
  if (m != cpu::IMMM && m != cpu::IMMX) return cpu::OperandBytes(m);
  BitState b = m == cpu::IMMM ? f.MBit() : f.XBit();
  return b == B_on ? 1 : b == B_off ? 2 : -1;
}

void Values(Mode m, int w, const std::vector<uint8_t>& b, int* a1, int* a2) {
  int v = 0;
  for (int i = 0; i < w; ++i) v |= b[1 + i] << (8 * i);
  *a1 = v;
  *a2 = 0;
  if (m == cpu::MOV) { *a1 = b[2]; *a2 = b[1]; }
  if (m == cpu::REL8) *a1 = Signed(v, 8);
  if (m == cpu::REL16) *a1 = Signed(v, 16);
}

Address RandomAddress(Rng& r) {
  uint8_t bank = r.Pick({0x00, 0x7e, 0x80, 0xc0, 0xff, int(r.Below(256))});
  int off = r.Chance(1, 3) ? r.Pick({0x0000, 0x0001, 0xfffe, 0xffff, 0x7ffe, 0x8000, 0x7fff, 0x007e, 0xff80}) : int(r.Below(65536));
  return Address(bank, uint16_t(off));
}

std::string Show(const std::vector<uint8_t>& b, const StatusFlags& f) { return vf::Hex(b) + " with " + nsx::FlagText(f); }

std::vector<uint8_t> BytesAt(const nsx::RecordingSink& s, Address a, size_t n) {
  std::vector<uint8_t> r;
  for (size_t i = 0; i < n; ++i) {
    uint32_t at = (uint32_t(a.Bank()) << 16) | ((a.BankAddress() + i) & 0xffff);
    auto it = s.bytes.find(at);
    if (it == s.bytes.end()) return {};
    r.push_back(it->second);
  }
  return s.bytes.size() == n ? r : std::vector<uint8_t>{};
}

void DecodeCase(int op, Rng& r) {
  static const auto flags = AllFlags();
  const cpu::Op& o = cpu::kOps[op];
  auto mn = ToMnemonic(o.mn);
  if (!mn) { R().Violation("no-mnemonic", o.mn); return; }
  int samples = R().o.thorough ? 400 : 10;
  for (auto& f : flags) {
    for (int k = 0; k < samples; ++k) {
      int w = Width(o.mode, f);
      std::vector<uint8_t> b = Sample(r, op, w < 0 ? 3 : w, k);
      R().Describe("decode " + Show(b, f));
      Exact e(b);
      auto d = Decode(e.span(), f);
      R().Eval();
      if (w < 0) {
        ++R().Count("refused_unknown_width");
        if (d.ok()) R().Violation(Fmt("decoded-unknown-width op=%02x", op), "decoded as " + d->ToString());
        continue;
      }
      // Cut short, at every length.
      if (k < 3) {
        for (int n = 0; n <= w; ++n) {
          Exact s(std::vector<uint8_t>(b.begin(), b.begin() + n));
          auto t = Decode(s.span(), f);
          ++R().Count("cut_short");
          if (t.ok()) R().Violation(Fmt("decoded-short op=%02x", op), Fmt("%d of %d bytes decoded", n, w + 1));
        }
      }
      if (!d.ok()) { R().Violation(Fmt("refused op=%02x", op), d.error().ToString()); continue; }
      ++R().Count("decoded");
      int a1, a2;
      Values(o.mode, w, b, &a1, &a2);
      if (nsx::Lower(std::string(ToString(d->mnemonic))) != o.mn)
        R().Violation(Fmt("mnemonic op=%02x", op), Fmt("%s, expected %s", std::string(ToString(d->mnemonic)).c_str(), o.mn));
      AddressingMode want = nsx::ToNs(o.mode);
      if (o.mode == cpu::IMMM || o.mode == cpu::IMMX) want = w == 1 ? A_imm_b : A_imm_w;
      if (d->addressing_mode != want)
        R().Violation(Fmt("mode op=%02x", op), ToString(d->addressing_mode) + ", expected " + ToString(want));
      if (d->SerializedSize() != w + 1)
        R().Violation(Fmt("length op=%02x", op), Fmt("%d, expected %d", d->SerializedSize(), w + 1));
      if (InstructionLength(d->addressing_mode) != w + 1)
        R().Violation(Fmt("mode-length op=%02x", op), Fmt("%d, expected %d", InstructionLength(d->addressing_mode), w + 1));
      if (w > 0) {
        auto v = d->arg1.Evaluate(NullLookupContext());
        if (!v.ok() || *v != a1)
          R().Violation(Fmt("operand op=%02x", op), v.ok() ? Fmt("%d, expected %d", *v, a1) : v.error().ToString());
      }
      if (o.mode == cpu::MOV) {
        auto v = d->arg2.Evaluate(NullLookupContext());
        if (!v.ok() || *v != a2)
          R().Violation(Fmt("second-operand op=%02x", op), v.ok() ? Fmt("%d, expected %d", *v, a2) : v.error().ToString());
      }
      if (!d->CheckConsistency(f).ok())
        R().Violation(Fmt("inconsistent op=%02x", op), d->CheckConsistency(f).error().ToString());
      // What follows does not matter.
      std::vector<uint8_t> longer = b;
      for (int n = 1 + r.Below(5); n > 0; --n) longer.push_back(r.Next());
      auto d2 = Decode(Exact(longer).span(), f);
      if (!d2.ok() || d2->ToString() != d->ToString() || d2->SerializedSize() != d->SerializedSize())
        R().Violation(Fmt("depends-on-following op=%02x", op), d2.ok() ? d2->ToString() : d2.error().ToString());
      // Encode it where it was.
      Address at = RandomAddress(r);
      Instruction ins = *d;
      if (o.mode == cpu::REL8 || o.mode == cpu::REL16) {
        uint16_t t = uint16_t(at.BankAddress() + w + 1 + a1);
        ins.arg1 = absl::make_unique<Literal>(int((uint32_t(at.Bank()) << 16) | t), T_long);
      }
      nsx::RecordingSink sink;
      auto res = ins.Assemble(at, NullLookupContext(), &sink);
      if (!res.ok()) R().Violation(Fmt("encode-failed op=%02x", op), res.error().ToString() + " at " + at.ToString());
      else if (BytesAt(sink, at, w + 1) != b)
        R().Violation(Fmt("encode op=%02x", op), "at " + at.ToString() + " wrote " + vf::Hex(BytesAt(sink, at, w + 1)));
      else ++R().Count("encoded");
      R().Distinct(vf::HashBytes(b.data(), b.size()));
      if (k == 5) R().MaybeSample("decode " + Show(b, f) + " -> " + d->ToString());
    }
  }
  R().Seen("opcodes", Fmt("%02x", op));
}

// Relative operands that do not reach, or leave the bank.
void BranchCase(Rng& r) {
  bool wide = r.Chance(1, 4);
  std::vector<int> ops;
  for (int i = 0; i < 256; ++i)
    if (cpu::kOps[i].mode == (wide ? cpu::REL16 : cpu::REL8)) ops.push_back(i);
  int op = r.Pick(ops);
  Instruction ins;
  ins.mnemonic = *ToMnemonic(cpu::kOps[op].mn);
  ins.addressing_mode = wide ? A_rel16 : A_rel8;
  ins.suffix = S_none;
  Address at = RandomAddress(r);
  int base = at.BankAddress() + (wide ? 3 : 2);
  int k = r.Pick({-129, -128, -127, 127, 128, 129, 0, -32768, 32767, 130, -130, int(r.Range(-32768, 32767)), int(r.Range(-200, 200))});
  bool other = r.Chance(1, 5);
  int bank = other ? (at.Bank() + 1 + r.Below(255)) & 255 : at.Bank();
  int target = (bank << 16) | ((base + k) & 0xffff);
  ins.arg1 = absl::make_unique<Literal>(target, T_long);
  R().Describe(Fmt("%s at %s to %06x", cpu::kOps[op].mn, at.ToString().c_str(), target));
  nsx::RecordingSink sink;
  auto res = ins.Assemble(at, NullLookupContext(), &sink);
  bool reach = !other && (wide || (k >= -128 && k <= 127));
  if (res.ok() != reach) {
    R().Violation(reach ? "branch-refused" : "branch-too-far-accepted", reach ? res.error().ToString() : "wrote " + Fmt("%zu bytes", sink.bytes.size()));
  } else if (reach) {
    ++R().Count("branches_encoded");
    std::vector<uint8_t> want{uint8_t(op), uint8_t(k)};
    if (wide) want.push_back(uint8_t(k >> 8));
    if (BytesAt(sink, at, want.size()) != want) R().Violation("branch-bytes", vf::Hex(want));
  } else {
    ++R().Count("branches_refused");
    if (!sink.bytes.empty()) R().Violation("branch-wrote-on-error", Fmt("%zu", sink.bytes.size()));
  }
  R().Distinct(vf::Mix64(op) ^ vf::Mix64(k * 77 + other) ^ at.BankAddress());
}

// Every mnemonic with every addressing mode under every width state.
void EncodableCase(Mnemonic m, Rng& r) {
  std::string name(ToString(m));
  name = nsx::Lower(name);
  std::string real = m == PM_add ? "adc" : m == PM_sub ? "sbc" : name;
  bool pseudo = m == PM_add || m == PM_sub;
  static const auto flags = AllFlags();
  bool usesm = cpu::FindOp(real, cpu::IMMM) >= 0, usesx = cpu::FindOp(real, cpu::IMMX) >= 0;
  R().Describe("mnemonic " + name);
  if (ImmediateArgumentUsesMBit(m) != usesm) R().Violation("immediate-m " + name, "");
  if (ImmediateArgumentUsesXBit(m) != usesx) R().Violation("immediate-x " + name, "");
  bool off = cpu::FindOp(real, cpu::REL8) >= 0 || cpu::FindOp(real, cpu::REL16) >= 0;
  if (TakesOffsetArgument(m) != off) R().Violation("offset-argument " + name, "");
  if (TakesLongOffsetArgument(m) != (cpu::FindOp(real, cpu::REL16) >= 0)) R().Violation("long-offset-argument " + name, "");
  for (int mode = 0; mode < cpu::kModes; ++mode) {
    std::vector<std::pair<AddressingMode, int>> tries;  // nsasm mode, opcode or -1
    Mode cm = Mode(mode);
    int op = cpu::FindOp(real, cm);
    tries.push_back({nsx::ToNs(cm), op});
    if (cm == cpu::IMM8) {
      int mx = usesm ? cpu::FindOp(real, cpu::IMMM) : usesx ? cpu::FindOp(real, cpu::IMMX) : -1;
      if (op < 0) tries.back().second = mx;
    }
    if (cm == cpu::IMM16 && op < 0)
      tries.back().second = usesm ? cpu::FindOp(real, cpu::IMMM) : usesx ? cpu::FindOp(real, cpu::IMMX) : -1;
    for (auto [am, want] : tries) {
      R().Describe("mnemonic " + name + " mode " + ToString(am));
      R().Eval();
      auto got = EncodeOpcode(m, am);
      int want_direct = pseudo ? -1 : want;
      if ((got ? int(*got) : -1) != want_direct)
        R().Violation("opcode " + name + " " + ToString(am), Fmt("%d, expected %d", got ? int(*got) : -1, want_direct));
      if (IsLegalCombination(m, am) != (want_direct >= 0)) R().Violation("legal " + name + " " + ToString(am), "");
      Instruction ins;
      ins.mnemonic = m;
      ins.addressing_mode = am;
      ins.suffix = S_none;
      Address at = RandomAddress(r);
      if (am == A_rel8 || am == A_rel16) ins.arg1 = absl::make_unique<Literal>(int((uint32_t(at.Bank()) << 16) | at.BankAddress()), T_long);
      else ins.arg1 = absl::make_unique<Literal>(int(r.Below(1 << 24)), T_unknown);
      ins.arg2 = absl::make_unique<Literal>(int(r.Below(256)), T_unknown);
      int n = cpu::OperandBytes(cm);
      // The sentinels need their width resolved first.
      if (am == A_imm_fm || am == A_imm_fx) {
        for (auto& f : flags) {
          Instruction i2 = ins;
          BitState b = am == A_imm_fm ? f.MBit() : f.XBit();
          bool known = b == B_on || b == B_off;
          auto fix = i2.FixAddressingMode(f);
          if (fix.ok() != known) R().Violation("fix-mode " + name, nsx::FlagText(f));
          if (fix.ok() && i2.addressing_mode != (b == B_on ? A_imm_b : A_imm_w)) R().Violation("fixed-to " + name, nsx::FlagText(f));
          if (want >= 0 && ins.CheckConsistency(f).ok() != known) R().Violation("consistency " + name, nsx::FlagText(f));
          ++R().Count("width_states");
        }
        nsx::RecordingSink sink;
        if (ins.Assemble(at, NullLookupContext(), &sink).ok()) R().Violation("assembled-unsized " + name, ToString(am));
        continue;
      }
      if ((am == A_imm_b || am == A_imm_w) && want >= 0 && cpu::FindOp(real, am == A_imm_b ? cpu::IMM8 : cpu::IMM16) < 0) {
        for (auto& f : flags) {
          BitState b = usesm ? f.MBit() : f.XBit();
          bool ok = b == (am == A_imm_b ? B_on : B_off);
          if (ins.CheckConsistency(f).ok() != ok) R().Violation("sized-consistency " + name + " " + ToString(am), nsx::FlagText(f));
          ++R().Count("width_states");
        }
      }
      nsx::RecordingSink sink;
      auto res = ins.Assemble(at, NullLookupContext(), &sink);
      if (res.ok() != (want >= 0)) {
        R().Violation("assembles " + name + " " + ToString(am), res.ok() ? "accepted" : res.error().ToString());
        continue;
      }
      if (want < 0) { ++R().Count("unencodable"); continue; }
      ++R().Count("encodable");
      if (size_t(n + 1 + pseudo) != sink.bytes.size() || ins.SerializedSize() != n + 1 + pseudo)
        R().Violation("size " + name + " " + ToString(am), Fmt("%zu written, %d reported", sink.bytes.size(), ins.SerializedSize()));
      auto b = BytesAt(sink, at, n + 1 + pseudo);
      if (b.empty()) { R().Violation("place " + name + " " + ToString(am), at.ToString()); continue; }
      if (pseudo && b[0] != (m == PM_add ? 0x18 : 0x38)) R().Violation("pseudo-prefix " + name, vf::Hex(b));
      if (b[pseudo] != want) R().Violation("first-byte " + name + " " + ToString(am), vf::Hex(b));
    }
    // Suffixes: legal exactly on instructions whose data width varies.
    if (op >= 0 && cm != cpu::IMM8 && cm != cpu::IMM16) {
      for (Suffix s : {S_b, S_w}) {
        for (auto& f : flags) {
          Instruction ins;
          ins.mnemonic = m;
          ins.addressing_mode = nsx::ToNs(cm);
          ins.suffix = s;
          char w = cpu::WidthOf(name);
          BitState b = w == 'm' ? f.MBit() : f.XBit();
          bool ok = w && b != (s == S_b ? B_off : B_on);
          if (cm == cpu::IMMM || cm == cpu::IMMX) {
            BitState ib = cm == cpu::IMMM ? f.MBit() : f.XBit();
            ok = ok && (ib == B_on || ib == B_off);
          }
          if (ins.CheckConsistency(f).ok() != ok)
            R().Violation("suffix " + name + (s == S_b ? ".b" : ".w") + " " + ToString(ins.addressing_mode), nsx::FlagText(f));
          ++R().Count("suffix_states");
        }
      }
    }
  }
  R().Seen("mnemonics", name);
}

// ---- C14 ----

std::string WriteNumber(int v, int bytes) { return Fmt("$%0*x", bytes * 2, v); }

void RoundTrip(Rng& r) {
  int op = r.Below(256);
  const cpu::Op& o = cpu::kOps[op];
  static const BitState known[] = {B_off, B_on};
  StatusFlags f(r.Pick({B_off, B_on, B_original, B_unknown}), known[r.Below(2)], known[r.Below(2)], r.Pick({B_off, B_on, B_unknown}));
  int w = Width(o.mode, f);
  if (w < 0) {  // widths not knowable in this state
    if (o.mode != cpu::IMMM && o.mode != cpu::IMMX) return;
    f = StatusFlags(B_off, known[r.Below(2)], known[r.Below(2)]);
    w = Width(o.mode, f);
  }
  std::vector<uint8_t> b = Sample(r, op, w, r.Below(12));
  R().Describe("print and parse " + Show(b, f));
  auto d = Decode(Exact(b).span(), f);
  if (!d.ok()) { R().Violation("refused", d.error().ToString()); return; }
  Instruction ins = *d;
  Address at = RandomAddress(r);
  nsx::MapContext names;
  std::string mn = o.mn;
  bool rel = o.mode == cpu::REL8 || o.mode == cpu::REL16;
  int a1, a2;
  Values(o.mode, w, b, &a1, &a2);
  std::string t1, t2;
  if (rel) {
    std::string label = r.Pick({std::string("gen_1"), std::string("target"), std::string("L")});
    int target = int((uint32_t(at.Bank()) << 16) | uint16_t(at.BankAddress() + w + 1 + a1));
    ins.arg1 = absl::make_unique<Literal>(target, T_long);
    ins.arg1.ApplyLabel(label);
    names.names[label] = target;
    t1 = label;
  } else {
    t1 = WriteNumber(a1, o.mode == cpu::MOV ? 1 : w);
    t2 = WriteNumber(a2, 1);
    // Absolute jumps may be printed with the name of their target.
    if ((o.mode == cpu::ABS || o.mode == cpu::LNG) && cpu::FindOp(o.mn, o.mode) == op && (mn == "jmp" || mn == "jsr") && o.mode == cpu::ABS && r.Coin()) {
      ins.arg1.ApplyLabel("place");
      names.names["place"] = a1 | (int(at.Bank()) << 16);
      t1 = "place";
    }
  }
  if ((mn == "adc" || mn == "sbc") && r.Chance(1, 3)) {
    ins.mnemonic = mn == "adc" ? PM_add : PM_sub;
    b.insert(b.begin(), mn == "adc" ? 0x18 : 0x38);
    mn = mn == "adc" ? "add" : "sub";
    ++R().Count("pseudo");
  }
  char wide = cpu::WidthOf(mn);
  std::string suffix;
  if (wide && r.Chance(1, 3)) {
    BitState s = wide == 'm' ? f.MBit() : f.XBit();
    if (s == B_on || s == B_off) {
      ins.suffix = s == B_on ? S_b : S_w;
      suffix = s == B_on ? ".b" : ".w";
      ++R().Count("suffixed");
    }
  }
  std::string conv;
  if ((mn == "jsr" || mn == "jsl") && r.Coin()) {
    if (r.Chance(1, 4)) {
      ins.return_convention = ReturnConvention(NoReturn());
      conv = "noreturn";
    } else {
      static const char* modes[] = {"unk", "emu", "native", "m8", "m16", "x8", "x16", "m8x8", "m8x16", "m16x8", "m16x16"};
      std::string m = modes[r.Below(11)];
      ins.return_convention = ReturnConvention(*StatusFlags::FromName(m));
      conv = "yields" + m;
    }
    ++R().Count("conventions");
  }
  std::string text = ins.ToString();
  R().Eval();
  std::string want = mn + suffix + nsx::Norm(cpu::OperandText(o.mode, t1, t2)) + conv;
  if (nsx::Norm(text) != nsx::Norm(want)) R().Violation("text " + mn + " " + ToString(ins.addressing_mode), "printed `" + text + "`, expected `" + want + "`");
  // Read it back, sometimes differently spaced and cased.
  std::string src = text;
  int style = r.Below(4);
  if (style == 1) src = "   " + src + "   ; a comment: with, things";
  if (style == 2) { std::string s; for (char c : src) { s += c; if (c == ',' || c == '(') s += "  "; } src = s; }
  if (style == 3) { std::string s; for (char c : src) if (!isspace(c) || s.find(' ') == std::string::npos || conv.size()) s += c; src = s; }
  auto tokens = Tokenize(src, Location());
  if (!tokens.ok()) { R().Violation("not-tokenized " + mn, "`" + src + "`: " + tokens.error().ToString()); return; }
  auto parsed = Parse(*tokens);
  if (!parsed.ok()) { R().Violation("not-parsed " + mn + " " + ToString(ins.addressing_mode), "`" + src + "`: " + parsed.error().ToString()); return; }
  if (parsed->size() != 1 || !absl::holds_alternative<Statement>((*parsed)[0])) { R().Violation("parsed-entities", "`" + src + "`"); return; }
  Statement st = absl::get<Statement>((*parsed)[0]);
  Instruction* back = st.Instruction();
  if (!back) { R().Violation("parsed-as-directive", "`" + src + "`"); return; }
  auto cc = back->CheckConsistency(f);
  if (!cc.ok()) { R().Violation("read-inconsistent " + mn, "`" + src + "`: " + cc.error().ToString()); return; }
  auto fix = back->FixAddressingMode(f);
  if (!fix.ok()) { R().Violation("read-unsized " + mn, "`" + src + "`: " + fix.error().ToString()); return; }
  if (back->mnemonic != ins.mnemonic || back->addressing_mode != ins.addressing_mode || back->suffix != ins.suffix)
    R().Violation("read-different " + mn, "`" + src + "` read as " + back->ToString() + " " + ToString(back->addressing_mode));
  if (back->ToString() != text) R().Violation("text-again " + mn, "`" + text + "` then `" + back->ToString() + "`");
  if (back->SerializedSize() != ins.SerializedSize()) R().Violation("size-again " + mn, "");
  nsx::RecordingSink sink;
  auto res = back->Assemble(at, names, &sink);
  if (!res.ok()) R().Violation("assemble-again " + mn, "`" + src + "`: " + res.error().ToString());
  else if (BytesAt(sink, at, b.size()) != b)
    R().Violation("bytes-again " + mn + " " + ToString(ins.addressing_mode), "`" + src + "` assembled to " + vf::Hex(BytesAt(sink, at, b.size())) + ", was " + vf::Hex(b));
  ++R().Count("round_trips");
  R().Seen("opcodes", Fmt("%02x/%d", op, w));
  R().Distinct(text + nsx::FlagText(f));
  R().MaybeSample(vf::Hex(b) + " -> " + text);
}

// An instruction whose operand is a name, printed and read again.
void NamedTrip(Rng& r) {
  int op = r.Below(256);
  const cpu::Op& o = cpu::kOps[op];
  int bytes = cpu::OperandBytes(o.mode);
  bool imm = o.mode == cpu::IMMM || o.mode == cpu::IMMX;
  if (o.mode == cpu::REL8 || o.mode == cpu::REL16 || (!imm && bytes < 2) || o.mode == cpu::MOV || cpu::FindOp(o.mn, o.mode) != op) return;
  bool wide = bytes == 3 || (imm && r.Coin());
  std::string id = r.Pick({std::string("place"), std::string("_x1"), std::string("Long_Name9")});
  std::string name = (wide ? "@" : "") + r.Pick({std::string(), std::string("mod::"), std::string("M2::"), std::string("::")}) + id;
  std::string src = std::string(o.mn) + " " + cpu::OperandText(o.mode, name, "");
  StatusFlags f(B_off, r.Pick({B_off, B_on}), r.Pick({B_off, B_on}));
  int value = int(r.Below(0x1000000));
  nsx::MapContext names;
  names.names[name.substr(wide)] = value;
  int w = imm ? ((o.mode == cpu::IMMM ? f.MBit() : f.XBit()) == B_on ? 1 : 2) : bytes;
  std::vector<uint8_t> want = {uint8_t(op)};
  for (int k = 0; k < w; ++k) want.push_back(uint8_t(value >> (8 * k)));
  Address at = RandomAddress(r);
  R().Describe("print and parse `" + src + "`");
  std::string first;
  NumericType type = T_unknown;
  for (int pass = 0; pass < 3; ++pass) {
    auto tokens = Tokenize(src, Location());
    if (!tokens.ok()) { R().Violation("named-tokens", "`" + src + "`: " + tokens.error().ToString()); return; }
    auto parsed = Parse(*tokens);
    if (!parsed.ok()) { R().Violation("named-parse", "`" + src + "`: " + parsed.error().ToString()); return; }
    if (parsed->size() != 1 || !absl::holds_alternative<Statement>((*parsed)[0])) { R().Violation("named-entities", "`" + src + "`"); return; }
    Statement st = absl::get<Statement>((*parsed)[0]);
    Instruction* ins = st.Instruction();
    if (!ins || ToString(ins->mnemonic) != o.mn) { R().Violation("named-kind", "`" + src + "`"); return; }
    R().Eval();
    if (pass && ins->arg1.Type() != type) { R().Violation("named-size", "`" + src + "` has an operand of another size"); return; }
    type = ins->arg1.Type();
    std::string text = st.ToString();  // before its width is settled, and then after
    auto fix = ins->FixAddressingMode(f);
    if (pass == 1) text = st.ToString();
    nsx::RecordingSink sink;
    auto res = ins->Assemble(at, names, &sink);
    if (!fix.ok() || !res.ok() || BytesAt(sink, at, want.size()) != want || st.SerializedSize() != int(want.size())) {
      R().Violation("named-bytes", "`" + src + "` assembled to " + vf::Hex(BytesAt(sink, at, want.size())) + ", not " + vf::Hex(want));
      return;
    }
    if (pass && text != first) { R().Violation("named-text", "`" + first + "` then `" + text + "`"); return; }
    first = src = text;
  }
  ++R().Count("named_operands");
  R().Seen("named_opcodes", Fmt("%02x", op));
  R().Distinct(first);
}

// A directive whose operands are plain, printed and read again.
void DirectiveTrip(Rng& r) {
  prog::Gen g(r);
  prog::Program p;
  prog::Stmt s = prog::Dir(r.Pick({prog::DB, prog::DW, prog::DL, prog::ORG, prog::ENTRY, prog::EQU, prog::MODE, prog::REMOTE, prog::HALT, prog::BEGIN, prog::END, prog::MODULE}));
  nsx::MapContext names;
  auto operand = [&] {
    if (s.kind == prog::ORG || r.Chance(2, 3)) return g.Literal(r.Below(4));
    prog::Expr e = prog::Name("place" + std::to_string(r.Below(3)), r.Coin());
    if (r.Chance(1, 3)) { e.qualified = true; e.mod = "mod"; }
    names.names[prog::NameText(e).substr(e.wide)] = int(r.Below(0x1000000));
    return e;
  };
  static const prog::Kind with_mode[] = {prog::ENTRY, prog::MODE, prog::REMOTE};
  bool lists = s.kind == prog::DB || s.kind == prog::DW || s.kind == prog::DL;
  bool mode = std::count(with_mode, with_mode + 3, s.kind);
  if (lists) for (int n = 1 + r.Below(5); n > 0; --n) s.args.push_back(operand());
  if (s.kind == prog::ORG || s.kind == prog::EQU || s.kind == prog::REMOTE) s.args.push_back(operand());
  if (s.kind == prog::MODULE) s.raw = "mod";
  if (mode) s.mode = g.RandomMode();
  if (s.kind == prog::ENTRY || s.kind == prog::REMOTE) { s.conv = r.Below(3); s.yields = g.RandomMode(); }
  std::string src = prog::Spell(s, r), first;
  R().Describe("print and parse `" + src + "`");
  Address at = RandomAddress(r);
  std::vector<NumericType> was;
  for (int pass = 0; pass < 2; ++pass) {
    auto tokens = Tokenize(src, Location());
    if (!tokens.ok()) { R().Violation("directive-tokens", "`" + src + "`: " + tokens.error().ToString()); return; }
    auto parsed = Parse(*tokens);
    if (!parsed.ok()) { R().Violation("directive-parse", "`" + src + "`: " + parsed.error().ToString()); return; }
    if (parsed->size() != 1 || !absl::holds_alternative<Statement>((*parsed)[0])) { R().Violation("directive-entities", "`" + src + "`"); return; }
    Statement st = absl::get<Statement>((*parsed)[0]);
    const Directive* d = st.Directive();
    if (!d) { R().Violation("directive-kind", "`" + src + "`"); return; }
    R().Eval();
    std::vector<NumericType> types;
    for (auto& a : d->list_argument) types.push_back(a.Type());
    types.push_back(d->argument.Type());
    if (pass && types != was) { R().Violation("directive-size", "`" + src + "` has an operand of another size"); return; }
    was = types;
    auto value = [&](const prog::Expr& e) { return e.kind == prog::Expr::NUM ? e.value : int64_t(names.names[prog::NameText(e).substr(e.wide)]); };
    if (s.kind == prog::ORG || s.kind == prog::EQU || s.kind == prog::REMOTE) {
      auto v = d->argument.Evaluate(names);
      if (!v.ok() || *v != value(s.args[0])) { R().Violation("directive-value", "`" + src + "` has the wrong operand"); return; }
    }
    if (mode && d->flag_state_argument.ToName() != StatusFlags::FromName(prog::ModeText(s.mode))->ToName()) { R().Violation("directive-mode", "`" + src + "` read with " + d->flag_state_argument.ToName()); return; }
    if (d->return_convention_argument.IsExitCall() != (s.conv == 2)) { R().Violation("directive-noreturn", "`" + src + "`"); return; }
    auto y = d->return_convention_argument.YieldFlags();
    if (y.has_value() != (s.conv == 1) || (y && y->ToName() != StatusFlags::FromName(prog::ModeText(s.yields))->ToName())) { R().Violation("directive-yields", "`" + src + "`"); return; }
    if (lists) {
      nsx::RecordingSink sink;
      auto res = st.Assemble(at, names, &sink);
      std::vector<uint8_t> b;
      for (auto& e : s.args) for (int k = 0; k < prog::DataWidth(s.kind); ++k) b.push_back(uint8_t(value(e) >> (8 * k)));
      if (!res.ok() || BytesAt(sink, at, b.size()) != b || st.SerializedSize() != int(b.size())) { R().Violation("directive-bytes", "`" + src + "` assembled to " + vf::Hex(BytesAt(sink, at, b.size()))); return; }
    }
    std::string text = st.ToString();
    if (pass && text != first) { R().Violation("directive-text", "`" + first + "` then `" + text + "`"); return; }
    first = src = text;
  }
  ++R().Count("directives");
  R().Seen("directive_kinds", std::to_string(int(s.kind)));
  R().Distinct(first);
}

}  // namespace

int main(int argc, char** argv) {
  R().Init(argc, argv);
  if (R().o.prop == "C13") {
    auto all = AllMnemonics();
    R().Cases(R().o.cases, [&](uint64_t i, Rng& r) {
      if (i < 256) DecodeCase(int(i), r);
      else if (i < 256 + all.size()) EncodableCase(all[i - 256], r);
      else for (int k = 0; k < 40; ++k) BranchCase(r);
    });
  } else if (R().o.prop == "C14") {
    R().Cases(R().o.cases, [&](uint64_t, Rng& r) { for (int k = 0; k < 20; ++k) RoundTrip(r); for (int k = 0; k < 4; ++k) { DirectiveTrip(r); NamedTrip(r); } });
  } else {
    return 64;
  }
  return R().Finish();
}
