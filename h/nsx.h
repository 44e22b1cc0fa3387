// Bridges between the harnesses' model and nsasm's types.
#pragma once
#include <cctype>
#include <map>
#include <optional>

#include "h/common.h"
#include "h/cpu.h"
#include "nsasm/addressing_mode.h"
#include "nsasm/decode.h"
#include "nsasm/error.h"
#include "nsasm/execution_state.h"
#include "nsasm/expression.h"
#include "nsasm/instruction.h"
#include "nsasm/memory.h"
#include "nsasm/mnemonic.h"
#include "nsasm/opcode_map.h"
#include "nsasm/parse.h"
#include "nsasm/statement.h"

namespace nsx {

inline nsasm::AddressingMode ToNs(cpu::Mode m) {
  using namespace nsasm;
  switch (m) {
    case cpu::IMP: return A_imp;
    case cpu::ACC: return A_acc;
    case cpu::IMM8: return A_imm_b;
    case cpu::IMM16: return A_imm_w;
    case cpu::IMMM: return A_imm_fm;
    case cpu::IMMX: return A_imm_fx;
    case cpu::D: return A_dir_b;
    case cpu::DX: return A_dir_bx;
    case cpu::DY: return A_dir_by;
    case cpu::ABS: return A_dir_w;
    case cpu::ABSX: return A_dir_wx;
    case cpu::ABSY: return A_dir_wy;
    case cpu::LNG: return A_dir_l;
    case cpu::LNGX: return A_dir_lx;
    case cpu::ID: return A_ind_b;
    case cpu::IDX: return A_ind_bx;
    case cpu::IDY: return A_ind_by;
    case cpu::LD: return A_lng_b;
    case cpu::LDY: return A_lng_by;
    case cpu::IA: return A_ind_w;
    case cpu::IAX: return A_ind_wx;
    case cpu::LA: return A_lng_w;
    case cpu::SR: return A_stk;
    case cpu::ISY: return A_stk_y;
    case cpu::MOV: return A_mov;
    case cpu::REL8: return A_rel8;
    case cpu::REL16: return A_rel16;
    default: abort();
  }
}

inline std::string Lower(std::string s) {
  for (char& c : s) c = tolower(static_cast<unsigned char>(c));
  return s;
}
// Text with case and spacing taken out.
inline std::string Norm(const std::string& s) {
  std::string r;
  for (char c : s)
    if (!isspace(static_cast<unsigned char>(c))) r += tolower(static_cast<unsigned char>(c));
  return r;
}

// Records what is written, byte by byte.
class RecordingSink : public nsasm::OutputSink {
 public:
  nsasm::ErrorOr<void> Write(nsasm::Address a, absl::Span<const std::uint8_t> d) override {
    ++writes;
    for (size_t i = 0; i < d.size(); ++i) {
      // Inside a bank, as the processor's program counter does.
      uint32_t at = (uint32_t(a.Bank()) << 16) | ((a.BankAddress() + i) & 0xffff);
      order.push_back(at);
      if (bytes.count(at)) again.push_back(at);
      bytes[at] = d[i];
    }
    return {};
  }
  std::map<uint32_t, uint8_t> bytes;
  std::vector<uint32_t> order, again;
  int writes = 0;
};

class MapContext : public nsasm::LookupContext {
 public:
  std::map<std::string, int> names;
  mutable std::vector<std::string> asked;
  nsasm::ErrorOr<int> Lookup(const nsasm::FullIdentifier& id) const override {
    asked.push_back(id.ToString());
    auto it = names.find(id.ToString());
    if (it == names.end()) return nsasm::Error("unresolved %s", id.ToString());
    return it->second;
  }
};

inline const char* BitText(nsasm::BitState b) {
  return b == nsasm::B_on ? "1" : b == nsasm::B_off ? "0" : b == nsasm::B_original ? "orig" : "?";
}
inline std::string FlagText(const nsasm::StatusFlags& f) {
  return vf::Fmt("e=%s m=%s x=%s c=%s", BitText(f.EBit()), BitText(f.MBit()), BitText(f.XBit()), BitText(f.CBit()));
}

}  // namespace nsx
