// The 65816 instruction set, written from the processor's documentation and
// sharing nothing with nsasm's tables.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>

namespace cpu {

// Operand forms.  The comment is the assembler's notation for it.
enum Mode {
  IMP,    //
  ACC,    // A
  IMM8,   // #$12      always one byte
  IMM16,  // #$1234    always two bytes
  IMMM,   // #...      size of the accumulator
  IMMX,   // #...      size of the index registers
  D,      // $12
  DX,     // $12, X
  DY,     // $12, Y
  ABS,    // $1234
  ABSX,   // $1234, X
  ABSY,   // $1234, Y
  LNG,    // $123456
  LNGX,   // $123456, X
  ID,     // ($12)
  IDX,    // ($12, X)
  IDY,    // ($12), Y
  LD,     // [$12]
  LDY,    // [$12], Y
  IA,     // ($1234)
  IAX,    // ($1234, X)
  LA,     // [$1234]
  SR,     // $12, S
  ISY,    // ($12, S), Y
  MOV,    // #src, #dst
  REL8,
  REL16,
  kModes
};

struct Op {
  const char* mn;
  Mode mode;
};

inline const Op kOps[256] = {
    // 00
    {"brk", IMM8}, {"ora", IDX}, {"cop", IMM8}, {"ora", SR}, {"tsb", D}, {"ora", D}, {"asl", D}, {"ora", LD},
    {"php", IMP}, {"ora", IMMM}, {"asl", ACC}, {"phd", IMP}, {"tsb", ABS}, {"ora", ABS}, {"asl", ABS}, {"ora", LNG},
    // 10
    {"bpl", REL8}, {"ora", IDY}, {"ora", ID}, {"ora", ISY}, {"trb", D}, {"ora", DX}, {"asl", DX}, {"ora", LDY},
    {"clc", IMP}, {"ora", ABSY}, {"inc", ACC}, {"tcs", IMP}, {"trb", ABS}, {"ora", ABSX}, {"asl", ABSX}, {"ora", LNGX},
    // 20
    {"jsr", ABS}, {"and", IDX}, {"jsl", LNG}, {"and", SR}, {"bit", D}, {"and", D}, {"rol", D}, {"and", LD},
    {"plp", IMP}, {"and", IMMM}, {"rol", ACC}, {"pld", IMP}, {"bit", ABS}, {"and", ABS}, {"rol", ABS}, {"and", LNG},
    // 30
    {"bmi", REL8}, {"and", IDY}, {"and", ID}, {"and", ISY}, {"bit", DX}, {"and", DX}, {"rol", DX}, {"and", LDY},
    {"sec", IMP}, {"and", ABSY}, {"dec", ACC}, {"tsc", IMP}, {"bit", ABSX}, {"and", ABSX}, {"rol", ABSX}, {"and", LNGX},
    // 40
    {"rti", IMP}, {"eor", IDX}, {"wdm", IMM8}, {"eor", SR}, {"mvp", MOV}, {"eor", D}, {"lsr", D}, {"eor", LD},
    {"pha", IMP}, {"eor", IMMM}, {"lsr", ACC}, {"phk", IMP}, {"jmp", ABS}, {"eor", ABS}, {"lsr", ABS}, {"eor", LNG},
    // 50
    {"bvc", REL8}, {"eor", IDY}, {"eor", ID}, {"eor", ISY}, {"mvn", MOV}, {"eor", DX}, {"lsr", DX}, {"eor", LDY},
    {"cli", IMP}, {"eor", ABSY}, {"phy", IMP}, {"tcd", IMP}, {"jmp", LNG}, {"eor", ABSX}, {"lsr", ABSX}, {"eor", LNGX},
    // 60
    {"rts", IMP}, {"adc", IDX}, {"per", REL16}, {"adc", SR}, {"stz", D}, {"adc", D}, {"ror", D}, {"adc", LD},
    {"pla", IMP}, {"adc", IMMM}, {"ror", ACC}, {"rtl", IMP}, {"jmp", IA}, {"adc", ABS}, {"ror", ABS}, {"adc", LNG},
    // 70
    {"bvs", REL8}, {"adc", IDY}, {"adc", ID}, {"adc", ISY}, {"stz", DX}, {"adc", DX}, {"ror", DX}, {"adc", LDY},
    {"sei", IMP}, {"adc", ABSY}, {"ply", IMP}, {"tdc", IMP}, {"jmp", IAX}, {"adc", ABSX}, {"ror", ABSX}, {"adc", LNGX},
    // 80
    {"bra", REL8}, {"sta", IDX}, {"brl", REL16}, {"sta", SR}, {"sty", D}, {"sta", D}, {"stx", D}, {"sta", LD},
    {"dey", IMP}, {"bit", IMMM}, {"txa", IMP}, {"phb", IMP}, {"sty", ABS}, {"sta", ABS}, {"stx", ABS}, {"sta", LNG},
    // 90
    {"bcc", REL8}, {"sta", IDY}, {"sta", ID}, {"sta", ISY}, {"sty", DX}, {"sta", DX}, {"stx", DY}, {"sta", LDY},
    {"tya", IMP}, {"sta", ABSY}, {"txs", IMP}, {"txy", IMP}, {"stz", ABS}, {"sta", ABSX}, {"stz", ABSX}, {"sta", LNGX},
    // a0
    {"ldy", IMMX}, {"lda", IDX}, {"ldx", IMMX}, {"lda", SR}, {"ldy", D}, {"lda", D}, {"ldx", D}, {"lda", LD},
    {"tay", IMP}, {"lda", IMMM}, {"tax", IMP}, {"plb", IMP}, {"ldy", ABS}, {"lda", ABS}, {"ldx", ABS}, {"lda", LNG},
    // b0
    {"bcs", REL8}, {"lda", IDY}, {"lda", ID}, {"lda", ISY}, {"ldy", DX}, {"lda", DX}, {"ldx", DY}, {"lda", LDY},
    {"clv", IMP}, {"lda", ABSY}, {"tsx", IMP}, {"tyx", IMP}, {"ldy", ABSX}, {"lda", ABSX}, {"ldx", ABSY}, {"lda", LNGX},
    // c0
    {"cpy", IMMX}, {"cmp", IDX}, {"rep", IMM8}, {"cmp", SR}, {"cpy", D}, {"cmp", D}, {"dec", D}, {"cmp", LD},
    {"iny", IMP}, {"cmp", IMMM}, {"dex", IMP}, {"wai", IMP}, {"cpy", ABS}, {"cmp", ABS}, {"dec", ABS}, {"cmp", LNG},
    // d0
    {"bne", REL8}, {"cmp", IDY}, {"cmp", ID}, {"cmp", ISY}, {"pei", D}, {"cmp", DX}, {"dec", DX}, {"cmp", LDY},
    {"cld", IMP}, {"cmp", ABSY}, {"phx", IMP}, {"stp", IMP}, {"jmp", LA}, {"cmp", ABSX}, {"dec", ABSX}, {"cmp", LNGX},
    // e0
    {"cpx", IMMX}, {"sbc", IDX}, {"sep", IMM8}, {"sbc", SR}, {"cpx", D}, {"sbc", D}, {"inc", D}, {"sbc", LD},
    {"inx", IMP}, {"sbc", IMMM}, {"nop", IMP}, {"xba", IMP}, {"cpx", ABS}, {"sbc", ABS}, {"inc", ABS}, {"sbc", LNG},
    // f0
    {"beq", REL8}, {"sbc", IDY}, {"sbc", ID}, {"sbc", ISY}, {"pea", IMM16}, {"sbc", DX}, {"inc", DX}, {"sbc", LDY},
    {"sed", IMP}, {"sbc", ABSY}, {"plx", IMP}, {"xce", IMP}, {"jsr", IAX}, {"sbc", ABSX}, {"inc", ABSX}, {"sbc", LNGX},
};

// Bytes of operand; -1 for the two that depend on a width.
inline int OperandBytes(Mode m) {
  switch (m) {
    case IMP: case ACC: return 0;
    case IMMM: case IMMX: return -1;
    case IMM16: case ABS: case ABSX: case ABSY: case IA: case IAX: case LA: case MOV: case REL16: return 2;
    case LNG: case LNGX: return 3;
    default: return 1;
  }
}
// m8, x8: whether the accumulator / index registers are eight bits wide.
inline int OperandBytes(Mode m, bool m8, bool x8) {
  if (m == IMMM) return m8 ? 1 : 2;
  if (m == IMMX) return x8 ? 1 : 2;
  return OperandBytes(m);
}

inline int FindOp(const std::string& mn, Mode mode) {
  for (int i = 0; i < 256; ++i)
    if (mn == kOps[i].mn && kOps[i].mode == mode) return i;
  return -1;
}

inline bool IsBranch(const std::string& mn) {
  return mn == "bpl" || mn == "bmi" || mn == "bvc" || mn == "bvs" || mn == "bcc" || mn == "bcs" || mn == "bne" ||
         mn == "beq" || mn == "bra" || mn == "brl";
}
// Control does not continue to the next instruction.
inline bool IsExit(const std::string& mn) {
  return mn == "jmp" || mn == "rtl" || mn == "rts" || mn == "rti" || mn == "stp" || mn == "bra" || mn == "brl";
}

// 'm', 'x' or 0: which width decides how much data the instruction handles, so
// whether it may carry a .b or .w suffix.
inline char WidthOf(const std::string& mn) {
  static const char* m[] = {"adc", "and", "asl", "bit", "cmp", "dec", "eor", "inc", "lda", "lsr", "ora", "pha",
                            "pla", "rol", "ror", "sbc", "sta", "stz", "trb", "tsb", "txa", "tya", "add", "sub"};
  static const char* x[] = {"cpx", "cpy", "dex", "dey", "inx", "iny", "ldx", "ldy", "phx", "phy",
                            "plx", "ply", "stx", "sty", "tax", "tay", "tsx", "txy", "tyx"};
  for (auto s : m) if (mn == s) return 'm';
  for (auto s : x) if (mn == s) return 'x';
  return 0;
}

// How the assembler writes an operand of this mode, with `a` and `b` standing
// for the printed numbers or names.
inline std::string OperandText(Mode m, const std::string& a, const std::string& b = "") {
  switch (m) {
    case IMP: case ACC: return "";
    case IMM8: case IMM16: case IMMM: case IMMX: return "#" + a;
    case D: case ABS: case LNG: case REL8: case REL16: return a;
    case DX: case ABSX: case LNGX: return a + ", X";
    case DY: case ABSY: return a + ", Y";
    case ID: case IA: return "(" + a + ")";
    case IDX: case IAX: return "(" + a + ", X)";
    case IDY: return "(" + a + "), Y";
    case LD: case LA: return "[" + a + "]";
    case LDY: return "[" + a + "], Y";
    case SR: return a + ", S";
    case ISY: return "(" + a + ", S), Y";
    case MOV: return "#" + a + ", #" + b;
    default: return "?";
  }
}

}  // namespace cpu
