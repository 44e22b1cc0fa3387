// The SNES cartridge mappings, written from the hardware's wiring rather than
// from the code under test.
#pragma once
#include <cstdint>
#include <vector>
namespace vf {
enum MapMode { kLo = 0, kHi = 1, kExHi = 2 };
// Cartridge offset of a 24-bit address, or -1 when the cartridge is not there.
inline int64_t CartOffset(uint32_t a, int mode) {
  const uint32_t bank = a >> 16, in_bank = a & 0xffff;
  if (bank == 0x7e || bank == 0x7f) return -1;                    // work RAM
  const bool system_bank = bank <= 0x3f || (bank >= 0x80 && bank <= 0xbf);
  if (system_bank && in_bank <= 0x7fff) return -1;                // registers
  if (mode == kLo) {
    if (in_bank <= 0x7fff) return -1;
    return int64_t(bank % 0x80) * 0x8000 + (in_bank - 0x8000);
  }
  int64_t off = int64_t(bank % 0x40) * 0x10000 + in_bank;
  if (mode == kExHi && bank < 0x80) off += 0x400000;
  return off;
}
inline uint32_t NextInBank(uint32_t a, int64_t n) {
  return (a & 0xff0000) | uint32_t((int64_t(a & 0xffff) + n) & 0xffff);
}
inline uint8_t RomByte(uint64_t i) {
  uint64_t x = i * 0x9e3779b97f4a7c15ULL + 12345;
  x ^= x >> 29; x *= 0xbf58476d1ce4e5b9ULL; x ^= x >> 32;
  return uint8_t(x);
}
}
