// Makes files that are loadable ROM dumps of a chosen mapping.
#pragma once
#include "h/common.h"
#include "h/rommodel.h"
namespace vf {
inline void PutChecksum(std::vector<uint8_t>& p, size_t at, uint16_t sum) {
  uint16_t inv = uint16_t(~sum);
  p[at] = uint8_t(inv); p[at + 1] = uint8_t(inv >> 8);
  p[at + 2] = uint8_t(sum); p[at + 3] = uint8_t(sum >> 8);
}
// `size` is a multiple of $1000, at least $10000; the mapping must fit it.
inline std::vector<uint8_t> RomPayload(size_t size, int mode, uint64_t salt) {
  std::vector<uint8_t> p(size);
  for (size_t i = 0; i < size; ++i) p[i] = RomByte(i + salt * 0x1000003);
  size_t real = mode == kLo ? 0x7fdc : 0xffdc, fake = mode == kLo ? 0xffdc : 0x7fdc;
  PutChecksum(p, real, uint16_t(0x1234 + salt * 77));
  p[fake] = p[fake + 1] = p[fake + 2] = p[fake + 3] = 0x11;
  return p;
}
}  // namespace vf
