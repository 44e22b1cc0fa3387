// C01-C05: address translation, reading, loading, patching and checking ROMs.
#include "h/common.h"
#include "h/rommodel.h"

#include <cerrno>
#include <memory>

#include "nsasm/rom.h"

using namespace vf;
using nsasm::Address;
using nsasm::Rom;

namespace {
nsasm::Mapping Mode(int m) { return m == kLo ? nsasm::kLoRom : m == kHi ? nsasm::kHiRom : nsasm::kExHiRom; }
const char* kModeName[] = {"LoROM", "HiROM", "ExHiROM"};

// ---- file faults -----------------------------------------------------------
struct Faults {
  int fail_read = -1, fail_write = -1, fail_close = -1;
  int reads = 0, writes = 0, closes = 0;
  bool fired = false;
  void Clear() { *this = Faults(); }
} g_fault;
}  // namespace

extern "C" {
size_t __real_fread(void*, size_t, size_t, FILE*);
size_t __real_fwrite(const void*, size_t, size_t, FILE*);
int __real_fclose(FILE*);
size_t __wrap_fread(void* p, size_t s, size_t n, FILE* f) {
  if (g_fault.reads++ == g_fault.fail_read) { g_fault.fired = true; errno = EIO; return n ? __real_fread(p, s, n / 2, f) : 0; }
  return __real_fread(p, s, n, f);
}
size_t __wrap_fwrite(const void* p, size_t s, size_t n, FILE* f) {
  if (g_fault.writes++ == g_fault.fail_write) { g_fault.fired = true; errno = ENOSPC; return n / 2; }
  return __real_fwrite(p, s, n, f);
}
int __wrap_fclose(FILE* f) {
  bool fail = g_fault.closes++ == g_fault.fail_close;
  int r = __real_fclose(f);
  if (fail) { g_fault.fired = true; errno = ENOSPC; return EOF; }
  return r;
}
}

namespace {

// ---- C01 -------------------------------------------------------------------
void CheckMap(uint32_t a, int m) {
  auto r = nsasm::SnesToROMAddress(Address(a), Mode(m));
  int64_t want = CartOffset(a, m);
  if (want < 0 ? r.ok() : (!r.ok() || int64_t(*r) != want)) {
    R().Violation(Fmt("map/%s/%s", kModeName[m], want < 0 ? "accepted" : r.ok() ? "offset" : "refused"),
                  Fmt("%s address $%06x: expected %s, got %s", kModeName[m], a,
                      want < 0 ? "refused" : Fmt("offset 0x%llx", (long long)want).c_str(),
                      r.ok() ? Fmt("offset 0x%zx", size_t(*r)).c_str() : r.error().ToString().c_str()));
  }
  ++R().Count(want < 0 ? "refused" : "translated");
}
void C01() {
  R().Cases(768, [](uint64_t i, Rng& r) {
    int m = i / 256, bank = i % 256;
    R().Describe(Fmt("%s bank $%02x, all in-bank addresses", kModeName[m], bank));
    for (int lo = 0; lo < 0x10000; ++lo) CheckMap(bank << 16 | lo, m);
    R().Eval(65535);
    R().Distinct(i);
    R().MaybeSample(R().Described());
  });
}

// ---- images ----------------------------------------------------------------
std::vector<uint8_t> Image(size_t n, uint64_t salt) {
  std::vector<uint8_t> v(n);
  for (size_t i = 0; i < n; ++i) v[i] = RomByte(i + salt * 0x1000003);
  return v;
}
struct Img { int mode; std::vector<uint8_t> data; std::unique_ptr<Rom> rom; std::string path; };
std::vector<Img>& Images() {
  static std::vector<Img> v;
  if (v.empty()) {
    size_t sizes[] = {1, 2, 3, 0x7fff, 0x8000, 0x8001, 0xffff, 0x10000, 0x10001, 0x18000, 0x28000, 0x200000, 0x3ff000, 0x400000, 0x408000, 0x410000, 0x5a8000};
    for (int m = 0; m < 3; ++m)
      for (size_t s : sizes) {
        if (m == kLo && s > 0x400000) continue;
        Img i;
        i.mode = m;
        i.data = Image(s, 7);
        i.path = Fmt("/rom/%s-%zx.sfc", kModeName[m], s);
        i.rom = std::make_unique<Rom>(Mode(m), i.path, std::vector<uint8_t>(), i.data);
        v.push_back(std::move(i));
      }
  }
  return v;
}
// An address, preferring those near where something changes.
uint32_t PickAddress(Rng& r, int mode, size_t size) {
  switch (r.Below(8)) {
    case 0: return uint32_t(r.Below(1 << 24));
    case 1: {  // near the end of a bank
      uint32_t bank = r.Below(256);
      return bank << 16 | ((0x10000 - 1 - r.Below(8)) & 0xffff);
    }
    case 2: {  // near the middle or start of a bank
      uint32_t bank = r.Below(256);
      return bank << 16 | (((r.Coin() ? 0x8000 : 0) + r.Range(-4, 4)) & 0xffff);
    }
    case 3: {  // boundary banks
      uint32_t b = r.Pick<uint32_t>({0, 1, 0x3f, 0x40, 0x41, 0x7d, 0x7e, 0x7f, 0x80, 0x81, 0xbf, 0xc0, 0xfe, 0xff});
      return b << 16 | r.Below(0x10000);
    }
    default: {  // an address that maps into, or just past, the image
      int64_t off = r.Coin() ? int64_t(size) + r.Range(-6, 3) : int64_t(r.Below(size + 1));
      if (off < 0) off = 0;
      for (int tries = 0; tries < 64; ++tries) {
        uint32_t a;
        uint32_t mirror = r.Below(4);
        if (mode == kLo) a = uint32_t((off / 0x8000) % 0x80) << 16 | 0x8000 | (off % 0x8000) | (mirror & 1) << 23;
        else a = uint32_t(off & 0x3fffff) | mirror << 22;
        if (CartOffset(a, mode) == off) return a;
      }
      return uint32_t(r.Below(1 << 24));
    }
  }
}
int PickLength(Rng& r, uint32_t a, int mode, size_t size) {
  int to_end = 0x10000 - int(a & 0xffff);
  int64_t off = CartOffset(a, mode);
  switch (r.Below(24)) {
    case 0: return 0;
    case 1: return -int(r.Below(3)) - 1;
    case 2: return r.Pick<int>({0x7fff, 0x8000, 0x8001, 0xffff, 0x10000});
    case 3: return r.Coin() ? int(r.Range(0x10001, 0x10010)) : int(r.Range(0x10000, 0x28000));
    case 4: case 5: case 6: case 7: return to_end + int(r.Range(-3, 3));
    case 8: case 9: case 10: case 11:
      if (off >= 0 && int64_t(size) - off < 0x9000) return int(int64_t(size) - off + r.Range(-3, 3));
      return 1 + r.Below(8);
    case 12: return 1 + r.Below(2000);
    default: return 1 + int(r.Below(8));
  }
}
// What the read has to give: the bytes, or nothing.
bool ModelRead(const Img& i, uint32_t a, int len, std::vector<uint8_t>* out) {
  out->clear();
  if (len < 0) return false;
  for (int k = 0; k < len; ++k) {
    int64_t o = CartOffset(NextInBank(a, k), i.mode);
    if (o < 0 || o >= int64_t(i.data.size())) return false;
    out->push_back(i.data[o]);
  }
  return true;
}
// Every error of a read names the file and an address that was asked for.
void CheckReadError(const std::string& text, const Img& i, uint32_t a, int len) {
  if (len <= 0) return;
  std::string pre = i.path + ":0x";
  unsigned got = 0;
  if (text.compare(0, pre.size(), pre) != 0 || text.size() < pre.size() + 7 ||
      sscanf(text.c_str() + pre.size(), "%6x", &got) != 1 || text[pre.size() + 6] != ':') {
    R().Violation("read/error-place", "error does not start with the ROM's path and an address: " + text);
    return;
  }
  int64_t d = (int64_t(got & 0xffff) - int64_t(a & 0xffff)) & 0xffff;
  if ((got >> 16) != (a >> 16) || d >= len)
    R().Violation("read/error-place", "error names an address outside the read: " + text);
}
void C02() {
  R().Cases(R().o.cases, [](uint64_t, Rng& r) {
    auto& imgs = Images();
    const Img& i = imgs[r.Below(imgs.size())];
    uint32_t a = PickAddress(r, i.mode, i.data.size());
    int len = PickLength(r, a, i.mode, i.data.size());
    R().Describe(Fmt("%s image of 0x%zx bytes, read %d bytes at $%06x", kModeName[i.mode], i.data.size(), len, a));
    std::vector<uint8_t> want;
    bool ok = ModelRead(i, a, len, &want);
    auto got = i.rom->Read(Address(a), len);
    ++R().Count(ok ? "reads_ok" : "reads_refused");
    if (len > 0x10000 - int(a & 0xffff)) ++R().Count(ok ? "wrapping_reads_ok" : "wrapping_reads_refused");
    if (ok != got.ok())
      R().Violation(ok ? "read/refused" : "read/accepted",
                    ok ? "expected bytes, got error " + got.error().ToString() : "expected an error, got bytes " + Hex(*got));
    else if (ok && *got != want)
      R().Violation(got->size() == want.size() ? "read/bytes" : "read/length",
                    Fmt("expected %zu bytes %s, got %zu bytes %s", want.size(), Hex(want).c_str(), got->size(), Hex(*got).c_str()));
    else if (!ok)
      CheckReadError(got.error().ToString(), i, a, len);
    for (int n = 1; n <= 3; ++n) {
      bool vok = ModelRead(i, a, n, &want);
      auto v = n == 1 ? i.rom->ReadByte(Address(a)) : n == 2 ? i.rom->ReadWord(Address(a)) : i.rom->ReadLong(Address(a));
      int expect = 0;
      for (int k = n; vok && k > 0; --k) expect = expect << 8 | want[k - 1];
      if (vok != v.ok() || (vok && *v != expect))
        R().Violation(Fmt("value/%d", n), Fmt("%d-byte value at $%06x: expected %s, got %s", n, a, vok ? Fmt("0x%x", expect).c_str() : "an error",
                                              v.ok() ? Fmt("0x%x", *v).c_str() : v.error().ToString().c_str()));
      ++R().Count(vok ? "values_ok" : "values_refused");
    }
    if (i.rom->Path() != i.path) R().Violation("path", "path is " + i.rom->Path());
    R().Distinct(R().Described());
    R().MaybeSample(R().Described());
  });
}

// ---- C03 -------------------------------------------------------------------
void PutSum(std::vector<uint8_t>* d, size_t base, Rng& r, int kind) {
  // base: start of the internal header's page half; the complement is at
  // +0x2c/+0x2d and the checksum at +0x2e/+0x2f of base + 0x7fb0.
  if (d->size() < base + 0x10) return;
  uint8_t lo = r.Next(), hi = r.Next();
  uint8_t* p = &(*d)[base];
  p[0] = lo; p[1] = hi; p[2] = ~lo; p[3] = ~hi;
  if (kind == 1) return;                       // good
  int where = r.Below(4);
  if (kind == 2) p[where] ^= 1 << r.Below(8);  // one bit off
  if (kind == 3) { p[2] = lo; p[3] = hi; }     // equal, not complementary
  if (kind == 4) { p[2] = ~hi; p[3] = ~lo; if (p[2] == uint8_t(~lo) && p[3] == uint8_t(~hi)) p[2] ^= 1; }
  if (kind == 5) { p[where & 1 ? 2 : 3] ^= 0xff; }  // only one half right
}
bool Pair(const std::vector<uint8_t>& d, size_t at) {
  return uint8_t(d[at] ^ d[at + 2]) == 0xff && uint8_t(d[at + 1] ^ d[at + 3]) == 0xff;
}
void C03() {
  static std::vector<uint8_t> big = Image(0x610200, 3);
  R().Cases(R().o.cases, [](uint64_t idx, Rng& r) {
    std::string path = R().o.scratch + "/in.sfc";
    size_t payload;
    if (idx % 40 == 7) payload = r.Pick<size_t>({0x3ff000, 0x400000, 0x401000, 0x3fe000, 0x600000});
    else switch (r.Below(8)) {
      case 0: payload = r.Below(0x14) * 0x1000; break;
      case 1: payload = 0x10000; break;
      case 2: payload = 0xf000; break;
      case 3: payload = r.Below(0x13000); break;
      default: payload = 0x10000 + r.Below(9) * 0x1000; break;
    }
    size_t extra = r.Pick<size_t>({0, 0, 0, 0, 0x200, 0x200, 0x200, 0x200, 0x1ff, 0x201, 1, 0xfff, 0x100, 0x400, 0xe00, 0x800, 0xa00, size_t(r.Below(16)) * 0x100});
    size_t size = payload + extra;
    bool has_header = size % 0x1000 == 0x200;
    bool good_size = size > 0 && (size % 0x1000 == 0 || has_header);
    std::vector<uint8_t> file(big.begin(), big.begin() + size);
    std::vector<uint8_t> body(file.begin() + (has_header ? std::min<size_t>(size, 0x200) : 0), file.end());
    std::vector<uint8_t> head(file.begin(), file.end() - body.size());
    // Neutralise both places, then choose.
    PutSum(&body, 0x7fdc, r, 2);
    PutSum(&body, 0xffdc, r, 2);
    int lo_kind = r.Pick({1, 1, 1, 2, 3, 4, 5}), hi_kind = r.Pick({1, 1, 1, 2, 3, 4, 5});
    if (r.Chance(2, 3)) { if (r.Coin()) { lo_kind = 1; if (hi_kind == 1) hi_kind = 2; } else { hi_kind = 1; if (lo_kind == 1) lo_kind = 2; } }
    PutSum(&body, 0x7fdc, r, lo_kind);
    PutSum(&body, 0xffdc, r, hi_kind);
    // The same bytes at the same places of the file with its header must not
    // decide; nor the neighbouring bytes.
    file = head;
    file.insert(file.end(), body.begin(), body.end());
    int want = -1;
    if (good_size && body.size() >= 0x10000) {
      bool lo = Pair(body, 0x7fdc), hi = Pair(body, 0xffdc);
      if (lo != hi) want = lo ? kLo : body.size() < 0x400000 ? kHi : kExHi;
    }
    int odd = r.Chance(1, 50) ? 1 + r.Below(4) : 0;
    WriteFile(path, file.data(), file.size());
    if (odd == 1) { path = R().o.scratch + "/missing.sfc"; want = -1; }
    if (odd == 2) { path = R().o.scratch; want = -1; }
    if (odd == 3) { path = "/dev/null"; want = -1; }
    if (odd == 4) { path = R().o.scratch + "/in.sfc/x"; want = -1; }
    g_fault.Clear();
    if (!odd && r.Chance(1, 12)) g_fault.fail_read = r.Below(2);
    std::string what = Fmt("file of 0x%zx bytes (payload 0x%zx, %s header), places lo %d hi %d, odd %d, failing read %d", file.size(), body.size(),
                           has_header ? "with" : "no", lo_kind, hi_kind, odd, g_fault.fail_read);
    R().Describe(what);
    int before = OpenFds();
    {
      auto got = nsasm::LoadRomFile(path);
      bool fault = g_fault.fired;
      g_fault.Clear();
      if (fault) { want = -1; ++R().Count("read_faults"); }
      ++R().Count(want < 0 ? "loads_refused" : Fmt("loads_%s", kModeName[want]));
      if (want >= 0 && has_header) ++R().Count("loads_headered");
      if (got.ok() != (want >= 0)) {
        R().Violation(want >= 0 ? "load/refused" : fault ? "load/fault-accepted" : "load/accepted",
                      want >= 0 ? Fmt("expected %s, got error ", kModeName[want]) + got.error().ToString() : std::string("expected an error, got a ROM"));
      } else if (!got.ok()) {
        if (got.error().ToString().find(path) == std::string::npos)
          R().Violation("load/error-file", "error does not name the file: " + got.error().ToString());
      } else {
        if ((*got)->Path() != path) R().Violation("load/path", "path is " + (*got)->Path());
        Img img;
        img.mode = want;
        img.data = body;
        img.path = path;
        for (int k = 0; k < 12; ++k) {
          uint32_t a = k == 0 ? (want == kLo ? 0x008000 : want == kHi ? 0xc00000 : 0xc00000) : PickAddress(r, want, body.size());
          int len = k < 2 ? 0x100 : 1 + r.Below(40);
          std::vector<uint8_t> exp;
          bool ok = ModelRead(img, a, len, &exp);
          auto rd = (*got)->Read(Address(a), len);
          if (rd.ok() != ok || (ok && *rd != exp)) {
            R().Violation("load/bytes", Fmt("loaded as %s, read %d at $%06x: expected %s, got %s", kModeName[want], len, a, ok ? Hex(exp).c_str() : "an error",
                                            rd.ok() ? Hex(*rd).c_str() : rd.error().ToString().c_str()));
            break;
          }
          ++R().Count(ok ? "reads_ok" : "reads_refused");
        }
      }
    }
    if (int after = OpenFds(); after != before) R().Violation("load/leak", Fmt("%d file descriptors open after the load, %d before", after, before));
    R().Distinct(what);
    R().MaybeSample(what);
  });
}

// ---- C04 -------------------------------------------------------------------
void C04() {
  static std::vector<uint8_t> big = Image(0x600000, 11);
  R().Cases(R().o.cases, [](uint64_t idx, Rng& r) {
    int mode = r.Below(3);
    size_t size;
    if (idx % 50 == 11) size = mode == kLo ? 0x3f8000 : mode == kHi ? 0x400000 : 0x580000;
    else size = r.Pick<size_t>({0x10000, 0x11000, 0x18000, 0x1f000, 0x20000, 0x8000, 0x9000});
    if (mode == kExHi && size < 0x400000 && r.Coin() && idx % 50 == 12) size = 0x410000;
    std::vector<uint8_t> data(big.begin(), big.begin() + size), header;
    if (r.Coin()) { header.resize(0x200); for (auto& b : header) b = r.Next(); }
    std::vector<uint8_t> want = data;
    std::vector<bool> unknown;   // bytes a refused write may have changed
    bool from_file = size >= 0x10000 && size % 0x1000 == 0 && r.Chance(1, 3);
    std::string in = R().o.scratch + "/in.sfc", out = R().o.scratch + "/out.sfc";
    std::string log = Fmt("%s image of 0x%zx bytes, %s header%s:", kModeName[mode], size, header.empty() ? "no" : "with", from_file ? ", loaded from a file" : "");
    R().Describe(log);
    std::unique_ptr<Rom> rom;
    if (from_file) {
      if (size < 0x400000 && mode == kExHi) mode = kHi;
      if (size >= 0x400000 && mode == kHi) mode = kExHi;
      PutSum(&data, 0x7fdc, r, mode == kLo ? 1 : 2);
      PutSum(&data, 0xffdc, r, mode == kLo ? 2 : 1);
      want = data;
      std::vector<uint8_t> file = header;
      file.insert(file.end(), data.begin(), data.end());
      // What was loaded before, or could not be, is of no matter.
      if (r.Chance(1, 3)) {
        std::vector<uint8_t> other(r.Pick<size_t>({0x200, 0x10000, 0x10200, 0x11200, 0x10100}));
        for (auto& b : other) b = r.Next();
        if (size_t h = other.size() % 0x1000 == 0x200 ? 0x200 : 0; other.size() > 0x10000 && r.Coin()) {
          std::vector<uint8_t> body(other.begin() + h, other.end());
          PutSum(&body, 0x7fdc, r, 1);
          PutSum(&body, 0xffdc, r, 2);
          std::copy(body.begin(), body.end(), other.begin() + h);
        }
        WriteFile(in, other.data(), other.size());
        auto before = nsasm::LoadRomFile(in);
        ++R().Count(before.ok() ? "loaded_before" : "failed_before");
      }
      WriteFile(in, file.data(), file.size());
      auto l = nsasm::LoadRomFile(in);
      if (!l.ok()) { R().Violation("patch/load", "cannot load: " + l.error().ToString()); return; }
      rom = std::move(*l);
    } else {
      rom = std::make_unique<Rom>(Mode(mode), "/rom/x.sfc", header, data);
    }
    unknown.assign(size, false);
    nsasm::RomOverwriter sink(std::move(rom));
    int n = r.Below(12);
    std::vector<uint32_t> prior;
    for (int k = 0; k < n; ++k) {
      uint32_t a = !prior.empty() && r.Chance(1, 3) ? NextInBank(r.Pick(prior), r.Range(-4, 4)) ^ (r.Chance(1, 4) ? 0x800000 : 0) : PickAddress(r, mode, size);
      prior.push_back(a);
      int len = r.Chance(1, 12) ? int(r.Below(0x9000)) : r.Chance(1, 5) ? 0x10000 - int(a & 0xffff) + int(r.Below(4)) - 1 : int(r.Below(9));
      if (len > 0x10000) len = 0x10000;
      std::vector<uint8_t> bytes(len);
      for (auto& b : bytes) b = r.Next();
      log += Fmt(" write %d at $%06x;", len, a);
      R().Describe(log);
      bool ok = true;
      for (int j = 0; j < len; ++j) {
        int64_t o = CartOffset(NextInBank(a, j), mode);
        if (o < 0 || o >= int64_t(size)) { ok = false; break; }
      }
      auto res = sink.Write(Address(a), absl::MakeConstSpan(bytes));
      ++R().Count(ok ? "writes_ok" : "writes_refused");
      if (ok && len > 0x10000 - int(a & 0xffff)) ++R().Count("wrapping_writes");
      if (ok != res.ok()) {
        R().Violation(ok ? "patch/refused" : "patch/accepted", ok ? "write refused: " + res.error().ToString() : std::string("write accepted, expected an error"));
        return;
      }
      for (int j = 0; j < len; ++j) {
        int64_t o = CartOffset(NextInBank(a, j), mode);
        if (o < 0 || o >= int64_t(size)) continue;
        if (ok) { want[o] = bytes[j]; unknown[o] = false; }
        else unknown[o] = true;
      }
    }
    int how = r.Below(14);
    g_fault.Clear();
    std::string target = out;
    if (how == 0) target = R().o.scratch + "/no/such/dir/out.sfc";
    if (how == 1) target = "/dev/full";
    if (how == 2) g_fault.fail_write = r.Below(2);
    if (how == 3) g_fault.fail_close = 0;
    unlink(out.c_str());
    log += Fmt(" create (kind %d)", how < 4 ? how : -1);
    R().Describe(log);
    int before = OpenFds();
    auto res = sink.CreateFile(target);
    bool fault = g_fault.fired || how == 0 || how == 1;
    g_fault.Clear();
    int after = OpenFds();
    if (before != after) R().Violation("patch/leak", Fmt("%d file descriptors open after creating the file, %d before", after, before));
    if (fault) {
      ++R().Count("create_faults");
      if (res.ok()) R().Violation("patch/fault-accepted", "creating the file failed but success was reported");
    } else if (!res.ok()) {
      R().Violation("patch/create", "creating the file failed: " + res.error().ToString());
    } else {
      std::string f = ReadFile(out);
      ++R().Count("files_compared");
      if (f.size() != header.size() + size) {
        R().Violation("patch/size", Fmt("created 0x%zx bytes, expected 0x%zx", f.size(), header.size() + size));
      } else if (!std::equal(header.begin(), header.end(), f.begin(), [](uint8_t a, char b) { return a == uint8_t(b); })) {
        R().Violation("patch/header", "the copier header changed");
      } else {
        for (size_t o = 0; o < size; ++o)
          if (!unknown[o] && uint8_t(f[header.size() + o]) != want[o]) {
            R().Violation(want[o] == data[o] ? "patch/spill" : "patch/byte", Fmt("offset 0x%zx is 0x%02x, expected 0x%02x (originally 0x%02x)", o, uint8_t(f[header.size() + o]), want[o], data[o]));
            break;
          }
      }
    }
    R().Distinct(log);
    R().MaybeSample(log);
  });
}

// ---- C05 -------------------------------------------------------------------
void C05() {
  R().Cases(R().o.cases, [](uint64_t, Rng& r) {
    auto& imgs = Images();
    const Img& i = imgs[r.Below(imgs.size())];
    static std::map<const Img*, std::unique_ptr<nsasm::RomIdentityTest>> sinks;
    auto& sink = sinks[&i];
    if (!sink) sink = std::make_unique<nsasm::RomIdentityTest>(std::make_unique<Rom>(Mode(i.mode), i.path, std::vector<uint8_t>(), i.data));
    uint32_t a = PickAddress(r, i.mode, i.data.size());
    int len = std::abs(PickLength(r, a, i.mode, i.data.size()));
    std::vector<uint8_t> bytes;
    bool readable = ModelRead(i, a, len, &bytes);
    int diff = -1;
    if (!readable) { bytes.resize(len); for (auto& b : bytes) b = r.Next(); }
    else if (len && r.Chance(2, 3)) {
      diff = r.Chance(1, 3) ? 0 : r.Chance(1, 2) ? len - 1 : int(r.Below(len));
      uint8_t was = bytes[diff];
      bytes[diff] ^= r.Chance(1, 2) ? 1 << r.Below(8) : 1 + r.Below(255);
      // more differences after the first
      if (r.Coin()) for (int k = 0; k < 3; ++k) { int at = diff + r.Below(len - diff); bytes[at] ^= at == diff ? 0 : r.Next(); }
      if (bytes[diff] == was) bytes[diff] ^= 0x40;
    }
    R().Describe(Fmt("%s image of 0x%zx bytes, check %d bytes at $%06x, first difference at %d", kModeName[i.mode], i.data.size(), len, a, diff));
    auto res = sink->Write(Address(a), absl::MakeConstSpan(bytes));
    bool want = readable && diff < 0;
    ++R().Count(want ? "matching" : readable ? "differing" : "unreadable");
    if (res.ok() != want) {
      R().Violation(want ? "identity/refused" : "identity/accepted", want ? "matching write refused: " + res.error().ToString() : std::string("accepted"));
    } else if (!want && readable) {
      std::string text = res.error().ToString();
      std::vector<uint8_t> orig;
      ModelRead(i, a, len, &orig);
      std::string at = Fmt("$%06x", NextInBank(a, diff)), w = Fmt("0x%02x", bytes[diff]), e = Fmt("0x%02x", orig[diff]);
      size_t pw = text.find(w), pe = text.rfind(e);
      if (text.find(at) == std::string::npos || pw == std::string::npos || pe == std::string::npos)
        R().Violation("identity/message", Fmt("error should name %s, written %s and expected %s: ", at.c_str(), w.c_str(), e.c_str()) + text);
      else if (pw > pe) R().Violation("identity/message-order", "written and expected byte are swapped: " + text);
    } else if (!want) {
      auto rd = i.rom->Read(Address(a), len);
      if (rd.ok() || rd.error().ToString() != res.error().ToString())
        R().Violation("identity/unreadable", "error is '" + res.error().ToString() + "' but the read gives '" + (rd.ok() ? "bytes" : rd.error().ToString()) + "'");
    }
    R().Distinct(R().Described());
    R().MaybeSample(R().Described());
  });
}
}  // namespace

int main(int argc, char** argv) {
  R().Init(argc, argv);
  if (R().o.prop == "C01") C01();
  else if (R().o.prop == "C02") C02();
  else if (R().o.prop == "C03") C03();
  else if (R().o.prop == "C04") C04();
  else if (R().o.prop == "C05") C05();
  else return 64;
  return R().Finish();
}
