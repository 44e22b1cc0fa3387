// C12: the dump tool, run as a process on ROM files, its output parsed.
#include "h/common.h"
#include "h/romfile.h"

#include <optional>

using namespace vf;

namespace {
struct File { std::string path; int mode; std::vector<uint8_t> p; };
std::vector<File>& Files() {
  static std::vector<File> v;
  if (v.empty()) {
    struct { size_t size; int mode; bool header; } spec[] = {
        {0x10000, kLo, false}, {0x18000, kLo, true}, {0x11000, kLo, false}, {0x10000, kHi, false}, {0x23000, kHi, true},
        {0x80000, kHi, false}, {0x80000, kLo, false}, {0x400000, kExHi, false}, {0x408000, kExHi, true}, {0x400000, kLo, false}};
    for (auto& s : spec) {
      File f;
      f.mode = s.mode;
      f.p = RomPayload(s.size, s.mode, v.size() + 1);
      f.path = R().o.scratch + Fmt("/rom%zu.sfc", v.size());
      std::string bytes(s.header ? 0x200 : 0, 'h');
      bytes.append(reinterpret_cast<char*>(f.p.data()), f.p.size());
      WriteFile(f.path, bytes);
      v.push_back(std::move(f));
    }
  }
  return v;
}
std::optional<uint32_t> Value(const File& f, uint32_t a, int stride) {
  uint32_t v = 0;
  for (int k = 0; k < stride; ++k) {
    int64_t off = CartOffset(NextInBank(a, k), f.mode);
    if (off < 0 || off >= int64_t(f.p.size())) return {};
    v |= uint32_t(f.p[off]) << (8 * k);
  }
  return v;
}

struct Dump { bool org = false; uint32_t at = 0; std::vector<std::pair<int, uint32_t>> values; size_t widest = 0; std::string junk; };
Dump Parse(const std::string& out) {
  Dump d;
  size_t i = 0;
  while (i < out.size()) {
    size_t e = out.find('\n', i);
    if (e == std::string::npos) { d.junk += "(no newline)"; e = out.size(); }
    std::string line = out.substr(i, e - i);
    i = e + 1;
    std::string word, rest;
    size_t s = line.find_first_not_of(" \t");
    if (s == std::string::npos) continue;
    size_t t = line.find_first_of(" \t", s);
    word = line.substr(s, t == std::string::npos ? t : t - s);
    rest = t == std::string::npos ? "" : line.substr(t);
    std::string flat;
    for (char c : rest) if (c != ' ' && c != '\t') flat += c;
    int w = word == ".db" ? 1 : word == ".dw" ? 2 : word == ".dl" ? 3 : 0;
    if (word == ".org" && !d.org && d.values.empty() && flat.size() > 1 && flat[0] == '$') {
      d.org = true;
      d.at = uint32_t(strtoul(flat.c_str() + 1, nullptr, 16));
    } else if (w) {
      size_t n = 0, p = 0;
      while (p <= flat.size()) {
        size_t c = flat.find(',', p);
        if (c == std::string::npos) c = flat.size();
        std::string item = flat.substr(p, c - p);
        p = c + 1;
        if (item.size() < 2 || item[0] != '$' || item.find_first_not_of("0123456789abcdefABCDEF", 1) != std::string::npos) { d.junk += "[" + item + "]"; break; }
        // the digits give a literal its size
        if (item.size() != size_t(1 + 2 * w)) d.junk += "[" + item + " is not a literal of " + std::to_string(w) + " bytes]";
        d.values.push_back({w, uint32_t(strtoul(item.c_str() + 1, nullptr, 16))});
        ++n;
        if (c == flat.size()) break;
      }
      d.widest = std::max(d.widest, n);
    } else {
      d.junk += line + "\n";
    }
  }
  return d;
}

void Case(uint64_t, Rng& r) {
  auto& files = Files();
  size_t fi = r.Below(r.Chance(1, 6) ? files.size() : files.size() - 3);
  bool last = r.Chance(1, 40);  // the last addresses there are
  if (last) fi = files.size() - r.Range(1, 3);
  const File& f = files[fi];
  std::string rom = f.path;
  uint32_t at;
  switch (r.Below(6)) {
    case 0: at = uint32_t(r.Below(0x1000000)); break;
    case 1: at = (uint32_t(r.Below(256)) << 16) | uint32_t(0x10000 - r.Range(1, 40)); break;
    case 2: at = (uint32_t(r.Below(256)) << 16) | uint32_t(0x8000 + r.Range(-20, 20)); break;
    case 3: {  // near the end of the image
      int64_t off = int64_t(f.p.size()) - r.Range(0, 60);
      at = f.mode == kLo ? uint32_t(off / 0x8000) << 16 | 0x8000 | uint32_t(off % 0x8000) : 0x400000 | uint32_t(off & 0x3fffff);
      break;
    }
    default: {
      int64_t off = int64_t(r.Below(f.p.size()));
      at = f.mode == kLo ? uint32_t(off / 0x8000) << 16 | 0x8000 | uint32_t(off % 0x8000) : 0xc00000 | uint32_t(off & 0x3fffff);
      if (r.Coin()) at ^= f.mode == kLo ? 0x800000 : 0;
      at &= 0xffffff;
    }
  }
  if (last) at = 0xffffff - uint32_t(r.Below(3));
  int count = int(r.Chance(1, 25) ? r.Range(1, 4000) : r.Pick<int64_t>({1, 2, 7, 8, 9, 16, 17, r.Range(1, 60), r.Range(1, 300)}));
  int stride = 1, per_line = 8;
  std::vector<std::string> args = {R().o.bin + "/quick_dump"};
  std::string hex = r.Coin() ? Fmt("%06x", at) : r.Coin() ? Fmt("%X", at) : Fmt("0x%x", at);
  args.push_back(rom);
  args.push_back(hex);
  args.push_back(std::to_string(count));
  if (r.Chance(3, 4)) {
    stride = int(r.Range(1, 3));
    args.push_back(std::to_string(stride));
    if (r.Chance(2, 3)) {
      per_line = int(r.Pick<int64_t>({1, 2, 3, 8, 16, 1000, r.Range(1, 40)}));
      args.push_back(std::to_string(per_line));
    }
  }
  int spoiled = 0;
  if (r.Chance(1, 7)) {
    spoiled = 1;
    switch (r.Below(7)) {
      case 0: args[1] = R().o.scratch + "/absent.sfc"; break;
      case 1: args[1] = R().o.scratch; break;
      case 2: {
        args[1] = R().o.scratch + "/bad.sfc";
        WriteFile(args[1], std::string(r.Pick<size_t>({0, 1, 511, 512, 513, 0x1000, 0x10000, 0x10200, 0x8000, 0x12345}), r.Pick({'\0', '\xff', 'x'})));
        break;
      }
      case 3: if (r.Coin()) args[3] = "1"; args[2] = r.Pick<const char*>({"", "zz", " ", "$8000", "1000000", "1000000", "1000000", "1000000", "1008000", "1000001", "7fffffff", "ffffffff", "-1", "-8000"}); break;
      case 4: args[3] = r.Pick<const char*>({"", "x", " ", "$1"}); break;
      case 5: args.resize(4); args.push_back(r.Pick<const char*>({"", "x", " ", "$1"})); break;
      case 6: args.resize(4); args.push_back("1"); args.push_back(r.Pick<const char*>({"", "x", " ", "$1"})); break;
    }
  } else if (r.Chance(1, 40)) {
    spoiled = 2;
    args.resize(r.Range(1, 3));
  } else if (r.Chance(1, 30)) {
    spoiled = 3;   // arguments in no sensible range: only that it neither crashes nor invents values
    if (args.size() == 4) args.push_back("1");
    if (args.size() == 5) args.push_back("8");
    args[3 + r.Below(3)] = r.Pick<const char*>({"0", "-1", "-2147483648", "4", "-3", "1000000"});
    if (args[3].size() > 5) args[3] = "0";
  }
  std::string cmd;
  for (auto& a : args) cmd += (cmd.empty() ? "" : " ") + (a.rfind(R().o.scratch, 0) == 0 ? ".." + a.substr(R().o.scratch.size()) : a.empty() ? "''" : a);
  cmd = cmd.substr(cmd.rfind("/quick_dump") + 1);
  R().Describe(cmd + Fmt("  (%s, %zu bytes)", f.mode == kLo ? "LoROM" : f.mode == kHi ? "HiROM" : "ExHiROM", f.p.size()));
  Proc p = Spawn(args, "dump");
  if (!p.exited() || p.err.find("Sanitizer") != std::string::npos || p.err.find("runtime error") != std::string::npos) {
    R().Violation(spoiled ? "crash/bad-arguments" : "crash/read", p.err.substr(0, 2000));
    return;
  }
  Dump d = Parse(p.out);
  if (spoiled) {
    ++R().Count("malformed");
    if (p.out.empty() && p.err.empty()) R().Violation("silent", "no output at all");
    if (spoiled != 3 && (d.org || !d.values.empty())) R().Violation("dumped-on-error", p.out.substr(0, 600));
    if (spoiled == 1 && p.code() == 0) R().Violation("success-on-error", p.out.substr(0, 600));
    if (spoiled == 3)
      for (size_t k = 0; k < d.values.size(); ++k) {
        auto want = Value(f, NextInBank(at, int64_t(k) * d.values[k].first), d.values[k].first);
        if (!want || *want != d.values[k].second) { R().Violation("value/odd-arguments", p.out.substr(0, 600)); break; }
      }
    R().Distinct(cmd);
    return;
  }
  bool readable = true;
  bool wraps = false;
  for (int k = 0; k < count && readable; ++k) {
    readable = bool(Value(f, NextInBank(at, int64_t(k) * stride), stride));
    wraps |= (at & 0xffff) + int64_t(k + 1) * stride > 0x10000;
  }
  ++R().Count(readable ? "readable" : "unreadable");
  if (readable && wraps) ++R().Count("wrapping");
  R().Distinct(cmd);
  R().MaybeSample(cmd + " -> " + p.out.substr(0, 200));
  for (size_t k = 0; k < d.values.size(); ++k) {
    auto want = Value(f, NextInBank(at, int64_t(k) * stride), stride);
    if (d.values[k].first != stride || !want || *want != d.values[k].second) {
      R().Violation("value", Fmt("entry %zu is $%x, expected %s", k, d.values[k].second, want ? Fmt("$%x", *want).c_str() : "none"));
      break;
    }
  }
  if (!readable) {
    if (p.code() == 0) R().Violation("unreadable-success", p.out.substr(0, 600));
    if ((p.out + p.err).find(rom) == std::string::npos) R().Violation("unreadable-message", "the message does not name the ROM: " + (p.out + p.err).substr(0, 600));
    return;
  }
  if (p.code() != 0) { R().Violation("readable-failure", Fmt("exit %d: ", p.code()) + (p.out + p.err).substr(0, 600)); return; }
  if (!d.org || d.at != at) R().Violation("origin", p.out.substr(0, 200));
  if (int64_t(d.values.size()) != count) R().Violation("count", Fmt("%zu values, expected %d", d.values.size(), count));
  if (d.widest > size_t(per_line)) R().Violation("per-line", Fmt("%zu on a line, at most %d asked", d.widest, per_line));
  if (!d.junk.empty()) R().Violation("junk", d.junk.substr(0, 600));
}
}  // namespace

int main(int argc, char** argv) {
  R().Init(argc, argv);
  Files();
  R().Cases(R().o.cases, Case);
  return R().Finish();
}
