// C06, C07: claimed byte ranges and range maps against a list of intervals.
#include "h/common.h"

#include <algorithm>
#include <optional>

#include "nsasm/ranges.h"

using namespace vf;
using nsasm::Address;
using nsasm::Chunk;
using nsasm::DataRange;
using nsasm::RangeMap;

namespace {
struct Iv { uint32_t a, b; };  // half open

// The address behind an Address, through its public face only.
uint32_t Num(Address a) { return (uint32_t(a.Bank()) << 16) | a.BankAddress(); }

struct Model {
  std::vector<Iv> iv;
  bool Has(uint32_t x) const {
    for (auto& i : iv) if (x >= i.a && x < i.b) return true;
    return false;
  }
  bool Overlaps(Iv n) const {
    for (auto& i : iv) if (std::max(i.a, n.a) < std::min(i.b, n.b)) return true;
    return false;
  }
  std::vector<Iv> Runs() const {
    std::vector<Iv> s = iv, r;
    std::sort(s.begin(), s.end(), [](Iv x, Iv y) { return x.a < y.a; });
    for (auto& i : s) {
      if (!r.empty() && i.a <= r.back().b) r.back().b = std::max(r.back().b, i.b);
      else r.push_back(i);
    }
    return r;
  }
};

// The pieces of a claim that wraps inside its bank.
std::vector<Iv> Pieces(uint32_t at, int len) {
  std::vector<Iv> r;
  if (len <= 0) return r;
  uint32_t end_of_bank = (at | 0xffff) + 1;
  if (at + uint32_t(len) <= end_of_bank) {
    r.push_back({at, at + uint32_t(len)});
  } else {
    r.push_back({at, end_of_bank});
    uint32_t rest = len - (end_of_bank - at);
    r.push_back({at & 0xff0000u, (at & 0xff0000u) + rest});
  }
  return r;
}

// Where one case's addresses come from.
struct Space {
  int kind;
  uint32_t base, bank;
  explicit Space(Rng& r) : kind(int(r.Below(6))) {
    bank = r.Pick<uint32_t>({0, 1, 0x7e, 0x7f, 0x80, 0xfe, 0xff, uint32_t(r.Below(256))}) << 16;
    base = bank | uint32_t(r.Below(0xff00));
    if (kind == 1) base = bank;                                    // around the start of a bank
  }
  uint32_t At(Rng& r) const {
    switch (kind) {
      case 0: return base + uint32_t(r.Below(48));                 // dense
      case 1: {                                                    // around a bank edge
        int64_t v = int64_t(bank) + r.Range(-24, 24);
        return uint32_t(v < 0 ? v + 0x1000000 : v);
      }
      case 2: return bank | (uint32_t(0x10000 - 1 - r.Below(40)) & 0xffff);
      case 3: return bank | uint32_t(r.Below(0x10000));
      case 4: return (bank ^ (uint32_t(r.Below(2)) << 16)) | (uint32_t(r.Below(16)) * 0x1000);
      default: return uint32_t(r.Below(0x1000000));
    }
  }
  int Len(Rng& r) const {
    switch (kind) {
      case 0: case 1: case 2: return int(r.Chance(1, 12) ? r.Range(0, 40) : r.Range(1, 6));
      case 3: return int(r.Pick<int64_t>({1, 2, 0x100, r.Range(1, 0x4000), 0x8000, 0xffff, 0x10000}));
      case 4: return int(r.Pick<int64_t>({0x1000, 0x2000, 0x1001, 0xfff, 0x8000, 0x10000}));
      default: return int(r.Pick<int64_t>({1, 2, 3, 0x8000, 0x10000, r.Range(1, 0x10000)}));
    }
  }
};

std::string Show(const std::vector<Iv>& v) {
  std::string s;
  for (auto& i : v) s += Fmt("[%06x,%07x)", i.a, i.b);
  return s;
}
std::string Show(const std::vector<Chunk>& v) {
  std::string s;
  for (auto& i : v) s += Fmt("[%06x,%07x)", Num(i.first), Num(i.second));
  return s;
}

bool SameChunks(const DataRange& d, const Model& m) {
  auto want = m.Runs();
  auto& got = d.Chunks();
  if (got.size() != want.size()) return false;
  for (size_t i = 0; i < want.size(); ++i)
    if (Num(got[i].first) != want[i].a || Num(got[i].second) != want[i].b) return false;
  return true;
}

void Probe(const DataRange& d, const Model& m, uint32_t x, const std::string& log) {
  x &= 0xffffff;
  bool want = m.Has(x), got = d.Contains(Address(x));
  ++R().Count(want ? "inside_probes" : "outside_probes");
  if (want != got)
    R().Violation(want ? "contains/missing" : "contains/extra",
                  Fmt("after%s: Contains($%06x) is %d, expected %d", log.c_str(), x, got, want));
}

void CheckRange(const DataRange& d, const Model& m, const std::string& log, const char* which) {
  if (!SameChunks(d, m))
    R().Violation(Fmt("chunks/%s", which), Fmt("after%s: chunks %s, expected %s", log.c_str(), Show(d.Chunks()).c_str(), Show(m.Runs()).c_str()));
}

void C06(uint64_t, Rng& r) {
  Space sp(r);
  DataRange d;
  Model m;
  std::string log;
  int n = int(r.Range(1, r.Chance(1, 8) ? 60 : 14));
  std::optional<DataRange> old;
  Model old_m;
  bool merges = false;
  for (int i = 0; i < n; ++i) {
    uint32_t at = sp.At(r);
    int len = sp.Len(r);
    // Aim at existing chunks: touch, nest in, or bridge between them.
    if (!m.iv.empty() && r.Chance(1, 2)) {
      auto runs = m.Runs();
      Iv p = r.Pick(runs);
      Iv q = r.Pick(runs);
      switch (r.Below(7)) {
        case 0: at = p.b; break;
        case 1: at = uint32_t(int64_t(p.a) - len); break;
        case 2: if (q.a > p.b) { at = p.b; len = int(q.a - p.b); } break;
        case 3: at = p.a; len = int(p.b - p.a); break;
        case 4: if (q.b > p.a) { at = p.a; len = int(q.b - p.a); } break;
        case 5: at = p.b - 1; break;
        case 6: if (q.a >= p.b) { at = p.b - (p.b > p.a + 1); len = int(q.a + 1 - at); } break;
      }
      at &= 0xffffff;
      len = std::min(std::max(len, 1), 0x10000);
    }
    bool chunk_api = r.Chance(1, 4) && len > 0 && at + uint32_t(len) <= 0x1000000;
    if (r.Chance(1, 40)) len = int(r.Range(-2, 0));
    std::vector<Iv> pieces = chunk_api && len > 0 ? std::vector<Iv>{{at, at + uint32_t(len)}} : Pieces(at, len);
    bool clash = false;
    for (auto& p : pieces) clash |= m.Overlaps(p);
    size_t before = m.Runs().size();
    log += Fmt(" %s($%06x,%d)", chunk_api && len > 0 ? "chunk" : "claim", at, len);
    R().Describe("claims:" + log);
    if (r.Chance(1, 10)) { old = d; old_m = m; }
    bool ok = chunk_api && len > 0 ? d.ClaimBytes(Chunk(Address(at), Address(at + uint32_t(len)))) : d.ClaimBytes(Address(at), len);
    for (auto& p : pieces) m.iv.push_back(p);
    if (ok == clash)
      R().Violation(clash ? "claim/conflict-missed" : "claim/false-conflict",
                    Fmt("after%s: claim returned %d", log.c_str(), ok));
    ++R().Count(clash ? "conflicts" : "free_claims");
    if (pieces.size() == 2) ++R().Count("wrapping_claims");
    size_t after = m.Runs().size();
    if (after + 1 < before + pieces.size()) merges = true;
    if (after < before) ++R().Count("bridging_claims");
    CheckRange(d, m, log, clash ? "overlap" : "free");
    for (auto& p : pieces) {
      for (int k : {-2, -1, 0, 1}) { Probe(d, m, uint32_t(int64_t(p.a) + k), log); Probe(d, m, uint32_t(int64_t(p.b) + k), log); }
      Probe(d, m, p.a + uint32_t(r.Below(p.b - p.a)), log);
    }
  }
  for (auto& p : m.Runs()) {
    for (int k : {-1, 0}) { Probe(d, m, uint32_t(int64_t(p.a) + k), log); Probe(d, m, uint32_t(int64_t(p.b) + k), log); }
  }
  for (int i = 0; i < 8; ++i) Probe(d, m, sp.At(r), log);
  if (old) { CheckRange(*old, old_m, log, "copy"); ++R().Count("copies_checked"); }
  R().Seen("chunk_counts", Fmt("%zu", m.Runs().size()));
  if (merges) R().Distinct(log);
  R().MaybeSample("claims:" + log + " -> " + Show(m.Runs()));
}

template <typename T>
void MapCase(Rng& r, const char* type, T (*make)(int)) {
  Space sp(r);
  RangeMap<T> map;
  struct Owned { Iv iv; int v; };
  std::vector<Owned> owned;
  std::string log;
  auto owner = [&](uint32_t x) { for (auto& o : owned) if (x >= o.iv.a && x < o.iv.b) return o.v; return -1; };
  std::vector<uint32_t> edges;
  auto probe = [&](uint32_t x) {
    x &= 0xffffff;
    int want = owner(x);
    bool in = map.Contains(Address(x));
    auto got = map.Lookup(Address(x));
    ++R().Count(want >= 0 ? "owned_probes" : "free_probes");
    if (in != (want >= 0)) R().Violation(in ? "map/contains-extra" : "map/contains-missing", Fmt("after%s: Contains($%06x) is %d", log.c_str(), x, in));
    if (bool(got) != (want >= 0)) R().Violation(got ? "map/lookup-extra" : "map/lookup-missing", Fmt("after%s: Lookup($%06x) %s", log.c_str(), x, got ? "found something" : "found nothing"));
    else if (got && !(*got == make(want))) R().Violation("map/wrong-owner", Fmt("after%s: Lookup($%06x) is not value %d", log.c_str(), x, want));
  };
  int n = int(r.Range(1, 14)), fails = 0, oks = 0;
  for (int i = 0; i < n; ++i) {
    DataRange d;
    Model m;
    int k = int(r.Pick<int64_t>({1, 1, 2, 3, r.Range(0, 7)}));
    log += Fmt(" insert%d{", i);
    for (int j = 0; j < k; ++j) {
      uint32_t at = sp.At(r);
      int len = sp.Len(r);
      if (sp.kind >= 3 && r.Coin()) len = int(r.Range(1, 0x800));
      if (!owned.empty() && r.Chance(1, 3)) {   // next to, or just over, an owned edge
        auto o = r.Pick(owned);
        int which = int(r.Below(4));
        at = which == 0 ? o.iv.b : which == 1 ? o.iv.a - uint32_t(len) : which == 2 ? o.iv.b - 1 : o.iv.a - uint32_t(len) + 1;
        at &= 0xffffff;
      }
      log += Fmt("($%06x,%d)", at, len);
      (void)d.ClaimBytes(Address(at), len);
      for (auto& p : Pieces(at, len)) m.iv.push_back(p);
    }
    log += "}";
    R().Describe(Fmt("RangeMap<%s>:%s", type, log.c_str()));
    bool clash = false;
    for (auto& p : m.Runs()) for (auto& o : owned) clash |= std::max(o.iv.a, p.a) < std::min(o.iv.b, p.b);
    bool ok = map.Insert(d, make(i));
    if (ok == clash) R().Violation(clash ? "map/conflict-accepted" : "map/refused", Fmt("after%s: Insert returned %d", log.c_str(), ok));
    if (!clash) for (auto& p : m.Runs()) owned.push_back({p, i});
    clash ? ++fails : ++oks;
    ++R().Count(clash ? "refused_inserts" : "inserts");
    if (clash && m.Runs().size() > 1) ++R().Count("refused_multi_chunk");
    for (auto& p : m.Runs()) { edges.push_back(p.a); edges.push_back(p.b); }
    for (auto& p : m.Runs()) for (int e : {-1, 0, 1}) { probe(uint32_t(int64_t(p.a) + e)); probe(uint32_t(int64_t(p.b) + e)); }
  }
  for (uint32_t e : edges) for (int k : {-1, 0}) probe(uint32_t(int64_t(e) + k));
  for (int i = 0; i < 6; ++i) probe(sp.At(r));
  if (fails && oks) R().Distinct(log);
  R().MaybeSample(log);
}

void C07(uint64_t, Rng& r) {
  if (r.Coin()) MapCase<int>(r, "int", +[](int i) { return i * 7 + 1; });
  else MapCase<std::string>(r, "string", +[](int i) { return Fmt("a value too long to be stored inline %d", i); });
}
}  // namespace

int main(int argc, char** argv) {
  R().Init(argc, argv);
  if (R().o.prop == "C06") R().Cases(R().o.cases, C06);
  else if (R().o.prop == "C07") R().Cases(R().o.cases, C07);
  else return 64;
  return R().Finish();
}
