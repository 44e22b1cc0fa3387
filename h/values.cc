// C09-C11: addresses, numeric types, errors and positions.
#include "h/common.h"

#include <memory>
#include <sstream>

#include "nsasm/address.h"
#include "nsasm/error.h"
#include "nsasm/location.h"
#include "nsasm/numeric_type.h"

using namespace vf;
using nsasm::Address;
using nsasm::Error;
using nsasm::ErrorOr;
using nsasm::LabelValue;
using nsasm::Location;

namespace {
uint32_t Num(Address a) { return (uint32_t(a.Bank()) << 16) | a.BankAddress(); }

// ---- C09 -------------------------------------------------------------------
uint32_t SomeAddress(Rng& r) {
  switch (r.Below(6)) {
    case 0: return uint32_t(r.Below(0x1000000));
    case 1: return (uint32_t(r.Below(256)) << 16) | (0xffff - uint32_t(r.Below(4)));
    case 2: return (uint32_t(r.Below(256)) << 16) | uint32_t(r.Below(4));
    case 3: return (uint32_t(r.Below(256)) << 16) | uint32_t(0x8000 + r.Range(-3, 3));
    case 4: return 1u << r.Below(24);
    default: return ((1u << r.Below(25)) - 1) & 0xffffff;
  }
}
int SomeOffset(Rng& r) {
  switch (r.Below(7)) {
    case 0: return int(r.Range(-4, 4));
    case 1: return int(r.Range(-0x8003, -0x7ffd));
    case 2: return int(r.Range(0x7ffd, 0x8003));
    case 3: return int(r.Pick<int64_t>({0xffff, 0x10000, 0x10001, -0xffff, -0x10000, -0x10001, 0xffffff, 0x1000000, -0x1000000, INT32_MAX, INT32_MIN, INT32_MIN + 1}));
    case 4: return int(uint32_t(r.Next()));
    case 5: return int(1u << r.Below(32));
    default: return int(r.Range(-0x10000, 0x10000));
  }
}

// The value from -32768 to 32767 congruent to a difference of bank addresses.
int64_t Diff(uint32_t a, uint32_t b) {
  int64_t d = (int64_t(a & 0xffff) - int64_t(b & 0xffff)) % 0x10000;
  while (d > 32767) d -= 0x10000;
  while (d < -32768) d += 0x10000;
  return d;
}

void CheckOne(uint32_t a) {
  Address x(a);
  auto bad = [&](const char* what, const std::string& got) { R().Violation(std::string("address/") + what, Fmt("$%06x: %s", a, got.c_str())); };
  if (uint32_t(x.Bank()) != a / 65536 || x.BankAddress() != a % 65536) bad("parts", Fmt("%d %d", x.Bank(), x.BankAddress()));
  char b[64];
  snprintf(b, sizeof b, "$%06x", a);
  if (x.ToString() != b) bad("text", x.ToString());
  std::ostringstream os;
  os << x;
  if (os.str() != b) bad("stream", os.str());
  Address y(uint8_t(a >> 16), uint16_t(a));
  if (!(x == y) || Num(y) != a) bad("recombine", y.ToString());
  LabelValue v{x};
  if (v.ToInt() != int(a) || !(v.ToAddress() == x) || !(LabelValue::FromInt(int(a)) == v)) bad("label", Fmt("%d", v.ToInt()));
  Location l("f");
  l.Update(x);
  snprintf(b, sizeof b, "f:0x%06x", a);
  if (l.ToString() != b) bad("location", l.ToString());
}

void CheckPair(uint32_t a, uint32_t b) {
  Address x(a), y(b);
  auto bad = [&](const char* what, const std::string& got) { R().Violation(std::string("pair/") + what, Fmt("$%06x, $%06x: %s", a, b, got.c_str())); };
  if ((x == y) != (a == b) || (x != y) != (a != b) || (x < y) != (a < b) || (x <= y) != (a <= b) || (x > y) != (a > b) || (x >= y) != (a >= b)) bad("order", "a comparison differs");
  LabelValue p{x}, q{y};
  if ((p == q) != (a == b) || (p != q) != (a != b) || (p < q) != (a < b) || (p <= q) != (a <= b) || (p > q) != (a > b) || (p >= q) != (a >= b)) bad("label-order", "a comparison differs");
  auto d = x.SubtractWrapped(y);
  bool same = a / 65536 == b / 65536;
  if (d.ok() != same) bad(same ? "difference-refused" : "difference-across-banks", d.ok() ? Fmt("%d", *d) : d.error().ToString());
  else if (same && *d != Diff(a, b)) bad("difference", Fmt("%d, expected %lld", *d, (long long)Diff(a, b)));
  else if (same && !(y.AddWrapped(*d) == x)) bad("difference-not-inverse", Fmt("%d", *d));
  ++R().Count(same ? "same_bank" : "other_bank");
  if (same) {
    // The reverse difference is the negation, except at -32768, its own negation.
    auto e = y.SubtractWrapped(x);
    if (!e.ok() || (*e != -*d && *d != -32768)) bad("difference-asymmetric", e.ok() ? Fmt("%d and %d", *d, *e) : "refused");
  }
}

void CheckAdd(uint32_t a, int off) {
  Address x(a);
  int64_t low = (int64_t(a % 65536) + off) % 65536;
  if (low < 0) low += 65536;
  Address w = x.AddWrapped(off);
  uint32_t want = (a & 0xff0000u) | uint32_t(low);
  if (Num(w) != want) R().Violation("add/wrapped", Fmt("$%06x %+d: got %s, expected $%06x", a, off, w.ToString().c_str(), want));
  if ((int64_t(a % 65536) + off) != low) ++R().Count("wrapped_additions");
  int64_t sum = int64_t(a) + off;
  if (sum >= 0 && sum <= 0x1000000) {
    Address u = x.AddUnwrapped(off);
    ++R().Count("plain_additions");
    if (int64_t(u.Bank()) * 65536 + u.BankAddress() != sum) R().Violation("add/unwrapped", Fmt("$%06x %+d: got %s", a, off, u.ToString().c_str()));
  }
  if (!(x == Address(a))) R().Violation("add/modified", Fmt("$%06x", a));
}

void C09(uint64_t i, Rng& r) {
  if (i < 256) {
    // One bank exhaustively: parts and text; every difference from one anchor.
    uint32_t bank = uint32_t(i) << 16;
    uint32_t anchor = bank | uint32_t(r.Below(65536));
    R().Describe(Fmt("bank $%02x, differences from $%06x", unsigned(i), anchor));
    for (uint32_t k = 0; k < 65536; ++k) {
      if (k % 64 == (i % 64) || R().o.thorough) CheckOne(bank | k);
      CheckPair(bank | k, anchor);
      CheckAdd(anchor, int(k) - 32768);
    }
    R().Eval(65535);
    R().Distinct(i);
    return;
  }
  for (int k = 0; k < 200; ++k) {
    uint32_t a = SomeAddress(r), b = r.Coin() ? SomeAddress(r) : (a & 0xff0000) | (SomeAddress(r) & 0xffff);
    int off = SomeOffset(r);
    R().Describe(Fmt("$%06x, $%06x, %d", a, b, off));
    CheckOne(a);
    CheckPair(a, b);
    CheckAdd(a, off);
    R().Distinct(Mix64(a) ^ Mix64(b + 1) ^ Mix64(uint32_t(off)));
  }
  R().Eval(199);
  R().MaybeSample(R().Described());
}

// ---- C10 -------------------------------------------------------------------
using NT = nsasm::NumericType;
template <typename T>
NT Combine(T a, T b) {
  if constexpr (requires { ArtihmeticConversion(a, b); }) return ArtihmeticConversion(a, b);
  else return ArithmeticConversion(a, b);
}
const NT kTypes[] = {nsasm::T_unknown, nsasm::T_byte, nsasm::T_word, nsasm::T_long,
                     nsasm::T_signed_byte, nsasm::T_signed_word, nsasm::T_signed_long};
const char* kTypeName[] = {"unknown", "byte", "word", "long", "signed byte", "signed word", "signed long"};
int Width(int t) { return t == 0 ? 0 : (t - 1) % 3 + 1; }
bool IsS(int t) { return t > 3; }
int64_t Coerce(int t, int64_t v) {
  if (t == 0) return v;
  int64_t m = 1LL << (8 * Width(t));
  int64_t x = ((v % m) + m) % m;
  if (IsS(t) && x >= m / 2) x -= m;
  return x;
}
void CheckCast(int t, int v) {
  int got = nsasm::CastTo(kTypes[t], v);
  int64_t want = Coerce(t, v);
  if (got != want) R().Violation(Fmt("cast/%s", kTypeName[t]), Fmt("%d as %s: got %d, expected %lld", v, kTypeName[t], got, (long long)want));
  if (nsasm::CastTo(kTypes[t], got) != got) R().Violation(Fmt("cast-twice/%s", kTypeName[t]), Fmt("%d", v));
}

void C10(uint64_t i, Rng& r) {
  if (i == 0) {
    R().Describe("all pairs of types");
    for (int a = 0; a < 7; ++a) {
      if (nsasm::IsSigned(kTypes[a]) != IsS(a)) R().Violation("type/is-signed", kTypeName[a]);
      if (nsasm::Signed(kTypes[a]) != kTypes[a ? Width(a) + 3 : 0]) R().Violation("type/signed", kTypeName[a]);
      if (nsasm::Unsigned(kTypes[a]) != kTypes[a ? Width(a) : 0]) R().Violation("type/unsigned", kTypeName[a]);
      if (nsasm::ToString(kTypes[a]) != kTypeName[a]) R().Violation("type/name", kTypeName[a]);
      for (int b = 0; b < 7; ++b) {
        int w = std::max(Width(a), Width(b));
        int want = !a ? b : !b ? a : (IsS(a) || IsS(b)) ? w + 3 : w;
        NT got = Combine(kTypes[a], kTypes[b]);
        if (got != kTypes[want]) R().Violation("type/combine", Fmt("%s with %s gave %d, expected %s", kTypeName[a], kTypeName[b], int(got), kTypeName[want]));
        R().Seen("pairs", Fmt("%s+%s=%s", kTypeName[a], kTypeName[b], kTypeName[want]));
        R().Eval();
        for (int c = 0; c < 7; ++c)
          if (Combine(Combine(kTypes[a], kTypes[b]), kTypes[c]) != Combine(kTypes[a], Combine(kTypes[b], kTypes[c])))
            R().Violation("type/associative", Fmt("%s %s %s", kTypeName[a], kTypeName[b], kTypeName[c]));
      }
    }
    return;
  }
  if (i <= 256) {
    uint32_t hi = uint32_t(r.Below(256)) << 24;
    if (i % 3 == 0) hi = 0;
    if (i % 3 == 1) hi = 0xff000000u;
    R().Describe(Fmt("values $%02x%02x0000 up", hi >> 24, unsigned(i - 1)));
    for (uint32_t k = 0; k < 65536; ++k)
      for (int t = 0; t < 7; ++t) {
        uint32_t v = (uint32_t(i - 1) << 16) | k;
        CheckCast(t, int(v));
        CheckCast(t, int(v | hi));
        CheckCast(t, int(v) - 0x1000000);
      }
    R().Eval(65536 * 21 - 1);
    R().Distinct(i);
    return;
  }
  for (int k = 0; k < 400; ++k) {
    int64_t v = r.Coin() ? int32_t(r.Next()) : (int64_t(1) << r.Below(32)) * (r.Coin() ? 1 : -1) + r.Range(-2, 2);
    v = std::max<int64_t>(INT32_MIN, std::min<int64_t>(INT32_MAX, v));
    R().Describe(Fmt("value %lld", (long long)v));
    for (int t = 0; t < 7; ++t) {
      CheckCast(t, int(v));
      int got = LabelValue::FromInt(int(v)).ToNumber(kTypes[t]);
      if (got != Coerce(t, v)) R().Violation("label-number", Fmt("%lld as %s: %d", (long long)v, kTypeName[t], got));
    }
    if (LabelValue::FromInt(int(v)).ToInt() != v) R().Violation("label-int", Fmt("%lld", (long long)v));
    R().Distinct(Mix64(uint64_t(v)));
  }
  R().Eval(400 * 7 - 1);
  R().MaybeSample(R().Described());
}

// ---- C11 -------------------------------------------------------------------
struct Pos {
  std::string path;
  int kind = 0;   // 0 nothing, 1 line, 2 address
  int n = 0;
  void Update(const Pos& o) {
    if (!o.path.empty()) path = o.path;
    if (o.kind) { kind = o.kind; n = o.n; }
  }
  std::string Text() const {
    if (path.empty()) return "";
    if (kind == 1) return path + ":" + std::to_string(n);
    if (kind == 2) {
      std::string h;
      for (uint32_t v = uint32_t(n); v; v >>= 4) h.insert(h.begin(), "0123456789abcdef"[v & 15]);
      while (h.size() < 6) h = "0" + h;
      return path + ":0x" + h;
    }
    return path;
  }
  std::string Show() const { return "(" + Json(path) + "," + (kind == 0 ? "-" : kind == 1 ? "line " : "address ") + std::to_string(n) + ")"; }
};
std::string ErrText(const std::string& msg, const Pos& p) {
  std::string t = p.Text();
  return t.empty() ? msg : t + ": " + msg;
}

std::string SomeText(Rng& r) {
  std::string s;
  int n = int(r.Range(0, r.Chance(1, 30) ? 5000 : 24));
  for (int i = 0; i < n; ++i) s += r.Chance(1, 4) ? r.Pick({'%', 's', 'd', 'x', ':', '\n', '$', '\\', '"', ' '}) : char(r.Range(1, 255));
  return s;
}

// Builds the same position twice: for the code and for the model.
Location MakeLocation(Rng& r, Pos& p) {
  p = Pos();
  static const char* const kPaths[] = {"a.asm", "dir/b.asm", "%s%d", "C:\\x.asm", "rom.sfc"};
  if (r.Chance(2, 3)) p.path = r.Chance(1, 6) ? SomeText(r) : kPaths[r.Below(5)];
  switch (r.Below(3)) {
    case 0: p.kind = 0; break;
    case 1: p.kind = 1; p.n = int(r.Pick<int64_t>({0, 1, r.Range(1, 100000), INT32_MAX, -1})); break;
    default: p.kind = 2; p.n = int(r.Pick<int64_t>({0, 1, 0xffff, 0x8000, r.Range(0, 0xffffff), 0xffffff})); break;
  }
  if (p.kind == 1) {
    if (p.path.empty()) return Location(p.n);
    if (r.Coin()) return Location(p.path, p.n);
    Location l(p.path);
    l.Update(Location(p.n));
    return l;
  }
  if (p.kind == 2) {
    Location a = r.Coin() ? Location(Address(uint32_t(p.n))) : Location::FromAddress(p.n);
    if (p.path.empty()) return a;
    if (r.Coin()) { a.Update(Location(p.path)); return a; }
    Location l(p.path);
    l.Update(a);
    return l;
  }
  return p.path.empty() && r.Coin() ? Location() : Location(p.path);
}

void Same(const char* key, const std::string& got, const std::string& want) {
  if (got != want) R().Violation(key, Fmt("got %s, expected %s", Json(got).substr(0, 800).c_str(), Json(want).substr(0, 800).c_str()));
}

struct MoveOnly {
  std::unique_ptr<int> p;
  explicit MoveOnly(int i) : p(new int(i)) {}
};

ErrorOr<int> Through(const ErrorOr<std::string>& v) {
  NSASM_RETURN_IF_ERROR(v);
  return int(v->size());
}
ErrorOr<void> ThroughAt(const ErrorOr<int>& v, Location a, Location b) {
  NSASM_RETURN_IF_ERROR_WITH_LOCATION(v, a, b);
  return {};
}
ErrorOr<int> ThroughVoid(const ErrorOr<void>& v, Location a) {
  NSASM_RETURN_IF_ERROR_WITH_LOCATION(v, a);
  return 42;
}

void C11(uint64_t, Rng& r) {
  std::string log, msg;
  auto fresh = [&]() -> Error {
    std::string t = SomeText(r);
    int n = int(r.Range(-1000, 1000));
    switch (r.Below(4)) {
      case 0: msg = t; return Error("%s", t);
      case 1: msg = "bad " + t + " at " + std::to_string(n); return Error("bad %s at %d", t, n);
      case 2: msg = "100% plain"; return Error("100%% plain");
      default: msg = "Fixed text"; return Error("Fixed text");
    }
  };
  Error e = fresh();
  Pos p;
  log = "error " + Json(msg);
  R().Describe(log);
  Same("error/plain", e.ToString(), msg);
  int n = int(r.Range(0, 7));
  bool replaced = false;
  for (int i = 0; i < n; ++i) {
    Pos a, b;
    Location la = MakeLocation(r, a);
    log += " at " + a.Show();
    Same("location/text", la.ToString(), a.Text());
    if (r.Chance(1, 3)) {
      Location lb = MakeLocation(r, b);
      log += b.Show();
      R().Describe(log);
      Error before = e;
      std::string was = ErrText(msg, p);
      Error& back = e.SetLocation(la, lb);
      if (&back != &e) R().Violation("error/chain", "SetLocation returned another object");
      Same("error/copy", before.ToString(), was);
      p.Update(a);
      p.Update(b);
    } else {
      R().Describe(log);
      e.SetLocation(la);
      replaced |= (!p.path.empty() && !a.path.empty()) || (p.kind && a.kind);
      p.Update(a);
    }
    Same("error/located", e.ToString(), ErrText(msg, p));
    if (r.Chance(1, 5)) { Error c = e; e = c; }
    if (r.Chance(1, 5)) { Error c = std::move(e); e = std::move(c); }
    Same("error/moved", e.ToString(), ErrText(msg, p));
    ++R().Count("attachments");
  }
  // The same for a bare location.
  {
    Location l;
    Pos q;
    for (int i = int(r.Range(0, 5)); i > 0; --i) { Pos a; Location la = MakeLocation(r, a); l.Update(la); q.Update(a); Same("location/update", l.ToString(), q.Text()); }
  }
  std::string first = msg;
  std::string text = ErrText(first, p);
  // A result holding it.
  Pos a, b;
  Location la = MakeLocation(r, a), lb = MakeLocation(r, b);
  Pos pab = p, pa = p;
  pab.Update(a); pab.Update(b);
  pa.Update(a);
  {
    ErrorOr<std::string> v = e;
    ErrorOr<std::string> w = Error(e);
    if (v.ok() || w.ok()) R().Violation("result/ok-with-error", log);
    else {
      Same("result/error", v.error().ToString(), text);
      Same("result/error-moved", w.error().ToString(), text);
      (void)v.error().SetLocation(la);
      Same("result/error-aliased", v.error().ToString(), text);
      auto t = Through(v);
      if (t.ok()) R().Violation("result/propagate-lost", log);
      else {
        Same("result/propagate", t.error().ToString(), text);
        auto u = ThroughAt(t, la, lb);
        if (u.ok()) R().Violation("result/propagate-at-lost", log);
        else {
          Same("result/propagate-at", u.error().ToString(), ErrText(first, pab));
          Same("result/propagate-kept", t.error().ToString(), text);
        }
      }
      ErrorOr<void> z = e;
      auto y = ThroughVoid(z, la);
      if (z.ok() || y.ok()) R().Violation("result/void", log);
      else { Same("result/void-error", z.error().ToString(), text); Same("result/void-propagate", y.error().ToString(), ErrText(first, pa)); }
      if (!(v == w) || v != w) R().Violation("result/equal", log);
    }
    ++R().Count("errors_carried");
  }
  // Results holding values, and comparisons between all of them.
  {
    std::string s1 = SomeText(r), s2 = r.Coin() ? s1 : SomeText(r);
    ErrorOr<std::string> x = s1, y = std::string(s2);
    if (!x.ok() || !y.ok()) R().Violation("result/not-ok", log);
    else {
      Same("result/value", *x, s1);
      Same("result/value-arrow", y->c_str(), s2.c_str());
      if ((x == y) != (s1 == s2) || (x != y) != (s1 != s2)) R().Violation("result/compare", Json(s1) + Json(s2));
      ErrorOr<std::string> err = e;
      if (err == x || !(err != x) || x == err) R().Violation("result/compare-mixed", log);
      Error other = fresh();
      if ((other == e) != (msg == first) || (other != e) != (msg != first)) R().Violation("error/compare", Json(first) + Json(msg));
      ErrorOr<std::string> oe = other;
      if ((oe == err) != (msg == first)) R().Violation("result/compare-errors", Json(first) + Json(msg));
      auto t = Through(x);
      if (!t.ok() || *t != int(s1.size())) R().Violation("result/through", log);
      else if (!ThroughAt(t, la, lb).ok()) R().Violation("result/through-at", log);
      ErrorOr<std::string> c = x;
      *x += "!";
      Same("result/copy", *c, s1);
      Same("result/assign-through", *x, s1 + "!");
      std::string taken = *std::move(c);
      Same("result/take", taken, s1);
      x = err;
      if (x.ok()) R().Violation("result/assign-error", log);
      err = y;
      if (!err.ok()) R().Violation("result/assign-value", log);
      else Same("result/assign-value", *err, s2);
    }
    ErrorOr<void> ok;
    ErrorOr<void> bad = e;
    if (!ok.ok() || !(ok == ErrorOr<void>()) || ok == bad || !(ok != bad)) R().Violation("result/void-compare", log);
    ErrorOr<void> same = e, differs = Error("%s", e.ToString() + "?");
    if (!(bad == same) || bad != same || bad == differs || !(bad != differs)) R().Violation("result/void-compare-errors", log);
    auto y42 = ThroughVoid(ok, la);
    if (!y42.ok() || *y42 != 42) R().Violation("result/void-through", log);
    int k = int(r.Range(-100, 100));
    ErrorOr<MoveOnly> mo = MoveOnly(k);
    if (!mo.ok() || *mo->p != k) R().Violation("result/move-only", log);
    else {
      ErrorOr<MoveOnly> mo2 = std::move(mo);
      MoveOnly out = *std::move(mo2);
      if (*out.p != k) R().Violation("result/move-only-take", log);
    }
    ++R().Count("values_carried");
  }
  if (replaced) ++R().Count("replaced_parts");
  if (!p.path.empty() && p.kind) R().Seen("shapes", p.kind == 1 ? "path+line" : "path+address");
  else R().Seen("shapes", p.path.empty() ? (p.kind ? "no path, offset" : "nothing") : "path");
  R().Distinct(log);
  R().MaybeSample(log + " -> " + Json(text));
}
}  // namespace

int main(int argc, char** argv) {
  R().Init(argc, argv);
  auto n = R().o.cases;
  if (R().o.prop == "C09") R().Cases(n, C09);
  else if (R().o.prop == "C10") R().Cases(n, C10);
  else if (R().o.prop == "C11") R().Cases(n, C11);
  else return 64;
  return R().Finish();
}
