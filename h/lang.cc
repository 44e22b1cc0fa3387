// C15: expressions against a reference parser and evaluator.
// C20: processor modes: names, printing, and merging.
#include <climits>
#include <memory>

#include "h/nsx.h"
#include "nsasm/directive.h"
#include "nsasm/token.h"

using namespace nsasm;
using vf::Fmt;
using vf::R;
using vf::Rng;

namespace {

// ---- C15 ----

struct Tok {
  std::string text;
  char kind;  // 'n'umber, 'i'dentifier, or the operator itself; ':' is "::"
  bool bad = false;
  int64_t value = 0;
  int digits = 0;
  NumericType type = T_unknown;
};

const int64_t kErr = INT64_MIN;

// What a text of tokens means.
struct Ref {
  const std::vector<Tok>& t;
  const std::map<std::string, int>& names;
  size_t p = 0;
  bool bad = false;              // not an expression
  bool fails = false;            // an expression without a value
  std::set<std::string> used;
  struct V { int64_t v; NumericType ty; };

  static int64_t Wrap(int64_t v) { return int32_t(uint32_t(uint64_t(v))); }
  static int Rank(NumericType t) {
    switch (t) {
      case T_byte: case T_signed_byte: return 1;
      case T_word: case T_signed_word: return 2;
      case T_long: case T_signed_long: return 3;
      default: return 0;
    }
  }
  static bool Sg(NumericType t) { return t == T_signed_byte || t == T_signed_word || t == T_signed_long; }
  static NumericType Mk(int rank, bool s) {
    static const NumericType u[] = {T_unknown, T_byte, T_word, T_long}, g[] = {T_unknown, T_signed_byte, T_signed_word, T_signed_long};
    return s ? g[rank] : u[rank];
  }
  static NumericType Combine(NumericType a, NumericType b) {
    return Mk(std::max(Rank(a), Rank(b)), Sg(a) || Sg(b));
  }

  char Peek() const { return p < t.size() ? t[p].kind : 0; }
  V Sum() {
    V a = Product();
    while (!bad && (Peek() == '+' || Peek() == '-')) {
      char o = t[p++].kind;
      V b = Product();
      if (bad) return a;
      a = {Wrap(o == '+' ? a.v + b.v : a.v - b.v), Combine(a.ty, b.ty)};
    }
    return a;
  }
  V Product() {
    V a = Unary();
    while (!bad && (Peek() == '*' || Peek() == '/')) {
      char o = t[p++].kind;
      V b = Unary();
      if (bad) return a;
      NumericType ty = Combine(a.ty, b.ty);
      if (o == '*') a = {Wrap(a.v * b.v), ty};
      else if (b.v == 0) { fails = true; a = {1, ty}; }
      else a = {Wrap(a.v / b.v), ty};
    }
    return a;
  }
  V Unary() {
    char o = Peek();
    if (o == '-' || o == '<' || o == '>' || o == '^') {
      ++p;
      V a = Unary();
      if (o == '-') return {Wrap(-a.v), Mk(Rank(a.ty), true)};
      return {(a.v >> (o == '<' ? 0 : o == '>' ? 8 : 16)) & 0xff, T_byte};
    }
    return Primary();
  }
  V Name(bool wide) {
    std::string full;
    bool colons = false;
    if (Peek() == ':') { full = "::"; ++p; colons = true; }
    if (Peek() != 'i') { bad = true; return {0, T_unknown}; }
    full += t[p++].text;
    if (!colons && Peek() == ':') {
      ++p;
      if (Peek() != 'i') { bad = true; return {0, T_unknown}; }
      full += "::" + t[p++].text;
    }
    used.insert(full);
    auto it = names.find(full);
    int64_t v = 1;
    if (it == names.end()) fails = true;
    else v = it->second;
    return {v, wide ? T_long : T_word};
  }
  V Primary() {
    if (bad) return {0, T_unknown};
    char c = Peek();
    if (c == 'n') {
      const Tok& n = t[p++];
      if (n.bad) bad = true;
      return {n.value, n.type};
    }
    if (c == '@') { ++p; return Name(true); }
    if (c == ':' || c == 'i') return Name(false);
    if (c == '(') {
      ++p;
      V a = Sum();
      if (Peek() != ')') bad = true;
      else ++p;
      return a;
    }
    bad = true;
    return {0, T_unknown};
  }
};

const char* kNames[] = {"foo", "bar", "_", "ad", "xx", "a1", "lda2", "Label_9", "m8x8", "yield", "exports", "b", "Q"};

Tok Number(Rng& r) {
  Tok t;
  t.kind = 'n';
  static const int64_t edge[] = {0, 1, 2, 3, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffff, 0x800000, 0xffffff};
  int64_t v = r.Coin() ? edge[r.Below(15)] : int64_t(r.Below(1 << r.Range(1, 24)));
  switch (r.Below(4)) {
    case 0: case 1: {  // hexadecimal
      int n = 1 + r.Below(6);
      while (n < 6 && (v >> (4 * n))) ++n;
      std::string d = Fmt("%0*llx", n, (long long)v);
      for (char& c : d) if (r.Coin()) c = toupper(c);
      t.text = (r.Chance(1, 4) ? r.Coin() ? "0x" : "0X" : "$") + d;
      t.value = v;
      t.type = d.size() <= 2 ? T_byte : d.size() <= 4 ? T_word : T_long;
      break;
    }
    case 2: {  // binary
      std::string d;
      for (int64_t x = v; x; x >>= 1) d.insert(d.begin(), char('0' + (x & 1)));
      while (d.empty() || (d.size() < 24 && r.Chance(1, 3))) d.insert(d.begin(), '0');
      t.text = "%" + d;
      t.value = v;
      t.type = d.size() <= 8 ? T_byte : d.size() <= 16 ? T_word : T_long;
      break;
    }
    default:
      if (r.Chance(1, 5)) v = r.Pick({int64_t(INT_MAX), int64_t(INT_MAX) - 1, int64_t(1) << 30, int64_t(65536) * 32767, int64_t(r.Below(INT_MAX))});
      t.text = std::string(r.Chance(1, 6) ? r.Below(4) : 0, '0') + Fmt("%lld", (long long)v);
      t.value = v;
  }
  if (r.Chance(1, 60)) {  // numbers no operand can hold
    t.bad = true;
    switch (r.Below(5)) {
      case 0: t.text = Fmt("$%llx", (long long)(0x1000000 + r.Below(1ULL << r.Range(1, 50)))); break;
      case 1: t.text = "%1" + std::string(24 + r.Below(60), r.Coin() ? '0' : '1'); break;
      case 2: t.text = Fmt("%lld", (long long)(int64_t(INT_MAX) + 1 + r.Below(1ULL << r.Range(1, 60)))); break;
      case 3: t.text = "$1" + std::string(15 + r.Below(40), r.Pick({'0', 'f', '5'})); break;
      default: t.text = "9" + std::string(18 + r.Below(40), '9');
    }
  }
  return t;
}

Tok Sym(const char* s) {
  Tok t;
  t.text = s;
  t.kind = s[0];
  return t;
}
Tok Id(Rng& r) {
  Tok t;
  t.text = kNames[r.Below(sizeof kNames / sizeof *kNames)];
  t.kind = 'i';
  return t;
}

void Name(Rng& r, std::vector<Tok>* o) {
  if (r.Chance(1, 4)) o->push_back(Sym("@"));
  int k = r.Below(4);
  if (k == 0) { o->push_back(Sym("::")); o->push_back(Id(r)); }
  else if (k == 1) { o->push_back(Id(r)); o->push_back(Sym("::")); o->push_back(Id(r)); }
  else o->push_back(Id(r));
}

void Grow(Rng& r, int depth, std::vector<Tok>* o) {
  int k = depth <= 0 ? r.Below(2) : r.Below(12);
  switch (k) {
    case 0: o->push_back(Number(r)); break;
    case 1: if (r.Chance(1, 3)) Name(r, o); else o->push_back(Number(r)); break;
    case 2: case 3: case 4: case 5: case 6: case 7: {
      static const char* ops[] = {"+", "-", "*", "/"};
      Grow(r, depth - 1, o);
      o->push_back(Sym(ops[r.Below(4)]));
      Grow(r, depth - 1, o);
      break;
    }
    case 8: case 9: {
      static const char* ops[] = {"-", "<", ">", "^"};
      o->push_back(Sym(ops[r.Below(4)]));
      Grow(r, depth - 1, o);
      break;
    }
    default:
      o->push_back(Sym("("));
      Grow(r, depth - 1, o);
      o->push_back(Sym(")"));
  }
}

std::string Render(Rng& r, const std::vector<Tok>& t) {
  std::string s;
  bool tight = r.Coin();
  for (size_t i = 0; i < t.size(); ++i) {
    if (!s.empty()) {
      char a = s.back(), b = t[i].text[0];
      // Without a space these would be other tokens.
      bool need = (isalnum(a) || a == '_' || a == '$' || a == '%') && (isalnum(b) || b == '_');
      need = need || (a == b && (a == '+' || a == '-' || a == ':'));
      if (need || (!tight && r.Coin())) s += r.Chance(1, 10) ? "\t" : " ";
    }
    s += t[i].text;
  }
  if (r.Chance(1, 10)) s += " ; comment (+1";
  if (r.Chance(1, 10)) s = "  " + s;
  return s;
}

class Locals : public IsLocalContext {
 public:
  std::set<std::string> names;
  bool IsLocal(const FullIdentifier& id) const override { return names.count(id.ToString()); }
};

void ExprCase(Rng& r) {
  std::vector<Tok> t;
  int kind = r.Below(10);
  if (kind < 6) {
    Grow(r, r.Range(0, 6), &t);
  } else if (kind < 8) {  // break a good one
    Grow(r, r.Range(0, 4), &t);
    for (int n = 1 + r.Below(2); n > 0 && !t.empty(); --n) {
      size_t at = r.Below(t.size());
      static const char* any[] = {"+", "-", "*", "/", "<", ">", "^", "(", ")", "@", "::", "[", "]", ",", "#"};
      switch (r.Below(3)) {
        case 0: t.erase(t.begin() + at); break;
        case 1: t.insert(t.begin() + at, Sym(any[r.Below(15)])); break;
        default: std::swap(t[at], t[r.Below(t.size())]);
      }
    }
  } else {  // soup
    static const char* any[] = {"+", "-", "*", "/", "<", ">", "^", "(", ")", "@", "::"};
    for (int n = r.Below(7); n > 0; --n) {
      if (r.Coin()) t.push_back(r.Coin() ? Number(r) : Id(r));
      else t.push_back(Sym(any[r.Below(11)]));
    }
  }
  std::map<std::string, int> names;
  for (auto n : kNames) {
    for (auto pre : {"", "::", "foo::", "_::"}) {
      if (r.Chance(1, 3)) continue;
      names[std::string(pre) + n] = r.Chance(1, 3) ? r.Pick({0, -1, INT_MAX, INT_MIN, 0xffff, 0x800000}) : int(r.Below(1 << 24));
    }
  }
  std::string s = Render(r, t);
  R().Describe("expression `" + s + "`");
  R().Eval();
  Ref ref{t, names};
  Ref::V want = ref.Sum();
  if (ref.p != t.size()) ref.bad = true;
  for (auto& k : t) if (k.bad) ref.bad = true;
  auto got = ParseExpression(s);
  if (got.ok() == ref.bad) {
    R().Violation(ref.bad ? "accepted-malformed" : "refused", ref.bad ? got->ToString() : got.error().ToString());
    return;
  }
  if (ref.bad) { ++R().Count("malformed"); return; }
  nsx::MapContext ctx;
  ctx.names = names;
  if (got->Type() != want.ty) R().Violation("type", ToString(got->Type()) + ", expected " + ToString(want.ty));
  auto v = got->Evaluate(ctx);
  if (v.ok() == ref.fails) {
    R().Violation(ref.fails ? "valueless-evaluated" : "no-value", v.ok() ? Fmt("%d", *v) : v.error().ToString());
    return;
  }
  if (ref.fails) ++R().Count("without_value");
  else {
    ++R().Count("evaluated");
    if (*v != want.v) R().Violation("value", Fmt("%d, expected %lld", *v, (long long)want.v));
    if (ref.used.size()) ++R().Count("with_names");
  }
  // A copy means the same.
  ExpressionOrNull copy = *got;
  auto v2 = copy.Evaluate(ctx);
  if (v2.ok() != v.ok() || (v.ok() && *v2 != *v) || copy.Type() != got->Type() || copy.ToString() != got->ToString())
    R().Violation("copy", copy.ToString());
  if (got->RequiresLookup() != !ref.used.empty()) R().Violation("requires-lookup", got->ToString());
  // Names asked for outside a set of local ones.
  Locals loc;
  std::set<std::string> ext, gote;
  for (auto& n : ref.used) {
    if (r.Chance(1, 3)) loc.names.insert(n);
    else ext.insert(n.find("::") == std::string::npos ? "::" + n : n);
  }
  for (auto& id : got->ExternalNamesReferenced(loc)) gote.insert(id.ToString());
  if (gote != ext) R().Violation("external-names", Fmt("%zu, expected %zu", gote.size(), ext.size()));
  if (t.size() == 1 && t[0].kind == 'i') {
    auto si = got->SimpleIdentifier();
    if (!si || *si != t[0].text) R().Violation("simple-identifier", s);
  } else if (got->SimpleIdentifier() && !(t.size() >= 1 && t[0].kind == '(') && !(t[0].kind == '@')) {
    R().Violation("not-simple-identifier", s);
  }
  if (t.size() > 4) R().Distinct(s);
  R().MaybeSample(s + " = " + (v.ok() ? Fmt("%d", *v) : "error"));
}

// Operands at and beyond the edges of 32 bits, combined by every operator.
void EdgeCase(Rng& r) {
  static const int64_t e[] = {INT_MIN, INT_MIN + 1, -1, 0, 1, 2, INT_MAX - 1, INT_MAX, 65536, -65536, 46341, 0x800000, 0xffffff};
  std::map<std::string, int> names;
  for (auto a : e)
    for (auto b : e) {
      nsx::MapContext ctx;
      ctx.names["p"] = int(a);
      ctx.names["q"] = int(b);
      for (char o : {'+', '-', '*', '/'}) {
        std::string s = Fmt("p %c q", o);
        R().Describe(Fmt("%s with p=%lld q=%lld", s.c_str(), (long long)a, (long long)b));
        auto x = ParseExpression(s);
        if (!x.ok()) { R().Violation("refused", s); return; }
        auto v = x->Evaluate(ctx);
        R().Eval();
        ++R().Count("edges");
        if (o == '/' && b == 0) { if (v.ok()) R().Violation("divided-by-zero", Fmt("%d", *v)); continue; }
        int64_t w = o == '+' ? a + b : o == '-' ? a - b : o == '*' ? a * b : a / b;
        if (!v.ok() || *v != Ref::Wrap(w)) R().Violation(Fmt("edge-value %c", o), v.ok() ? Fmt("%d", *v) : v.error().ToString());
      }
      for (const char* u : {"-p", "<p", ">p", "^p", "--p", "- -p", "-(p)"}) {
        std::string s = u;
        R().Describe(Fmt("%s with p=%lld", u, (long long)a));
        auto x = ParseExpression(s);
        if (s == "--p") continue;
        if (!x.ok()) { R().Violation("refused", s); return; }
        auto v = x->Evaluate(ctx);
        uint32_t m = uint32_t(a);
        int64_t w = s == "- -p" ? a : s[0] == '-' ? Ref::Wrap(-a) : s[0] == '<' ? m & 255 : s[0] == '>' ? (m >> 8) & 255 : (m >> 16) & 255;
        if (!v.ok() || *v != w) R().Violation("edge-value unary " + s, v.ok() ? Fmt("%d", *v) : v.error().ToString());
      }
    }
}

// Expressions far deeper than anyone writes: a value or an error.
void DeepCase(Rng& r) {
  int n = r.Pick({50, 200, 400, 1000, 5000, 60000});
  std::string s;
  int64_t want = 0;
  int form = r.Below(4);
  if (form == 0) { s = std::string(n, '(') + "7" + std::string(n, ')'); want = 7; }
  else if (form == 1) { for (int i = 0; i < n; ++i) s += "- "; s += "7"; want = n % 2 ? -7 : 7; }
  else if (form == 2) { s = "1"; for (int i = 0; i < n; ++i) s += "+1"; want = n + 1; }
  else { s = "5"; for (int i = 0; i < n; ++i) s += i % 2 ? "/3" : "*3"; want = n % 2 ? 15 : 5; }
  R().Describe(Fmt("expression of %d levels, form %d", n, form));
  auto x = ParseExpression(s);
  R().Eval();
  ++R().Count("deep");
  if (!x.ok()) {
    if (n <= 200) R().Violation("deep-refused", Fmt("%d levels", n));
    return;
  }
  auto v = x->Evaluate(NullLookupContext());
  if (!v.ok() || *v != want) R().Violation("deep-value", Fmt("%d levels", n));
  ExpressionOrNull c = *x;
  if (c.Type() != x->Type()) R().Violation("deep-copy", "");
}

// ---- C20 ----

struct ModeName { const char* name; BitState e, m, x; };
const ModeName kModes[] = {
    {"unk", B_unknown, B_unknown, B_unknown}, {"emu", B_on, B_on, B_on}, {"native", B_off, B_unknown, B_unknown},
    {"m8", B_off, B_on, B_unknown}, {"m16", B_off, B_off, B_unknown}, {"x8", B_off, B_unknown, B_on},
    {"x16", B_off, B_unknown, B_off}, {"m8x8", B_off, B_on, B_on}, {"m8x16", B_off, B_on, B_off},
    {"m16x8", B_off, B_off, B_on}, {"m16x16", B_off, B_off, B_off}};

const ModeName* FindMode(const std::string& s) {
  std::string l = nsx::Lower(s);
  for (auto& m : kModes) if (l == m.name) return &m;
  return nullptr;
}

bool Known(BitState b) { return b == B_on || b == B_off; }

void AskName(const std::string& s) {
  R().Describe("mode name `" + s + "`");
  R().Eval();
  auto got = StatusFlags::FromName(s);
  auto* want = FindMode(s);
  if (got.has_value() != (want != nullptr)) { R().Violation(want ? "mode-refused" : "mode-accepted", "`" + s + "`"); return; }
  if (!want) { ++R().Count("unknown_names"); return; }
  ++R().Count("known_names");
  if (got->EBit() != want->e || got->MBit() != want->m || got->XBit() != want->x || got->CBit() != B_unknown)
    R().Violation(std::string("mode-means ") + want->name, nsx::FlagText(*got));
  if (got->ToName() != want->name) R().Violation(std::string("mode-prints ") + want->name, got->ToName());
  auto back = StatusFlags::FromName(got->ToName());
  if (!back || *back != *got) R().Violation(std::string("mode-reads-back ") + want->name, got->ToName());
  if (got->ToString() != want->name) R().Violation(std::string("mode-text ") + want->name, got->ToString());
  R().Seen("modes", want->name);
}

std::vector<StatusFlags> States() {
  std::vector<StatusFlags> r;
  const BitState s[] = {B_off, B_on, B_original, B_unknown};
  for (auto e : s) for (auto m : s) for (auto x : s) for (auto c : s) {
    StatusFlags f(e, m, x, c);
    bool dup = false;
    for (auto& g : r) if (g == f) dup = true;
    if (!dup) r.push_back(f);
  }
  return r;
}

// Names must not claim more than the state knows.
void StateCase(const StatusFlags& f) {
  R().Describe("state " + nsx::FlagText(f));
  R().Eval();
  auto back = StatusFlags::FromName(f.ToName());
  if (!back) { R().Violation("unreadable-name", f.ToName()); return; }
  auto weaker = [&](BitState n, BitState s) { return !Known(n) || n == s; };
  if (!weaker(back->EBit(), f.EBit()) || !weaker(back->MBit(), f.MBit()) || !weaker(back->XBit(), f.XBit()))
    R().Violation("name-claims-more", f.ToName());
  if (Known(f.EBit()) && ((Known(f.MBit()) && back->MBit() != f.MBit()) || (Known(f.XBit()) && back->XBit() != f.XBit()) || back->EBit() != f.EBit()))
    R().Violation("name-claims-less", f.ToName());
  std::string t = f.ToString();
  std::string want = f.ToName() + (f.CBit() == B_on ? ", c=1" : f.CBit() == B_off ? ", c=0" : "");
  if (t != want) R().Violation("state-text", t);
  if (f.EBit() == B_on && (f.MBit() != B_on || f.XBit() != B_on)) R().Violation("emulation-widths", nsx::FlagText(f));
  R().Distinct(nsx::FlagText(f));
}

BitState Join(BitState a, BitState b) { return a == b ? a : B_unknown; }

void MergeRow(const StatusFlags& a, const std::vector<StatusFlags>& all) {
  for (auto& b : all) {
    R().Describe("merge " + nsx::FlagText(a) + " | " + nsx::FlagText(b));
    StatusFlags ab = a | b;
    ++R().Count("merges");
    if (ab != (b | a)) R().Violation("not-commutative", nsx::FlagText(ab));
    StatusFlags as = a;
    as |= b;
    if (as != ab) R().Violation("assign-merge", nsx::FlagText(as));
    auto bit = [&](const char* n, BitState x, BitState y, BitState got) {
      BitState w = Join(x, y);
      if (Known(w) ? got != w : Known(got)) R().Violation(std::string("merge-bit ") + n, Fmt("%s, expected %s", nsx::BitText(got), nsx::BitText(w)));
      if (got == B_original && w != B_original) R().Violation(std::string("merge-original ") + n, "");
    };
    bit("e", a.EBit(), b.EBit(), ab.EBit());
    bit("m", a.MBit(), b.MBit(), ab.MBit());
    bit("x", a.XBit(), b.XBit(), ab.XBit());
    bit("c", a.CBit(), b.CBit(), ab.CBit());
    for (auto& c : all)
      if ((ab | c) != (a | (b | c))) R().Violation("not-associative", nsx::FlagText(c));
    R().Count("triples") += all.size();
  }
  if ((a | a) != a) R().Violation("not-idempotent", nsx::FlagText(a));
  R().Eval(all.size());
}

// Whole execution states, reached by running instructions.
ExecutionState Reach(Rng& r, const ExecutionState& from, int steps, std::string* how) {
  static const char* src[] = {"rep #$30", "sep #$30", "rep #$20", "sep #$20", "sep #$10", "rep #$10", "clc", "sec", "xce", "php",
                              "plp", "pha", "pla", "phx", "plx", "phy", "ply", "pea #$1234", "lda #$12", "ldx #$12", "ldy #$34",
                              "inx", "dey", "inc", "adc #$01", "cmp #$01", "mvn #$7e, #$7f", "jsr $8000", "nop", "ora #$01"};
  ExecutionState s = from;
  for (int i = 0; i < steps; ++i) {
    const char* t = src[r.Below(sizeof src / sizeof *src)];
    auto tok = Tokenize(t, Location());
    if (!tok.ok()) abort();
    auto p = Parse(*tok);
    if (!p.ok() || p->size() != 1) { R().Violation("setup", t); return s; }
    ExecutionState n = s;
    *how += std::string(t) + "; ";
    R().Describe(*how);
    if (absl::get<Statement>((*p)[0]).Execute(&n).ok()) s = n;
  }
  return s;
}

// What pulling everything says, as text in which "?" is weaker than anything.
std::vector<std::string> Facts(ExecutionState s) {
  std::vector<std::string> f;
  auto reg = [&](const RegisterValue& v) { f.push_back(v.HasValue() ? Fmt("%04x", *v) : v.type() == RegisterValue::T_original ? "orig" : "?"); };
  auto flags = [&] { f.push_back(nsx::BitText(s.Flags().EBit())); f.push_back(nsx::BitText(s.Flags().MBit()));
                     f.push_back(nsx::BitText(s.Flags().XBit())); f.push_back(nsx::BitText(s.Flags().CBit())); };
  flags();
  reg(s.Accumulator()); reg(s.XRegister()); reg(s.YRegister()); reg(s.DataBankRegister());
  ExecutionState p = s;
  for (int i = 0; i < 4; ++i) { s.PullFlags(); flags(); }
  return f;
}

void ExecMerge(Rng& r) {
  ExecutionState base = StatusFlags(*StatusFlags::FromName(kModes[r.Below(11)].name));
  std::string how = "shared: ";
  ExecutionState common = Reach(r, base, r.Below(5), &how);
  how += " a: ";
  ExecutionState a = Reach(r, common, r.Below(6), &how);
  how += " b: ";
  ExecutionState b = Reach(r, common, r.Below(6), &how);
  how += " c: ";
  ExecutionState c = Reach(r, r.Coin() ? common : a, r.Below(4), &how);
  R().Describe(how);
  R().Eval();
  ++R().Count("state_merges");
  ExecutionState ab = a | b;
  if (ab != (b | a)) R().Violation("states-not-commutative", "");
  if ((a | a) != a) R().Violation("states-not-idempotent", "");
  if ((ab | c) != (a | (b | c))) R().Violation("states-not-associative", "");
  if ((ab | a) != ab || (ab | b) != ab) R().Violation("states-not-upper-bound", "");
  auto fa = Facts(a), fb = Facts(b), fm = Facts(ab);
  for (size_t i = 0; i < fm.size(); ++i) {
    if (fm[i] != "?" && (fa[i] != fm[i] || fb[i] != fm[i]))
      R().Violation(Fmt("merged-claims-more %zu", i < 8 ? i : 8 + i % 4), fm[i] + " from " + fa[i] + " and " + fb[i]);
    if (i < 8 && fm[i] == "?" && fa[i] == fb[i] && fa[i] != "?" && fa[i] != "orig")
      R().Violation(Fmt("merged-drops %zu", i), fa[i]);
  }
  if (a == b && ab != a) R().Violation("states-merge-equal", "");
  R().Distinct(how);
}

void NameCase(uint64_t i, Rng& r) {
  static const char alpha[] = "mx816unkeativ_";
  const int n = sizeof alpha - 1;
  if (i == 0) {
    for (auto& m : kModes) {
      std::string s = m.name;
      for (unsigned mask = 0; mask < (1u << s.size()); ++mask) {
        std::string t = s;
        for (size_t k = 0; k < s.size(); ++k) if (mask >> k & 1) t[k] = toupper(t[k]);
        AskName(t);
      }
      for (size_t k = 0; k <= s.size(); ++k)
        for (int c = 1; c < 256; ++c) {
          std::string t = s;
          t.insert(k, 1, char(c));
          AskName(t);
          if (k < s.size()) { t = s; t[k] = char(c); AskName(t); }
        }
      for (size_t k = 0; k < s.size(); ++k) { std::string t = s; t.erase(k, 1); AskName(t); }
      for (auto& m2 : kModes) AskName(s + m2.name);
    }
    AskName("");
    return;
  }
  if (i <= uint64_t(n)) {  // every word of up to five of these letters
    std::string s(1, alpha[i - 1]);
    AskName(s);
    for (int len = 2; len <= 5; ++len) {
      uint64_t total = 1;
      for (int k = 1; k < len; ++k) total *= n;
      for (uint64_t v = 0; v < total; ++v) {
        std::string t = s;
        uint64_t x = v;
        for (int k = 1; k < len; ++k) { t += alpha[x % n]; x /= n; }
        AskName(t);
      }
    }
    return;
  }
  for (int k = 0; k < 200; ++k) {
    std::string t;
    for (int len = 1 + r.Below(8); len > 0; --len) t += alpha[r.Below(n)];
    AskName(t);
  }
}

}  // namespace

int main(int argc, char** argv) {
  R().Init(argc, argv);
  if (R().o.prop == "C15") {
    R().Cases(R().o.cases, [&](uint64_t i, Rng& r) {
      if (i == 0) EdgeCase(r);
      else if (i < 60) DeepCase(r);
      else for (int k = 0; k < 20; ++k) ExprCase(r);
    });
  } else if (R().o.prop == "C20") {
    auto all = States();
    R().Cases(R().o.cases, [&](uint64_t i, Rng& r) {
      if (i < 20) NameCase(i, r);
      else if (i < 20 + all.size()) { StateCase(all[i - 20]); MergeRow(all[i - 20], all); }
      else for (int k = 0; k < 10; ++k) ExecMerge(r);
    });
  } else {
    return 64;
  }
  return R().Finish();
}
