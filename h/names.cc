// C08: names of mnemonics, size suffixes and directives.
#include "h/common.h"

#include <optional>
#include <string_view>

#include "nsasm/mnemonic.h"

using namespace vf;

namespace {
// The instruction set and assembler vocabulary, written out independently.
const std::pair<const char*, nsasm::Mnemonic> kMnemonics[] = {
#define M(x) {#x, nsasm::M_##x}
    M(adc), M(and), M(asl), M(bit), M(cld), M(cli), M(clv), M(cmp), M(cpx), M(cpy), M(dec), M(dex), M(dey), M(eor),
    M(inc), M(inx), M(iny), M(lda), M(ldx), M(ldy), M(lsr), M(mvn), M(mvp), M(nop), M(ora), M(pea), M(pei), M(per),
    M(pha), M(phb), M(phd), M(phk), M(phx), M(phy), M(pla), M(plb), M(pld), M(plx), M(ply), M(rol), M(ror), M(sbc),
    M(sed), M(sei), M(sta), M(stp), M(stx), M(sty), M(stz), M(tax), M(tay), M(tcd), M(tcs), M(tdc), M(trb), M(tsb),
    M(tsc), M(tsx), M(txa), M(txs), M(txy), M(tya), M(tyx), M(wai), M(wdm), M(xba), M(bcc), M(bcs), M(beq), M(bmi),
    M(bne), M(bpl), M(bra), M(brk), M(brl), M(bvc), M(bvs), M(cop), M(jmp), M(jsl), M(jsr), M(rti), M(rtl), M(rts),
    M(clc), M(php), M(plp), M(rep), M(sec), M(sep), M(xce),
#undef M
    {"add", nsasm::PM_add}, {"sub", nsasm::PM_sub}};
const std::pair<const char*, nsasm::Suffix> kSuffixes[] = {{".b", nsasm::S_b}, {".w", nsasm::S_w}};
const std::pair<const char*, nsasm::DirectiveName> kDirectives[] = {
    {".begin", nsasm::D_begin}, {".db", nsasm::D_db},     {".dl", nsasm::D_dl},         {".dw", nsasm::D_dw},
    {".end", nsasm::D_end},     {".entry", nsasm::D_entry}, {".equ", nsasm::D_equ},     {".halt", nsasm::D_halt},
    {".mode", nsasm::D_mode},   {".module", nsasm::D_module}, {".org", nsasm::D_org}, {".remote", nsasm::D_remote}};

std::string Lower(std::string_view s) {
  std::string r(s);
  for (char& c : r) if (c >= 'A' && c <= 'Z') c = char(c + 32);
  return r;
}

struct Kind {
  const char* name;
  std::map<std::string, int> by_name;
  std::optional<int> (*parse)(const std::string&);
  std::string (*print)(int);
  int limit;   // representable values are below this
};

template <typename E, typename F>
Kind Make(const char* name, const F& table, std::optional<int> (*parse)(const std::string&), std::string (*print)(int), int limit) {
  Kind k{name, {}, parse, print, limit};
  for (auto& t : table) k.by_name[t.first] = int(t.second);
  return k;
}

std::vector<Kind>& Kinds() {
  static std::vector<Kind> k = {
      Make<nsasm::Mnemonic>("mnemonic", kMnemonics,
          +[](const std::string& s) -> std::optional<int> { auto m = nsasm::ToMnemonic(s); if (m) return int(*m); return {}; },
          +[](int i) { return std::string(nsasm::ToString(static_cast<nsasm::Mnemonic>(i))); }, 128),
      Make<nsasm::Suffix>("suffix", kSuffixes,
          +[](const std::string& s) -> std::optional<int> { auto m = nsasm::ToSuffix(s); if (m) return int(*m); return {}; },
          +[](int i) { return std::string(nsasm::ToString(static_cast<nsasm::Suffix>(i))); }, 4),
      Make<nsasm::DirectiveName>("directive", kDirectives,
          +[](const std::string& s) -> std::optional<int> { auto m = nsasm::ToDirectiveName(s); if (m) return int(*m); return {}; },
          +[](int i) { return std::string(nsasm::ToString(static_cast<nsasm::DirectiveName>(i))); }, 16)};
  return k;
}

// Asks all three parsers about one string.
void Try(const std::string& s) {
  std::string low = Lower(s);
  for (auto& k : Kinds()) {
    auto it = k.by_name.find(low);
    auto got = k.parse(s);
    bool want = it != k.by_name.end();
    ++R().Count(want ? "recognised" : "rejected");
    if (bool(got) != want)
      R().Violation(Fmt("%s/%s", k.name, want ? "not-recognised" : "recognised"), Fmt("%s parser on %s", k.name, Json(s).c_str()));
    else if (want && *got != it->second)
      R().Violation(Fmt("%s/wrong", k.name), Fmt("%s parser on %s gave item %d, expected %d", k.name, Json(s).c_str(), *got, it->second));
  }
  R().Eval();
}

const std::string kAlpha = "abcdefghijklmnopqrstuvwxyz.";

void C08(uint64_t i, Rng& r) {
  auto& kinds = Kinds();
  if (i == 0) {
    // Every representable value: its name, or none.
    R().Describe("printing every value");
    for (auto& k : kinds) {
      std::map<std::string, int> seen;
      std::map<int, std::string> want;
      for (auto& n : k.by_name) want[n.second] = n.first;
      for (int v = 0; v < k.limit; ++v) {
        std::string s = k.print(v);
        std::string w = want.count(v) ? want[v] : "";
        if (Lower(s) != w) R().Violation(Fmt("%s/name", k.name), Fmt("%s value %d prints as %s, expected %s", k.name, v, Json(s).c_str(), Json(w).c_str()));
        if (!s.empty() && !seen.emplace(Lower(s), v).second) R().Violation(Fmt("%s/shared-name", k.name), s);
        if (!s.empty()) {
          auto back = k.parse(s);
          if (!back || *back != v) R().Violation(Fmt("%s/back", k.name), s);
          R().Seen(std::string(k.name) + "_names", Lower(s));
        }
        R().Eval();
      }
    }
    auto list = [](auto& all, const Kind& k) {
      std::map<int, int> n;
      for (auto m : all) ++n[int(m)];
      for (auto& w : k.by_name) if (n[w.second] != 1) R().Violation(Fmt("%s/list", k.name), Fmt("%s is listed %d times", w.first.c_str(), n[w.second]));
      for (auto& g : n) {
        bool known = false;
        for (auto& w : k.by_name) known |= w.second == g.first;
        if (!known && g.second) R().Violation(Fmt("%s/list-extra", k.name), Fmt("unnamed value %d is listed", g.first));
      }
    };
    list(nsasm::AllMnemonics(), kinds[0]);
    list(nsasm::AllSuffixes(), kinds[1]);
    return;
  }
  if (i <= 120) {
    // Every case pattern of one name, and everything one edit away from it.
    std::vector<std::string> names;
    for (auto& k : kinds) for (auto& n : k.by_name) names.push_back(n.first);
    names.push_back("");
    if (i > names.size()) return;
    std::string n = names[i - 1];
    R().Describe("variations of " + n);
    for (uint32_t m = 0; m < (1u << n.size()); ++m) {
      std::string s = n;
      for (size_t j = 0; j < n.size(); ++j) if ((m >> j & 1) && s[j] >= 'a' && s[j] <= 'z') s[j] = char(s[j] - 32);
      Try(s);
      R().Distinct("v" + s);
    }
    for (int up = 0; up < 2; ++up) {
      std::string b = n;
      if (up) for (char& c : b) if (c >= 'a' && c <= 'z') c = char(c - 32);
      for (size_t j = 0; j <= b.size(); ++j) {
        for (int c = 0; c < 256; ++c) {
          std::string ins = b, sub = b;
          ins.insert(ins.begin() + j, char(c));
          Try(ins);
          if (j < b.size()) { sub[j] = char(c); Try(sub); }
        }
        if (j < b.size()) {
          std::string del = b;
          del.erase(j, 1);
          Try(del);
          if (j + 1 < b.size()) { std::string sw = b; std::swap(sw[j], sw[j + 1]); Try(sw); }
        }
        Try(b.substr(0, j));
        Try(b.substr(j));
      }
      for (auto& o : names) { Try(b + o); Try(b + " " + o); Try(b + std::string(1, '\0') + o); }
      Try(std::string("\0", 1) + b);
    }
    return;
  }
  if (i <= 120 + 28 * 28) {
    // Every string of up to three characters over letters and the dot, two cases.
    uint64_t j = i - 121;
    std::string p;
    if (j / 28) p += kAlpha[j / 28 - 1];
    if (j % 28) p += kAlpha[j % 28 - 1];
    R().Describe("strings starting " + p);
    for (char c : kAlpha) {
      std::string s = p + c;
      Try(s);
      std::string u = s;
      u[r.Below(u.size())] ^= 0x20;
      Try(u);
      R().Distinct("s" + s);
    }
    return;
  }
  // Random text: any bytes, or a name with several edits.
  for (int t = 0; t < 50; ++t) {
    std::string s;
    if (r.Coin()) {
      int n = int(r.Range(0, r.Chance(1, 20) ? 200 : 9));
      for (int k = 0; k < n; ++k) s += char(r.Below(256));
    } else {
      auto& k = r.Pick(kinds);
      auto it = k.by_name.begin();
      std::advance(it, r.Below(k.by_name.size()));
      s = it->first;
      for (int e = int(r.Range(0, 3)); e > 0; --e) {
        size_t at = r.Below(s.size() + 1);
        char c = r.Coin() ? kAlpha[r.Below(kAlpha.size())] : char(r.Below(256));
        if (r.Coin()) s.insert(s.begin() + at, c);
        else if (at < s.size()) s[at] = r.Coin() ? c : char(s[at] ^ 0x20);
      }
    }
    R().Describe("text " + Json(s));
    Try(s);
    R().Distinct(s);
    R().MaybeSample("text " + Json(s));
  }
}
}  // namespace

int main(int argc, char** argv) {
  R().Init(argc, argv);
  R().Cases(R().o.cases, C08);
  return R().Finish();
}
