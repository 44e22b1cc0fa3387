// Damaged and made-up source texts.
#pragma once
#include "h/common.h"

namespace mut {
using vf::Rng;

inline std::vector<std::string> Pieces(const std::string& s) {
  std::vector<std::string> v;
  for (size_t i = 0; i < s.size();) {
    size_t j = i + 1;
    auto word = [](unsigned char c) { return isalnum(c) || c == '_' || c == '$' || c == '%' || c == '.'; };
    if (word(s[i])) while (j < s.size() && word(s[j])) ++j;
    else if (s[i] == ' ' || s[i] == '\t') while (j < s.size() && (s[j] == ' ' || s[j] == '\t')) ++j;
    v.push_back(s.substr(i, j - i));
    i = j;
  }
  return v;
}
// Pieces that mean something somewhere.
inline std::string Token(Rng& r) {
  static const std::vector<std::string> t = {
      "lda", "ldx", "sta", "rep", "sep", "xce", "clc", "sec", "php", "plp", "jsr", "jsl", "jmp", "jml", "bra", "brl", "bcc", "bcs", "beq", "per", "pea", "pei", "mvn", "mvp",
      "rts", "rtl", "rti", "stp", "brk", "cop", "wdm", "add", "sub", "adc", "sbc", "inc", "dec", "asl", "nop", "tax", "lda.b", "lda.w", "sta.l", "ldx.b", "cpx.w", ".b", ".w", ".l",
      ".db", ".dw", ".dl", ".org", ".entry", ".equ", ".mode", ".module", ".remote", ".halt", ".begin", ".end", "export", "yields", "noreturn", "emu", "native", "m8", "x16", "m8x8", "m16x16", "unk",
      "a", "x", "y", "s", "#", "$", "%", "(", ")", "[", "]", ",", "+", "-", "*", "/", "<", ">", "^", "@", ":", "::", "{", "}", ";", ".", "=", "!", "'", "\"", "\\", "~", "&", "|", "?", "`",
      "++", "--", "+++", "---", "0", "1", "$0", "$ff", "$100", "$ffff", "$10000", "$ffffff", "$1000000", "255", "65535", "65536", "16777215", "16777216", "2147483647", "2147483648", "4294967295", "4294967296",
      "9999999999999999999999", "$ffffffffffffffffff", "%1", "%11111111", "%2", "0x", "0x1g", "0xffffffff", "-1", "label", "one", "two", "one::two", "::one", "one::", "one::two::three", "_", "__x", "x1", "m", "e", "c",
      "\t", " ", "\r", "\n", "\v", "\f", std::string(1, '\0'), "\x80", "\xff", "\xc3\xa9", "/*", "//", ";;", ".org $8000", ".entry m8x8", "x:", "{ {", "} }", "- -", "> >", "@@", "^<>", "--1", "(((", ")))"};
  return r.Pick(t);
}
inline std::string Mutate(Rng& r, const std::string& s, const std::string& other) {
  std::vector<std::string> v = Pieces(s);
  if (v.empty()) v.push_back("");
  for (int n = 1 + r.Below(r.Chance(1, 6) ? 30 : 4); n > 0; --n) {
    size_t i = r.Below(v.size()), j = r.Below(v.size());
    switch (r.Below(12)) {
      case 0: v[i] = ""; break;
      case 1: v[i] += v[i]; break;
      case 2: v[i] += " " + v[j]; break;
      case 3: std::swap(v[i], v[j]); break;
      case 4: v[i] = v[j]; break;
      case 5: v[i] = Token(r); break;
      case 6: v[i] = v[i] + " " + Token(r) + " "; break;
      case 7: v[i] = Token(r) + v[i]; break;
      case 8: {  // a stretch again
        if (i > j) std::swap(i, j);
        if (j - i > 60) j = i + 60;
        std::string t;
        for (size_t k = i; k <= j; ++k) t += v[k];
        v[j] += t;
        break;
      }
      case 9: {  // from elsewhere
        auto w = Pieces(other);
        if (w.empty()) break;
        size_t a = r.Below(w.size()), b = a + r.Below(20);
        for (size_t k = a; k <= b && k < w.size(); ++k) v[i] += w[k];
        break;
      }
      case 10:  // a byte
        if (v[i].empty()) break;
        v[i][r.Below(v[i].size())] = char(r.Coin() ? r.Below(256) : r.Pick<int>({0, 0x7f, 0x80, 0xff, 10, 39, 58, 36}));
        break;
      case 11: {  // lines lost
        for (size_t k = i; k < v.size() && k < i + 30 && v[k] != "\n"; ++k) v[k] = "";
        break;
      }
    }
  }
  std::string t;
  for (auto& x : v) t += x;
  return t;
}
// Lines moved, lost and repeated: what is left parses.
inline std::string MutateLines(Rng& r, const std::string& s, const std::string& other) {
  auto lines = [](const std::string& t) {
    std::vector<std::string> v(1);
    for (char c : t) { if (c == '\n') v.push_back(""); else v.back() += c; }
    return v;
  };
  std::vector<std::string> v = lines(s), w = lines(other);
  for (int n = 1 + r.Below(4); n > 0; --n) {
    size_t i = r.Below(v.size());
    switch (r.Below(6)) {
      case 0: v[i] = ""; break;
      case 1: std::swap(v[i], v[r.Below(v.size())]); break;
      case 2: v.insert(v.begin() + i, r.Pick(w)); break;
      case 3: v.insert(v.begin() + i, r.Pick(v)); break;
      case 4: {  // a number is another
        auto p = Pieces(v[i]);
        for (auto& x : p) if (!x.empty() && (x[0] == '$' || isdigit(x[0]))) x = r.Pick<std::string>({"0", "1", "$7f", "$80", "$ff", "$100", "$8000", "$ffff", "$10000", "$ffffff", "$1000000", "2147483647"});
        v[i].clear();
        for (auto& x : p) v[i] += x;
        break;
      }
      case 5: {
        static const std::vector<std::string> k = {"rep #$30", "sep #$30", "php", "plp", "xce", "clc", "sec", "pha", "pla", "phb", "plb", "phx", "plx", "rts", ".halt", "nop", ".mode m8x8", ".mode m16x16", ".mode emu", ".entry native", ".org $ffff", ".org $fffffe", ".org $8000", "{", "}", "+", "beq +", "bra -", "bra --", "-", ".db 1,2", "lda #0", "tcs", "per 0", "pea 0", ".remote $8000 m8x8", ".module other"};
        v.insert(v.begin() + i, r.Pick(k));
        break;
      }
    }
  }
  std::string t;
  for (auto& x : v) t += x + "\n";
  return t;
}
// No program to begin with.
inline std::string Soup(Rng& r) {
  std::string s;
  int n = r.Chance(1, 8) ? 400 : 1 + r.Below(60);
  int style = r.Below(4);
  for (int i = 0; i < n; ++i) {
    if (style == 0) s += char(r.Below(256));
    else if (style == 1) s += char(r.Range(9, 126));
    else s += Token(r) + (style == 2 || r.Coin() ? " " : "");
    if (r.Chance(1, 6)) s += '\n';
  }
  return s;
}
}  // namespace mut
