#pragma once
#include <cassert>
#include <cstdint>
#include "absl/base/attributes.h"
#include <initializer_list>
#include <string>
#include <utility>
#include "absl/strings/string_view.h"
namespace absl {
inline std::string StrReplaceAll(string_view s, std::initializer_list<std::pair<string_view, string_view>> l) {
  std::string r;
  for (size_t i = 0; i < s.size();) {
    const std::pair<string_view, string_view>* best = nullptr;
    for (auto& p : l)
      if (!p.first.empty() && s.substr(i, p.first.size()) == p.first &&
          (!best || p.first.size() > best->first.size())) best = &p;
    if (best) { r.append(best->second); i += best->first.size(); }
    else r.push_back(s[i++]);
  }
  return r;
}
}
