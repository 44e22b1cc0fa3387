#pragma once
#include <cassert>
#include <cstdint>
#include "absl/base/attributes.h"
#include "absl/strings/str_cat.h"
namespace absl {
template <typename... A> std::string Substitute(string_view f, const A&... a) {
  std::string v[] = {StrCat(a)..., std::string()};
  std::string r;
  for (size_t i = 0; i < f.size(); ++i) {
    if (f[i] == '$' && i + 1 < f.size()) {
      ++i;
      if (f[i] == '$') r += '$'; else r += v[f[i] - '0'];
    } else r += f[i];
  }
  return r;
}
}
