// Runs nsasm's assembler on a program of the model.
#pragma once
#include "h/gen.h"
#include "h/nsx.h"
#include "nsasm/assembler.h"
#include "nsasm/file.h"

namespace prog {
using vf::R;

struct Outcome {
  bool loaded = false, ok = false;
  std::string error;
  nsx::RecordingSink sink;
  std::optional<nsasm::Assembler> a;
};

inline nsasm::File ToFile(const Source& f, bool disk) {
  if (!disk) return nsasm::MakeFakeFile(f.path, f.text);
  std::string path = R().o.scratch + "/" + Fmt("s%d.asm", R().o.shard);
  vf::WriteFile(path, f.text);
  auto file = nsasm::OpenFile(path);
  if (!file.ok()) {
    R().Violation("unopenable", "refuses a readable file: " + file.error().ToString());
    return nsasm::MakeFakeFile(f.path, f.text);
  }
  return *std::move(file);
}

inline void Assemble(const Program& p, const std::vector<int>& order, bool disk, Outcome* o) {
  nsasm::Assembler a;
  for (int i : order) {
    auto e = a.AddAsmFile(ToFile(p.files[i], disk));
    if (!e.ok()) { o->error = e.error().ToString(); return; }
  }
  o->loaded = true;
  auto e = a.Assemble(&o->sink);
  if (!e.ok()) { o->error = e.error().ToString(); return; }
  o->ok = true;
  o->a.emplace(std::move(a));
}
inline std::vector<int> InOrder(const Program& p) {
  std::vector<int> v;
  for (size_t i = 0; i < p.files.size(); ++i) v.push_back(i);
  return v;
}

}  // namespace prog
