// C27: the same work, again: in other container orders, after other work, and
// in another process with other garbage in its memory.
#include "absl/hash/hash.h"
#include "h/jobs.h"
#include "h/mutate.h"

namespace {

struct Work {
  bool disassemble = false;
  Program p;
  std::vector<int> order;
  Job j;
  int passes = 1;
  uint64_t kind = 0;
};

std::string AssembleDigest(const Work& w) {
  nsasm::Assembler a;
  nsx::RecordingSink sink;
  std::string s;
  auto written = [&] {
    std::string t = "\nwrites:";
    for (uint32_t at : sink.order) t += Fmt(" %06x", at);
    for (auto& b : sink.bytes) t += Fmt(" %02x", b.second);
    return t;
  };
  for (int i : w.order) {
    auto e = a.AddAsmFile(nsasm::MakeFakeFile(w.p.files[i].path, w.p.files[i].text));
    if (!e.ok()) return Fmt("file %d refused: ", i) + e.error().ToString();
  }
  auto e = a.Assemble(&sink);
  if (!e.ok()) return "refused: " + e.error().ToString() + written();
  s = "assembled" + written() + "\n";
  for (auto& t : a.JumpTargets()) s += t.first.ToString() + " " + nsx::FlagText(t.second) + "\n";
  for (auto& t : a.JumpTargetReturnConventions()) s += t.first.ToString() + t.second.ToSuffixString() + "\n";
  for (auto& b : sink.bytes) {
    auto n = a.NameForAddress(nsasm::Address(b.first));
    if (n) s += Fmt("%06x is ", b.first) + n->ToString() + "\n";
    if (!a.Contains(nsasm::Address(b.first))) s += Fmt("%06x is not there\n", b.first);
  }
  for (uint32_t at : {0x000000, 0x000001, 0x000010, 0x0000ff, 0x000100, 0x008000, 0xffffff}) {
    auto n = a.NameForAddress(nsasm::Address(at));
    if (n) s += Fmt("%06x is ", at) + n->ToString() + "\n";
  }
  return s;
}

std::string DisassembleDigest(const Work& w) {
  const Job& j = w.j;
  nsasm::Disassembler d(std::make_unique<MemSource>(&j.mem));
  std::map<nsasm::Address, nsasm::ReturnConvention> conv;
  for (auto& c : j.convs)
    if (c.second.kind == 1) conv.emplace(nsasm::Address(c.first), nsasm::ReturnConvention(ToFlags(c.second.yields)));
    else if (c.second.kind == 2) conv.emplace(nsasm::Address(c.first), nsasm::ReturnConvention(nsasm::NoReturn()));
  d.AddTargetReturnConventions(conv);
  std::vector<std::pair<nsasm::Address, nsasm::StatusFlags>> now;
  for (auto& s : j.seeds) now.push_back({nsasm::Address(s.addr), ToFlags(s.mode)});
  std::string out;
  for (int pass = 0; pass < w.passes && !now.empty(); ++pass) {
    std::map<nsasm::Address, nsasm::StatusFlags> next;
    for (auto& [at, flags] : now) {
      auto t = d.Disassemble(at, flags);
      out += at.ToString() + " " + nsx::FlagText(flags) + ": ";
      if (!t.ok()) { out += t.error().ToString() + "\n"; continue; }
      for (auto& q : *t) {
        out += q.first.ToString() + " " + nsx::FlagText(q.second) + " ";
        auto n = next.emplace(q.first, q.second);
        if (!n.second) n.first->second |= q.second;
      }
      out += "\n";
    }
    now.assign(next.begin(), next.end());
  }
  out += Snapshot(d);
  auto e = d.Cleanup();
  out += e.ok() ? "clean\n" : e.error().ToString() + "\n";
  return out + Listing(d.Result());
}

std::string Digest(const Work& w) { R().Arm(); return w.disassemble ? DisassembleDigest(w) : AssembleDigest(w); }

std::string Show(const Work& w) {
  if (w.disassemble) return ::Show(w.j);
  std::string s = "order:";
  for (int i : w.order) s += Fmt(" %d", i);
  return s + "\n" + ShowText(w.p);
}

// Names that share an address, and others that are not addresses.
Source Names(Rng& r) {
  Source f;
  f.path = "names.asm";
  std::string& t = f.text;
  t = ".module names\n";
  uint32_t at = r.Below(0x1000000);
  int n = 2 + r.Below(12);
  auto name = [&] {
    std::string s;
    for (int k = 1 + r.Below(9); k > 0; --k) s += char('a' + r.Below(26));
    return s + Fmt("_%d", int(r.Below(1000)));
  };
  for (int k = 0; k < n; ++k)
    if (r.Chance(1, 3)) t += (r.Coin() ? "export " : "") + name() + Fmt(" .equ $%x\n", r.Coin() ? at : uint32_t(r.Below(0x1000000)));
  t += Fmt(".org $%06x\n.entry m8x8\n", at);
  for (int k = 0; k < n; ++k) t += (r.Chance(3, 4) ? "export " : "") + name() + (r.Coin() ? ":\n" : ": nop\n");
  t += "rts\n";
  if (r.Chance(1, 4)) for (int k = 0; k < n; ++k) t += name() + ":\n";
  return f;
}

bool MakeWork(Rng& r, Work* w) {
  w->kind = r.Below(8);
  if (w->kind >= 5) {
    w->disassemble = true;
    w->passes = 1 + r.Below(4);
    return MakeJob(r, &w->j) && !w->j.seeds.empty();
  }
  Gen g(r);
  if (w->kind == 4) {
    for (int n = 1 + r.Below(3); n > 0; --n) {
      Source f;
      f.path = Fmt("soup%d.asm", n);
      f.text = mut::Soup(r);
      w->p.files.push_back(f);
    }
  } else {
    if (!g.WellFormed(&w->p, 1 + r.Below(6), 1 + r.Below(6))) return false;
    for (auto& f : w->p.files) Render(f, r, r.Coin());
    if (r.Coin()) w->p.files.push_back(Names(r));
  }
  w->order = InOrder(w->p);
  r.Shuffle(w->order);
  if (w->kind >= 2 && w->kind < 4) {
    size_t i = r.Below(w->p.files.size());
    w->p.files[i].text = (r.Coin() ? mut::Mutate : mut::MutateLines)(r, w->p.files[i].text, r.Pick(w->p.files).text);
    if (r.Chance(1, 4)) {  // one thing twice
      w->p.files.push_back(r.Pick(w->p.files));
      w->order.push_back(w->order.size());
    }
  }
  return true;
}

std::string Difference(const std::string& a, const std::string& b) {
  size_t i = 0, line = 0;
  while (i < a.size() && i < b.size() && a[i] == b[i]) { if (a[i] == '\n') line = i + 1; ++i; }
  auto rest = [&](const std::string& s) { return s.substr(line, std::min<size_t>(s.find('\n', i) == std::string::npos ? 300 : s.find('\n', i) - line, 300)); };
  return "`" + rest(a) + "` and then `" + rest(b) + "`";
}

struct Past { Work w; std::string digest; };
std::vector<Past> past;

void Case(Rng& r, bool child) {
  Work w;
  if (!MakeWork(r, &w)) { ++R().Count("generator_retries"); return; }
  R().Describe(Show(w));
  if (child) {
    std::string d = Digest(w);
    fwrite(d.data(), 1, d.size(), stdout);
    return;
  }
  absl::shim_internal::TableSalt() = 0;
  std::string first = Digest(w);
  ++R().Count(w.disassemble ? "disassembled" : first.compare(0, 9, "assembled") == 0 ? "assembled" : "refused");
  if (first.find(" is names::") != std::string::npos) ++R().Count("names_shared");
  int times = 1 + r.Below(4);
  for (int k = 0; k < times; ++k) {
    absl::shim_internal::TableSalt() = r.Chance(1, 5) ? 0 : r.Next();
    std::vector<std::string> clutter;  // so that things are elsewhere
    for (int n = r.Below(30); n > 0; --n) clutter.push_back(std::string(r.Below(300), 'c'));
    std::string again = Digest(w);
    R().Eval();
    ++R().Count("repeats");
    if (again != first) { R().Violation("order", "the same work gives " + Difference(first, again)); return; }
  }
  if (!past.empty()) {
    const Past& q = r.Pick(past);
    R().Describe(Show(q.w));
    std::string again = Digest(q.w);
    R().Eval();
    ++R().Count("repeats_later");
    if (again != q.digest) { R().Violation("later", "the same work gives " + Difference(q.digest, again)); return; }
    R().Describe(Show(w));
  }
  if (past.size() < 100) past.push_back({w, first});
  else past[r.Below(100)] = {w, first};
  if (R().index() / R().o.shards % 60 == 0) {  // elsewhere
    setenv("NSASM_HASH_SALT", Fmt("%llu", (unsigned long long)(r.Next() >> 1)).c_str(), 1);
    std::string asan = getenv("ASAN_OPTIONS") ? getenv("ASAN_OPTIONS") : "";
    setenv("ASAN_OPTIONS", (asan + Fmt(":max_malloc_fill_size=65536:malloc_fill_byte=%d", int(r.Below(256)))).c_str(), 1);
    setenv("VF_DET_CHILD", "1", 1);
    auto& o = R().o;
    auto q = vf::Spawn({"/proc/self/exe", "--prop", o.prop, "--out", o.scratch + "/child", "--scratch", o.scratch, "--seed", Fmt("%llu", (unsigned long long)o.seed),
                        "--cases", Fmt("%llu", (unsigned long long)R().index() + 1), "--only", Fmt("%llu", (unsigned long long)R().index()), "--cpu", "60"}, "child", 60);
    setenv("ASAN_OPTIONS", asan.c_str(), 1);
    unsetenv("NSASM_HASH_SALT");
    unsetenv("VF_DET_CHILD");
    R().Eval();
    if (q.code() != 0) R().Violation("process", "the same work fails in another process: " + q.err.substr(0, 1500));
    else if (q.out != first) R().Violation("process", "in another process, the same work gives " + Difference(first, q.out));
    ++R().Count("processes");
  }
  R().Distinct(first);
  R().MaybeSample(Show(w) + "\n" + first);
}

}  // namespace

int main(int argc, char** argv) {
  R().Init(argc, argv);
  bool child = getenv("VF_DET_CHILD");
  R().Cases(R().o.cases, [&](uint64_t, Rng& r) { Case(r, child); });
  return R().Finish();
}
