// C19, C21: programs with arbitrary flow.  Concrete machine states are followed
// through the program; what nsasm accepts must agree with them.
#include "h/assemble.h"
#include "h/flowgen.h"

using namespace prog;
using vf::R;

namespace {

char Width(const Stmt& s) { return s.form == cpu::IMMX ? 1 : 2; }

// How the bytes written differ from those of the sizes given.
std::string Mismatch(Program& p, Source& s, const Outcome& o) {
  for (auto& q : p.files) PlaceFile(q);
  EvaluateEqus(p);
  Image im = Encode(p);
  if (im.overlap) return "the places overlap";
  for (size_t i = 0; i < s.st.size(); ++i) {
    const Stmt& t = s.st[i];
    if (!t.size) continue;
    auto first = o.sink.bytes.find(t.addr);
    if (first == o.sink.bytes.end()) return Fmt("nothing at $%06x (line %d)", t.addr, t.line);
    if (WidthBound(t) && first->second != im.bytes[t.addr]) return Fmt("line %d is not at $%06x", t.line, t.addr);
  }
  if (o.sink.bytes.size() != im.bytes.size()) return Fmt("%zu bytes are written, not %zu", o.sink.bytes.size(), im.bytes.size());
  return "";
}

// Assembles p and compares.  Returns what execution does.
Behaviour Judge(Program p, Rng& r) {
  bool c21 = R().o.prop == "C21";
  R().Describe(ShowText(p));

  Behaviour real = Explorer(p, 0, true).Run();
  Source& s = p.files[0];
  auto reach = Reachable(s);
  std::string must;
  int at = -1;
  for (size_t i = 0; i < s.st.size(); ++i) {
    if (s.st[i].kind == INSN && !reach[i] && must.empty()) must = "unreachable", at = i;
  }
  if (real.off_end >= 0) must = "runs off the end", at = real.off_end;
  if (real.into_data >= 0) must = "runs into data", at = real.into_data;
  int conflict = -1;
  for (size_t i = 0; i < s.st.size(); ++i)
    if (WidthBound(s.st[i]) && !real.at[i].emxc.empty() && real.at[i].known(Width(s.st[i])) == 2) conflict = i;
  if (conflict >= 0) must = "conflicting widths", at = conflict;

  R().Arm();
  Outcome o;
  Assemble(p, InOrder(p), false, &o);
  R().Count("states_followed") += real.states;
  if (!real.complete) ++R().Count("exploration_cut");
  if (c21) R().Distinct(ShowText(p));
  if (!o.ok) {
    ++R().Count(must.empty() ? "refused_unforced" : "refused_forced");
    if (!must.empty()) ++R().Count("refused_" + must);
    R().MaybeSample(ShowText(p));
    return real;
  }
  ++R().Count("accepted");
  if (c21) {
    if (!must.empty()) R().Violation("accepted:" + must, Fmt("assembles, though it has %s at line %d", must.c_str(), s.st[at].line));
    return real;
  }
  R().Distinct(ShowText(p));
  R().MaybeSample(ShowText(p));
  if (conflict >= 0) {
    R().Violation("width", Fmt("assembles, though line %d executes with both widths", s.st[conflict].line));
    return real;
  }
  // The widths that execution has must be those that were assembled; what is
  // never executed may have either.
  std::vector<int> dead;
  int probes = 0;
  for (size_t i = 0; i < s.st.size(); ++i)
    if (WidthBound(s.st[i])) {
      if (real.at[i].emxc.empty()) dead.push_back(i);
      else ++probes;
    }
  if (dead.size() > 6) { ++R().Count("unsure"); return real; }
  R().Count("widths_checked") += probes;
  R().Count("statements_executed") += [&] { int n = 0; for (auto& a : real.at) n += !a.emxc.empty(); return n; }();
  std::string how;
  for (unsigned choice = 0; choice < (1u << dead.size()); ++choice) {
    SizeFile(s, [&](int i) {
      for (size_t k = 0; k < dead.size(); ++k) if (dead[k] == i) return 1 + int((choice >> k) & 1);
      return real.at[i].known(Width(s.st[i])) ? 1 : 2;
    });
    how = Mismatch(p, s, o);
    if (how.empty()) break;
  }
  if (!how.empty()) { R().Violation("width", "the widths assembled are not those executed with: " + how); return real; }
  for (size_t i = 0; i < s.st.size(); ++i) {
    const Stmt& t = s.st[i];
    if (IsBranch(t) && t.target >= 0 && !real.at[i].emxc.empty() && s.st[t.target].kind == EQU &&
        s.st[t.target].value.value_or(-1) != int64_t(s.st[t.target].addr)) {
      R().Violation("branch-target", Fmt("line %d branches to a name that is not the place its flow goes to", t.line));
      return real;
    }
  }
  return real;
}

void FlowCase(Rng& r) {
  Gen g(r);
  bool big = r.Chance(1, 60);
  g.p = Program();
  Source f;
  f.path = "w.asm";
  g.p.files.push_back(f);
  g.cur = 0;
  int style = r.Below(10);
  bool random = style < 4;
  g.has_k = style != 4 && style != 5 && r.Chance(1, 3);
  if (style >= 8) { g.has_k = true; Carried(r, g); }
  else if (style >= 6) Joined(r, g);
  else if (style < 2) Stacked(r, g, 1 + r.Below(4));
  else if (random) Random(r, g, big ? 200 : r.Coin() ? 10 : 24);
  else { g.File(big ? 40 : 6); if (g.p.files[0].st.size() < 4) return; Mutate(r, g); }
  if (g.has_k) MaskNames(r, g), ++R().Count("named_masks");
  // Probe some points; keep those whose width is one and the same, and maybe
  // one that is not.
  {
    int n = 1 + r.Below(4);
    if (g.p.files[0].st.size() < 2) return;
    for (int i = 0; i < n; ++i) {
      auto& st = g.p.files[0].st;
      int at = 1 + r.Below(st.size() - 1);
      // Often where flags come back.
      for (int t = 0; t < 6 && r.Chance(3, 4) && st[at - 1].mn != "plp" && st[at - 1].mn != "xce"; ++t) at = 1 + r.Below(st.size() - 1);
      Insert(g.p.files[0], at, MakeProbe(r));
    }
    for (auto& q : g.p.files) if (!BindFile(q)) return;
    Behaviour b = Explorer(g.p, 0, false).Run();
    Source& q = g.p.files[0];
    for (int i = int(q.st.size()) - 1; i >= 0; --i) {
      if (!Probe(q.st[i])) continue;
      bool sure = !b.at[i].emxc.empty() && b.at[i].known(Width(q.st[i])) != 2;
      if (sure) continue;
      Erase(q, i);
    }
    if (q.st.size() < 2) return;
  }
  if (r.Chance(2, 3)) {  // drop what cannot be reached
    Source& q = g.p.files[0];
    for (int t = 0; t < 3; ++t) {
      auto reach = Reachable(q);
      for (int i = q.st.size() - 1; i >= 0; --i)
        if (!reach[i] && q.st[i].kind == INSN) Erase(q, i);
    }
    if (q.st.size() < 2) return;
  }
  ++R().Count(style >= 8 ? "carry_flow" : style >= 6 ? "joined_flow" : style < 2 ? "stacked_flow" : random ? "random_flow" : "mutated_flow");
  if (big) ++R().Count("big");
  Program base = g.p;
  if (!g.Finish(true)) { ++R().Count("generator_retries"); return; }
  for (auto& q : g.p.files) Render(q, r, r.Coin());
  Behaviour real = Judge(g.p, r);
  if (R().o.prop == "C21" && r.Coin()) {  // one thing that must not pass
    g.p = base;
    g.fresh = 0;
    Source& q = g.p.files[0];
    std::vector<int> live;
    for (size_t i = 2; i < q.st.size(); ++i)
      if (q.st[i].kind == INSN && !real.at[i].emxc.empty()) live.push_back(i);
    if (!live.empty()) {
      int at = r.Coin() ? live.back() : live[r.Below(live.size())];
      switch (r.Below(6)) {
        case 0: Insert(q, at, Dir(r.Pick({DB, DW, DL}), {Num(r.Below(256), 1)})); break;
        case 1: case 2: Insert(q, at, Dir(ORG, {Num(0, 3)})); break;
        case 3: {  // dead code
          int k = -1;
          for (size_t i = 0; i < q.st.size(); ++i) if (IsExit(q.st[i]) && (k < 0 || r.Coin())) k = i;
          if (k < 0) break;
          for (auto& t : q.st) if (t.target > k) ++t.target;
          q.st.insert(q.st.begin() + k + 1, Insn(r.Pick({"nop", "inx", "rts", "rtl", "clc"})));
          break;
        }
        case 4: {  // off the end
          while (q.st.size() > 2 && !(q.st.back().kind == INSN && IsExit(q.st.back()))) q.st.pop_back();
          if (q.st.back().kind == INSN) q.st.back() = Insn(r.Pick({"nop", "inx", "clc", "php"}));
          if (r.Coin()) { Stmt t = Dir(EQU, {Num(r.Below(256), 1)}); t.labels.push_back({"tail", false}); q.st.push_back(t); }
          for (auto& t : q.st) if (t.target >= int(q.st.size())) t.target = q.st.size() - 1;
          break;
        }
        default: {  // a branch into data
          Stmt t = Dir(r.Pick({DB, DW, DL, ORG}), {Num(r.Below(256), 1)});
          if (t.kind == ORG) t.args = {Num(0, 3)};
          q.st.push_back(t);
          if (t.kind == ORG) q.st.push_back(Insn("rts"));
          std::vector<int> branches;
          for (size_t i = 0; i < q.st.size(); ++i) if (IsBranch(q.st[i])) branches.push_back(i);
          if (branches.empty()) Insert(q, at, g.BranchTo(r.Pick({"beq", "bcc", "brl"}), int(q.st.size()) - (t.kind == ORG ? 2 : 1)));
          else q.st[branches[r.Below(branches.size())]].target = int(q.st.size()) - (t.kind == ORG ? 2 : 1);
        }
      }
      ++R().Count("traps");
      if (!g.Finish(true)) ++R().Count("generator_retries");
      else {
        for (auto& f : g.p.files) Render(f, r, true);
        Judge(g.p, r);
      }
    }
  }
  if (R().o.prop == "C19" && r.Chance(1, 5)) {  // a branch to a value that happens to be near
    g.p = base;
    g.fresh = 0;
    Source& q = g.p.files[0];
    std::vector<int> live;
    for (size_t i = 1; i < q.st.size(); ++i)
      if (q.st[i].kind == INSN && !real.at[i].emxc.empty()) live.push_back(i);
    if (!live.empty()) {
      q.st[live[r.Below(live.size())]].labels.push_back({"zzhere", true});
      int at = live[r.Below(live.size())];
      bool scoped = r.Chance(2, 3);
      Expr e = Name("zzhere");
      if (r.Coin()) e = g.Bin(r.Coin() ? Expr::ADD : Expr::SUB, e, Num(r.Below(6), 0));
      if (scoped) Insert(q, at++, Dir(BEGIN));
      Insert(q, at, Dir(EQU, {e}));
      Insert(q, at, g.BranchTo(r.Pick({"beq", "bcs", "brl"}), at));
      if (scoped) Insert(q, at + 2, Dir(END));
      ++R().Count("branches_to_values");
      if (!g.Finish(true)) ++R().Count("generator_retries");
      else {
        for (auto& f : g.p.files) Render(f, r, true);
        Judge(g.p, r);
      }
    }
  }
  // Where execution may have either width, nothing that depends on it may pass.
  std::vector<std::pair<int, int>> open;
  for (size_t i = 0; i < real.at.size(); ++i)
    for (int w : {1, 2})
      if (base.files[0].st[i].kind == INSN && !real.at[i].emxc.empty() && real.at[i].known(w) == 2) open.push_back({int(i), w});
  for (int n = 0; n < 3 && !open.empty(); ++n) {
    size_t k = r.Below(open.size());
    auto [at, w] = open[k];
    open.erase(open.begin() + k);
    g.p = base;
    g.fresh = 0;
    Stmt s = w == 2 ? Insn("bit", cpu::IMMM, {Num(r.Below(256), 1)}) : Insn(r.Pick({"ldx", "cpy"}), cpu::IMMX, {Num(r.Below(256), 1)});
    auto& st = g.p.files[0].st;
    for (auto& q : st) if (q.target > at) ++q.target;
    st.insert(st.begin() + at, s);
    ++R().Count("ambiguous_points");
    if (!g.Finish(true)) { ++R().Count("generator_retries"); continue; }
    for (auto& q : g.p.files) Render(q, r, true);
    Judge(g.p, r);
  }
}

// ---- every small nest of pushes, pulls and changes of state ----
struct Nests {
  static constexpr int kOps = 7, kPairs = 3;
  std::vector<std::vector<int>> all;  // op: 0.., push: 100+k, pull: 200+k
  explicit Nests(int most) {
    std::vector<std::vector<std::vector<int>>> forest(most + 1), tree(most + 1);
    forest[0] = {{}};
    for (int n = 1; n <= most; ++n) {
      if (n == 1) for (int o = 0; o < kOps; ++o) tree[1].push_back({o});
      else
        for (int k = 0; k < kPairs; ++k)
          for (auto& f : forest[n - 1]) {
            std::vector<int> t = {100 + k};
            t.insert(t.end(), f.begin(), f.end());
            t.push_back(200 + k);
            tree[n].push_back(t);
          }
      for (int k = 1; k <= n; ++k)
        for (auto& a : tree[k])
          for (auto& b : forest[n - k]) {
            forest[n].push_back(a);
            forest[n].back().insert(forest[n].back().end(), b.begin(), b.end());
          }
    }
    for (auto& f : forest) all.insert(all.end(), f.begin(), f.end());
  }
};
void NestCase(const std::vector<int>& nest, Rng& r) {
  static const char* push[] = {"php", "pha", "phx"};
  static const char* pull[] = {"plp", "pla", "plx"};
  std::vector<Mode3> modes(2);
  modes[1].e = modes[1].m = modes[1].x = 1;
  for (int m = 0; m < 3; ++m) for (int x = 0; x < 3; ++x) { Mode3 f; f.e = 0; f.m = m; f.x = x; modes.push_back(f); }
  for (auto& mode : modes)
    for (int w : {1, 2}) {
      Gen g(r);
      g.p = Program();
      Source f;
      f.path = "n.asm";
      f.st.push_back(Dir(ORG, {Num(0, 3)}));
      Stmt e = Dir(ENTRY);
      e.mode = mode;
      f.st.push_back(e);
      for (int o : nest) {
        if (o >= 200) f.st.push_back(Insn(pull[o - 200]));
        else if (o >= 100) f.st.push_back(Insn(push[o - 100]));
        else if (o < 3) f.st.push_back(Insn(o == 0 ? "xce" : o == 1 ? "clc" : "sec"));
        else f.st.push_back(Insn(o == 3 || o == 5 ? "rep" : "sep", cpu::IMM8, {Num(o < 5 ? 0x30 : o == 5 ? 0x20 : 0x10, 1)}));
      }
      f.st.push_back(w == 2 ? Insn("lda", cpu::IMMM, {Num(r.Below(256), 1)}) : Insn("ldx", cpu::IMMX, {Num(r.Below(256), 1)}));
      f.st.push_back(Insn("rtl"));
      g.p.files.push_back(f);
      if (!g.Finish(true)) { ++R().Count("generator_retries"); continue; }
      Render(g.p.files[0], r, true);
      Judge(g.p, r);
      ++R().Count("nests");
    }
}

}  // namespace

int main(int argc, char** argv) {
  R().Init(argc, argv);
  Nests nests(R().o.thorough ? 5 : 4);
  R().Cases(R().o.cases, [&](uint64_t i, Rng& r) {
    if (i < nests.all.size()) NestCase(nests.all[i], r);
    else FlowCase(r);
  });
  return R().Finish();
}
