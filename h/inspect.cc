// C29: the tools that show what the assembler understands.
#include <algorithm>

#include "h/assemble.h"
#include "h/mutate.h"

using namespace prog;
using vf::Proc;
using vf::Spawn;

namespace {

std::string Tool(const std::string& n) { return R().o.bin + "/" + n; }
Proc Call(const std::string& tool, const std::string& in) {
  R().Arm();
  Proc q = Spawn({Tool(tool)}, vf::Fmt("run%d", R().o.shard), 60, in);
  R().Eval();
  return q;
}
bool Sane(const Proc& q, const std::string& tool) {
  if (q.timeout) { R().Violation("hang:" + tool, tool + " does not stop"); return false; }
  if (!q.exited() || q.code() != 0 || q.err.find("Sanitizer") != std::string::npos || q.err.find("runtime error") != std::string::npos) {
    R().Violation("crash:" + tool, tool + vf::Fmt(" died, status %d: ", q.status) + q.err.substr(0, 1500));
    return false;
  }
  return true;
}
std::vector<std::string> Split(const std::string& s) {
  std::vector<std::string> v;
  for (size_t i = 0; i < s.size();) {
    size_t e = s.find('\n', i);
    if (e == std::string::npos) e = s.size();
    v.push_back(s.substr(i, e - i));
    i = e + 1;
  }
  return v;
}

void OpcodeMap() {
  Proc q = Call("print_opcode_map", "");
  R().Describe("the printed opcode map");
  if (!Sane(q, "print_opcode_map")) return;
  auto lines = Split(q.out);
  if (lines.size() != 256) { R().Violation("map:count", vf::Fmt("%zu lines, not 256", lines.size())); return; }
  for (int i = 0; i < 256; ++i) {
    const cpu::Op& o = cpu::kOps[i];
    bool sized = o.mode == cpu::IMMM || o.mode == cpu::IMMX;
    std::string want = vf::Fmt("%02X  ", i) + o.mn + (sized ? ".b" : "");
    std::string arg = cpu::OperandText(o.mode, "6636321", "67");
    if (!arg.empty()) want += " " + arg;
    std::string got = lines[i];
    while (!got.empty() && got.back() == ' ') got.pop_back();
    bool acc = o.mode == cpu::ACC && (got == want + " A" || got == want + " a");
    if (got != want && !acc) R().Violation(vf::Fmt("map:%02x", i), "prints `" + lines[i] + "`, not `" + want + "`");
    R().Seen("opcodes", vf::Fmt("%d", i));
  }
}

struct Answer { std::vector<std::string> lines; };
// The answers follow the prompts.  False if the output is not of that shape.
bool Answers(const std::string& out, std::vector<Answer>* v) {
  size_t i = 0;
  while (i < out.size()) {
    if (out.compare(i, 2, "> ") == 0) { v->push_back({}); i += 2; continue; }
    if (v->empty()) return false;
    size_t e = out.find('\n', i);
    if (e == std::string::npos) return false;
    v->back().lines.push_back(out.substr(i, e - i));
    i = e + 1;
  }
  return true;
}
bool IsStatement(const std::string& l) { return l.size() > 4 && l.compare(0, 4, "    ") == 0 && l[4] != ' '; }
bool IsLabel(const std::string& l) { return l.size() > 1 && l[0] != ' ' && l.back() == ':'; }

// Operators are shown as op+(a, b), which is notation, not source.
bool Shown(const std::string& s, size_t i) {
  return s.compare(i, 2, "op") == 0 && i + 3 < s.size() && s[i + 3] == '(' && strchr("+-*/<>^", s[i + 2]);
}
bool ReadShown(const std::string& s, size_t* i, Expr* e) {
  if (!Shown(s, *i)) {
    size_t j = *i;
    while (j < s.size() && !strchr(", ()", s[j])) ++j;
    if (j == *i) return false;
    *e = Num(0, 0);
    e->text = s.substr(*i, j - *i);
    *i = j;
    return true;
  }
  char o = s[*i + 2];
  *i += 4;
  Expr a, b;
  if (!ReadShown(s, i, &a)) return false;
  bool two = s.compare(*i, 2, ", ") == 0;
  if (two) { *i += 2; if (!ReadShown(s, i, &b)) return false; }
  if (*i >= s.size() || s[*i] != ')') return false;
  ++*i;
  if (two) {
    if (!strchr("+-*/", o)) return false;
    e->kind = o == '+' ? Expr::ADD : o == '-' ? Expr::SUB : o == '*' ? Expr::MUL : Expr::DIV;
    e->sub = {a, b};
  } else {
    if (!strchr("-<>^", o)) return false;
    e->kind = o == '-' ? Expr::NEG : o == '<' ? Expr::LO : o == '>' ? Expr::HI : Expr::BANK;
    e->sub = {a};
  }
  return true;
}
bool AsSource(const std::string& l, Rng& r, std::string* out) {
  out->clear();
  for (size_t i = 0; i < l.size();) {
    if (!Shown(l, i)) { *out += l[i++]; continue; }
    Expr e;
    if (!ReadShown(l, &i, &e)) return false;
    *out += Text(e, 0, r);
    ++R().Count("operators_shown");
  }
  return true;
}

void ParseCase(Rng& r) {
  Gen g(r);
  Program p;
  Image im;
  bool made = false;
  for (int t = 0; t < 30 && !made; ++t) {
    if (!g.WellFormed(&p, 2, 6)) continue;
    im = Encode(p);
    made = !im.unresolved && !im.overlap && !im.bad_branch;
  }
  if (!made) { ++R().Count("generator_retries"); return; }
  for (auto& f : p.files) Render(f, r, false);

  // The lines of every file, with stray lines between them.
  struct Sent { int file; std::string text; };
  std::vector<Sent> sent;
  int strays = r.Coin() ? 3 : 0;
  std::string all;
  for (auto& f : p.files) all += f.text;
  for (size_t k = 0; k < p.files.size(); ++k) {
    auto lines = Split(p.files[k].text);
    for (auto& l : lines) {
      if (strays && r.Chance(1, 4)) {
        std::string s = mut::Mutate(r, r.Pick(lines), all);
        for (char& c : s) if (c == '\n' || c == '\r' || c == 0) c = ' ';
        sent.push_back({-1, s});
      }
      sent.push_back({int(k), l});
    }
  }
  std::string in;
  for (auto& s : sent) in += s.text + "\n";
  if (r.Chance(1, 4)) in.pop_back();
  R().Describe("lines given to interactive_parse\n" + in);
  Proc q = Call("interactive_parse", in);
  if (!Sane(q, "interactive_parse")) return;
  std::vector<Answer> a;
  if (!Answers(q.out, &a)) { R().Violation("shape", "an answer that follows no prompt, or is cut short: " + q.out.substr(0, 1500)); return; }
  while (a.size() > sent.size() && a.back().lines.empty()) a.pop_back();
  if (a.size() < sent.size()) {
    bool rest = true;  // of nothing to say
    if (!rest || a.size() + 1 < sent.size() || !sent.back().text.empty()) {
      R().Violation("count", vf::Fmt("%zu prompts for %zu lines: ", a.size(), sent.size()) + q.out.substr(0, 1500));
      return;
    }
    a.resize(sent.size());
  }
  if (a.size() > sent.size()) { R().Violation("count", vf::Fmt("%zu answers for %zu lines: ", a.size(), sent.size()) + q.out.substr(0, 1500)); return; }

  // What it says, as a program.
  std::vector<std::string> answers;
  Program said = p;
  for (auto& f : said.files) f.text.clear();
  for (size_t i = 0; i < sent.size(); ++i) {
    bool read = true;
    for (auto& l : a[i].lines) read = read && (IsStatement(l) || IsLabel(l));
    if (!read && a[i].lines.size() != 1) {
      std::string t;
      for (auto& l : a[i].lines) t += l + "\n";
      R().Violation("answer", "answers `" + sent[i].text + "` with neither source nor one error: " + t);
      return;
    }
    if (sent[i].file < 0) { ++R().Count(read ? "stray_read" : "stray_refused"); continue; }
    if (!read) { R().Violation("refused", "refuses `" + sent[i].text + "`: " + a[i].lines[0]); return; }
    for (auto& l : a[i].lines) {
      std::string t;
      if (!AsSource(l, r, &t)) { R().Violation("notation", "shows `" + sent[i].text + "` as `" + l + "`"); return; }
      said.files[sent[i].file].text += t + "\n";
      answers.push_back(l);
      ++R().Count(IsStatement(l) ? "statements" : "labels");
    }
  }
  std::string shown;
  for (auto& f : said.files) shown += f.path + "\n" + f.text;
  R().Describe("interactive_parse's reading\n" + shown + "\nof\n" + in);
  Outcome o;
  R().Arm();
  Assemble(said, InOrder(said), false, &o);
  R().Eval();
  if (!o.ok) { R().Violation("reading:refused", "what it prints does not assemble: " + o.error); return; }
  auto& got = o.sink.bytes;
  for (auto& b : im.bytes)
    if (!got.count(b.first) || got[b.first] != b.second) {
      R().Violation("reading:bytes", vf::Fmt("what it prints denotes other bytes: $%06x should be %02x", b.first, b.second));
      return;
    }
  if (got.size() != im.bytes.size()) { R().Violation("reading:extra", vf::Fmt("what it prints denotes %zu bytes, not %zu", got.size(), im.bytes.size())); return; }
  R().Count("bytes_compared") += got.size();

  // And asks the same of the code it calls.
  Outcome first;
  Assemble(p, InOrder(p), false, &first);
  auto calls = [](Outcome& x) {
    std::string s;
    for (auto& t : x.a->JumpTargets()) s += t.first.ToString() + " " + nsx::FlagText(t.second) + "\n";
    for (auto& t : x.a->JumpTargetReturnConventions()) s += t.first.ToString() + t.second.ToSuffixString() + "\n";
    return s;
  };
  if (!first.ok) { R().Violation("reading:original", "the lines themselves do not assemble: " + first.error); return; }
  std::string asked = calls(first), asks = calls(o);
  if (asked != asks) { R().Violation("reading:calls", "what it prints calls other code, or expects otherwise of it:\n" + asks + "instead of\n" + asked); return; }
  R().Count("outward_calls") += std::count(asked.begin(), asked.end(), '\n');

  // Said again, it says the same.
  std::vector<std::string> one;
  for (auto& f : said.files) for (auto& l : Split(f.text)) one.push_back(l);
  std::string again;
  for (auto& l : one) again += l + "\n";
  Proc q2 = Call("interactive_parse", again);
  if (!Sane(q2, "interactive_parse")) return;
  std::vector<Answer> b;
  if (!Answers(q2.out, &b) || b.size() < one.size()) { R().Violation("shape", "the answers to its own answers: " + q2.out.substr(0, 1500)); return; }
  for (size_t i = 0; i < one.size(); ++i)
    if (b[i].lines.size() != 1 || b[i].lines[0] != answers[i]) {
      R().Violation("again", "reads its own `" + answers[i] + "` as `" + (b[i].lines.empty() ? "" : b[i].lines[0]) + "`");
      return;
    }
  ++R().Count("programs");
  R().Distinct(shown);
}

}  // namespace

int main(int argc, char** argv) {
  R().Init(argc, argv);
  R().Cases(R().o.cases, [&](uint64_t i, Rng& r) { if (i % 500 == 0) OpcodeMap(); else ParseCase(r); });
  return R().Finish();
}
