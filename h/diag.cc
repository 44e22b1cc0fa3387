// C26: programs with one fault, and where the error says it is.
#include "h/assemble.h"

using namespace prog;

namespace {

struct Fault {
  std::string what;
  std::set<std::pair<int, int>> at;        // (file, statement): where it may be said to be
  std::set<std::pair<int, int>> also;      // (file, line)
  std::optional<uint32_t> write_fails;     // the sink refuses this address
};

// Fails on one address.
class FailingSink : public nsx::RecordingSink {
 public:
  std::optional<uint32_t> bad;
  nsasm::ErrorOr<void> Write(nsasm::Address address, absl::Span<const std::uint8_t> data) override {
    if (bad && ((uint32_t(address.Bank()) << 16) | address.BankAddress()) == *bad) return nsasm::Error("the sink is full");
    return nsx::RecordingSink::Write(address, data);
  }
};

class Planter {
 public:
  Planter(Rng& r, Program& p) : r(r), p(p) {}
  bool Plant(Fault* out) {
    typedef bool (Planter::*F)();
    static const F kinds[] = {&Planter::Syntax, &Planter::Syntax, &Planter::Syntax, &Planter::Undefined, &Planter::Undefined,
                              &Planter::Duplicate, &Planter::Duplicate, &Planter::Appended, &Planter::Appended, &Planter::Appended,
                              &Planter::Brace, &Planter::Module, &Planter::Collision, &Planter::Cycle, &Planter::Sink,
                              &Planter::NoAddress, &Planter::Value, &Planter::OffEnd, &Planter::Private};
    F k = kinds[r.Below(sizeof kinds / sizeof *kinds)];
    bool ok = (this->*k)();
    *out = f;
    return ok;
  }

 private:
  Rng& r;
  Program& p;
  Fault f;
  Source& File(int i) { return p.files[i]; }
  int AnyFile() { return r.Below(p.files.size()); }
  void Insert(int file, int at, std::vector<Stmt> s) {
    auto& st = File(file).st;
    st.insert(st.begin() + at, s.begin(), s.end());
  }
  // Somewhere at the outer level from which nothing falls through.
  int SafeSpot(int file) {
    std::vector<int> v;
    auto& st = File(file).st;
    for (size_t i = 0; i < st.size(); ++i) if (st[i].kind == ORG) v.push_back(i);
    v.push_back(End(file));
    return v[r.Below(v.size())];
  }
  int End(int file) {
    auto& st = File(file).st;
    return st.size() - (!st.empty() && st.back().kind == DB && st.back().args.empty());
  }
  // A bank nothing is in.
  int64_t FreePlace() {
    std::set<uint32_t> banks;
    for (auto& g : p.files) for (auto& s : g.st) if (s.size) banks.insert(s.addr >> 16);
    uint32_t b;
    do b = r.Below(256); while (banks.count(b));
    return (int64_t(b) << 16) | r.Below(0xf000);
  }
  static Stmt Raw(const std::string& t) { Stmt s; s.kind = RAW; s.raw = t; return s; }
  static Expr Num(int64_t v, int rank) { return prog::Num(v, rank); }
  static Stmt Org(int64_t a) { return Dir(ORG, {Num(a, 3)}); }
  Stmt Labelled(const std::string& n, Stmt s) { s.labels.push_back({n, false}); return s; }
  Stmt Entry(int e, int m, int x) { Stmt s = Dir(ENTRY); s.mode.e = e; s.mode.m = m; s.mode.x = x; return s; }

  bool Syntax() {
    static const char* bad[] = {
        "lda #", "lda #1,", "lda (1", "lda (1,Z)", "lda 1,Q", ".db", ".db 1,", ".db ,1", ".org foo", ".entry zz", ".mode",
        ".module 1+2", "foo bar nop", "export nop", "jsr foo yields", "jsr foo yields q", "lda $", "lda [1", "lda [1],X", "lda (1,S)",
        "lda (1,S),X", "lda (1),X", "lda a", "stz #1", "nop 1", "adc.x 1", "nop.b", "rep.w #1", "lda 1 2", "lda 1 }", "nop }", "?",
        "lda !1", "lda @5", "lda ::", "lda aa::", ".halt 5", ".equ", "rts yields m8", "jmp foo noreturn", ".remote 5", ".entry m8 yields",
        ".entry m8 foo", ".foo", "lda.q 1", "xyz 1", "lda #$1000000000", "lda 99999999999", "mvn #1", "mvn #1,2", "mvp 1,2", "lda 1,A",
        "sta $12,S,Y", "jmp [1],Y", "jmp (1),Y", "bra #1", "inc x", "lda ()", "lda 1+", "lda *2", "lda 1 + * 2", "lda (1))", "lda ((1)",
        ".equ 1 2", ".dw 1 2", ".dl 1,;2", ".org", ".org 1,2", ".entry", ".entry m8 noreturn noreturn", ".mode m8 yields m8", ".module",
        ".begin 1", ".end 1", "{ 1", "} 1 }", "pea", "rts 1", "ldx 1,X", "stx 1,X", "cop", "sep", "sep $30", "brk 1,2", "\"text\"", "'a'",
        "lda #%2", "lda #0xg", "lda #1 yields m8", "nop noreturn", "php.b", "add", "sub a", "add.q #1", ".remote 5 zz", ".remote 5 m8 m8",
        ".equ foo bar", "lda <", "lda ^", "lda -", "lda #-", "lda ,", "lda X", "lda S", "lda (X)", "lda @", "yields m8", "noreturn", "export"};
    int file = AnyFile();
    int at = r.Below(End(file) + 1);
    std::string t = bad[r.Below(sizeof bad / sizeof *bad)];
    if (r.Chance(1, 12)) { t = ".db "; for (int n = 600; n > 0; --n) t += "1+"; t += "1"; }
    Insert(file, at, {Raw(t)});
    f.what = "syntax " + t.substr(0, 30);
    f.at.insert({file, at});
    return true;
  }
  bool Undefined() {
    struct At { int file, st, arg; };
    std::vector<At> v;
    for (size_t i = 0; i < p.files.size(); ++i)
      for (size_t j = 0; j < File(i).st.size(); ++j) {
        Stmt& s = File(i).st[j];
        if (s.kind == ORG || s.mn == "rep" || s.mn == "sep") continue;
        for (size_t k = 0; k < s.args.size(); ++k) v.push_back({int(i), int(j), int(k)});
      }
    if (v.empty()) return false;
    At a = v[r.Below(v.size())];
    if (r.Coin()) {  // an .equ if there is one
      std::vector<At> e;
      for (auto& q : v) if (File(q.file).st[q.st].kind == EQU) e.push_back(q);
      if (!e.empty()) a = e[r.Below(e.size())];
    }
    Stmt& s = File(a.file).st[a.st];
    Expr& e = s.args[a.arg];
    int rank = Rank(e);
    Expr n = Name("nowhere", rank == 3);
    if (!IsBranch(s) && s.mn != "per" && r.Coin()) {
      n.qualified = true;
      n.mod = r.Pick<std::string>({"", "nomodule", "one", File(a.file).module});
    }
    if (rank == 1) { Expr u; u.kind = r.Pick({Expr::LO, Expr::HI, Expr::BANK}); u.sub = {n}; n = u; }
    bool plain = e.kind == Expr::NUM || rank == 0 || IsBranch(s) || s.mn == "per" || r.Coin();
    if (plain) e = n;
    else { Expr b; b.kind = r.Coin() ? Expr::ADD : Expr::SUB; b.sub = {e, n}; if (r.Coin()) std::swap(b.sub[0], b.sub[1]); e = b; }
    f.what = s.kind == EQU ? "undefined in .equ" : IsBranch(s) ? "undefined target" : s.kind == INSN ? "undefined operand" : "undefined in a directive";
    f.at.insert({a.file, a.st});
    return true;
  }
  bool Duplicate() {
    struct L { int file, st; std::string name; int table; };
    std::vector<L> all;
    auto table = [](const Stmt& s, bool exported) { return s.scopes.empty() || exported ? -1 : s.scopes.back(); };
    for (size_t i = 0; i < p.files.size(); ++i)
      for (size_t j = 0; j < File(i).st.size(); ++j)
        for (auto& l : File(i).st[j].labels) all.push_back({int(i), int(j), l.name, table(File(i).st[j], l.exported)});
    if (all.empty()) return false;
    L a = all[r.Below(all.size())];
    for (int t = 0; t < 60; ++t) {
      int file = r.Coin() ? a.file : AnyFile();
      int j = r.Below(File(file).st.size());
      Stmt& s = File(file).st[j];
      bool exported = r.Coin();
      if (file == a.file) {
        if (table(s, exported) != a.table) continue;
        s.labels.insert(s.labels.begin() + r.Below(s.labels.size() + 1), {a.name, exported});
        f.what = "duplicate label";
        f.at.insert({file, std::max(j, a.st)});
        return true;
      }
      if (a.table != -1 || table(s, exported) != -1 || File(file).module != File(a.file).module) continue;
      s.labels.push_back({a.name, exported});
      f.what = "duplicate label in another file";
      f.at.insert({file, j});
      f.at.insert({a.file, a.st});
      return true;
    }
    return false;
  }
  // A stretch of code of its own with a fault in it.
  bool Appended() {
    int file = AnyFile();
    int at = SafeSpot(file);
    std::vector<Stmt> s = {Org(FreePlace())};
    auto nops = [&](int n) { for (; n > 0; --n) s.push_back(Insn("nop")); };
    auto data = [&](int n) { Stmt d = Dir(DB); for (; n > 0; --n) d.args.push_back(Num(r.Below(256), 1)); return d; };
    auto rts = [&] { s.push_back(Insn("rts")); };
    int bad = -1, bad2 = -1;
    auto fault = [&](Stmt q) { bad = s.size(); s.push_back(q); };
    int some = r.Below(4);
    switch (r.Below(13)) {
      case 0:
        f.what = "unknown width";
        s.push_back(r.Coin() ? Entry(2, 2, 2) : Entry(0, 2, 2));
        nops(some);
        fault(r.Coin() ? Insn("lda", cpu::IMMM, {Num(5, 0)}) : Insn("ldx", cpu::IMMX, {Num(5, r.Below(3))}));
        rts();
        break;
      case 1:
        f.what = "two widths";
        s.push_back(Entry(0, 0, 1));
        s.push_back(Insn("beq", cpu::REL8, {Name("zzover")}));
        nops(some);
        s.push_back(Insn("sep", cpu::IMM8, {Num(0x20, 1)}));
        fault(Labelled("zzover", Insn("lda", cpu::IMMM, {Num(5, 0)})));
        rts();
        break;
      case 2: {
        f.what = "suffix conflict";
        s.push_back(Entry(0, 1, 0));
        nops(some);
        static const struct { const char* mn; char suffix; cpu::Mode form; int rank; } k[] = {
            {"lda", 'w', cpu::IMMM, 0}, {"lda", 'w', cpu::D, 1}, {"sta", 'w', cpu::ABS, 2}, {"ldx", 'b', cpu::IMMX, 0}, {"ldy", 'b', cpu::D, 1},
            {"add", 'w', cpu::IMMM, 0}, {"sub", 'w', cpu::D, 1}, {"stx", 'b', cpu::ABS, 2}, {"inc", 'w', cpu::ACC, 0}, {"phx", 'b', cpu::IMP, 0}, {"pla", 'w', cpu::IMP, 0}};
        auto& q = k[r.Below(11)];
        Stmt i = Insn(q.mn, q.form);
        if (q.form != cpu::ACC && q.form != cpu::IMP) i.args = {Num(5, q.rank)};
        i.suffix = q.suffix;
        fault(i);
        rts();
        break;
      }
      case 3: {
        f.what = "branch too far";
        s.push_back(Entry(0, 1, 1));
        bool back = r.Coin();
        int extra = r.Below(60);
        std::string mn = r.Pick<std::string>({"beq", "bne", "bcc", "bcs", "bpl", "bmi", "bvc", "bvs"});
        if (back) {
          s.push_back(Labelled("zzfar", Insn("nop")));
          s.push_back(Insn("bra", cpu::REL8, {Name("zznear")}));
          s.push_back(data(123 + extra));
          fault(Labelled("zznear", Insn(mn, cpu::REL8, {Name("zzfar")})));
          s.back().size = 0;
          rts();
          if (extra == 0) return false;
          // bra over the data must itself reach
          s[3] = Insn("brl", cpu::REL16, {Name("zznear")});
        } else {
          fault(Insn(mn, cpu::REL8, {Name("zzfar")}));
          rts();
          s.push_back(data(127 + extra));
          s.push_back(Labelled("zzfar", Insn("nop")));
          rts();
        }
        break;
      }
      case 4:
        f.what = "branch to another bank";
        s.push_back(Entry(0, 1, 1));
        fault(Insn(r.Coin() ? "brl" : "bra", r.Coin() ? cpu::REL16 : cpu::REL8, {Name("zzthere")}));
        s.back().form = s.back().mn == "brl" ? cpu::REL16 : cpu::REL8;
        s.push_back(Org(FreePlace() & 0xff0000));
        s.push_back(Labelled("zzthere", Insn("rts")));
        if (Eval(s[0].args[0], [](const Expr&) { return std::optional<int64_t>(); }).value() >> 16 ==
            Eval(s[3].args[0], [](const Expr&) { return std::optional<int64_t>(); }).value() >> 16) return false;
        break;
      case 5:
        f.what = "unreachable";
        s.push_back(Entry(0, 1, 1));
        nops(some);
        rts();
        fault(Insn(r.Pick({"nop", "rts", "inx"})));
        if (r.Coin()) { s.erase(s.begin() + 1, s.begin() + bad); bad = 1; }
        break;
      case 6:
        f.what = "runs into data";
        s.push_back(Entry(0, 1, 1));
        nops(1 + some);
        bad2 = s.size() - 1;
        fault(r.Coin() ? data(2) : Org(FreePlace()));
        break;
      case 7:
        f.what = "branch to a value";
        s.push_back(Labelled("zzvalue", Dir(EQU, {Num(5, 2)})));
        s.push_back(Entry(0, 1, 1));
        nops(some);
        fault(Insn("beq", cpu::REL8, {Name("zzvalue")}));
        rts();
        break;
      case 8:
        f.what = "division by zero";
        if (r.Coin()) {
          fault(data(1));
          Expr d;
          d.kind = Expr::DIV;
          d.sub = {Num(5, 0), Num(0, r.Below(2))};
          s.back().args.push_back(d);
        } else {
          s.push_back(Entry(0, 1, 1));
          nops(some);
          Expr d;
          d.kind = Expr::DIV;
          d.sub = {Num(5, 2), Num(0, 0)};
          fault(Insn("lda", cpu::ABS, {d}));
          rts();
        }
        break;
      case 9: {
        f.what = "bad origin";
        Expr n;
        n.kind = Expr::NEG;
        n.sub = {Num(1 + r.Below(5), 0)};
        Expr d;
        d.kind = Expr::DIV;
        d.sub = {Num(1, 0), Num(0, 0)};
        fault(Dir(ORG, {r.Coin() ? n : r.Coin() ? Num(0x1000000, 0) : d}));
        s.push_back(data(1));
        break;
      }
      case 10: {
        f.what = "bad remote address";
        Expr n;
        n.kind = Expr::NEG;
        n.sub = {Num(1 + r.Below(5), 0)};
        fault(Dir(REMOTE, {r.Coin() ? n : Num(0x1000000, 0)}));
        s.back().mode = {0, 1, 1};
        break;
      }
      case 11: {
        f.what = "use before definition";
        std::string text;
        fault(Labelled("zzfirst", Dir(EQU, {Name(r.Coin() ? "zzfirst" : "zzlater")})));
        s.push_back(Labelled("zzlater", Dir(EQU, {Num(5, 0)})));
        break;
      }
      default: {
        f.what = "division by zero in .equ";
        Expr d;
        d.kind = Expr::DIV;
        d.sub = {Num(1, 0), Num(0, 0)};
        fault(Labelled("zzdiv", Dir(EQU, {d})));
      }
    }
    Insert(file, at, s);
    f.at.insert({file, at + bad});
    if (bad2 >= 0) f.at.insert({file, at + bad2});
    return true;
  }
  bool Brace() {
    int file = AnyFile();
    std::vector<int> v;
    auto& st = File(file).st;
    for (size_t i = 0; i < st.size(); ++i) if (st[i].scopes.empty()) v.push_back(i);
    v.push_back(st.size());
    int at = v[r.Below(v.size())];
    bool open = r.Coin();
    Insert(file, at, {Dir(open ? BEGIN : END)});
    f.what = open ? "unclosed scope" : "unopened scope";
    f.at.insert({file, at});
    return true;
  }
  bool Module() {
    int file = AnyFile();
    if (File(file).module.empty()) return false;
    int at = r.Below(End(file) + 1), other = -1;
    for (size_t i = 0; i < File(file).st.size(); ++i) if (File(file).st[i].kind == MODULE) other = i;
    Stmt s = Dir(MODULE);
    s.raw = r.Coin() ? "another" : File(file).module;
    Insert(file, at, {s});
    f.what = "second .module";
    f.at.insert({file, at <= other ? other + 1 : at});
    return true;
  }
  bool Collision() {
    std::vector<std::pair<int, int>> v;
    for (size_t i = 0; i < p.files.size(); ++i) for (size_t j = 0; j < File(i).st.size(); ++j) if (File(i).st[j].size) v.push_back({int(i), int(j)});
    if (v.empty()) return false;
    auto hit = v[r.Below(v.size())];
    Stmt& s = File(hit.first).st[hit.second];
    uint32_t a = (s.addr & 0xff0000) | ((s.addr + r.Below(s.size)) & 0xffff);
    int file = AnyFile();
    int at = SafeSpot(file);
    if (file == hit.first && hit.second >= at) at = End(file);
    std::vector<Stmt> n = {Org(a)};
    int bad = 1;
    if (r.Coin()) {
      n.push_back(Dir(DB, {Num(1, 1)}));
    } else {
      n.push_back(Entry(0, 1, 1));
      n.push_back(Insn("rts"));
      bad = 2;
    }
    Insert(file, at, n);
    f.what = file == hit.first ? "collision" : "collision with another file";
    f.at.insert({file, at + bad});
    if (file != hit.first) f.at.insert(hit);
    return true;
  }
  bool Cycle() {
    if (p.files.size() < 2) return false;
    int a = AnyFile(), b;
    do b = AnyFile(); while (a == b);
    auto ref = [&](int file, const char* n) { Expr e = Name(n); e.qualified = true; e.mod = File(file).module; return e; };
    int at = SafeSpot(a), bt = SafeSpot(b);
    Insert(a, at, {Labelled("zzegg", Dir(EQU, {ref(b, "zzhen")}))});
    Insert(b, bt, {Labelled("zzhen", Dir(EQU, {ref(a, "zzegg")}))});
    f.what = "cycle";
    f.at.insert({a, at});
    f.at.insert({b, bt});
    // Other references between these files close a circle too.
    for (size_t i = 0; i < p.files.size(); ++i)
      for (size_t j = 0; j < File(i).st.size(); ++j)
        if (File(i).st[j].kind == EQU && HasName(File(i).st[j].args[0])) f.at.insert({int(i), int(j)});
    return true;
  }
  bool Sink() {
    std::vector<std::pair<int, int>> v;
    for (size_t i = 0; i < p.files.size(); ++i) for (size_t j = 0; j < File(i).st.size(); ++j) if (File(i).st[j].size) v.push_back({int(i), int(j)});
    if (v.empty()) return false;
    auto hit = v[r.Below(v.size())];
    f.what = "output refused";
    f.write_fails = File(hit.first).st[hit.second].addr;
    f.at.insert(hit);
    return true;
  }
  bool NoAddress() {
    int file = AnyFile();
    std::vector<Stmt> s;
    int bad = 0;
    switch (r.Below(4)) {
      case 0: s = {Dir(DB, {Num(1, 1)})}; f.what = "data without an address"; break;
      case 1: s = {Entry(0, 1, 1), Insn("rts")}; bad = 1; f.what = "code without an address"; break;
      case 2: s = {Entry(0, 1, 1), Dir(HALT)}; f.what = "entry without an address"; break;
      default: s = {Dir(REMOTE, {Num(5, 3)})}; s[0].labels = {{"zznone", r.Coin()}}; f.what = "label without an address";
    }
    Insert(file, 0, s);
    f.at.insert({file, bad});
    return true;
  }
  bool Value() {  // an .equ on its own, out of a scope it needs
    int file = AnyFile();
    int at = r.Below(End(file) + 1);
    Stmt s = Dir(EQU, {Name(r.Coin() ? "zzself" : "zznever")});
    s.labels = {{"zzself", r.Coin()}};
    Insert(file, at, {s});
    f.what = "bad .equ";
    f.at.insert({file, at});
    return true;
  }
  bool OffEnd() {
    int file = AnyFile();
    std::vector<Stmt> s = {Org(FreePlace()), Entry(0, 1, 1)};
    for (int n = r.Below(4); n > 0; --n) s.push_back(Insn("nop"));
    int from = s.size() - 1, extra = r.Below(3);
    for (int i = 0; i < extra; ++i) s.push_back(Labelled("zz" + std::to_string(i), Dir(EQU, {Num(i, 0)})));
    int at = End(file);
    int labels = File(file).st.size() - at;
    Insert(file, at, s);
    f.what = "runs off the end";
    for (int i = from; i < int(s.size()) + labels; ++i) f.at.insert({file, at + i});
    return true;
  }
  bool Private() {
    int file = AnyFile(), other = r.Coin() ? file : AnyFile();
    int at = SafeSpot(file);
    Insert(file, at, {Dir(BEGIN), Labelled("zzhidden", Dir(EQU, {Num(5, 2)})), Dir(END)});
    int bt = SafeSpot(other);
    if (other == file && bt >= at && bt < at + 3) bt = at + 3;
    Expr e = Name("zzhidden");
    if (r.Coin()) { e.qualified = true; e.mod = File(file).module; }
    std::vector<Stmt> s = {Org(FreePlace()), Dir(DW, {e})};
    Insert(other, bt, s);
    f.what = "hidden name";
    f.at.insert({other, bt + 1});
    return true;
  }
};

void Case(Rng& r) {
  Gen g(r);
  Program p;
  for (int t = 0;; ++t) {
    if (t == 40) return;
    if (g.WellFormed(&p, 3, 6)) {
      Image im = Encode(p);
      if (!im.overlap && !im.bad_branch && !im.unresolved) break;
    }
  }
  Fault f;
  if (!Planter(r, p).Plant(&f)) return;
  for (auto& s : p.files) Render(s, r, r.Chance(1, 8));
  bool disk = r.Chance(1, 4);
  std::vector<int> order = InOrder(p);
  r.Shuffle(order);
  R().Describe(f.what + "\n" + ShowText(p));
  // Every file needs a name of its own.
  nsasm::Assembler a;
  FailingSink sink;
  sink.bad = f.write_fails;
  std::string error;
  bool ok = false;
  std::vector<std::string> paths(p.files.size());
  [&] {
    for (int i : order) {
      paths[i] = p.files[i].path;
      std::optional<nsasm::File> file;
      if (disk) {
        paths[i] = R().o.scratch + vf::Fmt("/d%d_%d.asm", R().o.shard, i);
        vf::WriteFile(paths[i], p.files[i].text);
        auto q = nsasm::OpenFile(paths[i]);
        if (!q.ok()) { error = "refuses a readable file: " + q.error().ToString(); return; }
        file = *std::move(q);
      } else {
        file = nsasm::MakeFakeFile(paths[i], p.files[i].text);
      }
      auto e = a.AddAsmFile(*file);
      if (!e.ok()) { error = e.error().ToString(); return; }
    }
    auto e = a.Assemble(&sink);
    if (!e.ok()) { error = e.error().ToString(); return; }
    ok = true;
  }();
  std::string kind = f.what.substr(0, 6) == "syntax" ? "syntax" : f.what;
  if (ok) { R().Violation("accepted:" + kind, "a program with this fault assembles: " + f.what); return; }
  std::string where;
  bool good = false;
  for (auto& [fi, si] : f.at) {
    const Stmt& s = p.files[fi].st[si];
    for (int l = s.first; l <= s.line; ++l) {
      std::string want = paths[fi] + vf::Fmt(":%d: ", l);
      if (error.compare(0, want.size(), want) == 0 && error.size() > want.size()) good = true;
    }
    where += " " + paths[fi] + vf::Fmt(":%d", s.line);
  }
  if (!good) { R().Violation("place:" + kind, "the fault (" + f.what + ") is at" + where + ", but the error is: " + error); return; }
  ++R().Count("placed");
  if (disk) ++R().Count("on_disk");
  if (f.at.size() > 1) ++R().Count("several_places");
  R().Seen("faults", kind);
  if (kind == "syntax") R().Seen("syntax", f.what);
  R().Distinct(ShowText(p));
  R().MaybeSample(error + "\n" + ShowText(p));
}

}  // namespace

int main(int argc, char** argv) {
  R().Init(argc, argv);
  R().Cases(R().o.cases, [&](uint64_t, Rng& r) { Case(r); });
  return R().Finish();
}
