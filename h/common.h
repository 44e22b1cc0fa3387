// Shared by the harnesses: deterministic cases, verdict and coverage records,
// and what the driver needs to attribute a crash or a hang to its case.
#pragma once
#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

namespace vf {

inline uint64_t Mix64(uint64_t x) {
  x += 0x9e3779b97f4a7c15ULL;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
  return x ^ (x >> 31);
}
inline uint64_t HashBytes(const void* p, size_t n, uint64_t h = 0xcbf29ce484222325ULL) {
  const unsigned char* c = static_cast<const unsigned char*>(p);
  for (size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 0x100000001b3ULL;
  return Mix64(h);
}
inline uint64_t HashStr(const std::string& s) { return HashBytes(s.data(), s.size()); }

class Rng {
 public:
  explicit Rng(uint64_t s) : s_(Mix64(s)) {}
  uint64_t Next() { return Mix64(s_ += 0x632be59bd9b4e019ULL); }
  // Uniform in [0, n).
  uint64_t Below(uint64_t n) { return n ? Next() % n : 0; }
  int64_t Range(int64_t lo, int64_t hi) { return lo + int64_t(Below(uint64_t(hi - lo + 1))); }
  bool Chance(int num, int den) { return int(Below(den)) < num; }
  bool Coin() { return Next() & 1; }
  template <typename T> const T& Pick(const std::vector<T>& v) { return v[Below(v.size())]; }
  template <typename T> T Pick(std::initializer_list<T> l) { return *(l.begin() + Below(l.size())); }
  template <typename T> void Shuffle(std::vector<T>& v) {
    for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[Below(i)]);
  }

 private:
  uint64_t s_;
};

inline std::string Fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string Fmt(const char* f, ...) {
  va_list a;
  va_start(a, f);
  char b[4096];
  int n = vsnprintf(b, sizeof b, f, a);
  va_end(a);
  if (n < 0) return "";
  if (size_t(n) < sizeof b) return std::string(b, n);
  std::string s(n + 1, 0);
  va_start(a, f);
  vsnprintf(&s[0], n + 1, f, a);
  va_end(a);
  s.resize(n);
  return s;
}
inline std::string Json(const std::string& s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c == '\n') r += "\\n";
    else if (c < 32 || c > 126) r += Fmt("\\u%04x", c);
    else r += c;
  }
  return r + "\"";
}
inline std::string Hex(const std::vector<uint8_t>& v) {
  std::string r;
  for (size_t i = 0; i < v.size() && i < 64; ++i) r += Fmt("%02x", v[i]);
  if (v.size() > 64) r += Fmt("...(%zu)", v.size());
  return r;
}

struct Options {
  std::string prop, out, scratch;
  uint64_t seed = 1, cases = 0, from = 0;
  int shard = 0, shards = 1;
  int64_t only = -1;
  bool thorough = false;
  int cpu = 20;
  std::string data;   // a committed data directory
  std::string bin;    // where built tools are
};

class Run {
 public:
  Options o;
  static Run& I() { static Run r; return r; }
  void Init(int argc, char** argv) {
    for (int i = 1; i + 1 < argc; i += 2) {
      std::string k = argv[i], v = argv[i + 1];
      if (k == "--prop") o.prop = v;
      else if (k == "--out") o.out = v;
      else if (k == "--scratch") o.scratch = v;
      else if (k == "--seed") o.seed = strtoull(v.c_str(), 0, 10);
      else if (k == "--cases") o.cases = strtoull(v.c_str(), 0, 10);
      else if (k == "--shard") o.shard = atoi(v.c_str());
      else if (k == "--shards") o.shards = atoi(v.c_str());
      else if (k == "--only") o.only = atoll(v.c_str());
      else if (k == "--from") o.from = strtoull(v.c_str(), 0, 10);
      else if (k == "--thorough") o.thorough = v == "1";
      else if (k == "--cpu") o.cpu = atoi(v.c_str());
      else if (k == "--data") o.data = v;
      else if (k == "--bin") o.bin = v;
      else { fprintf(stderr, "bad option %s\n", k.c_str()); exit(64); }
    }
    out_ = fopen((o.out + ".jsonl").c_str(), "w");
    if (!out_) { perror("out"); exit(64); }
    int fd = open((o.out + ".case").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (fd < 0 || ftruncate(fd, kCase)) { perror("case"); exit(64); }
    case_ = static_cast<char*>(mmap(0, kCase, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
    if (case_ == MAP_FAILED) { perror("mmap"); exit(64); }
    close(fd);
    struct sigaction sa {};
    sa.sa_handler = OnHang;
    sigaction(SIGVTALRM, &sa, nullptr);
  }
  // Runs f(index, rng) for this shard's share of the cases.
  template <typename F> void Cases(uint64_t n, F f) {
    for (uint64_t i = o.from; i < n && !stop_; ++i) {
      if (o.only >= 0 ? i != uint64_t(o.only) : i % o.shards != uint64_t(o.shard)) continue;
      index_ = i;
      Describe("");
      Arm();
      Rng r(Mix64(o.seed * 0x1000003) ^ Mix64(i) ^ HashStr(o.prop));
      f(i, r);
      ++evaluations_;
    }
    Disarm();
    index_ = ~0ULL;
  }
  uint64_t index() const { return index_; }
  void Arm() {
    struct itimerval t {};
    t.it_value.tv_sec = o.cpu;
    setitimer(ITIMER_VIRTUAL, &t, nullptr);
  }
  void Disarm() {
    struct itimerval t {};
    setitimer(ITIMER_VIRTUAL, &t, nullptr);
  }
  // What is being tried now: shown with a crash, a hang or a violation.
  void Describe(const std::string& s) {
    size_t n = s.size() < kCase - 64 ? s.size() : kCase - 64;
    int h = snprintf(case_, 40, "%lld\n", (long long)index_);
    memcpy(case_ + h, s.data(), n);
    case_[h + n] = 0;
  }
  std::string Described() const { const char* p = strchr(case_, '\n'); return p ? p + 1 : ""; }
  void Violation(const std::string& key, const std::string& detail) {
    ++violations_;
    if (violations_ > 40) { stop_ = true; return; }
    std::string d = Described();
    if (d.size() > 60000) d.resize(60000);
    fprintf(out_, "{\"t\":\"v\",\"index\":%lld,\"key\":%s,\"detail\":%s,\"case\":%s}\n", (long long)index_,
            Json(key).c_str(), Json(detail).c_str(), Json(d).c_str());
    fflush(out_);
  }
  void Eval(uint64_t n = 1) { evaluations_ += n; }
  void Distinct(uint64_t h) { if (distinct_.size() < 400000) distinct_.insert(h); }
  void Distinct(const std::string& s) { Distinct(HashStr(s)); }
  uint64_t& Count(const std::string& k) { return counts_[k]; }
  void Seen(const std::string& set, const std::string& item) {
    auto& s = seen_[set];
    if (s.size() < 20000) s.insert(item);
  }
  void Sample(const std::string& s) {
    if (samples_ < 3) { ++samples_; fprintf(out_, "{\"t\":\"s\",\"case\":%s}\n", Json(s.substr(0, 1500)).c_str()); }
  }
  // Sparse sampling, so that samples are not all from the first few cases.
  void MaybeSample(const std::string& s) {
    ++offered_;
    if (offered_ == 1 || offered_ == 37 || offered_ == 411) Sample(s);
  }
  int Finish() {
    Disarm();
    fprintf(out_, "{\"t\":\"c\",\"evaluations\":%llu,\"violations\":%llu,\"counts\":{", (unsigned long long)evaluations_,
            (unsigned long long)violations_);
    bool first = true;
    for (auto& c : counts_) {
      fprintf(out_, "%s%s:%llu", first ? "" : ",", Json(c.first).c_str(), (unsigned long long)c.second);
      first = false;
    }
    fprintf(out_, "},\"seen\":{");
    first = true;
    for (auto& c : seen_) {
      fprintf(out_, "%s%s:[", first ? "" : ",", Json(c.first).c_str());
      first = false;
      bool f2 = true;
      for (auto& i : c.second) { fprintf(out_, "%s%s", f2 ? "" : ",", Json(i).c_str()); f2 = false; }
      fprintf(out_, "]");
    }
    fprintf(out_, "}}\n");
    fclose(out_);
    FILE* f = fopen((o.out + ".distinct").c_str(), "wb");
    for (uint64_t h : distinct_) fwrite(&h, 8, 1, f);
    fclose(f);
    return 0;
  }

 private:
  static void OnHang(int) {
    Run& r = I();
    const char m[] = "\nHANG\n";
    (void)!write(2, m, sizeof m - 1);
    int fd = open((r.hang_path()).c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd >= 0) { (void)!write(fd, r.case_, strlen(r.case_)); close(fd); }
    _exit(99);
  }
  std::string hang_path() { return o.out + ".hang"; }
  static constexpr size_t kCase = 1 << 20;
  FILE* out_ = nullptr;
  char* case_ = nullptr;
  uint64_t index_ = ~0ULL, evaluations_ = 0, violations_ = 0, offered_ = 0;
  int samples_ = 0;
  bool stop_ = false;
  std::unordered_set<uint64_t> distinct_;
  std::map<std::string, uint64_t> counts_;
  std::map<std::string, std::set<std::string>> seen_;
};

inline Run& R() { return Run::I(); }

inline std::string ReadFile(const std::string& p, bool* ok = nullptr) {
  std::string s;
  FILE* f = fopen(p.c_str(), "rb");
  if (ok) *ok = f != nullptr;
  if (!f) return s;
  char b[65536];
  size_t n;
  while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n);
  fclose(f);
  return s;
}
inline void WriteFile(const std::string& p, const void* d, size_t n) {
  FILE* f = fopen(p.c_str(), "wb");
  if (!f || (n && fwrite(d, 1, n, f) != n) || fclose(f)) { perror(p.c_str()); exit(64); }
}
inline void WriteFile(const std::string& p, const std::string& s) { WriteFile(p, s.data(), s.size()); }
// Open descriptors, without those the sanitizer's own thread opens in /proc.
inline int OpenFds() {
  int n = 0;
  DIR* d = opendir("/proc/self/fd");
  if (!d) { perror("fd"); exit(64); }
  while (dirent* e = readdir(d)) {
    char b[4096];
    ssize_t k = readlinkat(dirfd(d), e->d_name, b, sizeof b - 1);
    if (k > 0 && strncmp(b, "/proc/", 6) != 0) ++n;
  }
  closedir(d);
  return n;
}

// Runs a program without a shell; returns its wait status, or -1 on timeout.
struct Proc { int status = 0; bool timeout = false; std::string out, err;
  bool exited() const { return !timeout && WIFEXITED(status); }
  int code() const { return exited() ? WEXITSTATUS(status) : -1; } };
inline Proc Spawn(const std::vector<std::string>& argv, const std::string& tag, int cpu_seconds = 30,
                  const std::string& stdin_text = "") {
  std::string base = R().o.scratch + "/" + tag;
  WriteFile(base + ".in", stdin_text);
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); exit(64); }
  if (pid == 0) {
    int i = open((base + ".in").c_str(), O_RDONLY);
    int a = open((base + ".out").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    int b = open((base + ".err").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    dup2(i, 0); dup2(a, 1); dup2(b, 2);
    struct itimerval t {};
    t.it_value.tv_sec = cpu_seconds;
    signal(SIGVTALRM, SIG_DFL);
    setitimer(ITIMER_VIRTUAL, &t, nullptr);
    std::vector<char*> v;
    for (auto& s : argv) v.push_back(const_cast<char*>(s.c_str()));
    v.push_back(nullptr);
    execv(v[0], v.data());
    _exit(127);
  }
  Proc p;
  waitpid(pid, &p.status, 0);
  if (WIFSIGNALED(p.status) && WTERMSIG(p.status) == SIGVTALRM) p.timeout = true;
  p.out = ReadFile(base + ".out");
  p.err = ReadFile(base + ".err");
  if (p.exited() && p.code() == 127) { fprintf(stderr, "cannot run %s\n", argv[0].c_str()); exit(64); }
  return p;
}

}  // namespace vf
