// A small property-based testing engine.
//
// A case is a sequence of bounded integer choices.  In generation mode the choices come from a seeded
// generator and are recorded; in replay mode they come from a recorded list (missing entries read as 0,
// which every generator treats as its simplest value).  Because a case IS its choice list, any failing
// case can be shrunk generically by deleting, zeroing and lowering choices, and re-run in a fresh child
// process, so traps, sanitizer reports and hangs of the code under test are ordinary failures.
#pragma once

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

namespace vp {

inline uint64_t mix64(uint64_t x) {
  x += 0x9E3779B97F4A7C15ull;
  x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
  x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
  return x ^ (x >> 31);
}
inline uint64_t hashStr(const std::string& s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
  return h;
}

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(mix64(seed)) {}
  uint64_t next() {
    s += 0x9E3779B97F4A7C15ull;
    uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n <= 1 ? 0 : next() % n; }
  double unit() { return (next() >> 11) * 0x1.0p-53; }
};

struct Failure {
  std::string msg;
};
struct Discard {};

constexpr size_t kMaxChoices = 1 << 16;
constexpr size_t kNoteCap = 1 << 15;
constexpr size_t kMsgCap = 1 << 13;
constexpr int kMaxClasses = 96;
constexpr size_t kHashCap = 1 << 20;

struct ClassCounter {
  char name[56];
  uint64_t n;
};

// Shared between the controlling process and one worker.
struct Shm {
  volatile uint64_t curCase;
  volatile uint64_t evaluations;
  volatile uint64_t nontrivial;
  volatile uint64_t discards;
  volatile uint64_t failed;     // 1: the worker stopped on a failing assertion in curCase
  volatile uint64_t done;       // 1: the worker finished its share
  volatile uint64_t nChoices;
  volatile uint64_t caseHash;
  volatile uint64_t isNontrivial;
  volatile uint64_t nHashes;
  char msg[kMsgCap];
  char note[kNoteCap];
  uint64_t choices[kMaxChoices];
  ClassCounter classes[kMaxClasses];
  volatile uint64_t samples[8];
  volatile uint64_t nSamples;
  uint64_t hashes[kHashCap];
};

class Case {
 public:
  Case(uint64_t seed, Shm* shm, bool thorough) : rng_(seed), shm_(shm), thorough(thorough) { reset(); }
  Case(std::vector<uint64_t> replay, Shm* shm, bool thorough)
      : rng_(0), replay_(std::move(replay)), isReplay_(true), shm_(shm), thorough(thorough) {
    reset();
  }

  // One choice in [0, n).  0 is the simplest value.
  uint64_t draw(uint64_t n) {
    if (n == 0) n = 1;
    uint64_t v;
    if (isReplay_) {
      v = pos_ < replay_.size() ? replay_[pos_] : 0;
      if (v >= n) v = n - 1;
      pos_++;
    } else {
      v = rng_.below(n);
    }
    if (count_ < kMaxChoices) shm_->choices[count_] = v;
    count_++;
    shm_->nChoices = count_ < kMaxChoices ? count_ : kMaxChoices;
    hash_ = mix64(hash_ ^ v) + 0x51ED27;
    return v;
  }
  // Walks through [0, n) with the case number, so that n cases cover every value.
  uint64_t enumerate(uint64_t n) {
    if (isReplay_) return draw(n);
    uint64_t v = index % n;
    if (count_ < kMaxChoices) shm_->choices[count_] = v;
    count_++;
    shm_->nChoices = count_ < kMaxChoices ? count_ : kMaxChoices;
    hash_ = mix64(hash_ ^ v) + 0x51ED27;
    return v;
  }
  uint64_t index = 0;
  uint64_t bits() {
    uint64_t hi = draw(1ull << 32), lo = draw(1ull << 32);
    return hi << 32 | lo;
  }
  // Inclusive range; shrinks towards lo.
  int64_t range(int64_t lo, int64_t hi) {
    if (hi <= lo) return lo;
    return lo + static_cast<int64_t>(draw(static_cast<uint64_t>(hi - lo) + 1));
  }
  // Inclusive range around zero; shrinks towards 0.
  int64_t around(int64_t lo, int64_t hi) {
    uint64_t k = draw(static_cast<uint64_t>(hi - lo) + 1);
    // 0,1,-1,2,-2... while inside the range
    int64_t v = (k & 1) ? static_cast<int64_t>((k + 1) / 2) : -static_cast<int64_t>(k / 2);
    if (v >= lo && v <= hi) return v;
    return lo + static_cast<int64_t>(k) % (hi - lo + 1);
  }
  // true with probability num/den; shrinks to false.
  bool chance(uint64_t num, uint64_t den) { return draw(den) >= den - num; }
  bool coin() { return draw(2) == 1; }
  template <typename T>
  const T& pick(const std::vector<T>& v) {
    return v[draw(v.size())];
  }
  template <typename T>
  T oneOf(std::initializer_list<T> v) {
    return *(v.begin() + draw(v.size()));
  }
  // Weighted index; shrinks to 0.
  size_t weighted(std::initializer_list<int> w) { return weighted(std::vector<int>(w)); }
  size_t weighted(const std::vector<int>& w) {
    int total = 0;
    for (int x : w) total += x;
    int64_t k = static_cast<int64_t>(draw(total));
    size_t i = 0;
    for (int x : w) {
      if (k < x) return i;
      k -= x;
      i++;
    }
    return 0;
  }
  // A generator seed for bulk data: bulk values are a function of this single choice.
  Rng sub() { return Rng(draw(1ull << 40) * 2654435761ull + 12345); }

  void note(const char* fmt, ...) __attribute__((format(printf, 2, 3))) {
    if (notePos_ + 2 >= kNoteCap) return;
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(shm_->note + notePos_, kNoteCap - notePos_ - 1, fmt, ap);
    va_end(ap);
    if (n > 0) notePos_ = std::min(kNoteCap - 2, notePos_ + static_cast<size_t>(n));
  }
  void nontrivial() { shm_->isNontrivial = 1; }
  // Counts a class of case in the evidence.
  void cls(const char* name) {
    for (auto& c : shm_->classes) {
      if (c.name[0] == 0) {
        strncpy(c.name, name, sizeof(c.name) - 1);
        c.n = 1;
        return;
      }
      if (strncmp(c.name, name, sizeof(c.name) - 1) == 0) {
        c.n++;
        return;
      }
    }
  }
  [[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 2, 3))) {
    char buf[kMsgCap];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof(buf), fmt, ap);
    va_end(ap);
    throw Failure{buf};
  }
  [[noreturn]] void discard() { throw Discard{}; }
  uint64_t hash() const { return hash_; }
  size_t choices() const { return count_; }

 private:
  void reset() {
    shm_->nChoices = 0;
    shm_->note[0] = 0;
    shm_->isNontrivial = 0;
  }
  Rng rng_;
  std::vector<uint64_t> replay_;
  bool isReplay_ = false;
  size_t pos_ = 0, count_ = 0, notePos_ = 0;
  uint64_t hash_ = 1;
  Shm* shm_;

 public:
  const bool thorough;
};

#define VP_CHECK(c, cond, ...)      \
  do {                              \
    if (!(cond)) (c).fail(__VA_ARGS__); \
  } while (0)

struct Prop {
  std::string name;
  std::function<void(Case&)> fn;
  uint64_t quickCases;
  uint64_t thoroughCases;
  unsigned caseTimeout = 40;     // seconds before a case counts as a hang
  int workers = 0;               // 0: all
  int retries = 0;               // how often a failure that depends on the schedule is tried again
};

struct Finding {
  std::string id;                     // token in the known-findings file
  std::string what;                   // one line
  std::function<bool()> reproduces;   // run in a child; true or a crash: still there
};

struct Suite {
  std::string property;
  std::string rule;
  std::vector<std::string> assumptions;
  std::vector<Prop> props;
  std::vector<Finding> findings;
  std::function<void()> init;
};

namespace detail {

inline Shm* newShm() {
  void* p = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) {
    perror("mmap");
    _exit(2);
  }
  return static_cast<Shm*>(p);
}

inline double now() {
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}

inline std::string jsonEscape(const std::string& s) {
  std::string o;
  for (unsigned char ch : s) {
    switch (ch) {
      case '"': o += "\\\""; break;
      case '\\': o += "\\\\"; break;
      case '\n': o += "\\n"; break;
      case '\t': o += "\\t"; break;
      default:
        if (ch < 0x20 || ch >= 0x7f) {
          char b[8];
          snprintf(b, sizeof(b), "\\u%04x", ch);
          o += b;
        } else {
          o += static_cast<char>(ch);
        }
    }
  }
  return o;
}

struct Ctx {
  Suite suite;
  bool thorough = false;
  uint64_t seed = 1;
  double budget = 0;       // seconds for the whole exploration
  std::string errPath;     // where children's stderr goes
};

inline void childIo(const std::string& path) {
  int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
  if (fd >= 0) {
    dup2(fd, 1);
    dup2(fd, 2);
    if (fd > 2) close(fd);
  }
  struct rlimit rl = {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
}

inline uint64_t caseSeed(const Ctx& ctx, const Prop& p, uint64_t idx) {
  return mix64(ctx.seed * 0x9E3779B97F4A7C15ull ^ hashStr(p.name)) + idx * 0xD1342543DE82EF95ull;
}

// Runs one case body; fills msg.  Returns 0 ok, 1 failed, 2 discarded.
inline int runBody(const Prop& p, Case& c, Shm* shm) {
  try {
    p.fn(c);
  } catch (Failure& f) {
    snprintf(shm->msg, kMsgCap, "%s", f.msg.c_str());
    return 1;
  } catch (Discard&) {
    return 2;
  }
  return 0;
}

struct RunResult {
  bool failed = false;
  std::string msg, note;
  std::vector<uint64_t> choices;
  bool nontrivial = false;
};

inline std::string describeStatus(int st) {
  char b[96];
  if (WIFSIGNALED(st)) {
    int s = WTERMSIG(st);
    if (s == SIGALRM) return "the case did not finish in time (hang)";
    snprintf(b, sizeof(b), "the code under test ended the process with signal %d (%s)", s, strsignal(s));
    return b;
  }
  snprintf(b, sizeof(b), "the code under test ended the process with exit code %d", WEXITSTATUS(st));
  return b;
}

inline std::string tailOf(const std::string& path) {
  std::ifstream f(path);
  std::string s((std::istreambuf_iterator<char>(f)), {});
  std::string keep;
  std::istringstream is(s);
  std::string line;
  int n = 0;
  while (std::getline(is, line)) {
    if (line.find("ERROR") != std::string::npos || line.find("SUMMARY") != std::string::npos ||
        line.find("runtime error") != std::string::npos || line.find("ssertion") != std::string::npos ||
        line.find("    #") != std::string::npos) {
      if (n++ < 14) keep += line + "\n";
    }
  }
  if (keep.size() > 3000) keep.resize(3000);
  return keep;
}

// Runs the given choices (or generated case indices, the last one deciding) in a fresh child.
inline RunResult runIsolated(Ctx& ctx, const Prop& p, const std::vector<uint64_t>* choices,
                             const std::vector<uint64_t>& prefix, bool haveSeedCase, uint64_t idx) {
  static Shm* shm = newShm();
  shm->msg[0] = 0;
  shm->note[0] = 0;
  shm->failed = 0;
  shm->done = 0;
  shm->nChoices = 0;
  memset(shm->classes, 0, sizeof(shm->classes));
  std::string err = ctx.errPath + ".iso";
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    setpgid(0, 0);
    childIo(err);
    if (ctx.suite.init) ctx.suite.init();
    for (uint64_t i : prefix) {
      alarm(p.caseTimeout);
      Case c(caseSeed(ctx, p, i), shm, ctx.thorough);
      c.index = i;
      runBody(p, c, shm);
    }
    shm->msg[0] = 0;
    alarm(p.caseTimeout);
    int r;
    if (haveSeedCase) {
      Case c(caseSeed(ctx, p, idx), shm, ctx.thorough);
      c.index = idx;
      r = runBody(p, c, shm);
    } else {
      Case c(*choices, shm, ctx.thorough);
      r = runBody(p, c, shm);
    }
    shm->done = 1;
    _exit(r == 1 ? 3 : 0);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  kill(-pid, SIGKILL);
  RunResult rr;
  rr.choices.assign(shm->choices, shm->choices + shm->nChoices);
  rr.note = shm->note;
  rr.nontrivial = shm->isNontrivial;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return rr;
  rr.failed = true;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 3 && shm->done) {
    rr.msg = shm->msg;
  } else {
    rr.msg = describeStatus(st) + "\n" + tailOf(err);
  }
  return rr;
}

inline std::vector<uint64_t> shrink(Ctx& ctx, const Prop& p, std::vector<uint64_t> best, RunResult& bestRun,
                                    double seconds) {
  double end = now() + seconds;
  const std::vector<uint64_t> none;
  std::set<uint64_t> tried;
  auto attempt = [&](const std::vector<uint64_t>& cand) {
    if (now() > end) return false;
    uint64_t h = 7;
    for (auto v : cand) h = mix64(h ^ v) + 3;
    if (!tried.insert(h).second) return false;
    RunResult r = runIsolated(ctx, p, &cand, none, false, 0);
    if (!r.failed) return false;
    auto used = r.choices;
    // Strictly smaller in (length, lexicographic) order only.
    if (used.size() > best.size() || (used.size() == best.size() && !(used < best))) return false;
    best = used;
    bestRun = r;
    return true;
  };
  bool progress = true;
  while (progress && now() < end) {
    progress = false;
    for (size_t len = std::max<size_t>(1, best.size() / 2); len >= 1; len /= 2) {
      for (size_t i = 0; i + len <= best.size() && now() < end;) {
        auto cand = best;
        cand.erase(cand.begin() + i, cand.begin() + i + len);
        if (attempt(cand)) {
          progress = true;
          continue;
        }
        cand = best;
        bool any = false;
        for (size_t k = i; k < i + len; k++) {
          any |= cand[k] != 0;
          cand[k] = 0;
        }
        if (any && attempt(cand)) {
          progress = true;
          continue;
        }
        i += len;
      }
      if (len == 1) break;
    }
    for (size_t i = 0; i < best.size() && now() < end; i++) {
      uint64_t lo = 0;
      while (i < best.size() && best[i] > lo && now() < end) {
        uint64_t mid = lo + (best[i] - lo) / 2;
        auto cand = best;
        cand[i] = mid;
        if (attempt(cand)) {
          progress = true;
        } else {
          lo = mid + 1;
        }
      }
    }
  }
  return best;
}

inline void workerLoop(Ctx& ctx, const Prop& p, Shm* shm, uint64_t w, uint64_t W, uint64_t start, uint64_t total,
                       double deadline) {
  for (uint64_t i = start; i < total; i += W) {
    if (now() > deadline) break;
    shm->curCase = i;
    shm->msg[0] = 0;
    if (i / W % 256 == 255) {  // the library logs; keep the file small
      fflush(stdout);
      if (lseek(1, 0, SEEK_END) > (4 << 20)) (void)!ftruncate(1, 0);
    }
    alarm(p.caseTimeout);
    Case c(caseSeed(ctx, p, i), shm, ctx.thorough);
    c.index = i;
    int r = runBody(p, c, shm);
    if (r == 1) {
      shm->failed = 1;
      _exit(3);
    }
    shm->evaluations = shm->evaluations + 1;
    if (r == 2) {
      shm->discards = shm->discards + 1;
    } else if (shm->isNontrivial) {
      shm->nontrivial = shm->nontrivial + 1;
      if (shm->nHashes < kHashCap) {
        shm->hashes[shm->nHashes] = mix64(c.hash() ^ hashStr(p.name));
        shm->nHashes = shm->nHashes + 1;
      }
      if (shm->nSamples < 2 || (shm->nSamples < 6 && c.choices() > 12 && i % 7 == 0)) {
        shm->samples[shm->nSamples] = i;
        shm->nSamples = shm->nSamples + 1;
      }
    }
  }
  alarm(0);
  shm->done = 1;
  _exit(0);
}

struct PropStats {
  uint64_t evaluations = 0, nontrivial = 0, discards = 0, hashOverflow = 0;
  std::map<std::string, uint64_t> classes;
  std::unordered_set<uint64_t> distinct;
  std::vector<std::string> samples;
  double wall = 0;
  bool violated = false;
  std::string replay;
};

inline bool findFailure(Ctx& ctx, const Prop& p, PropStats& st, uint64_t total, double deadline, int W,
                        uint64_t& badIdx, uint64_t& badWorker) {
  std::vector<Shm*> shms;
  std::vector<pid_t> pids;
  fflush(stdout);
  for (int w = 0; w < W; w++) {
    Shm* s = newShm();
    shms.push_back(s);
    pid_t pid = fork();
    if (pid == 0) {
      setpgid(0, 0);
      childIo(ctx.errPath + "." + std::to_string(w));
      if (ctx.suite.init) ctx.suite.init();
      workerLoop(ctx, p, s, w, W, w, total, deadline);
    }
    pids.push_back(pid);
  }
  bool bad = false;
  for (int left = W; left > 0;) {
    int status = 0;
    pid_t pid = waitpid(-1, &status, 0);
    if (pid < 0) break;
    int w = -1;
    for (int i = 0; i < W; i++)
      if (pids[i] == pid) w = i;
    if (w < 0) continue;
    left--;
    kill(-pid, SIGKILL);
    bool ok = WIFEXITED(status) && WEXITSTATUS(status) == 0 && shms[w]->done;
    if (!ok && !bad) {
      bad = true;
      badIdx = shms[w]->curCase;
      badWorker = w;
      for (int i = 0; i < W; i++)
        if (i != w) kill(-pids[i], SIGKILL), kill(pids[i], SIGKILL);
    }
  }
  for (int w = 0; w < W; w++) {
    Shm* s = shms[w];
    st.evaluations += s->evaluations;
    st.nontrivial += s->nontrivial;
    st.discards += s->discards;
    for (auto& c : s->classes)
      if (c.name[0]) st.classes[c.name] += c.n;
    for (uint64_t i = 0; i < s->nHashes; i++) st.distinct.insert(s->hashes[i]);
    if (s->nHashes >= kHashCap) st.hashOverflow += s->nontrivial - s->nHashes;
  }
  // Written-out samples: re-run a few non-trivial cases and keep their notes.
  if (!bad) {
    int kept = 0;
    for (int w = 0; w < W && kept < 2; w++) {
      uint64_t n = shms[w]->nSamples;
      if (n == 0) continue;
      RunResult r = runIsolated(ctx, p, nullptr, {}, true, shms[w]->samples[n - 1]);
      std::string s = p.name + ": " + (r.note.empty() ? "(choices only)" : r.note);
      if (s.size() > 700) s = s.substr(0, 700) + "...";
      st.samples.push_back(s);
      kept++;
    }
  }
  for (auto* s : shms) munmap(s, sizeof(Shm));
  return bad;
}

}  // namespace detail

inline std::set<std::string> readKnown(const std::string& path, const std::string& property) {
  std::set<std::string> ids;
  std::ifstream f(path);
  std::string line;
  while (std::getline(f, line)) {
    // "finding: property=C01 id=<token> <text>"
    if (line.rfind("finding:", 0) != 0) continue;
    if (line.find("property=" + property + " ") == std::string::npos) continue;
    auto p = line.find(" id=");
    if (p == std::string::npos) continue;
    auto e = line.find(' ', p + 4);
    ids.insert(line.substr(p + 4, e == std::string::npos ? std::string::npos : e - p - 4));
  }
  return ids;
}

inline int runSuite(Suite suite, int argc, char** argv) {
  using namespace detail;
  Ctx ctx;
  ctx.suite = suite;
  std::string evidence, replayDir = "replays", replayFile, only, known;
  uint64_t scale = 0;
  ctx.budget = 0;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--tier") ctx.thorough = val() == "thorough";
    else if (a == "--seed") ctx.seed = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--evidence") evidence = val();
    else if (a == "--replay-dir") replayDir = val();
    else if (a == "--replay") replayFile = val();
    else if (a == "--only") only = val();
    else if (a == "--known") known = val();
    else if (a == "--scale") scale = strtoull(val().c_str(), nullptr, 10);  // percent of the case counts
    else if (a == "--budget") ctx.budget = strtod(val().c_str(), nullptr);
  }
  mkdir(replayDir.c_str(), 0755);
  ctx.errPath = replayDir + "/" + suite.property + ".stderr";
  if (ctx.budget <= 0) ctx.budget = ctx.thorough ? 3000 : 420;
  int ncpu = static_cast<int>(sysconf(_SC_NPROCESSORS_ONLN));
  if (ncpu < 1) ncpu = 1;
  if (ncpu > 8) ncpu = 8;

  if (!replayFile.empty()) {
    std::ifstream f(replayFile);
    std::string line, prop;
    std::vector<uint64_t> choices, prefix;
    bool seedCase = false;
    uint64_t idx = 0;
    while (std::getline(f, line)) {
      std::istringstream is(line);
      std::string k;
      is >> k;
      if (k == "prop") is >> prop;
      else if (k == "tier") { std::string t; is >> t; ctx.thorough = t == "thorough"; }
      else if (k == "seed") is >> ctx.seed;
      else if (k == "choices") { uint64_t v; while (is >> v) choices.push_back(v); }
      else if (k == "prefix") { uint64_t v; while (is >> v) prefix.push_back(v); }
      else if (k == "case") { seedCase = true; is >> idx; }
      else if (k == "#") break;
    }
    for (auto& p : suite.props) {
      if (p.name != prop) continue;
      RunResult r = runIsolated(ctx, p, &choices, prefix, seedCase, idx);
      printf("replay of %s: %s\n%s\n--- case ---\n%s\n", prop.c_str(), r.failed ? "FAILED" : "passed", r.msg.c_str(),
             r.note.c_str());
      if (r.failed) printf("VIOLATION property=%s replay=%s\n", suite.property.c_str(), replayFile.c_str());
      return r.failed ? 1 : 0;
    }
    fprintf(stderr, "unknown prop %s in replay file\n", prop.c_str());
    return 2;
  }

  double t0 = now();
  int violations = 0, findingsShown = 0;
  std::vector<std::string> findingLines;
  if (only.empty()) {
    std::set<std::string> listed = readKnown(known, suite.property);
    for (auto& f : suite.findings) {
      if (!listed.count(f.id)) continue;
      fflush(stdout);
      pid_t pid = fork();
      if (pid == 0) {
        childIo(ctx.errPath + ".finding");
        alarm(60);
        if (ctx.suite.init) ctx.suite.init();
        bool r = f.reproduces();
        _exit(r ? 5 : 0);
      }
      int st = 0;
      waitpid(pid, &st, 0);
      if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
        printf("KNOWN-FINDING: property=%s %s: %s\n", suite.property.c_str(), f.id.c_str(), f.what.c_str());
        findingLines.push_back(f.id + ": " + f.what);
        findingsShown++;
      } else {
        printf("note: listed finding %s no longer reproduces\n", f.id.c_str());
      }
    }
    // An unlisted finding is an ordinary violation of the property.
    for (auto& f : suite.findings) {
      if (listed.count(f.id)) continue;
      fflush(stdout);
      pid_t pid = fork();
      if (pid == 0) {
        childIo(ctx.errPath + ".finding");
        alarm(60);
        if (ctx.suite.init) ctx.suite.init();
        _exit(f.reproduces() ? 5 : 0);
      }
      int st = 0;
      waitpid(pid, &st, 0);
      if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
        std::string path = replayDir + "/" + suite.property + "-" + f.id + ".replay";
        std::ofstream o(path);
        o << "finding " << f.id << "\n# " << f.what << "\n";
        printf("VIOLATION property=%s replay=%s\n", suite.property.c_str(), path.c_str());
        violations++;
      }
    }
  }

  std::vector<PropStats> all;
  size_t nProps = 0;
  for (auto& p : suite.props)
    if (only.empty() || p.name.find(only) != std::string::npos) nProps++;
  size_t k = 0;
  for (auto& p : suite.props) {
    if (!only.empty() && p.name.find(only) == std::string::npos) continue;
    PropStats st;
    double s0 = now();
    uint64_t total = ctx.thorough ? p.thoroughCases : p.quickCases;
    if (scale) total = std::max<uint64_t>(1, total * scale / 100);
    double remaining = ctx.budget - (now() - t0);
    double slice = std::max(2.0, remaining / static_cast<double>(nProps - k) * 2.0);
    if (slice > remaining) slice = std::max(2.0, remaining);
    k++;
    int W = p.workers > 0 ? std::min(p.workers, 3 * ncpu) : ncpu;  // more than the cores: cases that sleep
    if (static_cast<uint64_t>(W) > total) W = static_cast<int>(total);
    uint64_t badIdx = 0, badWorker = 0;
    if (violations == 0 && findFailure(ctx, p, st, total, now() + slice, W, badIdx, badWorker)) {
      printf("%s/%s: case %llu fails; reproducing and shrinking\n", suite.property.c_str(), p.name.c_str(),
             static_cast<unsigned long long>(badIdx));
      fflush(stdout);
      std::vector<uint64_t> prefix;
      RunResult r = runIsolated(ctx, p, nullptr, prefix, true, badIdx);
      bool viaPrefix = false;
      double giveUp = now() + 120;
      for (int i = 0; i < p.retries && !r.failed && now() < giveUp; i++)
        r = runIsolated(ctx, p, nullptr, prefix, true, badIdx);
      for (size_t n = 1; !r.failed && n <= 1u << 14; n *= 4) {
        prefix.clear();
        for (uint64_t i = badIdx, m = 0; m < n && i >= static_cast<uint64_t>(W); m++) {
          i -= W;
          prefix.insert(prefix.begin(), i);
        }
        r = runIsolated(ctx, p, nullptr, prefix, true, badIdx);
        viaPrefix = r.failed;
        if (prefix.size() < n) break;
      }
      std::string path = replayDir + "/" + suite.property + "-" + p.name + ".replay";
      bool confirmed = r.failed;
      if (r.failed && !viaPrefix) {
        std::vector<uint64_t> best = r.choices;
        if (best.size() < kMaxChoices) {
          // A choice list must reproduce what the seed did before it is worth shrinking.
          RunResult again = runIsolated(ctx, p, &best, {}, false, 0);
          if (again.failed) {
            r = again;
            best = shrink(ctx, p, best, r, ctx.thorough ? 90 : 45);
          }
        }
        int ok = 0;
        for (int i = 0; i < 3; i++) ok += runIsolated(ctx, p, &best, {}, false, 0).failed;
        std::ofstream o(path);
        o << "prop " << p.name << "\ntier " << (ctx.thorough ? "thorough" : "quick") << "\nseed " << ctx.seed << "\n";
        if (ok > 0) {
          o << "choices";
          for (auto v : best) o << ' ' << v;
          o << "\n";
        } else {
          o << "case " << badIdx << "\n";
        }
        o << "# reproduced " << ok << "/3\n# " << r.msg << "\n# --- case ---\n" << r.note << "\n";
      } else if (r.failed) {
        std::ofstream o(path);
        o << "prop " << p.name << "\ntier " << (ctx.thorough ? "thorough" : "quick") << "\nseed " << ctx.seed
          << "\nprefix";
        for (auto v : prefix) o << ' ' << v;
        o << "\ncase " << badIdx << "\n# " << r.msg << "\n# --- case ---\n" << r.note << "\n";
      }
      if (confirmed) {
        printf("%s\n--- case ---\n%s\n", r.msg.c_str(), r.note.c_str());
        printf("VIOLATION property=%s replay=%s\n", suite.property.c_str(), path.c_str());
        fflush(stdout);
        st.violated = true;
        st.replay = path;
        violations++;
      } else {
        printf("%s/%s: case %llu did not reproduce in isolation nor after its predecessors; ignored\n",
               suite.property.c_str(), p.name.c_str(), static_cast<unsigned long long>(badIdx));
      }
    }
    st.wall = now() - s0;
    printf("%-28s cases=%llu nontrivial=%llu distinct=%zu %.1fs\n", p.name.c_str(),
           static_cast<unsigned long long>(st.evaluations), static_cast<unsigned long long>(st.nontrivial),
           st.distinct.size(), st.wall);
    fflush(stdout);
    all.push_back(std::move(st));
  }

  uint64_t ev = 0, dn = 0, dis = 0;
  for (auto& s : all) ev += s.evaluations, dn += s.distinct.size(), dis += s.discards;
  double wall = now() - t0;
  if (!evidence.empty()) {
    std::ofstream o(evidence);
    o << "{\n \"property\": \"" << suite.property << "\",\n \"tier\": \"" << (ctx.thorough ? "thorough" : "quick")
      << "\",\n \"seed\": " << ctx.seed << ",\n \"level\": \"exploration\",\n \"coverage\": {\n  \"evaluations\": " << ev
      << ",\n  \"distinct_nontrivial\": " << dn << ",\n  \"discarded\": " << dis << ",\n  \"rule\": \""
      << jsonEscape(suite.rule) << "\",\n  \"samples\": [";
    bool first = true;
    for (auto& s : all)
      for (auto& t : s.samples) {
        o << (first ? "\n" : ",\n") << "   \"" << jsonEscape(t) << "\"";
        first = false;
      }
    if (first) o << "\"none\"";
    o << "\n  ],\n  \"groups\": [";
    size_t gi = 0;
    for (auto& p : suite.props) {
      if (!only.empty() && p.name.find(only) == std::string::npos) continue;
      auto& s = all[gi];
      o << (gi ? ",\n" : "\n") << "   {\"name\": \"" << jsonEscape(p.name) << "\", \"cases\": " << s.evaluations
        << ", \"nontrivial\": " << s.nontrivial << ", \"distinct\": " << s.distinct.size() << ", \"seconds\": " << s.wall
        << ", \"classes\": {";
      bool fc = true;
      for (auto& c : s.classes) {
        o << (fc ? "" : ", ") << "\"" << jsonEscape(c.first) << "\": " << c.second;
        fc = false;
      }
      o << "}}";
      gi++;
    }
    o << "\n  ],\n  \"known_findings_shown\": [";
    for (size_t i = 0; i < findingLines.size(); i++)
      o << (i ? ", " : "") << "\"" << jsonEscape(findingLines[i]) << "\"";
    o << "]\n },\n \"assumptions\": [";
    for (size_t i = 0; i < suite.assumptions.size(); i++)
      o << (i ? ", " : "") << "\"" << jsonEscape(suite.assumptions[i]) << "\"";
    o << "],\n \"violations\": " << violations << ",\n \"wall_s\": " << wall << "\n}\n";
  }
  printf("%s: %llu cases, %llu distinct non-trivial, %d violation(s), %.1fs\n", suite.property.c_str(),
         static_cast<unsigned long long>(ev), static_cast<unsigned long long>(dn), violations, wall);
  return violations ? 1 : 0;
}

}  // namespace vp
