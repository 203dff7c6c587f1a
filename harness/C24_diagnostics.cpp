// C24: printed tensors, log lines, file mappings and timers show what is there.
#include <dirent.h>
#include <signal.h>
#include <sys/mman.h>
#include <thread>

#include "ref.h"
#include "scratch.h"
#include "Operations.h"
#include "Tensor/TensorPrinter.h"
#include "Utils/Logger.h"
#include "Utils/MMapUtils.h"
#include "Utils/MathUtils.h"
#include "Utils/Timer.h"

using namespace vp;
namespace op = tinytorch::op;

namespace {

// Everything `f` writes to standard output and standard error.
struct Captured {
  std::string out, err;
};
std::string readAll(int fd) {
  std::string s;
  char b[65536];
  lseek(fd, 0, SEEK_SET);
  for (ssize_t n; (n = read(fd, b, sizeof(b))) > 0;) s.append(b, n);
  return s;
}
template <typename F>
Captured capture(F f) {
  fflush(stdout);
  fflush(stderr);
  int o = memfd_create("out", 0), e = memfd_create("err", 0), so = dup(1), se = dup(2);
  dup2(o, 1);
  dup2(e, 2);
  f();
  fflush(stdout);
  fflush(stderr);
  Captured c;
  c.out = readAll(o);
  c.err = readAll(e);
  dup2(so, 1);
  dup2(se, 2);
  for (int fd : {o, e, so, se}) close(fd);
  return c;
}

// The text between `open` after `key` and the matching `close`.
bool section(const std::string& s, const std::string& key, char open, char close, std::string& out) {
  auto p = s.find(key);
  if (p == std::string::npos) return false;
  p += key.size();
  while (p < s.size() && s[p] == ' ') p++;
  if (p >= s.size() || s[p] != open) return false;
  int depth = 0;
  for (size_t q = p; q < s.size(); q++) {
    if (s[q] == open) depth++;
    if (s[q] == close && --depth == 0) {
      out = s.substr(p + 1, q - p - 1);
      return true;
    }
  }
  return false;
}
std::vector<std::string> items(const std::string& s) {
  std::vector<std::string> r;
  std::string cur;
  auto flush = [&] {
    size_t a = cur.find_first_not_of(" \n\t"), b = cur.find_last_not_of(" \n\t");
    if (a != std::string::npos) r.push_back(cur.substr(a, b - a + 1));
    cur.clear();
  };
  for (char ch : s) {
    if (ch == ',') flush();
    else cur += ch;
  }
  flush();
  return r;
}

std::string text(Case& c, int maxLen) {
  static const char* special[] = {"%s", "%d%n", "\\n", "[", "\"", "{}", " ", "é", "100%", ""};
  std::string s;
  int64_t n = c.weighted({6, 2, 1}) == 0 ? c.draw(20) : c.draw(maxLen);
  Rng r = c.sub();
  while (static_cast<int64_t>(s.size()) < n) {
    if (r.below(8) == 0) s += special[r.below(10)];
    else s += static_cast<char>('a' + r.below(26));
  }
  return s;
}

void printing(Case& c) {
  static const DType types[] = {DType::Float32, DType::Int64, DType::Float16, DType::BFloat16, DType::Int32, DType::Bool};
  DType dt = types[c.draw(6)];
  Shape sh = c.chance(1, 3) ? Shape{c.range(12, 20)} : genShape(c, 0, 5, c.chance(1, 6) ? 3000 : 40, true);
  int64_t n = numelOf(sh);
  std::vector<double> v = genData(c, n, dt, dt == DType::Bool ? Data::Ints : c.oneOf({Data::Small, Data::Ints, Data::Wide}));
  Tensor t = makeTensor(c, sh, dt, v).t;
  v = readVec(t);
  bool grad = (dt == DType::Float32) && c.coin();
  if (grad) t.setRequiresGrad(true);
  bool full = c.coin(), tagged = c.coin(), impl = c.chance(1, 4);
  std::string tag = tagged ? text(c, 60) : "";
  // an operation that is printed later prints the values of that moment
  if (c.chance(1, 4) && !grad && dt == DType::Float32) {
    op::mulInplace(t, Tensor::scalar(-2.f, tt::Options()));
    v = readVec(t);
  }
  auto cap = capture([&] {
    if (impl) tt::print(t.getImpl(), tagged ? tag.c_str() : nullptr, full);
    else tt::print(t, tagged ? tag.c_str() : nullptr, full);
  });
  const std::string& s = cap.out;
  std::string head = s.substr(0, 300);
  VP_CHECK(c, cap.err.empty(), "printing wrote to standard error: %s", cap.err.c_str());
  VP_CHECK(c, !s.empty() && s.back() == '\n', "the printed text is not a complete line: %s", head.c_str());
  if (tagged) VP_CHECK(c, s.find("\"" + tag + "\"") != std::string::npos, "the tag %s is missing: %s", tag.c_str(), head.c_str());
  std::string rest = s;
  if (tagged) rest = s.substr(s.find("\"" + tag + "\"") + tag.size() + 2);
  std::string shape, options, data;
  VP_CHECK(c, section(rest, "shape:", '[', ']', shape), "no shape in %s", head.c_str());
  VP_CHECK(c, section(rest, "options:", '{', '}', options), "no options in %s", head.c_str());
  auto si = items(shape);
  VP_CHECK(c, si.size() == sh.size(), "shape [%s] instead of %s", shape.c_str(), str(sh).c_str());
  for (size_t i = 0; i < sh.size(); i++) VP_CHECK(c, si[i] == std::to_string(sh[i]), "shape [%s] instead of %s", shape.c_str(), str(sh).c_str());
  VP_CHECK(c, options.find(std::string("dtype:") + dtName(dt)) != std::string::npos, "type %s not in %s", dtName(dt), options.c_str());
  VP_CHECK(c, options.find(grad ? "requiresGrad:1" : "requiresGrad:0") != std::string::npos, "requiresGrad %d not in %s", grad, options.c_str());
  VP_CHECK(c, section(rest, "data:", '[', ']', data), "no complete data for %lld elements (full %d): ...%s", static_cast<long long>(n), full,
           s.substr(s.size() > 120 ? s.size() - 120 : 0).c_str());
  auto di = items(data);
  bool cut = !full && n > 16;
  std::vector<int64_t> want;
  for (int64_t i = 0; i < (cut ? 8 : n); i++) want.push_back(i);
  if (cut) {
    want.push_back(-1);
    for (int64_t i = n - 8; i < n; i++) want.push_back(i);
  }
  VP_CHECK(c, di.size() == want.size(), "%zu entries instead of %zu for %lld elements (full %d): %s", di.size(), want.size(), static_cast<long long>(n),
           full, data.substr(0, 300).c_str());
  for (size_t k = 0; k < want.size(); k++) {
    if (want[k] < 0) {
      VP_CHECK(c, di[k] == "...", "%s where elements are left out", di[k].c_str());
      continue;
    }
    double x = v[want[k]], got = strtod(di[k].c_str(), nullptr);
    bool ok = std::isnan(x) ? std::isnan(got) : std::isinf(x) ? got == x : std::fabs(got - x) <= 1e-6 + 1e-6 * std::fabs(x) * (isFloatT(dt) ? 1 : 0);
    VP_CHECK(c, ok, "element %lld is printed as %s instead of %.9g", static_cast<long long>(want[k]), di[k].c_str(), x);
  }
  auto after = readVec(t);
  for (int64_t i = 0; i < n; i++) VP_CHECK(c, sameValue(after[i], v[i]), "printing changed element %lld", static_cast<long long>(i));
  c.cls(full ? "whole" : cut ? "shortened" : "short");
  if (n == 0) c.cls("without elements");
  if (s.size() > 1024) c.cls("longer than the log buffer");
  if (n > 1) c.nontrivial();
}

void logging(Case& c) {
  struct L {
    tt::LogLevel level;
    const char* name;
  };
  static const L levels[] = {{tt::LOG_INFO, "INFO"}, {tt::LOG_DEBUG, "DEBUG"}, {tt::LOG_WARNING, "WARNING"}, {tt::LOG_ERROR, "ERROR"}};
  int count = static_cast<int>(1 + c.draw(4));
  std::string wantOut, wantErr;
  std::vector<std::function<void()>> calls;
  for (int k = 0; k < count; k++) {
    const L& l = levels[c.draw(4)];
    std::string s = c.chance(1, 3) ? std::string(c.range(1010, 1030), 'x') + text(c, 8) : text(c, c.chance(1, 100) ? 300000 : 4000);
    long long num = static_cast<long long>(c.bits());
    bool withNum = c.coin();
    std::string line = withNum ? s + "|" + std::to_string(num) : s;
    (l.level == tt::LOG_ERROR ? wantErr : wantOut) += std::string("[") + l.name + "] " + line + "\n";
    calls.push_back([=] {
      if (withNum) tt::Logger::log(l.level, __FILE__, __LINE__, "%s|%lld", s.c_str(), num);
      else tt::Logger::log(l.level, __FILE__, __LINE__, "%s", s.c_str());
    });
    if (line.size() > 1022) c.cls("longer than the log buffer");
    if (!line.empty()) c.nontrivial();
  }
  auto cap = capture([&] {
    for (auto& f : calls) f();
  });
  VP_CHECK(c, cap.out == wantOut, "standard output has %zu bytes instead of %zu: %s", cap.out.size(), wantOut.size(), cap.out.substr(0, 200).c_str());
  VP_CHECK(c, cap.err == wantErr, "standard error has %zu bytes instead of %zu: %s", cap.err.size(), wantErr.size(), cap.err.substr(0, 200).c_str());
}

// Lines written by several threads stay whole and none is lost.
void loggingThreads(Case& c) {
  int threads = static_cast<int>(2 + c.draw(4)), lines = static_cast<int>(1 + c.draw(40)), len = static_cast<int>(c.draw(1500));
  auto cap = capture([&] {
    std::vector<std::thread> ts;
    for (int t = 0; t < threads; t++)
      ts.emplace_back([=] {
        std::string pad(len, static_cast<char>('a' + t));
        for (int i = 0; i < lines; i++) LOGI("%d:%d:%s.", t, i, pad.c_str());
      });
    for (auto& t : ts) t.join();
  });
  std::vector<int> next(threads, 0);
  size_t pos = 0, total = 0;
  while (pos < cap.out.size()) {
    size_t e = cap.out.find('\n', pos);
    VP_CHECK(c, e != std::string::npos, "the last line is incomplete");
    std::string l = cap.out.substr(pos, e - pos);
    pos = e + 1;
    int t = -1, i = -1;
    VP_CHECK(c, sscanf(l.c_str(), "[INFO] %d:%d:", &t, &i) == 2 && t >= 0 && t < threads, "a mixed line: %s", l.substr(0, 100).c_str());
    std::string want = "[INFO] " + std::to_string(t) + ":" + std::to_string(i) + ":" + std::string(len, static_cast<char>('a' + t)) + ".";
    VP_CHECK(c, l == want, "a mixed line of %zu characters instead of %zu: %s", l.size(), want.size(), l.substr(0, 100).c_str());
    VP_CHECK(c, i == next[t], "thread %d: line %d after %d lines", t, i, next[t]);
    next[t]++;
    total++;
  }
  VP_CHECK(c, total == static_cast<size_t>(threads) * lines, "%zu lines instead of %d", total, threads * lines);
  c.nontrivial();
}

int openFiles() {
  int n = 0;
  if (DIR* d = opendir("/proc/self/fd")) {
    while (readdir(d)) n++;
    closedir(d);
  }
  return n;
}

// Mapped files show the bytes of the file, also several at a time, and give their resources back.
void mapping(Case& c) {
  int before = openFiles();
  struct M {
    Bytes bytes;
    tt::MMappingResult r;
  };
  std::vector<M> live;
  int steps = static_cast<int>(1 + c.draw(8));
  for (int k = 0; k < steps; k++) {
    int what = c.weighted({6, 2, 1, 1, 1});
    std::string path = scratchPath("f" + std::to_string(k));
    if (what == 0) {
      M m;
      int64_t n = c.weighted({3, 2, 1}) == 0 ? 1 + c.draw(64) : c.coin() ? c.range(4095, 4097) : 1 + c.draw(200000);
      if (n < 1) n = 1;
      Rng r = c.sub();
      for (int64_t i = 0; i < n; i++) m.bytes.push_back(static_cast<uint8_t>(r.next()));
      writeFile(path, m.bytes);
      m.r = tt::MMapUtils::mapFileForRead(path);
      VP_CHECK(c, m.r.success && m.r.dataPtr != nullptr, "a file of %lld bytes is not mapped", static_cast<long long>(n));
      VP_CHECK(c, m.r.fileSize == m.bytes.size(), "size %zu instead of %zu", m.r.fileSize, m.bytes.size());
      live.push_back(std::move(m));
      c.nontrivial();
    } else if (what == 1 && !live.empty()) {
      size_t i = c.draw(live.size());
      tt::MMapUtils::unmapFile(live[i].r);
      VP_CHECK(c, !live[i].r.success && live[i].r.dataPtr == nullptr && live[i].r.fileSize == 0, "an unmapped file still looks mapped");
      live.erase(live.begin() + i);
    } else if (what == 2) {
      tt::MMappingResult r;
      capture([&] { r = tt::MMapUtils::mapFileForRead(path + ".absent"); });
      VP_CHECK(c, !r.success, "a file that does not exist is mapped");
      c.cls("absent");
    } else if (what == 3) {
      tt::MMappingResult r;
      capture([&] { r = tt::MMapUtils::mapFileForRead(scratchRoot()); });
      VP_CHECK(c, !r.success, "a directory is mapped");
      c.cls("directory");
    } else if (what == 4) {
      writeFile(path, {});
      tt::MMappingResult r;
      capture([&] { r = tt::MMapUtils::mapFileForRead(path); });
      VP_CHECK(c, !r.success || r.fileSize == 0, "an empty file is mapped with %zu bytes", r.fileSize);
      if (r.success) tt::MMapUtils::unmapFile(r);
      c.cls("empty");
    }
    for (auto& m : live)
      VP_CHECK(c, memcmp(m.r.dataPtr, m.bytes.data(), m.bytes.size()) == 0, "a mapping of %zu bytes has other contents than the file", m.bytes.size());
  }
  for (auto& m : live) tt::MMapUtils::unmapFile(m.r);
  int after = openFiles();
  VP_CHECK(c, after == before, "%d open files instead of %d", after, before);
  if (live.size() > 1) c.cls("several");
}

void timing(Case& c) {
  using clock = std::chrono::steady_clock;
  tt::Timer t;
  int marks = static_cast<int>(1 + c.draw(3));
  auto a0 = clock::now();
  t.start();
  auto a1 = clock::now();
  for (int k = 0; k < marks; k++) {
    std::this_thread::sleep_for(std::chrono::microseconds(c.draw(4000)));
    auto b0 = clock::now();
    t.mark();
    auto b1 = clock::now();
    auto ms = [](clock::duration d) { return std::chrono::duration_cast<std::chrono::milliseconds>(d).count(); };
    long long got = t.elapseMillis(), lo = ms(b0 - a1), hi = ms(b1 - a0);
    VP_CHECK(c, got >= lo && got <= hi, "%lld ms between start and mark instead of %lld to %lld", got, lo, hi);
    if (got > 0) c.nontrivial();
    if (c.chance(1, 4)) {  // a scope that reports its own time
      std::string tag = text(c, 100);
      int64_t us = c.draw(3000);
      clock::time_point d0, d1, d2, d3;
      auto cap = capture([&] {
        d0 = clock::now();
        {
          tt::ScopedTimer scope(tag.c_str());
          d1 = clock::now();
          std::this_thread::sleep_for(std::chrono::microseconds(us));
          d2 = clock::now();
        }
        d3 = clock::now();
      });
      std::string head = "[DEBUG] TIMER " + tag + ": cost: ";
      VP_CHECK(c, cap.out.compare(0, head.size(), head) == 0, "a timed scope reports %s", cap.out.c_str());
      long long v = atoll(cap.out.c_str() + head.size());
      VP_CHECK(c, v >= ms(d2 - d1) && v <= ms(d3 - d0), "a timed scope reports %lld ms instead of %lld to %lld", v, (long long)ms(d2 - d1), (long long)ms(d3 - d0));
      c.cls("scope");
    }
    if (c.chance(1, 4)) {
      a0 = clock::now();
      t.start();
      a1 = clock::now();
      c.cls("restarted");
    }
  }
}

void powers(Case& c) {
  uint32_t v = static_cast<uint32_t>(c.coin()  ? (int64_t{1} << c.draw(32)) + c.range(-1, 1) : c.draw(uint64_t{1} << 31));
  if (v > (1u << 31)) v = 1u << 31;
  uint64_t want = 1;
  while (want < v) want *= 2;
  VP_CHECK(c, tt::nextPow2(v) == want, "the power of two for %u is %u instead of %llu", v, tt::nextPow2(v), static_cast<unsigned long long>(want));
  c.nontrivial();
}

}  // namespace

int main(int argc, char** argv) {
  makeScratchRoot();
  Suite s;
  s.property = "C24";
  s.rule = "a case is non-trivial when it prints at least two elements, logs a non-empty line, maps a file with contents or measures a positive time";
  s.assumptions = {"the printed layout is the present one: key, colon, bracketed list", "lines contain no line break of their own"};
  s.init = noCache;
  s.props = {{"printing", printing, 250000, 2000000},      {"logging", logging, 120000, 2000000},   {"lines of threads", loggingThreads, 3000, 60000},
             {"file mappings", mapping, 40000, 400000},   {"timing", timing, 2000, 20000, 40, 0, 3}, {"powers of two", powers, 200000, 5000000}};
  int rc = runSuite(s, argc, argv);
  removeTree(scratchRoot());
  return rc;
}
