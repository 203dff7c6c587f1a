// C19: the file-backed and TCP-backed stores against one key-value map.
//
// Sequential histories are compared with a std::map; concurrent ones (threads over loopback, threads and
// forked processes over a scratch directory) are recorded with invocation/response stamps and searched for a
// linearization.  The library part is built with ThreadSanitizer, so unsynchronised accesses end a case too.
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <dirent.h>
#include <signal.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <netinet/in.h>
#include <arpa/inet.h>

#include <algorithm>
#include <atomic>
#include <chrono>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <thread>
#include <unordered_set>

#include "Distributed/FileStore.h"
#include "Distributed/TCPStore.h"
#include "engine.h"
#include "port.h"
#include "scratch.h"

using namespace vp;
namespace ds = tinytorch::distributed;
using Ms = std::chrono::milliseconds;
using Clock = std::chrono::steady_clock;

namespace {

double since(Clock::time_point t) { return std::chrono::duration<double>(Clock::now() - t).count(); }

struct FS : ds::FileStore {
  FS(const std::string& path, Ms timeout) : FileStore(path) { timeout_ = timeout; }
};

enum class Kind { File, Tcp };

// One store and the way to open clients of it.
struct Bed {
  Kind kind;
  Ms timeout;
  std::string dir;
  std::unique_ptr<Port> port;
  std::unique_ptr<ds::Store> server;  // Tcp only

  Bed(Kind k, Ms t = ds::Store::kDefaultTimeout) : kind(k), timeout(t) {
    if (k == Kind::File) {
      static int n = 0;
      dir = scratchPath("store" + std::to_string(n++));
      removeTree(dir);
    } else {
      port = std::make_unique<Port>();
      server = std::make_unique<ds::TCPStore>("127.0.0.1", port->port, true, false, -1, t);
    }
  }
  ~Bed() {
    server.reset();
    if (!dir.empty()) removeTree(dir);
  }
  std::unique_ptr<ds::Store> client() {
    if (kind == Kind::File) return std::make_unique<FS>(dir, timeout);
    return std::make_unique<ds::TCPStore>("127.0.0.1", port->port, false, false, -1, timeout);
  }
};

std::string show(const std::string& s) {
  std::string o = "\"";
  for (unsigned char ch : s) {
    if (ch >= 0x20 && ch < 0x7f && ch != '"') o += static_cast<char>(ch);
    else {
      char b[8];
      snprintf(b, sizeof(b), "\\x%02x", ch);
      o += b;
    }
    if (o.size() > 60) return o + "..\"(" + std::to_string(s.size()) + ")";
  }
  return o + "\"";
}
std::string show(const Bytes& b) { return show(std::string(b.begin(), b.end())) + "#" + std::to_string(b.size()); }

std::string genKey(Case& c, size_t maxLen) {
  static const char* const odd[] = {"", "a", "b", "a/b", "..", ".", "../x", "/", ".lock", ".tmp", "%", "%2F", "a.lock", "a.tmp",
                                    "A", "key 1", "key\n1", "ab", "lock", "tmp", "a%00", "%2e", "store_based_barrier_key/0", "\xff\xfe", "-"};
  switch (c.weighted({6, 2, 2})) {
    case 0: return odd[c.draw(sizeof(odd) / sizeof(odd[0]))];
    case 1: {
      std::string s(1 + c.draw(6), 'a');
      for (auto& ch : s) ch = static_cast<char>(c.draw(256));
      return s;
    }
    default: {
      std::string s(1 + c.draw(maxLen), 'k');
      auto r = c.sub();
      for (auto& ch : s) ch = static_cast<char>(r.below(256));
      return s;
    }
  }
}

Bytes genValue(Case& c, size_t big) {
  size_t n = 0;
  switch (c.weighted({2, 5, 3, 3, 1})) {
    case 0: return {};
    case 1: n = 1 + c.draw(8); break;
    case 2: n = 1 + c.draw(300); break;
    case 3: n = static_cast<size_t>(c.around(4096, 3)); break;
    default: n = 1 + c.draw(big); break;
  }
  Bytes b(n);
  auto r = c.sub();
  for (auto& x : b) x = static_cast<uint8_t>(r.below(256));
  return b;
}

struct Val {
  Bytes bytes;
  bool numeric = false;
  int64_t n = 0;
};

Bytes decimal(int64_t v) {
  auto s = std::to_string(v);
  return Bytes(s.begin(), s.end());
}

// ---- one history at a time against the map --------------------------------------------------------

void modelHistory(Case& c, Kind kind) {
  Bed bed(kind);
  size_t maxKey = kind == Kind::File ? 80 : 2000;
  std::vector<std::string> keys;
  size_t nk = 1 + c.draw(6);
  for (size_t i = 0; i < nk; i++) {
    auto k = genKey(c, maxKey);
    if (std::find(keys.begin(), keys.end(), k) == keys.end()) keys.push_back(k);
  }
  for (auto& k : keys) c.note("key %s\n", show(k).c_str());
  std::map<std::string, Val> model;
  std::vector<std::unique_ptr<ds::Store>> clients;
  size_t nc = 1 + c.draw(3);
  for (size_t i = 0; i < nc; i++) clients.push_back(bed.client());
  auto who = [&]() -> ds::Store& {
    if (bed.server && c.chance(1, 4)) return *bed.server;
    return *clients[c.draw(clients.size())];
  };
  auto existing = [&](std::string& k) {
    std::vector<std::string> have;
    for (auto& x : keys)
      if (model.count(x)) have.push_back(x);
    if (have.empty()) return false;
    k = have[c.draw(have.size())];
    return true;
  };
  int deletes = 0, adds = 0, overwrites = 0, reads = 0, shrinks = 0;
  size_t steps = 1 + c.draw(kind == Kind::File ? 40 : 25);
  for (size_t s = 0; s < steps; s++) {
    switch (c.weighted({6, 6, 5, 3, 2, 3, 2, 2})) {
      case 0: {
        auto& st = who();
        auto k = keys[c.draw(keys.size())];
        Val v;
        if (c.chance(1, 5)) {
          v.numeric = true;
          v.n = c.coin() ? c.range(-5, 5) : static_cast<int64_t>(c.bits()) / 4;
          v.bytes = decimal(v.n);
        } else {
          v.bytes = genValue(c, kind == Kind::File ? 200000 : 1500000);
        }
        auto it = model.find(k);
        if (it != model.end()) {
          overwrites++;
          if (it->second.bytes.size() > v.bytes.size()) shrinks++;
        }
        c.note("set %s %s\n", show(k).c_str(), show(v.bytes).c_str());
        if (c.coin()) st.set(k, v.bytes);
        else st.set(k, std::string(v.bytes.begin(), v.bytes.end()));
        model[k] = v;
        break;
      }
      case 1: {
        std::string k;
        if (!existing(k)) break;
        auto& st = who();
        c.note("get %s\n", show(k).c_str());
        Bytes got;
        if (c.coin()) got = st.get(k);
        else {
          auto g = st.getString(k);
          got.assign(g.begin(), g.end());
        }
        reads++;
        VP_CHECK(c, got == model[k].bytes, "get %s: got %s, want %s", show(k).c_str(), show(got).c_str(), show(model[k].bytes).c_str());
        break;
      }
      case 2: {
        auto k = keys[c.draw(keys.size())];
        auto it = model.find(k);
        int64_t base = 0, sum = 0, d = c.chance(1, 4) ? static_cast<int64_t>(c.bits()) / 4 : c.range(-20, 20);
        if (it != model.end()) {
          if (it->second.numeric) base = it->second.n;
          else if (!it->second.bytes.empty()) break;  // adding to what is not a number has no meaning
        }
        if (__builtin_add_overflow(base, d, &sum)) break;
        auto& st = who();
        c.note("add %s %lld\n", show(k).c_str(), static_cast<long long>(d));
        int64_t got = st.add(k, d);
        adds++;
        VP_CHECK(c, got == sum, "add %s: got %lld, want %lld", show(k).c_str(), static_cast<long long>(got), static_cast<long long>(sum));
        model[k] = Val{decimal(sum), true, sum};
        break;
      }
      case 3: {
        std::vector<std::string> ks;
        size_t n = c.draw(4);
        bool want = true;
        for (size_t i = 0; i < n; i++) {
          ks.push_back(keys[c.draw(keys.size())]);
          want &= model.count(ks.back()) > 0;
        }
        auto& st = who();
        c.note("check %zu keys\n", n);
        bool got = st.check(ks);
        VP_CHECK(c, got == want, "check of %zu keys: got %d, want %d", n, got, want);
        break;
      }
      case 4: {
        auto& st = who();
        c.note("getNumKeys\n");
        int64_t got = st.getNumKeys();
        VP_CHECK(c, got == static_cast<int64_t>(model.size()), "getNumKeys: got %lld, want %zu", static_cast<long long>(got), model.size());
        break;
      }
      case 5: {
        auto& st = who();
        auto k = keys[c.draw(keys.size())];
        c.note("delete %s\n", show(k).c_str());
        bool got = st.deleteKey(k), want = model.erase(k) > 0;
        deletes += want;
        VP_CHECK(c, got == want, "deleteKey %s: got %d, want %d", show(k).c_str(), got, want);
        break;
      }
      case 6: {
        std::vector<std::string> ks;
        size_t n = c.draw(4);
        for (size_t i = 0; i < n; i++) {
          std::string k;
          if (existing(k)) ks.push_back(k);
        }
        auto& st = who();
        c.note("wait for %zu existing keys\n", ks.size());
        auto t = Clock::now();
        st.wait(ks);
        VP_CHECK(c, since(t) < 5, "waiting for keys that all exist took %.1f s", since(t));
        break;
      }
      default: {
        c.note("reopen\n");
        if (kind == Kind::File && c.coin()) {  // everybody leaves: the values stay
          clients.clear();
          for (size_t i = 0; i < nc; i++) clients.push_back(bed.client());
        } else {
          size_t i = c.draw(clients.size());
          clients[i].reset();
          clients[i] = bed.client();
        }
        break;
      }
    }
  }
  auto& st = who();
  VP_CHECK(c, st.getNumKeys() == static_cast<int64_t>(model.size()), "at the end: %lld keys, want %zu", static_cast<long long>(st.getNumKeys()), model.size());
  for (auto& k : keys) {
    bool have = model.count(k) > 0;
    VP_CHECK(c, st.check({k}) == have, "at the end: key %s should%s exist", show(k).c_str(), have ? "" : " not");
    if (have) {
      auto got = st.get(k);
      VP_CHECK(c, got == model[k].bytes, "at the end: %s is %s, want %s", show(k).c_str(), show(got).c_str(), show(model[k].bytes).c_str());
    }
  }
  if (kind == Kind::File) {  // nothing outside the store's directory
    std::string stray = scratchPath("x");
    VP_CHECK(c, access(stray.c_str(), F_OK) != 0, "a key was stored outside the store's directory");
  }
  if (overwrites > 0) c.cls("overwrite");
  if (shrinks > 0) c.cls("overwrite by a shorter value");
  if (deletes > 0) c.cls("delete");
  if (adds > 1) c.cls("adds");
  if (keys.size() > 1 && (overwrites + deletes + adds) > 1 && reads > 0) c.nontrivial();
}

void fileModel(Case& c) { modelHistory(c, Kind::File); }
void tcpModel(Case& c) { modelHistory(c, Kind::Tcp); }

// ---- concurrent clients ---------------------------------------------------------------------------

enum OpKind { kSet, kGet, kAdd, kDelete, kCheck, kNum };
const char* const opName[] = {"set", "get", "add", "delete", "check", "numKeys"};

struct OpRec {
  int kind = 0, key = 0, mask = 0, pauseUs = 0;
  int64_t arg = 0, res = 0;
  uint64_t inv = 0, resp = 0;  // 0: not reached
};

constexpr int kMaxClients = 6, kMaxOps = 512;
struct SharedLog {
  std::atomic<uint64_t> stamp;
  std::atomic<int> ready, go, bad;
  OpRec ops[kMaxClients][kMaxOps];
  int n[kMaxClients];
  char msg[256];
};
SharedLog* newLog() {
  void* p = mmap(nullptr, sizeof(SharedLog), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) abort();
  auto* l = new (p) SharedLog();
  l->stamp = 1;
  return l;
}
struct LogHolder {
  SharedLog* l = newLog();
  ~LogHolder() { munmap(l, sizeof(SharedLog)); }
  SharedLog* operator->() const { return l; }
};

void say(SharedLog* l, const std::string& s) {
  int zero = 0;
  if (l->bad.compare_exchange_strong(zero, 1)) snprintf(l->msg, sizeof(l->msg), "%s", s.c_str());
}

// Runs body(i, store) for every client at once; forked processes or threads.
void runClients(Case& c, Bed& bed, SharedLog* log, int nClients, bool processes,
                const std::function<void(int, ds::Store&)>& body) {
  log->ready = 0;
  log->go = 0;
  auto whole = [&](int i) {
    auto st = bed.client();
    log->ready++;
    while (log->go == 0) std::this_thread::yield();
    body(i, *st);
  };
  if (processes) {
    std::vector<pid_t> pids;
    for (int i = 0; i < nClients; i++) {
      pid_t p = fork();
      if (p == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        alarm(35);
        whole(i);
        _exit(0);
      }
      pids.push_back(p);
    }
    while (log->ready < nClients) {
      int st = 0;
      for (auto p : pids)
        if (waitpid(p, &st, WNOHANG) == p) {
          for (auto q : pids) kill(q, SIGKILL);
          for (auto q : pids) waitpid(q, &st, 0);
          c.fail("a process died while opening the store");
        }
      usleep(200);
    }
    log->go = 1;
    for (auto p : pids) {
      int st = 0;
      waitpid(p, &st, 0);
      if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) say(log, "a client process died, status " + std::to_string(st));
    }
  } else {
    std::vector<std::thread> ts;
    for (int i = 0; i < nClients; i++) ts.emplace_back(whole, i);
    while (log->ready < nClients) usleep(200);
    log->go = 1;
    for (auto& t : ts) t.join();
  }
  VP_CHECK(c, log->bad == 0, "%s", log->msg);
}

struct Linear {
  const std::vector<std::vector<OpRec>>& h;
  int nKeys;
  std::unordered_set<std::string> seen;
  uint64_t visited = 0;
  using State = std::vector<std::pair<bool, int64_t>>;

  bool apply(const OpRec& o, State& s) const {
    auto& v = s[static_cast<size_t>(o.key)];
    switch (o.kind) {
      case kSet: v = {true, o.arg}; return true;
      case kGet: return v.first && v.second == o.res;
      case kAdd:
        v = {true, (v.first ? v.second : 0) + o.arg};
        return v.second == o.res;
      case kDelete: {
        bool had = v.first;
        v = {false, 0};
        return had == (o.res != 0);
      }
      case kCheck: {
        bool all = true;
        for (int k = 0; k < nKeys; k++)
          if (o.mask >> k & 1) all &= s[static_cast<size_t>(k)].first;
        return all == (o.res != 0);
      }
      default: {
        int64_t n = 0;
        for (auto& x : s) n += x.first;
        return n == o.res;
      }
    }
  }
  bool search(std::vector<int>& pos, const State& s) {
    bool done = true;
    for (size_t i = 0; i < h.size(); i++) done &= pos[i] == static_cast<int>(h[i].size());
    if (done) return true;
    std::string id(reinterpret_cast<const char*>(pos.data()), pos.size() * sizeof(int));
    for (auto& v : s) {
      id += v.first ? '1' : '0';
      id.append(reinterpret_cast<const char*>(&v.second), sizeof(int64_t));
    }
    if (!seen.insert(id).second) return false;
    visited++;
    uint64_t firstResp = UINT64_MAX;
    for (size_t i = 0; i < h.size(); i++)
      if (pos[i] < static_cast<int>(h[i].size())) firstResp = std::min(firstResp, h[i][static_cast<size_t>(pos[i])].resp);
    for (size_t i = 0; i < h.size(); i++) {
      if (pos[i] >= static_cast<int>(h[i].size())) continue;
      const auto& o = h[i][static_cast<size_t>(pos[i])];
      if (o.inv > firstResp) continue;
      State t = s;
      if (!apply(o, t)) continue;
      pos[i]++;
      if (search(pos, t)) return true;
      pos[i]--;
    }
    return false;
  }
};

void runOp(ds::Store& st, const std::vector<std::string>& keys, OpRec& o, SharedLog* log) {
  const auto& k = keys[static_cast<size_t>(o.key)];
  if (o.pauseUs > 0) usleep(static_cast<useconds_t>(o.pauseUs));
  o.inv = log->stamp.fetch_add(1);
  switch (o.kind) {
    case kSet: st.set(k, std::to_string(o.arg)); break;
    case kGet: {
      auto s = st.getString(k);
      char* end = nullptr;
      o.res = strtoll(s.c_str(), &end, 10);
      if (s.empty() || *end != 0) say(log, "get of a number returned " + show(s));
      break;
    }
    case kAdd: o.res = st.add(k, o.arg); break;
    case kDelete: o.res = st.deleteKey(k); break;
    case kCheck: {
      std::vector<std::string> ks;
      for (size_t i = 0; i < keys.size(); i++)
        if (o.mask >> i & 1) ks.push_back(keys[i]);
      o.res = st.check(ks);
      break;
    }
    default: o.res = st.getNumKeys(); break;
  }
  o.resp = log->stamp.fetch_add(1);
}

void linearizable(Case& c, Kind kind) {
  bool processes = kind == Kind::File && c.chance(2, 3);
  int n = static_cast<int>(2 + c.draw(3));
  Bed bed(kind);
  LogHolder log;
  // keys 0 and 1 always exist, 2 and 3 come and go
  std::vector<std::string> keys = {"a", "b/1", "c", ".d"};
  int64_t fresh = 1000;
  Linear::State init(4, {false, 0});
  {
    auto st = bed.client();
    for (int k = 0; k < 4; k++) {
      if (k >= 2 && c.coin()) continue;
      init[static_cast<size_t>(k)] = {true, fresh};
      st->set(keys[static_cast<size_t>(k)], std::to_string(fresh));
      fresh += 1000;
    }
  }
  std::vector<std::vector<OpRec>> h(static_cast<size_t>(n));
  size_t focus = c.draw(3);  // 0: everything, 1: counters, 2: coming and going
  for (int i = 0; i < n; i++) {
    size_t m = 1 + c.draw(kind == Kind::File ? 10 : 8);
    for (size_t j = 0; j < m; j++) {
      OpRec o;
      o.kind = focus == 0 ? static_cast<int>(c.weighted({3, 3, 4, 2, 2, 1}))
                          : focus == 1 ? static_cast<int>(c.weighted({1, 3, 6, 0, 0, 0})) : static_cast<int>(c.weighted({3, 0, 2, 4, 2, 2}));
      o.key = o.kind == kGet ? static_cast<int>(c.draw(2)) : o.kind == kDelete ? static_cast<int>(2 + c.draw(2)) : static_cast<int>(c.draw(4));
      if (o.kind == kSet) o.arg = fresh += 1000;
      if (o.kind == kAdd) o.arg = c.range(1, 9);
      if (o.kind == kCheck) o.mask = static_cast<int>(c.draw(16));
      if (c.chance(1, 3)) o.pauseUs = static_cast<int>(c.draw(kind == Kind::File ? 200 : 2000));
      h[static_cast<size_t>(i)].push_back(o);
    }
  }
  for (int i = 0; i < n; i++) {
    log->n[i] = static_cast<int>(h[static_cast<size_t>(i)].size());
    for (int j = 0; j < log->n[i]; j++) log->ops[i][j] = h[static_cast<size_t>(i)][static_cast<size_t>(j)];
  }
  runClients(c, bed, log.l, n, processes, [&](int i, ds::Store& st) {
    for (int j = 0; j < log->n[i]; j++) runOp(st, keys, log->ops[i][j], log.l);
  });
  int overlaps = 0;
  size_t total = 0;
  std::vector<const OpRec*> all;
  for (int i = 0; i < n; i++)
    for (int j = 0; j < log->n[i]; j++) {
      auto& o = h[static_cast<size_t>(i)][static_cast<size_t>(j)];
      o = log->ops[i][j];
      total++;
    }
  for (int i = 0; i < n; i++)
    for (auto& o : h[static_cast<size_t>(i)])
      for (int k = i + 1; k < n; k++)
        for (auto& q : h[static_cast<size_t>(k)]) overlaps += o.inv < q.resp && q.inv < o.resp;
  for (int i = 0; i < n; i++)
    for (auto& o : h[static_cast<size_t>(i)])
      c.note("client %d: %s key %d arg %lld mask %x -> %lld  [%llu,%llu]\n", i, opName[o.kind], o.key, static_cast<long long>(o.arg), o.mask,
             static_cast<long long>(o.res), static_cast<unsigned long long>(o.inv), static_cast<unsigned long long>(o.resp));
  Linear lin{h, 4, {}, 0};
  std::vector<int> pos(static_cast<size_t>(n), 0);
  VP_CHECK(c, lin.search(pos, init), "no order of the %zu operations of %d clients explains their results", total, n);
  if (processes) c.cls("processes");
  if (overlaps > 0) c.cls("overlapping operations");
  if (overlaps > 1 && total > 3) c.nontrivial();
}

void fileConcurrent(Case& c) { linearizable(c, Kind::File); }
void tcpConcurrent(Case& c) { linearizable(c, Kind::Tcp); }

// Many additions: the results must form one chain, each result being the previous one plus the own amount.
void counters(Case& c) {
  Kind kind = c.coin() ? Kind::File : Kind::Tcp;
  bool processes = kind == Kind::File && c.chance(2, 3);
  int n = static_cast<int>(2 + c.draw(5));
  int m = static_cast<int>(5 + c.draw(kind == Kind::File ? 300 : 25));
  Bed bed(kind);
  LogHolder log;
  bool preset = c.coin();
  int64_t start = preset ? c.range(-1000, 1000) : 0;
  if (preset) bed.client()->set("n", std::to_string(start));
  for (int i = 0; i < n; i++) {
    auto r = c.sub();
    log->n[i] = m;
    for (int j = 0; j < m; j++) log->ops[i][j].arg = 1 + static_cast<int64_t>(r.below(1000));
  }
  runClients(c, bed, log.l, n, processes, [&](int i, ds::Store& st) {
    for (int j = 0; j < m; j++) log->ops[i][j].res = st.add("n", log->ops[i][j].arg);
  });
  std::vector<std::pair<int64_t, int64_t>> v;
  for (int i = 0; i < n; i++)
    for (int j = 0; j < m; j++) v.emplace_back(log->ops[i][j].res, log->ops[i][j].arg);
  std::sort(v.begin(), v.end());
  int64_t at = start;
  int switches = 0;
  for (auto& p : v) {
    VP_CHECK(c, p.first == at + p.second, "an addition of %lld returned %lld where %lld was due (%s, %d clients x %d)",
             static_cast<long long>(p.second), static_cast<long long>(p.first), static_cast<long long>(at + p.second), processes ? "processes" : "threads", n, m);
    at = p.first;
  }
  for (int i = 0; i < n; i++)
    for (int j = 1; j < m; j++) switches += log->ops[i][j].res != log->ops[i][j - 1].res + log->ops[i][j].arg;
  auto last = bed.client()->getString("n");
  VP_CHECK(c, last == std::to_string(at), "the counter ends at %s, want %lld", show(last).c_str(), static_cast<long long>(at));
  c.note("%s, %d clients x %d additions, %d interleavings\n", kind == Kind::File ? (processes ? "file/processes" : "file/threads") : "tcp", n, m, switches);
  c.cls(kind == Kind::File ? (processes ? "file, processes" : "file, threads") : "tcp");
  if (switches > 2) c.nontrivial();
}

// Large values written and read at once are never mixed up; processes that die in the middle leave a whole
// value (or counter) behind and block nobody.
Bytes pattern(uint64_t id, size_t n) {
  Bytes b(n);
  for (size_t i = 0; i < n; i++) b[i] = static_cast<uint8_t>(id * 131 + i * (2 * id + 1) + (i >> 8) * 7);
  return b;
}
void wholeValues(Case& c) {
  Kind kind = c.coin() ? Kind::File : Kind::Tcp;
  bool processes = kind == Kind::File && c.chance(2, 3);
  Bed bed(kind);
  LogHolder log;
  int writers = static_cast<int>(1 + c.draw(2)), readers = static_cast<int>(1 + c.draw(2)), n = writers + readers;
  size_t top = c.oneOf({size_t(2000), size_t(70000), size_t(1000000)});
  int m = static_cast<int>(2 + c.draw(top > 100000 ? 6 : 16));
  std::vector<std::vector<size_t>> sizes(static_cast<size_t>(writers));
  for (auto& s : sizes)
    for (int j = 0; j < m; j++) s.push_back(1 + c.draw(top));
  bed.client()->set("v", pattern(0, top));
  auto idOf = [](int w, int j) { return static_cast<uint64_t>(1 + w * 64 + j); };
  runClients(c, bed, log.l, n, processes, [&](int i, ds::Store& st) {
    for (int j = 0; j < m; j++) {
      auto& o = log->ops[i][j];
      if (i < writers) {
        auto v = pattern(idOf(i, j), sizes[static_cast<size_t>(i)][static_cast<size_t>(j)]);
        o.inv = log->stamp.fetch_add(1);
        st.set("v", v);
        o.resp = log->stamp.fetch_add(1);
      } else {
        o.inv = log->stamp.fetch_add(1);
        auto v = st.get("v");
        o.resp = log->stamp.fetch_add(1);
        o.res = -1;
        if (v == pattern(0, top)) o.res = 0;
        for (int w = 0; w < writers && o.res < 0; w++)
          for (int k = 0; k < m && o.res < 0; k++)
            if (v.size() == sizes[static_cast<size_t>(w)][static_cast<size_t>(k)] && v == pattern(idOf(w, k), v.size())) o.res = static_cast<int64_t>(idOf(w, k));
        if (o.res < 0) say(log.l, "a reader got " + std::to_string(v.size()) + " bytes that nobody wrote");
      }
    }
  });
  // a value may be read if it was written before the read ended and not surely replaced before it began
  int changes = 0;
  for (int i = writers; i < n; i++)
    for (int j = 0; j < m; j++) {
      auto& o = log->ops[i][j];
      changes += j > 0 && o.res != log->ops[i][j - 1].res;
      uint64_t inv = 0, resp = 0;
      if (o.res > 0) {
        auto& w = log->ops[(o.res - 1) / 64][(o.res - 1) % 64];
        inv = w.inv;
        resp = w.resp;
      }
      VP_CHECK(c, inv < o.resp, "a value was read before it was written");
      for (int w = 0; w < writers; w++)
        for (int k = 0; k < m; k++) {
          auto& x = log->ops[w][k];
          VP_CHECK(c, !(x.inv > resp && x.resp < o.inv), "a read returned value %lld although value %llu had replaced it before",
                   static_cast<long long>(o.res), static_cast<unsigned long long>(idOf(w, k)));
        }
    }
  c.note("%s, %d writers, %d readers, %d values up to %zu bytes, %d changes seen\n", kind == Kind::File ? (processes ? "file/processes" : "file/threads") : "tcp", writers, readers, m, top, changes);
  c.cls(kind == Kind::File ? (processes ? "file, processes" : "file, threads") : "tcp");
  if (changes > 0) c.nontrivial();
}

void killedProcesses(Case& c) {
  Bed bed(Kind::File, Ms(15000));
  LogHolder log;
  int n = static_cast<int>(1 + c.draw(3));
  size_t size = c.oneOf({size_t(10), size_t(5000), size_t(300000)});
  int mode = static_cast<int>(c.draw(3));  // 0: values, 1: counter, 2: both
  bool doSet = mode != 1, doAdd = mode != 0;
  bed.client()->set("v", pattern(1, size));
  bed.client()->set("n", std::string("500"));
  auto delay = c.draw(3000);
  std::vector<pid_t> pids;
  for (int i = 0; i < n; i++) {
    pid_t p = fork();
    if (p == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      alarm(35);
      auto st = bed.client();
      log->ready++;
      while (log->go == 0) std::this_thread::yield();
      for (int j = 0; j < 100000; j++) {
        if (doSet) st->set("v", pattern(static_cast<uint64_t>(2 + (i * 7 + j) % 50), size));
        if (doAdd) {
          log->ops[i][0].inv++;
          st->add("n", 1);
          log->ops[i][0].resp++;
        }
      }
      _exit(0);
    }
    pids.push_back(p);
  }
  while (log->ready < n) {
    for (auto p : pids)
      if (waitpid(p, nullptr, WNOHANG) == p) abort();
    usleep(100);
  }
  log->go = 1;
  usleep(static_cast<useconds_t>(2000 + delay));
  for (auto p : pids) kill(p, SIGKILL);
  for (auto p : pids) waitpid(p, nullptr, 0);
  uint64_t begun = 0, ended = 0;
  for (int i = 0; i < n; i++) {
    begun += log->ops[i][0].inv;
    ended += log->ops[i][0].resp;
  }
  auto t = Clock::now();
  auto st = bed.client();
  c.note("%d processes, values of %zu bytes, killed after %llu us, %llu of %llu additions acknowledged\n", n, size, static_cast<unsigned long long>(delay),
         static_cast<unsigned long long>(ended), static_cast<unsigned long long>(begun));
  VP_CHECK(c, st->getNumKeys() == 2, "%lld keys after the processes were killed, want 2", static_cast<long long>(st->getNumKeys()));
  auto v = st->get("v");
  bool known = false;
  for (uint64_t id = 1; id < 52; id++) known |= v == pattern(id, size);
  VP_CHECK(c, known, "after a process was killed the value is one of %zu bytes that nobody wrote", v.size());
  auto s = st->getString("n");
  int64_t got = strtoll(s.c_str(), nullptr, 10) - 500;
  VP_CHECK(c, !s.empty() && got >= static_cast<int64_t>(ended) && got <= static_cast<int64_t>(begun), "the counter stands at 500%+lld (%s) after %llu acknowledged and %llu begun additions",
           static_cast<long long>(got), show(s).c_str(), static_cast<unsigned long long>(ended), static_cast<unsigned long long>(begun));
  st->set("v", pattern(60, 77));
  VP_CHECK(c, st->get("v") == pattern(60, 77), "a value written after the kill was not kept");
  int64_t a = st->add("n", 3);
  VP_CHECK(c, a == 500 + got + 3, "an addition after the kill returned %lld, want %lld", static_cast<long long>(a), static_cast<long long>(503 + got));
  VP_CHECK(c, since(t) < 5, "the store was blocked for %.1f s after the kill", since(t));
  c.nontrivial();
}

// ---- waiting ----------------------------------------------------------------------------------------

struct Span {
  uint64_t from, to;  // possibly present in (from, to)
  Bytes value;
};

void wakeUps(Case& c) {
  Kind kind = c.chance(1, 4) ? Kind::File : Kind::Tcp;
  Ms limit(9000);
  Bed bed(kind, limit);
  int nk = static_cast<int>(1 + c.draw(4)), nw = static_cast<int>(1 + c.draw(5));
  std::vector<std::string> keys;
  for (int i = 0; i < nk; i++) keys.push_back("w" + std::to_string(i));
  struct W {
    bool get = false;
    std::vector<std::string> want;
    int rounds = 1;
    int pauseUs = 0;
    std::unique_ptr<ds::Store> st;
    std::vector<OpRec> rec;
    std::vector<Bytes> got;
    std::vector<Clock::time_point> end;
  };
  std::vector<W> ws(static_cast<size_t>(nw));
  for (auto& w : ws) {
    w.get = c.coin();
    size_t m = w.get ? 1 : 1 + c.draw(static_cast<uint64_t>(nk) + 1);
    for (size_t i = 0; i < m; i++) w.want.push_back(keys[c.draw(keys.size())]);
    w.rounds = static_cast<int>(1 + c.draw(2));
    w.pauseUs = static_cast<int>(c.draw(30000));
    w.st = bed.client();
    std::string s;
    for (auto& k : w.want) s += k + " ";
    c.note("waiter: %s %s x%d after %d us\n", w.get ? "get" : "wait", s.c_str(), w.rounds, w.pauseUs);
  }
  struct Step {
    int kind, key, pauseUs;
    size_t size;
  };
  std::vector<Step> script;
  size_t m = c.draw(10);
  for (size_t i = 0; i < m; i++)
    script.push_back({static_cast<int>(c.weighted({4, 4, 2})), static_cast<int>(c.draw(keys.size())), static_cast<int>(c.draw(20000)), c.draw(40)});
  for (int k = 0; k < nk; k++) script.push_back({c.chance(1, 4) ? 2 : 0, k, static_cast<int>(c.draw(20000)), c.draw(40)});
  std::atomic<uint64_t> stamp{1};
  auto owner = bed.client();
  std::vector<std::thread> ts;
  for (auto& w : ws)
    ts.emplace_back([&w, &stamp] {
      for (int r = 0; r < w.rounds; r++) {
        usleep(static_cast<useconds_t>(w.pauseUs));
        OpRec o;
        Bytes got;
        o.inv = stamp.fetch_add(1);
        if (w.get) got = w.st->get(w.want[0]);
        else w.st->wait(w.want);
        o.resp = stamp.fetch_add(1);
        w.end.push_back(Clock::now());
        w.rec.push_back(o);
        w.got.push_back(got);
      }
    });
  std::map<std::string, std::vector<Span>> spans;
  std::map<std::string, int64_t> numeric;
  std::string wrong;
  auto began = Clock::now();
  for (size_t i = 0; i < script.size(); i++) {
    auto& s = script[i];
    usleep(static_cast<useconds_t>(s.pauseUs));
    auto& k = keys[static_cast<size_t>(s.key)];
    auto& v = spans[k];
    bool have = !v.empty() && v.back().to == UINT64_MAX;
    Bytes value = pattern(i + 1, s.size);
    value.push_back('x');
    uint64_t a = stamp.fetch_add(1);
    bool deleted = false;
    if (s.kind == 2 && (!have || numeric.count(k))) {
      int64_t sum = owner->add(k, static_cast<int64_t>(i) + 1);
      numeric[k] = (have ? numeric[k] : 0) + static_cast<int64_t>(i) + 1;
      value = decimal(numeric[k]);
      if (sum != numeric[k]) wrong = "an addition returned " + std::to_string(sum);
    } else if (s.kind == 1) {
      deleted = true;
      if (owner->deleteKey(k) != have) wrong = "a deletion reported the wrong thing";
      numeric.erase(k);
    } else {
      owner->set(k, value);
      numeric.erase(k);
    }
    uint64_t b = stamp.fetch_add(1);
    if (have) v.back().to = b;
    if (!deleted) v.push_back({a, UINT64_MAX, value});
  }
  auto done = Clock::now();
  for (auto& t : ts) t.join();
  VP_CHECK(c, wrong.empty(), "%s", wrong.c_str());
  int blocked = 0;
  uint64_t lastStamp = 0;
  for (auto& p : spans) lastStamp = std::max(lastStamp, p.second.back().from);
  for (auto& w : ws)
    for (size_t r = 0; r < w.rec.size(); r++) {
      auto& o = w.rec[r];
      auto from = std::max(done, began);
      double late = std::chrono::duration<double>(w.end[r] - from).count() - (static_cast<double>(r) + 1) * w.pauseUs * 1e-6;
      VP_CHECK(c, late < 5, "a %s returned %.1f s after all keys had been set for good", w.get ? "get" : "wait", late);
      if (w.get) {
        bool ok = false;
        for (auto& s : spans[w.want[0]]) ok |= s.from < o.resp && o.inv < s.to && s.value == w.got[r];
        VP_CHECK(c, ok, "a waiting get returned %s, which was not the value of %s at any time during the call", show(w.got[r]).c_str(), w.want[0].c_str());
      }
      std::vector<uint64_t> times = {o.inv};
      for (auto& k : w.want)
        for (auto& s : spans[k])
          if (s.from >= o.inv && s.from < o.resp) times.push_back(s.from);
      bool possible = false;
      for (auto t : times) {
        bool all = true;
        for (auto& k : w.want) {
          bool in = false;
          for (auto& s : spans[k]) in |= s.from <= t && t < s.to;
          all &= in;
        }
        possible |= all;
      }
      VP_CHECK(c, possible, "a %s for %zu keys returned at a time when they had not all existed", w.get ? "get" : "wait", w.want.size());
      blocked += times.size() > 1;
    }
  c.cls(kind == Kind::File ? "file" : "tcp");
  if (blocked > 0) c.cls("woken while waiting");
  if (blocked > 0) c.nontrivial();
}

void timeouts(Case& c) {
  Kind kind = c.coin() ? Kind::File : Kind::Tcp;
  int t = static_cast<int>(60 + c.draw(200));
  bool forever = c.chance(1, 4);
  Bed bed(kind, forever ? ds::Store::kNoTimeout : Ms(t));
  auto st = bed.client(), other = bed.client();
  if (c.coin()) st->set("have", std::string("yes"));
  size_t rounds = 1 + c.draw(3);
  c.note("%s, timeout %d ms%s, %zu rounds\n", kind == Kind::File ? "file" : "tcp", t, forever ? " (none)" : "", rounds);
  for (size_t r = 0; r < rounds; r++) {
    bool get = c.coin();
    std::vector<std::string> want = {"missing"};
    if (!get && c.coin()) want.insert(want.begin() + static_cast<long>(c.draw(2)), "have");
    bool set = forever || c.chance(1, 4);
    int after = static_cast<int>(forever ? 30 + c.draw(300) : c.draw(static_cast<uint64_t>(t) / 3));
    c.note("%s%s%s\n", get ? "get" : "wait", want.size() > 1 ? " for two" : "", set ? ", set meanwhile" : "");
    if (set) other->set("have", std::string("yes"));
    std::atomic<int64_t> setAt{0};
    std::thread th;
    auto begin = Clock::now();
    if (set)
      th = std::thread([&] {
        usleep(static_cast<useconds_t>(after) * 1000);
        setAt = std::chrono::duration_cast<std::chrono::microseconds>(Clock::now() - begin).count();
        other->set("missing", std::string("now"));
      });
    Bytes got;
    if (get) got = st->get("missing");
    else st->wait(want);
    auto took = std::chrono::duration_cast<std::chrono::microseconds>(Clock::now() - begin).count();
    bool there = !set || setAt > 0;
    if (th.joinable()) th.join();
    if (set) {
      if (forever || took < t * 1000) {
        VP_CHECK(c, there && took >= setAt, "a %s returned after %lld us, before the key was set", get ? "get" : "wait", static_cast<long long>(took));
        if (get) VP_CHECK(c, got == Bytes({'n', 'o', 'w'}), "a waiting get returned %s", show(got).c_str());
      }
      VP_CHECK(c, took < setAt + 5000000, "a %s returned %lld us after the key was set", get ? "get" : "wait", static_cast<long long>(took - setAt));
      VP_CHECK(c, st->deleteKey("missing"), "the key that had been waited for could not be deleted");
    } else {
      VP_CHECK(c, took >= t * 1000 - 1000, "a %s for a missing key gave up after %lld us, the timeout is %d ms", get ? "get" : "wait", static_cast<long long>(took), t);
      VP_CHECK(c, took < t * 1000 + 5000000, "a %s for a missing key gave up after %lld us, the timeout is %d ms", get ? "get" : "wait", static_cast<long long>(took), t);
      VP_CHECK(c, got.empty(), "a get of a missing key returned %s", show(got).c_str());
    }
    // the store goes on as if nothing had happened
    auto text = "r" + std::to_string(r);
    st->set("after", text);
    VP_CHECK(c, st->getString("after") == text && other->getString("after") == text, "after a timeout the store lost a value");
    VP_CHECK(c, !st->check({"missing"}) && st->check({"after"}), "after a timeout check is wrong");
    int64_t a = st->add("cnt", 2);
    VP_CHECK(c, a == 2 * static_cast<int64_t>(r + 1), "after a timeout add returned %lld", static_cast<long long>(a));
    VP_CHECK(c, st->deleteKey("after") && !other->deleteKey("after"), "after a timeout deleteKey is wrong");
    int64_t want2 = 1 + (st->check({"have"}) ? 1 : 0);
    VP_CHECK(c, st->getNumKeys() == want2, "after a timeout there are %lld keys, want %lld", static_cast<long long>(st->getNumKeys()), static_cast<long long>(want2));
  }
  c.nontrivial();
}

// ---- servers and clients coming and going -----------------------------------------------------------

void manyClients(Case& c) {
  Bed bed(Kind::Tcp, Ms(8000));
  size_t n = c.oneOf({size_t(3), size_t(20), size_t(140)}), rounds = n > 100 ? 1 : 1 + c.draw(4);
  std::map<std::string, std::string> model;
  std::vector<std::unique_ptr<ds::Store>> kept;
  c.note("%zu rounds of %zu clients\n", rounds, n);
  int64_t total = 0;
  for (size_t r = 0; r < rounds; r++) {
    for (size_t i = 0; i < n; i++) {
      auto st = bed.client();
      if (i == 0 || c.chance(1, 8)) {
        total += 1;
        int64_t got = st->add("n", 1);
        VP_CHECK(c, got == total, "client %zu of round %zu: add returned %lld, want %lld", i, r, static_cast<long long>(got), static_cast<long long>(total));
      } else {
        int64_t got = st->getNumKeys();
        VP_CHECK(c, got == 1, "client %zu of round %zu: %lld keys, want 1", i, r, static_cast<long long>(got));
      }
      if (c.chance(1, 2)) kept.push_back(std::move(st));
      else if (!kept.empty() && c.chance(1, 8)) kept.erase(kept.begin() + static_cast<long>(c.draw(kept.size())));
    }
  }
  for (auto& k : kept) {
    VP_CHECK(c, k->getNumKeys() == 1, "a client that stayed connected sees another number of keys than 1");
    if (!c.chance(1, 8)) continue;
    int64_t got = k->add("n", 0);
    VP_CHECK(c, got == total, "a client that stayed connected: add returned %lld, want %lld", static_cast<long long>(got), static_cast<long long>(total));
  }
  if (c.coin()) std::reverse(kept.begin(), kept.end());
  // the server goes first, or the clients
  if (c.coin()) {
    c.cls("server first");
    bed.server.reset();
    if (!kept.empty()) {
      auto& k = *kept[0];
      switch (c.draw(6)) {
        case 0: k.set("x", std::string("y")); break;
        case 1: VP_CHECK(c, k.get("n").empty(), "a get without a server returned a value"); break;
        case 2: k.add("n", 1); break;
        case 3: VP_CHECK(c, !k.deleteKey("n"), "a deletion without a server succeeded"); break;
        case 4: VP_CHECK(c, !k.check({"n"}), "a check without a server succeeded"); break;
        default: k.wait({"n"}); break;
      }
    }
  }
  auto t = Clock::now();
  kept.clear();
  bed.server.reset();
  VP_CHECK(c, since(t) < 10, "closing took %.1f s", since(t));
  // a new server on the same port starts empty
  bed.server = std::make_unique<ds::TCPStore>("127.0.0.1", bed.port->port, true, false, -1, Ms(8000));
  VP_CHECK(c, bed.server->getNumKeys() == 0, "a new server on the same port has %lld keys", static_cast<long long>(bed.server->getNumKeys()));
  if (n > 100) c.cls("140 clients");
  c.nontrivial();
}

// A server that goes away while others wait lets them go.
void shutdowns(Case& c) {
  Bed bed(Kind::Tcp, c.coin() ? ds::Store::kNoTimeout : Ms(20000));
  size_t n = 1 + c.draw(4);
  std::vector<std::unique_ptr<ds::Store>> st;
  std::vector<int> kinds;
  for (size_t i = 0; i < n; i++) {
    st.push_back(bed.client());
    kinds.push_back(static_cast<int>(c.draw(3)));
  }
  auto pause = c.draw(60000);
  std::vector<std::thread> ts;
  std::atomic<int> wrong{0};
  for (size_t i = 0; i < n; i++)
    ts.emplace_back([&, i] {
      if (kinds[i] == 0) wrong += !st[i]->get("never").empty();
      else if (kinds[i] == 1) st[i]->wait({"never", "nor this"});
      else
        for (int j = 0; j < 200; j++) st[i]->set("k" + std::to_string(j), std::string("v"));
    });
  usleep(static_cast<useconds_t>(pause));
  auto t = Clock::now();
  bed.server.reset();
  for (auto& x : ts) x.join();
  double took = since(t);
  c.note("%zu clients, server gone after %llu us; all returned within %.2f s\n", n, static_cast<unsigned long long>(pause), took);
  VP_CHECK(c, wrong == 0, "a get of a key nobody set returned a value");
  VP_CHECK(c, took < 10, "clients were released only %.1f s after the server went away", took);
  c.nontrivial();
}

void workers(Case& c) {
  Port port;
  int n = static_cast<int>(1 + c.draw(4));
  int missing = c.chance(1, 4) && n > 1 ? 1 : 0;
  int limit = missing ? static_cast<int>(150 + c.draw(300)) : 20000;
  bool early = !missing && n > 1 && c.chance(1, 6);
  std::vector<int> pauses;
  for (int i = 1; i < n - missing; i++) pauses.push_back(static_cast<int>(c.draw(60000)));
  c.note("%d workers, %d missing, early %d\n", n, missing, early);
  std::atomic<uint64_t> stamp{1};
  std::vector<uint64_t> started(pauses.size()), ended(pauses.size());
  std::atomic<bool> release{false}, up{false};
  std::vector<std::thread> ts;
  std::vector<int> ok(pauses.size(), 0);
  auto launch = [&] {
    for (size_t i = 0; i < pauses.size(); i++)
      ts.emplace_back([&, i] {
        usleep(static_cast<useconds_t>(pauses[i]));
        started[i] = stamp.fetch_add(1);
        ds::TCPStore st("127.0.0.1", port.port, false, true, n, Ms(20000));
        ended[i] = stamp.fetch_add(1);
        ok[i] = st.add("seen", 1) > 0;
        while (!release) usleep(500);
      });
  };
  std::unique_ptr<ds::TCPStore> server;
  uint64_t back = 0;
  double took = 0;
  // early clients start before the server listens and have to try again
  if (early) {
    launch();
    usleep(70000);
  }
  std::thread boss([&] {
    auto t = Clock::now();
    server = std::make_unique<ds::TCPStore>("127.0.0.1", port.port, true, true, n, Ms(limit));
    took = since(t);
    back = stamp.fetch_add(1);
    up = true;
  });
  if (!early) {
    usleep(20000);
    launch();
  }
  boss.join();
  // wait until every client has done its addition
  auto t = Clock::now();
  int64_t seen = 0;
  while (since(t) < 12 && seen < static_cast<int64_t>(pauses.size())) {
    seen = server->check({"seen"}) ? server->add("seen", 0) : 0;
    usleep(1000);
  }
  release = true;
  for (auto& x : ts) x.join();
  VP_CHECK(c, seen == static_cast<int64_t>(pauses.size()), "%lld of %zu workers reached the store", static_cast<long long>(seen), pauses.size());
  for (size_t i = 0; i < ok.size(); i++) VP_CHECK(c, ok[i], "worker %zu could not use the store", i);
  if (missing) {
    VP_CHECK(c, took * 1000 >= limit - 1, "the server gave up waiting for its workers after %.0f ms, the timeout is %d ms", took * 1000, limit);
    VP_CHECK(c, took * 1000 < limit + 5000, "the server gave up waiting for its workers after %.0f ms, the timeout is %d ms", took * 1000, limit);
  } else {
    for (size_t i = 0; i < started.size(); i++) VP_CHECK(c, started[i] < back, "the server stopped waiting before worker %zu of %d had started", i, n);
    VP_CHECK(c, took < 15, "the server waited %.1f s although all %d workers were there", took, n);
  }
  if (n > 1) c.nontrivial();
}

// A store that could not start fails its operations.
void portInUse(Case& c) {
  Bed bed(Kind::Tcp, Ms(300));
  bed.server->set("k", std::string("v"));
  ds::TCPStore made("127.0.0.1", bed.port->port, true, c.coin(), c.coin() ? 1 : -1, Ms(300));
  ds::Store& second = made;
  size_t n = 1 + c.draw(4);
  for (size_t i = 0; i < n; i++) switch (c.draw(7)) {
      case 0: second.set("x", std::string("y")); break;
      case 1: VP_CHECK(c, second.get("x").empty(), "a get from a store that could not start returned a value"); break;
      case 2: second.add("k2", 1); break;
      case 3: second.deleteKey("zzz"); break;
      case 4: second.check({"zzz"}); break;
      case 5: second.getNumKeys(); break;
      default: second.wait({"zzz"}); break;
    }
  VP_CHECK(c, bed.server->getString("k") == "v", "the store that was there first lost its value");
  c.nontrivial();
}

// Signals that interrupt system calls anywhere in the process change nothing.
void signals(Case& c) {
  Kind kind = c.chance(1, 3) ? Kind::File : Kind::Tcp;
  bool restart = c.coin();
  struct sigaction sa {}, old {};
  sa.sa_handler = [](int) {};
  if (restart) sa.sa_flags = SA_RESTART;
  sigaction(SIGUSR2, &sa, &old);
  auto pause = static_cast<useconds_t>(c.oneOf({20, 100, 300, 1000}));
  size_t n = 3 + c.draw(c.thorough ? 60 : 25);
  std::atomic<bool> stop{false};
  std::atomic<int> sent{0};
  pid_t self = 0;
  std::thread pester;
  std::vector<std::string> bad;
  {
    Bed bed(kind, Ms(20000));
    pester = std::thread([&] {
      self = static_cast<pid_t>(syscall(SYS_gettid));
      while (!stop) {
        DIR* d = opendir("/proc/self/task");
        if (!d) return;
        while (dirent* e = readdir(d)) {
          pid_t t = atoi(e->d_name);
          if (t > 0 && t != self && syscall(SYS_tgkill, getpid(), t, SIGUSR2) == 0) sent++;
        }
        closedir(d);
        usleep(pause);
      }
    });
    auto st = bed.client(), other = bed.client();
    std::map<std::string, Bytes> model;
    int64_t count = 0;
    auto expect = [&](bool ok, const std::string& what) {
      if (!ok) bad.push_back(what);
    };
    for (size_t i = 0; i < n && bad.empty(); i++) {
      std::string key = "k" + std::to_string(c.draw(3));
      switch (c.draw(7)) {
        case 0:
        case 1: {
          auto b = pattern(i, c.oneOf({size_t(0), size_t(5), size_t(3000), size_t(700000)}));
          st->set(key, b);
          model[key] = b;
          break;
        }
        case 2:
          if (model.count(key)) expect(st->get(key) == model[key], "get(" + key + ") returned something else");
          break;
        case 3: {
          int64_t got = st->add("n", 3);
          count += 3;
          model["n"] = Bytes();
          expect(got == count, "add returned " + std::to_string(got) + ", want " + std::to_string(count));
          break;
        }
        case 4: expect(st->check({key}) == (model.count(key) > 0), "check(" + key + ") is wrong"); break;
        case 5: expect(st->deleteKey(key) == (model.erase(key) > 0), "deleteKey(" + key + ") is wrong"); break;
        default: {
          std::string late = "late" + std::to_string(i);
          std::thread th([&] {
            usleep(3000);
            other->set(late, std::string("x"));
          });
          if (c.coin()) st->wait({late});
          else expect(st->getString(late) == "x", "a waiting get returned something else");
          th.join();
          expect(st->check({late}), "a wait returned before its key was there");
          model[late] = Bytes({'x'});
        }
      }
      int64_t keys = st->getNumKeys();
      expect(keys == static_cast<int64_t>(model.size()), "there are " + std::to_string(keys) + " keys, want " + std::to_string(model.size()));
    }
    auto late = bed.client();
    expect(late->getNumKeys() == static_cast<int64_t>(model.size()), "a new client sees another number of keys");
  }
  stop = true;
  pester.join();
  sigaction(SIGUSR2, &old, nullptr);
  c.note("%s, %zu operations, %d signals %s\n", kind == Kind::File ? "file" : "tcp", n, sent.load(), restart ? "with SA_RESTART" : "");
  VP_CHECK(c, bad.empty(), "under signals: %s", bad[0].c_str());
  c.cls(kind == Kind::File ? "file, signals" : "tcp, signals");
  if (sent > 20) c.nontrivial();
}

}  // namespace

int main(int argc, char** argv) {
  Suite s;
  s.property = "C19";
  s.rule = "sequential histories: several keys, changes and a read; concurrent ones: operations of different clients overlapped in time; waits: a waiter was blocked when a key appeared";
  s.assumptions = {"each client object is used by one thread at a time", "additions are made to absent, empty or decimal values only",
                   "keys of the file store fit the file system's name limit", "loopback networking and a scratch directory on a local file system",
                   "bounds on wake-ups are 5 s, so slow scheduling is not taken for a lost wake-up"};
  Prop p[] = {{"file-model", fileModel, 5000, 60000}, {"tcp-model", tcpModel, 160, 2500}, {"file-concurrent", fileConcurrent, 1500, 30000},
              {"tcp-concurrent", tcpConcurrent, 250, 5000}, {"counters", counters, 200, 4000}, {"whole-values", wholeValues, 160, 3000},
              {"killed-processes", killedProcesses, 500, 8000}, {"wake-ups", wakeUps, 200, 4000}, {"timeouts", timeouts, 60, 1000},
              {"many-clients", manyClients, 40, 600}, {"shutdowns", shutdowns, 60, 1000}, {"workers", workers, 60, 1000},
              {"port-in-use", portInUse, 16, 100}, {"signals", signals, 60, 1500}};
  for (auto& x : p) {
    x.retries = 40;
    if (x.name != "file-model" && x.name != "file-concurrent" && x.name != "killed-processes") x.workers = 24;  // these mostly sleep
    s.props.push_back(x);
  }
  makeScratchRoot();
  int r = runSuite(s, argc, argv);
  removeTree(scratchRoot());
  return r;
}
