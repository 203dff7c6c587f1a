// C27: process groups. The library's group, NCCL back end, work handles and stores run unchanged over a simulated
// device: streams execute late and in order, communicators come up and finish in the background.
#include <sanitizer/allocator_interface.h>

#include <condition_variable>
#include <deque>
#include <map>
#include <mutex>
#include <thread>

#include "nccl.h"
#include "ref.h"
#include "scratch.h"
#include "port.h"
#include "Distributed/BackendNCCL.h"
#include "Distributed/DistributedProcessGroup.h"

using namespace vp;
namespace ds = tinytorch::distributed;

// ---------------------------------------------------------------------------------------------- the simulated device
namespace sim {
std::mutex gM;
std::condition_variable gC;
uint64_t gState = 1;
unsigned gEager = 2;  // chance out of 4 that a call lets the device work
int gLiveStreams = 0, gLiveEvents = 0, gLiveComms = 0;
int gFailIds = 0;
std::string gBad;
uint64_t rnd(uint64_t n) {
  gState ^= gState << 13;
  gState ^= gState >> 7;
  gState ^= gState << 17;
  return gState % n;
}
void bad(const std::string& s) {
  if (gBad.empty()) gBad = s;
}

struct EventState {
  uint64_t recorded = 0, done = 0;
};
struct Event {
  std::shared_ptr<EventState> s = std::make_shared<EventState>();
};
struct Args {
  int kind = 0;  // 0 broadcast 1 all-reduce 2 reduce 3 all-gather 4 reduce-scatter 5 send 6 receive
  const void* send = nullptr;
  void* recv = nullptr;
  size_t count = 0;
  ncclDataType_t dt = ncclFloat32;
  ncclRedOp_t red = ncclSum;
  int root = 0;
};
struct Part {
  int rank = 0;
  Args a;
  bool ready = false;
};
struct Op {
  size_t need = 0;
  std::vector<std::shared_ptr<Part>> parts;
  bool done = false, dropped = false;
};
struct Task {
  std::function<void()> run;
  std::shared_ptr<EventState> rec, wait;
  uint64_t gen = 0;
  std::shared_ptr<Op> op;
  std::shared_ptr<Part> part;
};
struct Stream {
  std::deque<Task> q;
};
std::vector<Stream*> gStreams;

DType typeOf(ncclDataType_t t) {
  switch (t) {
    case ncclFloat32: return DType::Float32;
    case ncclFloat16: return DType::Float16;
    case ncclBfloat16: return DType::BFloat16;
    case ncclInt32: return DType::Int32;
    case ncclInt64: return DType::Int64;
    case ncclUint8:
    case ncclInt8: return DType::Bool;
    default: bad("a data type the library does not have"); return DType::Float32;
  }
}
double reduced(const std::vector<double>& v, int red, DType dt) {
  double x = v[0];
  for (size_t i = 1; i < v.size(); i++) switch (red) {
      case ncclProd: x *= v[i]; break;
      case ncclMax: x = std::max(x, v[i]); break;
      case ncclMin: x = std::min(x, v[i]); break;
      default: x += v[i];
    }
  if (red == ncclAvg) x /= static_cast<double>(v.size());
  return isFloatT(dt) ? roundDt(x, dt) : std::trunc(x);
}

void execute(Op& op) {
  auto& P = op.parts;
  std::sort(P.begin(), P.end(), [](auto& x, auto& y) { return x->rank < y->rank; });
  const Args& f = P[0]->a;
  bool p2p = f.kind >= 5;
  for (auto& p : P) {
    if (p->a.count != f.count || p->a.dt != f.dt) return bad("the ranks disagree about the size or type of an operation");
    if (!p2p && (p->a.kind != f.kind || p->a.red != f.red || p->a.root != f.root)) return bad("the ranks issue different operations");
  }
  DType t = typeOf(f.dt);
  size_t n = f.count, N = P.size(), w = tt::dtypeSize(t);
  if (n == 0) return;
  switch (f.kind) {
    case 0:
      for (auto& p : P) {
        const void* src = P[static_cast<size_t>(f.root)]->a.send;
        if (p->a.recv != src) memcpy(p->a.recv, src, n * w);
      }
      break;
    case 1:
    case 2: {
      std::vector<std::vector<double>> in;
      for (auto& p : P) in.push_back(decode(p->a.send, static_cast<int64_t>(n), t));
      std::vector<double> out(n), col(N);
      for (size_t i = 0; i < n; i++) {
        for (size_t r = 0; r < N; r++) col[r] = in[r][i];
        out[i] = reduced(col, f.red, t);
      }
      for (size_t r = 0; r < N; r++)
        if (f.kind == 1 || static_cast<int>(r) == f.root) encode(out, t, P[r]->a.recv);
      break;
    }
    case 3:
      for (auto& p : P)
        for (size_t r = 0; r < N; r++) memcpy(static_cast<char*>(p->a.recv) + r * n * w, P[r]->a.send, n * w);
      break;
    case 4: {
      std::vector<std::vector<double>> in;
      for (auto& p : P) in.push_back(decode(p->a.send, static_cast<int64_t>(n * N), t));
      for (size_t r = 0; r < N; r++) {
        std::vector<double> out(n), col(N);
        for (size_t i = 0; i < n; i++) {
          for (size_t k = 0; k < N; k++) col[k] = in[k][r * n + i];
          out[i] = reduced(col, f.red, t);
        }
        encode(out, t, P[r]->a.recv);
      }
      break;
    }
    default: {
      auto& s = P[0]->a.kind == 5 ? P[0] : P[1];
      auto& d = P[0]->a.kind == 5 ? P[1] : P[0];
      memcpy(d->a.recv, s->a.send, n * w);
    }
  }
}

bool advance(Task& t) {
  if (t.op->dropped || t.op->done) return true;
  t.part->ready = true;
  size_t ready = 0;
  for (auto& p : t.op->parts) ready += p->ready;
  if (ready < t.op->need) return false;
  execute(*t.op);
  t.op->done = true;
  return true;
}

// one task of a stream, if it can go on
bool step(Stream* s) {
  if (s->q.empty()) return false;
  Task& t = s->q.front();
  if (t.wait && t.wait->done < t.gen) return false;
  if (t.op && !advance(t)) return false;
  if (t.run) t.run();
  if (t.rec) t.rec->done = std::max(t.rec->done, t.gen);
  s->q.pop_front();
  return true;
}
// the device works until nothing can go on; which stream is ahead is left to chance
void pump() {
  bool go = true;
  while (go) {
    go = false;
    size_t n = gStreams.size(), from = n ? rnd(n) : 0;
    bool back = rnd(2);
    for (size_t i = 0; i < n; i++) {
      Stream* s = gStreams[(from + (back ? n - i : i)) % n];
      for (uint64_t left = rnd(3) ? ~0ull : 1; left && step(s); left--) go = true;
    }
  }
  gC.notify_all();
}
void maybe() {
  uint64_t r = rnd(4);
  if (r < gEager) pump();
  else if (r < 3 && !gStreams.empty()) {
    step(gStreams[rnd(gStreams.size())]);
    gC.notify_all();
  }
}

Stream* streamCreate() {
  std::lock_guard<std::mutex> l(gM);
  auto* s = new Stream;
  gStreams.push_back(s);
  gLiveStreams++;
  return s;
}
void streamDestroy(Stream* s) {
  std::lock_guard<std::mutex> l(gM);
  pump();
  for (auto& t : s->q) {
    if (t.op) t.op->dropped = true;
    if (t.rec) t.rec->done = std::max(t.rec->done, t.gen);
  }
  gStreams.erase(std::find(gStreams.begin(), gStreams.end(), s));
  gLiveStreams--;
  delete s;
  pump();
}
void streamSync(Stream* s) {
  std::unique_lock<std::mutex> l(gM);
  for (;;) {
    pump();
    if (s->q.empty()) return;
    gC.wait_for(l, std::chrono::milliseconds(1));
  }
}
void streamWait(Stream* s, Event* e) {
  std::lock_guard<std::mutex> l(gM);
  Task t;
  t.wait = e->s;
  t.gen = e->s->recorded;
  s->q.push_back(t);
  maybe();
}
void launch(Stream* s, std::function<void()> f) {
  std::lock_guard<std::mutex> l(gM);
  Task t;
  t.run = std::move(f);
  s->q.push_back(t);
  maybe();
}
Event* eventCreate() {
  std::lock_guard<std::mutex> l(gM);
  gLiveEvents++;
  return new Event;
}
void eventDestroy(Event* e) {
  std::lock_guard<std::mutex> l(gM);
  gLiveEvents--;
  delete e;
}
void eventRecord(Event* e, Stream* s) {
  std::lock_guard<std::mutex> l(gM);
  Task t;
  t.rec = e->s;
  t.gen = ++e->s->recorded;
  s->q.push_back(t);
  maybe();
}
bool eventQuery(Event* e) {
  std::lock_guard<std::mutex> l(gM);
  if (rnd(4) < std::max(gEager, 1u)) pump();
  return e->s->done >= e->s->recorded;
}

struct Group {
  int n = 0, joined = 0;
  std::map<std::string, std::shared_ptr<Op>> ops;
  std::map<std::string, uint64_t> next;
};
std::map<std::string, std::shared_ptr<Group>> gGroups;
uint64_t gIds = 0;
thread_local int tDepth = 0;
struct Launch {
  ncclComm* comm;
  Args a;
  Stream* s;
};
thread_local std::vector<Launch> tPending;
}  // namespace sim

struct ncclComm {
  std::shared_ptr<sim::Group> g;
  int rank = 0;
  int polls = 0;
  std::vector<sim::Launch> held;  // issued, not yet on the stream
};

using sim::gM;
static void enqueue(const sim::Launch& k);
const char* ncclGetErrorString(ncclResult_t) { return "simulated"; }
ncclResult_t ncclGetUniqueId(ncclUniqueId* id) {
  std::lock_guard<std::mutex> l(gM);
  if (sim::gFailIds > 0) {
    sim::gFailIds--;
    return ncclSystemError;
  }
  memset(id, 0, sizeof(*id));
  uint64_t k = ++sim::gIds;
  for (size_t i = 0; i < sizeof(id->internal); i++) id->internal[i] = static_cast<char>((k * 0x9E3779B97F4A7C15ull) >> ((i % 8) * 8)) ^ static_cast<char>(i);
  sim::gGroups[std::string(id->internal, sizeof(id->internal))] = std::make_shared<sim::Group>();
  return ncclSuccess;
}
ncclResult_t ncclCommInitRankConfig(ncclComm_t* out, int n, ncclUniqueId id, int rank, ncclConfig_t* cfg) {
  std::lock_guard<std::mutex> l(gM);
  auto it = sim::gGroups.find(std::string(id.internal, sizeof(id.internal)));
  if (it == sim::gGroups.end()) {
    sim::bad("a communicator is opened with an id nobody made");
    return ncclInvalidArgument;
  }
  auto& g = it->second;
  if (g->n && g->n != n) sim::bad("the ranks disagree about the size of the group");
  if (rank < 0 || rank >= n) sim::bad("a communicator is opened with a rank outside the group");
  g->n = n;
  g->joined++;
  *out = new ncclComm{g, rank, static_cast<int>(sim::rnd(4)), {}};
  sim::gLiveComms++;
  return cfg && cfg->blocking == 0 ? ncclInProgress : ncclSuccess;
}
ncclResult_t ncclCommInitRank(ncclComm_t* out, int n, ncclUniqueId id, int rank) {
  ncclResult_t r = ncclCommInitRankConfig(out, n, id, rank, nullptr);
  while (r == ncclSuccess) {
    std::unique_lock<std::mutex> l(gM);
    if ((*out)->g->joined >= n) break;
    sim::gC.wait_for(l, std::chrono::milliseconds(1));
  }
  return r;
}
ncclResult_t ncclCommGetAsyncError(ncclComm_t c, ncclResult_t* out) {
  std::lock_guard<std::mutex> l(gM);
  if (c->g->joined < c->g->n) *out = ncclInProgress;
  else if (c->polls > 0) c->polls--, *out = ncclInProgress;
  else {
    for (auto& k : c->held) enqueue(k);
    c->held.clear();
    *out = ncclSuccess;
  }
  return ncclSuccess;
}
ncclResult_t ncclCommFinalize(ncclComm_t) { return ncclSuccess; }
static ncclResult_t closeComm(ncclComm_t c, bool abort) {
  std::lock_guard<std::mutex> l(gM);
  sim::pump();
  if (abort)
    for (auto& kv : c->g->ops)
      if (!kv.second->done) kv.second->dropped = true;
  sim::gLiveComms--;
  delete c;
  sim::pump();
  return ncclSuccess;
}
ncclResult_t ncclCommDestroy(ncclComm_t c) { return closeComm(c, false); }
ncclResult_t ncclCommAbort(ncclComm_t c) { return closeComm(c, true); }
ncclResult_t ncclCommCount(ncclComm_t c, int* n) {
  *n = c->g->n;
  return ncclSuccess;
}
ncclResult_t ncclCommUserRank(ncclComm_t c, int* r) {
  *r = c->rank;
  return ncclSuccess;
}
static void enqueue(const sim::Launch& k) {
  auto& g = *k.comm->g;
  std::string key, dir;
  if (k.a.kind == 5) dir = std::to_string(k.comm->rank) + ">" + std::to_string(k.a.root);
  else if (k.a.kind == 6) dir = std::to_string(k.a.root) + ">" + std::to_string(k.comm->rank);
  std::string counter = (k.a.kind == 5 ? "s" : k.a.kind == 6 ? "r" : "c" + std::to_string(k.comm->rank)) + dir;
  key = (dir.empty() ? "c" : dir) + "#" + std::to_string(g.next[counter]++);
  auto& op = g.ops[key];
  if (!op) op = std::make_shared<sim::Op>();
  op->need = k.a.kind >= 5 ? 2 : static_cast<size_t>(g.n);
  sim::Task t;
  t.op = op;
  t.part = std::make_shared<sim::Part>();
  t.part->rank = k.comm->rank;
  t.part->a = k.a;
  op->parts.push_back(t.part);
  if (op->parts.size() == op->need) g.ops.erase(key);
  k.s->q.push_back(t);
  sim::maybe();
}
ncclResult_t ncclGroupStart() {
  sim::tDepth++;
  return ncclSuccess;
}
ncclResult_t ncclGroupEnd() {
  std::lock_guard<std::mutex> l(gM);
  if (--sim::tDepth < 0) {
    sim::bad("a group of calls ends that has not begun");
    sim::tDepth = 0;
    return ncclInvalidUsage;
  }
  if (sim::tDepth) return ncclSuccess;
  bool busy = false;  // the operation is launched in the background; polling tells when it is on its stream
  for (auto& k : sim::tPending) {
    k.comm->polls = static_cast<int>(sim::rnd(4));
    if (k.comm->polls > 0) {
      k.comm->held.push_back(k);
      busy = true;
    } else {
      enqueue(k);
    }
  }
  sim::tPending.clear();
  return busy ? ncclInProgress : ncclSuccess;
}
static ncclResult_t submit(ncclComm_t c, sim::Args a, cudaStream_t s) {
  std::lock_guard<std::mutex> l(gM);
  if (!c || !s) {
    sim::bad("an operation without a communicator or stream");
    return ncclInvalidArgument;
  }
  if (c->g->joined < c->g->n) {
    sim::bad("an operation is issued before the communicator is ready");
    return ncclInvalidUsage;
  }
  if (!c->held.empty()) {
    sim::bad("an operation is issued while the communicator is busy");
    return ncclInvalidUsage;
  }
  if (a.root < 0 || a.root >= c->g->n) {
    sim::bad("the root or peer is outside the group");
    return ncclInvalidArgument;
  }
  if (sim::tDepth) sim::tPending.push_back({c, a, s});
  else enqueue({c, a, s});
  return ncclSuccess;
}
ncclResult_t ncclBroadcast(const void* i, void* o, size_t n, ncclDataType_t t, int root, ncclComm_t c, cudaStream_t s) { return submit(c, {0, i, o, n, t, ncclSum, root}, s); }
ncclResult_t ncclBcast(void* b, size_t n, ncclDataType_t t, int root, ncclComm_t c, cudaStream_t s) { return submit(c, {0, b, b, n, t, ncclSum, root}, s); }
ncclResult_t ncclAllReduce(const void* i, void* o, size_t n, ncclDataType_t t, ncclRedOp_t r, ncclComm_t c, cudaStream_t s) { return submit(c, {1, i, o, n, t, r, 0}, s); }
ncclResult_t ncclReduce(const void* i, void* o, size_t n, ncclDataType_t t, ncclRedOp_t r, int root, ncclComm_t c, cudaStream_t s) { return submit(c, {2, i, o, n, t, r, root}, s); }
ncclResult_t ncclAllGather(const void* i, void* o, size_t n, ncclDataType_t t, ncclComm_t c, cudaStream_t s) { return submit(c, {3, i, o, n, t, ncclSum, 0}, s); }
ncclResult_t ncclReduceScatter(const void* i, void* o, size_t n, ncclDataType_t t, ncclRedOp_t r, ncclComm_t c, cudaStream_t s) { return submit(c, {4, i, o, n, t, r, 0}, s); }
ncclResult_t ncclSend(const void* i, size_t n, ncclDataType_t t, int peer, ncclComm_t c, cudaStream_t s) { return submit(c, {5, i, nullptr, n, t, ncclSum, peer}, s); }
ncclResult_t ncclRecv(void* o, size_t n, ncclDataType_t t, int peer, ncclComm_t c, cudaStream_t s) { return submit(c, {6, nullptr, o, n, t, ncclSum, peer}, s); }

namespace tinytorch::cuda {
CUDAStream createCUDAStream(int device) { return CUDAStream(device); }
CUDAEvent createCUDAEvent(int device, unsigned int flags) { return CUDAEvent(device, flags); }
CUDAStream& getCurrentCUDAStream(int device) {
  thread_local CUDAStream s(device);
  return s;
}
}  // namespace tinytorch::cuda

// ------------------------------------------------------------------------------------------------------------ checks
namespace {

using std::chrono::milliseconds;
const std::vector<DType> kTypes = {DType::Float32, DType::Float16, DType::BFloat16, DType::Int32, DType::Int64, DType::Bool};

void resetSim(Case& c) {
  std::lock_guard<std::mutex> l(gM);
  sim::gState = c.bits() | 1;
  sim::gEager = static_cast<unsigned>(c.draw(5));
  sim::gBad.clear();
  sim::gFailIds = 0;
  sim::gGroups.clear();
}

struct Place {  // where the ranks meet
  std::string init;
  std::unique_ptr<Port> port;
  std::string dir;
  bool env = false;
  ~Place() {
    if (!dir.empty()) removeTree(dir);
    for (const char* v : {"MASTER_ADDR", "MASTER_PORT", "WORLD_SIZE", "RANK"}) unsetenv(v);
  }
};
int gPlaces = 0;
void meet(Case& c, Place& p, int W, int way) {
  if (way == 0) {
    p.dir = scratchPath("group" + std::to_string(gPlaces++));
    p.init = "file://" + p.dir;
    return;
  }
  p.port = std::make_unique<Port>();
  if (way == 1) {
    p.init = "tcp://127.0.0.1:" + std::to_string(p.port->port);
    return;
  }
  p.init = "env://";
  p.env = true;
  setenv("MASTER_ADDR", "127.0.0.1", 1);
  setenv("MASTER_PORT", std::to_string(p.port->port).c_str(), 1);
  if (c.coin()) setenv("WORLD_SIZE", std::to_string(W).c_str(), 1);
}

struct Plan {
  int kind;  // as sim::Args, 5: send and receive
  DType dt;
  Shape shape;
  ds::ReduceOpType red;
  int root, peer;
};

double valueOf(uint64_t salt, size_t k, int r, int chunk, size_t i, DType t) {
  uint64_t h = salt ^ (k * 0x9E3779B97F4A7C15ull) ^ (static_cast<uint64_t>(r) * 0xBF58476D1CE4E5B9ull) ^ (static_cast<uint64_t>(chunk) << 40) ^ (i * 0x94D049BB133111EBull);
  h ^= h >> 31;
  h *= 0xD6E8FEB86659FD93ull;
  h ^= h >> 32;
  if (t == DType::Bool) return static_cast<double>(h & 1);
  static const double vals[] = {-2, -1, 1, 2, 3, 4};
  return vals[h % 6];
}
std::vector<double> input(uint64_t salt, size_t k, int r, int chunk, const Plan& p) {
  std::vector<double> v(static_cast<size_t>(numelOf(p.shape)));
  for (size_t i = 0; i < v.size(); i++) v[i] = valueOf(salt, k, r, chunk, i, p.dt);
  return v;
}
double combine(std::vector<double> v, ds::ReduceOpType red, DType dt) {
  double x = v[0];
  for (size_t i = 1; i < v.size(); i++) {
    if (red == ds::PRODUCT) x *= v[i];
    else if (red == ds::MAX) x = v[i] > x ? v[i] : x;
    else if (red == ds::MIN) x = v[i] < x ? v[i] : x;
    else x += v[i];
  }
  if (red == ds::AVG) x /= static_cast<double>(v.size());
  return isFloatT(dt) ? roundDt(x, dt) : std::trunc(x);
}
std::vector<double> expected(uint64_t salt, size_t k, int W, int r, const Plan& p) {
  auto over = [&](int chunk) {
    std::vector<double> out(static_cast<size_t>(numelOf(p.shape)));
    for (size_t i = 0; i < out.size(); i++) {
      std::vector<double> col;
      for (int q = 0; q < W; q++) col.push_back(valueOf(salt, k, q, chunk, i, p.dt));
      out[i] = combine(col, p.red, p.dt);
    }
    return out;
  };
  switch (p.kind) {
    case 0: return input(salt, k, p.root, 0, p);
    case 1: return over(0);
    case 2: return over(0);
    case 3: {
      std::vector<double> all;
      for (int q = 0; q < W; q++) {
        auto v = input(salt, k, q, 0, p);
        all.insert(all.end(), v.begin(), v.end());
      }
      return all;
    }
    case 4: return over(r);
    default: return input(salt, k, p.root, 0, p);
  }
}

const char* kNames[] = {"broadcast", "allReduce", "reduce", "allGather", "reduceScatter", "send/recv"};

struct Slot {  // one operation of one rank
  size_t k = 0;
  Made m;                     // the tensor handed in (output of reduceScatter)
  std::vector<Tensor> parts;  // inputs of reduceScatter, outputs of allGather
  std::vector<double> around;  // the buffer of which the tensor is a slice
  std::vector<double> before;
  bool kernel = false;  // the input is written by a kernel that has not run yet
  bool takesPart = true;
  int mode = 0, after = 0;
  std::shared_ptr<ds::Work> work;
  std::vector<double> got;
  bool have = false;
};

std::string differ(const std::vector<double>& got, const std::vector<double>& want) {
  if (got.size() != want.size()) return std::to_string(got.size()) + " elements instead of " + std::to_string(want.size());
  for (size_t i = 0; i < want.size(); i++)
    if (!sameValue(got[i], want[i])) return "element " + std::to_string(i) + " is " + std::to_string(got[i]) + " instead of " + std::to_string(want[i]);
  return "";
}

struct RankResult {
  std::string bad;
  void fail(const std::string& s) {
    if (bad.empty()) bad = s;
  }
};

// What the operation left for its caller.
Tensor resultOf(const Plan& p, Slot& s) { return p.kind == 3 ? s.work->result().at(0) : s.m.t; }

void waitFor(const Plan& p, Slot& s, RankResult& res, const char* name) {
  if (!s.work || s.have) return;
  auto& stream = tt::cuda::getCurrentCUDAStream(0);
  Tensor out = resultOf(p, s);
  if (s.mode == 0) {  // the stream waits, not the host: later work on the stream sees the result
    if (!s.work->wait()) res.fail(std::string(name) + ": wait() failed: " + s.work->exception());
    auto* slot = &s;
    sim::launch(stream.stream(), [slot, out] { slot->got = readVec(out); });
    stream.synchronize();
  } else if (s.mode == 1) {
    if (!s.work->wait(milliseconds(20000))) res.fail(std::string(name) + ": wait(20 s) failed: " + s.work->exception());
    if (!s.work->isCompleted()) res.fail(std::string(name) + " is not completed after a successful wait");
    s.got = readVec(out);
  } else {
    auto t0 = std::chrono::steady_clock::now();
    while (!s.work->isCompleted()) {
      if (std::chrono::steady_clock::now() - t0 > std::chrono::seconds(30)) {
        res.fail(std::string(name) + " never completes");
        break;
      }
      std::this_thread::yield();
    }
    s.got = readVec(out);
  }
  if (!s.work->isSuccess() || !s.work->exception().empty()) res.fail(std::string(name) + " reports a failure: " + s.work->exception());
  s.have = true;
}

std::shared_ptr<ds::Work> issue(ds::DistributedProcessGroup& g, const Plan& p, Slot& s, int rank) {
  std::vector<Tensor> one = {s.m.t};
  switch (p.kind) {
    case 0: return g.broadcast(one, p.root);
    case 1: return g.allReduce(one, p.red);
    case 2: return g.reduce(one, p.root, p.red);
    case 3: {
      std::vector<std::vector<Tensor>> outs = {s.parts};
      return g.allGather(outs, one);
    }
    case 4: {
      std::vector<std::vector<Tensor>> ins = {s.parts};
      return g.reduceScatter(one, ins, p.red);
    }
    default: return rank == p.root ? g.send(one, p.peer) : g.recv(one, p.root);
  }
}

std::string bring(ds::DistributedProcessGroup& g, const Place& pl, int W, int r, milliseconds timeout) {
  bool ok = g.initProcessGroup(ds::NCCL, pl.init, r, pl.env && getenv("WORLD_SIZE") ? -1 : W, timeout);
  if (!ok || !g.isInitialized()) return "the group cannot be set up over " + pl.init;
  if (g.getRank() != r || g.getWorldSize() != W) return "the group has another rank or size";
  auto pg = g.getProcessGroup();
  auto be = pg->getBackend(ds::NCCL);
  if (!be || be->getRank() != r || be->getSize() != W) return "the back end has another rank or size";
  // tensors in host memory take the place of device tensors
  pg->setBackend(tt::DeviceType::CPU, ds::NCCL, be);
  return "";
}

void collectives(Case& c) {
  resetSim(c);
  int W = static_cast<int>(1 + c.weighted({1, 4, 3, 2}));
  int way = c.chance(1, 12) ? static_cast<int>(1 + c.draw(2)) : 0;
  size_t K = 1 + c.draw(8);
  uint64_t salt = c.bits();
  std::vector<Plan> plan;
  c.note("%d ranks, %s;", W, way == 0 ? "file" : way == 1 ? "tcp" : "env");
  int kinds = 0;
  for (size_t k = 0; k < K; k++) {
    Plan p;
    // opening the communicator takes every rank
    p.kind = static_cast<int>(c.draw(W > 1 && k != 0 && k != K / 2 ? 6 : 5));
    p.dt = c.pick(kTypes);
    p.shape = c.chance(1, 30) ? Shape{c.range(1000, 5000)} : genShape(c, 0, 3, 24, c.chance(1, 12));
    p.red = c.oneOf<ds::ReduceOpType>({ds::SUM, ds::AVG, ds::PRODUCT, ds::MIN, ds::MAX});
    if (p.dt == DType::Bool && (p.red == ds::SUM || p.red == ds::AVG)) p.red = ds::MAX;
    p.root = static_cast<int>(c.draw(W));
    p.peer = static_cast<int>(W > 1 ? (p.root + 1 + c.draw(W - 1)) % W : 0);
    kinds |= 1 << p.kind;
    c.note(" %s %s %s", kNames[p.kind], dtName(p.dt), str(p.shape).c_str());
    if (p.kind == 1 || p.kind == 2 || p.kind == 4) c.note("op %d", p.red);
    if (p.kind == 0 || p.kind == 2 || p.kind == 5) c.note("root %d", p.root);
    if (p.kind == 5) c.note("to %d", p.peer);
    plan.push_back(p);
  }
  std::vector<std::vector<Slot>> slots(static_cast<size_t>(W));
  for (int r = 0; r < W; r++)
    for (size_t k = 0; k < K; k++) {
      const Plan& p = plan[k];
      Slot s;
      s.k = k;
      s.takesPart = p.kind != 5 || r == p.root || r == p.peer;
      bool inFromTensor = p.kind != 4;
      s.before = input(salt, k, r, 0, p);
      if (p.kind == 4) s.before = input(salt + 1, k, r, 50, p);
      s.kernel = inFromTensor && c.chance(1, 3);
      std::vector<double> init = s.kernel ? input(salt + 2, k, r, 60, p) : s.before;
      s.m = makeTensor(c, p.shape, p.dt, init, !s.kernel);
      if (s.m.view) s.around = readVec(s.m.base);
      if (p.kind == 3)
        for (int q = 0; q < W; q++) s.parts.push_back(rawTensor(p.shape, p.dt, input(salt + 3, k, r, 70 + q, p)));
      if (p.kind == 4)
        for (int q = 0; q < W; q++) s.parts.push_back(makeTensor(c, p.shape, p.dt, input(salt, k, r, q, p)).t);
      s.mode = static_cast<int>(c.draw(3));
      s.after = c.coin() ? 0 : static_cast<int>(c.draw(4));
      slots[static_cast<size_t>(r)].push_back(std::move(s));
    }
  bool reverse = c.coin(), again = c.chance(1, 8);
  if (way != 0) again = false;
  std::vector<RankResult> res(static_cast<size_t>(W));
  {
    Place pl, pl2;
    meet(c, pl, W, way);
    if (again) meet(c, pl2, W, 0);
    std::vector<std::thread> ts;
    for (int r = 0; r < W; r++)
      ts.emplace_back([&, r] {
        auto R = static_cast<size_t>(r);
        RankResult& o = res[R];
        ds::DistributedProcessGroup g;
        std::string e = bring(g, pl, W, r, milliseconds(20000));
        if (!e.empty()) return o.fail(e);
        auto& mine = slots[R];
        for (size_t k = 0; k < K; k++) {
          if (again && k == K / 2) {  // the group is closed and set up again
            for (size_t j = 0; j < k; j++) waitFor(plan[j], mine[j], o, kNames[plan[j].kind]);
            // destroying while a peer still works would pull its communicator away
            tt::cuda::getCurrentCUDAStream(0).synchronize();
            g.destroyProcessGroup();
            if (g.isInitialized()) o.fail("a destroyed group is still initialised");
            e = bring(g, pl2, W, r, milliseconds(20000));
            if (!e.empty()) return o.fail(e);
          }
          Slot& s = mine[k];
          const Plan& p = plan[k];
          if (!s.takesPart) continue;
          if (s.kernel) {
            void* at = s.m.t.dataPtr<>();
            auto v = s.before;
            DType dt = p.dt;
            sim::launch(tt::cuda::getCurrentCUDAStream(0).stream(), [at, v, dt] { if (!v.empty()) encode(v, dt, at); });
          }
          s.work = issue(g, p, s, r);
          if (!s.work) {
            o.fail(std::string(kNames[p.kind]) + " gives no work");
            continue;
          }
          if (p.kind == 4) s.parts.clear();  // the caller's inputs may go as soon as the call returns
          if (s.work->getRank() != r) o.fail("the work has another rank");
          auto rs = s.work->result();
          if (rs.size() != 1) o.fail(std::string(kNames[p.kind]) + ": result() holds " + std::to_string(rs.size()) + " tensors");
          for (size_t j = 0; j <= k; j++) {
            size_t q = reverse ? k - j : j;
            if (mine[q].takesPart && q + static_cast<size_t>(mine[q].after) <= k) waitFor(plan[q], mine[q], o, kNames[plan[q].kind]);
          }
        }
        for (size_t j = 0; j < K; j++) {
          size_t q = reverse ? K - 1 - j : j;
          if (mine[q].takesPart) waitFor(plan[q], mine[q], o, kNames[plan[q].kind]);
        }
        tt::cuda::getCurrentCUDAStream(0).synchronize();
        for (size_t k = 0; k < K; k++) {
          Slot& s = mine[k];
          const Plan& p = plan[k];
          if (!s.work) continue;
          std::string what = std::string("operation ") + std::to_string(k) + " (" + kNames[p.kind] + ") on rank " + std::to_string(r) + ": ";
          bool receives = !(p.kind == 2 && r != p.root) && !(p.kind == 5 && r == p.root);
          if (receives) {
            auto want = expected(salt, k, W, r, p);
            std::string d = differ(s.got, want);
            if (d.empty()) d = differ(readVec(resultOf(p, s)), want);
            if (d.empty()) d = differ(readVec(s.work->result()[0]), want);
            if (!d.empty()) o.fail(what + d);
            if (p.kind == 3) {
              Shape w = p.shape;
              w.insert(w.begin(), W);
              if (toShape(s.work->result()[0].shape()) != w) o.fail(what + "the gathered tensor has another shape");
            }
          }
          if (p.kind == 3 || (p.kind == 5 && r == p.root)) {
            std::string d = differ(readVec(s.m.t), s.before);
            if (!d.empty()) o.fail(what + "the input changed: " + d);
          }
          if (s.m.view) {  // the rest of the buffer
            auto now = readVec(s.m.base);
            auto from = static_cast<size_t>(static_cast<char*>(s.m.t.dataPtr<>()) - static_cast<char*>(s.m.base.dataPtr<>())) / tt::dtypeSize(p.dt);
            for (size_t i = 0; i < now.size(); i++)
              if ((i < from || i >= from + s.before.size()) && !sameValue(now[i], s.around[i])) o.fail(what + "element " + std::to_string(i) + " beside the tensor changed");
          }
          if (toShape(s.m.t.shape()) != p.shape || s.m.t.dtype() != p.dt) o.fail(what + "the tensor changed its shape or type");
        }
        mine.clear();
      });
    for (auto& t : ts) t.join();
  }
  for (int r = 0; r < W; r++) VP_CHECK(c, res[static_cast<size_t>(r)].bad.empty(), "%s", res[static_cast<size_t>(r)].bad.c_str());
  VP_CHECK(c, sim::gBad.empty(), "%s", sim::gBad.c_str());
  slots.clear();
  VP_CHECK(c, sim::gLiveComms == 0 && sim::gLiveStreams == 0 && sim::gLiveEvents == 0, "%d communicators, %d streams and %d events are left", sim::gLiveComms,
           sim::gLiveStreams, sim::gLiveEvents);
  if (again) c.cls("set up again");
  for (int k = 0; k < 6; k++)
    if (kinds >> k & 1) c.cls(kNames[k]);
  if (W > 1) c.nontrivial();
}

// A peer that does not come: the wait gives up, says so, and the operation still completes when the peer does.
void absent(Case& c) {
  resetSim(c);
  int W = static_cast<int>(c.range(2, 3)), late = static_cast<int>(c.draw(W));
  Place pl;
  meet(c, pl, W, 0);
  int64_t n = c.range(1, 20), patience = c.range(1, 30);
  Plan p{static_cast<int>(c.draw(5)), c.pick(kTypes), {n}, ds::MAX, static_cast<int>(c.draw(W)), 0};
  uint64_t salt = c.bits();
  c.note("%d ranks, %d late, %s, %lld ms", W, late, kNames[p.kind], static_cast<long long>(patience));
  std::mutex m;
  std::condition_variable cv;
  int gaveUp = 0;
  std::vector<RankResult> res(static_cast<size_t>(W));
  std::vector<std::thread> ts;
  for (int r = 0; r < W; r++)
    ts.emplace_back([&, r] {
      RankResult& o = res[static_cast<size_t>(r)];
      ds::DistributedProcessGroup g;
      std::string e = bring(g, pl, W, r, milliseconds(20000));
      if (!e.empty()) return o.fail(e);
      {  // the communicators are up
        Slot s;
        s.m.t = rawTensor({1}, DType::Float32, {static_cast<double>(r)});
        s.work = issue(g, Plan{1, DType::Float32, {1}, ds::SUM, 0, 0}, s, r);
        if (!s.work || !s.work->wait(milliseconds(20000))) o.fail("the first operation fails");
      }
      Slot s;
      s.m.t = rawTensor(p.shape, p.dt, p.kind == 4 ? std::vector<double>(static_cast<size_t>(n), 0.0) : input(salt, 0, r, 0, p));
      for (int q = 0; q < W; q++) {
        if (p.kind == 3) s.parts.push_back(rawTensor(p.shape, p.dt, std::vector<double>(static_cast<size_t>(n), 0.0)));
        if (p.kind == 4) s.parts.push_back(rawTensor(p.shape, p.dt, input(salt, 0, r, q, p)));
      }
      if (r == late) {
        std::unique_lock<std::mutex> l(m);
        cv.wait(l, [&] { return gaveUp == W - 1; });
      }
      s.work = issue(g, p, s, r);
      if (!s.work) o.fail("no work is given");
      if (r != late) {
        if (s.work) {
          if (s.work->isCompleted()) o.fail("an operation that a peer has not joined is completed");
          auto t0 = std::chrono::steady_clock::now();
          if (s.work->wait(milliseconds(patience))) o.fail("waiting for an operation that a peer has not joined succeeds");
          auto ms = std::chrono::duration_cast<milliseconds>(std::chrono::steady_clock::now() - t0).count();
          if (ms > patience + 10000) o.fail("the wait took " + std::to_string(ms) + " ms");
          if (s.work->isSuccess() || s.work->exception().empty()) o.fail("a wait that timed out leaves no error");
        }
        std::lock_guard<std::mutex> l(m);
        gaveUp++;
        cv.notify_all();
      } else if (s.work && !s.work->wait(milliseconds(20000))) {
        o.fail("the late rank's operation fails");
      }
      tt::cuda::getCurrentCUDAStream(0).synchronize();
      if (s.work && !(p.kind == 2 && r != p.root)) {
        std::string d = differ(readVec(resultOf(p, s)), expected(salt, 0, W, r, p));
        if (!d.empty()) o.fail("after the late rank has come: " + d);
      }
    });
  for (auto& t : ts) t.join();
  for (auto& o : res) VP_CHECK(c, o.bad.empty(), "%s", o.bad.c_str());
  VP_CHECK(c, sim::gBad.empty(), "%s", sim::gBad.c_str());
  VP_CHECK(c, sim::gLiveComms == 0 && sim::gLiveStreams == 0 && sim::gLiveEvents == 0, "%d communicators, %d streams and %d events are left", sim::gLiveComms,
           sim::gLiveStreams, sim::gLiveEvents);
  c.nontrivial();
}

// Set-up strings and arguments, good and bad.
void setup(Case& c) {
  resetSim(c);
  for (const char* v : {"MASTER_ADDR", "MASTER_PORT", "WORLD_SIZE", "RANK"}) unsetenv(v);
  Place pl;
  ds::DistributedProcessGroup g;
  int tries = static_cast<int>(c.draw(4));
  for (int i = 0; i < tries; i++) {  // refused attempts leave nothing behind
    int rank = 0, world = 1;
    auto backend = ds::NCCL;
    std::string s;
    std::map<std::string, std::string> env;
    static const char* numbers[] = {"", "x", "99999999999999999999", "70000", "65536", "-5", "12x", "1.5", "0x10", "4294967296"};
    switch (c.draw(6)) {
      case 0: s = c.oneOf<std::string>({"", "tcp", "tcp:/", "http://127.0.0.1:80", "TCP://127.0.0.1:8000", "env:/", "env://x", "file:/tmp/x", "unknown", "://"}); break;
      case 1: s = c.oneOf<std::string>({"tcp://", "tcp://:8000", "tcp://127.0.0.1:", "tcp://127.0.0.1:x", "tcp://127.0.0.1:80:90", "tcp://127.0.0.1: 8000"}); break;
      case 2: s = std::string("tcp://127.0.0.1:") + c.oneOf<std::string>({"65536", "70000", "99999", "4294967376", "99999999999999999999999", "18446744073709551616"}); break;
      case 3:
        s = "env://";
        if (c.coin()) env = {{"WORLD_SIZE", "1"}, {"RANK", "0"}, {"MASTER_PORT", "29999"}};  // no address
        else env = {{"MASTER_ADDR", "127.0.0.1"}, {"MASTER_PORT", numbers[c.draw(10)]}};
        break;
      case 4: {
        s = "env://";
        env = {{"MASTER_ADDR", "127.0.0.1"}, {"MASTER_PORT", "29999"}};
        bool badRank = c.coin();
        rank = world = -1;
        // an empty, absent or unreadable number
        auto num = c.oneOf<std::string>({"", "x", "12x", "99999999999999999999", "1.5"});
        if (badRank) env["WORLD_SIZE"] = "1";
        else env["RANK"] = "0";
        if (c.coin()) env[badRank ? "RANK" : "WORLD_SIZE"] = num;
        break;
      }
      default:
        pl.dir = scratchPath("group" + std::to_string(gPlaces++));
        s = "file://" + pl.dir;
        if (c.coin()) backend = ds::UNDEFINED;
        else (c.coin() ? rank : world) = -1;
    }
    for (auto& kv : env) setenv(kv.first.c_str(), kv.second.c_str(), 1);
    c.note("'%s' rank %d world %d", s.c_str(), rank, world);
    for (auto& kv : env) c.note("%s='%s'", kv.first.c_str(), kv.second.c_str());
    bool ok = g.initProcessGroup(backend, s, rank, world, milliseconds(3000), false);
    for (auto& kv : env) unsetenv(kv.first.c_str());
    VP_CHECK(c, !ok, "set-up with '%s' succeeds", s.c_str());
    VP_CHECK(c, !g.isInitialized(), "a refused set-up with '%s' leaves a group behind", s.c_str());
    if (!pl.dir.empty()) removeTree(pl.dir), pl.dir.clear();
    c.cls("refused");
  }
  auto timeout = milliseconds(c.range(1, 100000000));
  int way = c.chance(1, 4) ? static_cast<int>(1 + c.draw(2)) : 0;
  int rank = 0, W = 1;
  if (way == 0) W = static_cast<int>(c.range(1, 9)), rank = static_cast<int>(c.draw(W));
  if (way != 0) timeout = std::max(timeout, milliseconds(10000));
  meet(c, pl, W, way);
  int r = rank, w = W;
  if (way == 2) {
    setenv("WORLD_SIZE", c.coin() ? "1" : "7", 1);
    setenv("RANK", c.coin() ? "0" : "3", 1);
    if (std::string(getenv("WORLD_SIZE")) == "1" && c.coin()) w = -1;
    if (std::string(getenv("RANK")) == "0" && c.coin()) r = -1;
  }
  c.note("then %s rank %d of %d, %lld ms", pl.init.c_str(), r, w, static_cast<long long>(timeout.count()));
  VP_CHECK(c, g.initProcessGroup(ds::NCCL, pl.init, r, w, timeout), "set-up with '%s' is refused", pl.init.c_str());
  VP_CHECK(c, g.isInitialized() && g.getRank() == rank && g.getWorldSize() == W, "rank %d of %d instead of %d of %d", g.getRank(), g.getWorldSize(), rank, W);
  auto pg = g.getProcessGroup();
  VP_CHECK(c, pg->getBackendName() == "nccl" && pg->getBackendType() == ds::NCCL && pg->getDefaultBackend() == pg->getBackend(ds::NCCL) && pg->hasBackends(),
           "the group has the back end %s", pg->getBackendName().c_str());
  auto got = pg->getBackend(ds::NCCL)->getBackendOptions()->timeout;
  VP_CHECK(c, got == timeout, "operations time out after %lld ms instead of %lld", static_cast<long long>(got.count()), static_cast<long long>(timeout.count()));
  VP_CHECK(c, !g.initProcessGroup(ds::NCCL, pl.init, r, w, timeout), "a second set-up succeeds");
  VP_CHECK(c, g.getProcessGroup() == pg, "a refused second set-up replaces the group");
  if (c.coin()) {  // the store works
    pg->getStore()->set("key", std::string("value"));
    VP_CHECK(c, pg->getStore()->getString("key") == "value", "the group's store loses a value");
  }
  if (c.coin()) {
    g.destroyProcessGroup();
    VP_CHECK(c, !g.isInitialized(), "a destroyed group is still initialised");
    g.destroyProcessGroup();
  }
  c.nontrivial();
}

// A set-up that need not, or can not, wait for its peers comes back.
void alone(Case& c) {
  resetSim(c);
  Place pl;
  meet(c, pl, 2, static_cast<int>(1 + c.draw(2)));
  bool server = c.coin(), waits = !server || c.coin();
  auto timeout = milliseconds(waits ? c.range(20, 300) : 60000);
  c.note("rank %d of 2 alone, %s, %lld ms", server ? 0 : 1, waits ? "waiting" : "not waiting", static_cast<long long>(timeout.count()));
  auto t0 = std::chrono::steady_clock::now();
  {
    ds::DistributedProcessGroup g;
    bool ok = g.initProcessGroup(ds::NCCL, pl.init, server ? 0 : 1, 2, timeout, waits);
    if (!waits) VP_CHECK(c, ok && g.isInitialized(), "rank 0 can not be set up before the others");
  }
  auto ms = std::chrono::duration_cast<milliseconds>(std::chrono::steady_clock::now() - t0).count();
  VP_CHECK(c, ms < 20000, "%s took %lld ms", waits ? "giving up" : "the set-up without waiting", static_cast<long long>(ms));
  c.cls(waits ? "gives up" : "does not wait");
  c.nontrivial();
}

// Failures below a call are reported by it, and repeated calls leave nothing behind.
void failures(Case& c) {
  resetSim(c);
  Place pl;
  meet(c, pl, 2, 0);
  ds::DistributedProcessGroup g;
  bool zero = c.coin();
  int W = zero ? 1 : 2;
  std::string e = bring(g, pl, W, zero ? 0 : 1, milliseconds(5000));
  VP_CHECK(c, e.empty(), "%s", e.c_str());
  auto be = g.getProcessGroup()->getBackend(ds::NCCL);
  VP_CHECK(c, be->getError() == ds::BackendErrorType::SUCCESS, "a new group has an error");
  int64_t n = c.range(1, 10);
  Slot s;
  s.m.t = rawTensor({n}, DType::Float32, std::vector<double>(static_cast<size_t>(n), 2.0));
  Plan p{1, DType::Float32, {n}, ds::SUM, 0, 0};
  if (zero) {
    sim::gFailIds = 1;
  } else {
    // what rank 0 left is damaged
    g.getProcessGroup()->getStore()->set("nccl_unique_id_0", std::string(c.draw(128), 'x'));
  }
  c.note(zero ? "no id can be made" : "the id is damaged");
  auto w = issue(g, p, s, zero ? 0 : 1);
  VP_CHECK(c, !w, "an operation without a communicator gives a work");
  VP_CHECK(c, be->getError() != ds::BackendErrorType::SUCCESS, "a failed set-up of the communicator leaves no error");
  VP_CHECK(c, !differ(readVec(s.m.t), std::vector<double>(static_cast<size_t>(n), 2.0)).size(), "a failed operation changed its tensor");
  c.nontrivial();
}

void repeated(Case& c) {
  resetSim(c);
  Place pl;
  meet(c, pl, 1, 0);
  ds::DistributedProcessGroup g;
  std::string e = bring(g, pl, 1, 0, milliseconds(5000));
  VP_CHECK(c, e.empty(), "%s", e.c_str());
  Plan p{static_cast<int>(c.draw(5)), DType::Float32, {c.range(1, 8)}, ds::SUM, 0, 0};
  int count = static_cast<int>(c.range(40, 120)), mode = static_cast<int>(c.draw(2));
  c.note("%d times %s", count, kNames[p.kind]);
  auto round = [&] {
    for (int i = 0; i < count; i++) {
      Slot s;
      std::vector<double> ones(static_cast<size_t>(p.shape[0]), 1.0);
      s.m.t = rawTensor(p.shape, p.dt, ones);
      if (p.kind >= 3) s.parts = {rawTensor(p.shape, p.dt, ones)};
      s.work = issue(g, p, s, 0);
      if (!s.work) c.fail("no work is given");
      bool ok = mode ? s.work->wait() : s.work->wait(milliseconds(20000));
      VP_CHECK(c, ok, "waiting fails");
      tt::cuda::getCurrentCUDAStream(0).synchronize();
      VP_CHECK(c, s.work->isCompleted(), "an operation that has ended is not completed");
    }
  };
  round();
  size_t first = __sanitizer_get_current_allocated_bytes();
  int events = sim::gLiveEvents;
  round();
  size_t second = __sanitizer_get_current_allocated_bytes();
  VP_CHECK(c, second < first + 2000 || second < first + static_cast<size_t>(count) * 16, "%d finished operations leave %zu bytes behind", count, second - first);
  VP_CHECK(c, sim::gLiveEvents <= events, "%d events are left behind", sim::gLiveEvents - events);
  c.nontrivial();
}

}  // namespace

int main(int argc, char** argv) {
  makeScratchRoot();
  Suite s;
  s.property = "C27";
  s.rule = "at least two ranks take part, or a set-up, failure or repetition is carried out";
  s.assumptions = {"devices, streams and the communication library are simulated in the process: work runs late, in stream order, and operations complete when every rank has reached them",
                   "tensors in host memory stand for device tensors; every rank issues the same operations in the same order, and the first one takes part of every rank",
                   "a work handle is kept until it has been waited for",
                   "the gathered values are read from the work's result, see the known finding allgather-outputs"};
  s.init = noCache;
  s.props = {{"collectives", collectives, 6000, 200000, 90}, {"absent peers", absent, 400, 8000, 90}, {"set-up", setup, 4000, 100000, 60}, {"alone", alone, 24, 600, 30},
             {"failures", failures, 400, 8000, 20}, {"repeated", repeated, 300, 6000}};
  s.findings = {{"allgather-outputs",
                 "allGather leaves the caller's output tensors as they were, only the work's result() holds the gathered values",
                 [] {
                   std::string dir = scratchPath("groupfinding");
                   ds::DistributedProcessGroup g;
                   if (!g.initProcessGroup(ds::NCCL, "file://" + dir, 0, 1)) return false;
                   g.getProcessGroup()->setBackend(tt::DeviceType::CPU, ds::NCCL, g.getProcessGroup()->getBackend(ds::NCCL));
                   std::vector<Tensor> in = {rawTensor({2}, DType::Float32, {3, 4})};
                   std::vector<std::vector<Tensor>> out = {{rawTensor({2}, DType::Float32, {0, 0})}};
                   auto w = g.allGather(out, in);
                   if (!w || !w->wait(milliseconds(5000))) return false;
                   bool same = readVec(out[0][0]) == std::vector<double>{0, 0};
                   w.reset();
                   g.destroyProcessGroup();
                   removeTree(dir);
                   return same;
                 }}};
  int rc = runSuite(s, argc, argv);
  removeTree(scratchRoot());
  return rc;
}
