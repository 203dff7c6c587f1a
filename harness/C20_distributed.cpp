// C20: the data-parallel wrapper over a simulated communicator, and the distributed sampler.
//
// Ranks run as threads of which exactly one runs at a time (a baton is handed over when a rank blocks in a
// collective's wait), so every case is deterministic.  A collective behaves like an asynchronous one: the
// buffer is filled with NaN when it is posted and holds the result only once the rank has waited for it.
#include <condition_variable>
#include <mutex>
#include <thread>

#include "Distributed/DistributedModule.h"
#include "Distributed/DistributedSampler.h"
#include "Operations.h"
#include "Functions.h"
#include "Modules.h"
#include "Optimizer.h"
#include "Utils/RandomGenerator.h"
#include "ref.h"
using namespace vp;
namespace ds = tt::distributed;

namespace {

// ---- the simulated communicator -----------------------------------------------------------------

struct Collective {
  ds::OpType op;
  int64_t n;
  DType dt;
  int root;
  ds::ReduceOpType rop;
  std::vector<std::vector<double>> in;
  int arrived = 0;
};

struct World {
  explicit World(int n) : size(n), calls(static_cast<size_t>(n), 0), done(static_cast<size_t>(n), false) {}
  int size;
  std::mutex m;
  std::condition_variable cv;
  int current = 0;
  std::vector<size_t> calls;
  std::vector<bool> done;
  std::vector<std::unique_ptr<Collective>> all;
  std::string bad;
  int64_t reductions = 0, broadcasts = 0, waits = 0;

  // all run with m held by the only running thread
  void complain(const std::string& s) {
    if (bad.empty()) bad = s;
  }
  void handOver(std::unique_lock<std::mutex>& lk, int me) {
    for (int k = 1; k <= size; k++) {
      int r = (me + k) % size;
      if (!done[static_cast<size_t>(r)]) {
        current = r;
        break;
      }
    }
    cv.notify_all();
    cv.wait(lk, [&] { return current == me; });
  }
  void enter(int me) {
    std::unique_lock<std::mutex> lk(m);
    cv.wait(lk, [&] { return current == me; });
  }
  void leave(int me) {
    std::unique_lock<std::mutex> lk(m);
    done[static_cast<size_t>(me)] = true;
    for (int k = 1; k <= size; k++) {
      int r = (me + k) % size;
      if (!done[static_cast<size_t>(r)]) {
        current = r;
        break;
      }
    }
    cv.notify_all();
  }
};

struct FakeWork : ds::Work {
  FakeWork(std::shared_ptr<World> w, int rank, size_t idx, void* dst) : ds::Work(rank, w->all[idx]->op), world(std::move(w)), me(rank), index(idx), data(dst) {}
  std::shared_ptr<World> world;
  int me;
  size_t index;
  void* data;
  bool waited = false;

  bool wait(std::chrono::milliseconds) override {
    if (waited) return true;
    waited = true;
    std::unique_lock<std::mutex> lk(world->m);
    world->waits++;
    Collective& c = *world->all[index];
    int spins = 0;
    while (c.arrived < world->size && world->bad.empty()) {
      if (++spins > world->size + 1) {
        world->complain("rank " + std::to_string(me) + " waits for collective " + std::to_string(index) + " that another rank never starts");
        break;
      }
      world->handOver(lk, me);
    }
    if (c.arrived < world->size) return true;
    std::vector<double> out;
    if (c.op == ds::OpType::BROADCAST) {
      out = c.in[static_cast<size_t>(c.root)];
    } else {
      out = c.in[0];
      for (size_t r = 1; r < c.in.size(); r++)
        for (size_t i = 0; i < out.size(); i++) {
          double b = c.in[r][i];
          switch (c.rop) {
            case ds::PRODUCT: out[i] *= b; break;
            case ds::MIN: out[i] = std::min(out[i], b); break;
            case ds::MAX: out[i] = std::max(out[i], b); break;
            default: out[i] += b;
          }
        }
      if (c.rop == ds::AVG)
        for (auto& x : out) x /= static_cast<double>(world->size);
    }
    if (!out.empty()) encode(out, c.dt, data);
    return true;
  }
  bool isCompleted() override { return waited; }
};

class FakeBackend : public ds::Backend {
 public:
  FakeBackend(std::shared_ptr<World> w, int rank) : ds::Backend(rank, w->size), world(std::move(w)) {}
  void setTimeout(std::chrono::milliseconds) override {}
  std::string getBackendName() const override { return "simulated"; }
  std::shared_ptr<BackendOptions> getBackendOptions() override { return nullptr; }
  std::shared_ptr<ds::Work> broadcast(std::vector<Tensor>& t, const ds::BroadcastOptions& o) override {
    world->broadcasts++;
    return post(t, ds::OpType::BROADCAST, o.rootRank, ds::SUM);
  }
  std::shared_ptr<ds::Work> allReduce(std::vector<Tensor>& t, const ds::AllReduceOptions& o) override {
    world->reductions++;
    return post(t, ds::OpType::ALL_REDUCE, 0, o.reduceOp);
  }

 private:
  std::shared_ptr<ds::Work> post(std::vector<Tensor>& ts, ds::OpType op, int root, ds::ReduceOpType rop) {
    std::unique_lock<std::mutex> lk(world->m);
    Tensor& t = ts.at(0);
    size_t k = world->calls[static_cast<size_t>(rank_)]++;
    if (k == world->all.size()) {
      auto c = std::make_unique<Collective>();
      c->op = op;
      c->n = t.numel();
      c->dt = t.dtype();
      c->root = root;
      c->rop = rop;
      c->in.resize(static_cast<size_t>(world->size));
      world->all.push_back(std::move(c));
    }
    Collective& c = *world->all[k];
    if (ts.size() != 1 || c.op != op || c.n != t.numel() || c.dt != t.dtype() || c.root != root || c.rop != rop || root < 0 || root >= world->size)
      world->complain("rank " + std::to_string(rank_) + " joins collective " + std::to_string(k) + " with a different operation");
    void* p = t.dataPtr<>();
    if (c.n == t.numel()) c.in[static_cast<size_t>(rank_)] = decode(p, t.numel(), t.dtype());
    else c.in[static_cast<size_t>(rank_)].assign(static_cast<size_t>(c.n), 0.0);
    c.arrived++;
    if (t.numel() > 0) encode(std::vector<double>(static_cast<size_t>(t.numel()), NAN), t.dtype(), p);
    return std::make_shared<FakeWork>(world, rank_, k, p);
  }
  std::shared_ptr<World> world;
};

std::shared_ptr<World> gWorld;  // read by initProcessGroup below

}  // namespace

// The process group is started on the simulated communicator instead of NCCL.
bool ds::DistributedProcessGroup::initProcessGroup(ds::BackendType, const std::string&, int rank, int worldSize, std::chrono::milliseconds, bool) {
  processGroup_ = std::make_shared<ds::ProcessGroup>(nullptr, rank, worldSize);
  processGroup_->setDefaultBackend(ds::NCCL);
  std::shared_ptr<ds::Backend> b = std::make_shared<FakeBackend>(gWorld, rank);
  processGroup_->setBackend(tt::DeviceType::CPU, ds::NCCL, b);
  return true;
}

namespace {

std::shared_ptr<ds::DistributedProcessGroup> groupOf(int rank, int size) {
  auto g = std::make_shared<ds::DistributedProcessGroup>();
  g->initProcessGroup(ds::NCCL, "", rank, size);
  return g;
}

template <typename F>
void runRanks(int size, F&& f) {
  std::vector<std::thread> ts;
  auto w = gWorld;
  for (int r = 0; r < size; r++)
    ts.emplace_back([&f, w, r] {
      w->enter(r);
      f(r);
      w->leave(r);
    });
  for (auto& t : ts) t.join();
}

// ---- a model whose gradients are known in closed form ----------------------------------------------

struct Use {
  size_t param;
  int kind;  // 0: sum(p*C)*x   1: sum(p*p*C)*x
  int depth;  // additional identity steps, so that gradients become ready in different orders
  std::vector<double> coef;
};

struct Plan {
  DType dt = DType::Float32;
  std::vector<Shape> shapes;
  std::vector<bool> frozen;
  std::vector<Use> uses;
};

class Net : public tt::nn::Module {
 public:
  Net(const Plan& p, const std::vector<std::vector<double>>& init) : plan(p) {
    for (size_t i = 0; i < p.shapes.size(); i++) params.push_back(rawTensor(p.shapes[i], p.dt, init[i], !p.frozen[i]));
    for (auto& u : p.uses) coefs.push_back(rawTensor(p.shapes[u.param], p.dt, u.coef));
  }
  Tensor forward(const Tensor& x) override {
    calls++;
    Tensor total;
    for (size_t k = 0; k < plan.uses.size(); k++) {
      const Use& u = plan.uses[k];
      if (!only.empty() && !only[u.param]) continue;
      Tensor t = params[u.param];
      if (u.kind == 1) t = tt::function::mul(t, params[u.param]);
      t = tt::function::mul(t, coefs[k]);
      for (int d = 0; d < u.depth; d++) t = tt::function::add(t, coefs[k], 1);
      t = tt::function::sum(t);
      t = tt::function::mul(t, x.narrow(0, static_cast<int64_t>(k), 1).reshape({}));
      total = total.defined() ? tt::function::add(total, t, 1) : t;
    }
    return total;
  }
  const Plan& plan;
  std::vector<Tensor> params, coefs;
  std::vector<bool> only;  // the parameters a partial pass reaches
  int calls = 0;

 protected:
  std::vector<std::pair<std::string, tt::TensorPtr>> namedParameters_() override {
    std::vector<std::pair<std::string, tt::TensorPtr>> r;
    for (size_t i = 0; i < params.size(); i++) r.emplace_back("p" + std::to_string(i), &params[i]);
    return r;
  }
};

struct Iter {
  std::vector<std::vector<double>> x;  // per rank
  bool zero;
  bool step;
  int extraForward;
  std::vector<std::vector<bool>> partial;  // passes before this one that reach only some of the parameters
};

struct Result {
  std::vector<std::vector<std::vector<double>>> grads;   // [iter][param]
  std::vector<std::vector<bool>> has;
  std::vector<std::vector<std::vector<double>>> values;  // parameter values after each iteration
  std::vector<std::vector<double>> start;
  std::vector<double> out, plain;
  bool identity = true;
  std::string what;
};

void averages(Case& c) {
  int W = static_cast<int>(c.weighted({1, 4, 3, 2, 1})) + 1;
  Plan p;
  p.dt = c.oneOf({DType::Float32, DType::Float32, DType::Float32, DType::Float16, DType::BFloat16});
  size_t n = static_cast<size_t>(c.range(1, c.thorough ? 10 : 7));
  if (c.chance(1, 40)) n = static_cast<size_t>(c.range(11, 50)), c.cls("many parameters");
  bool longRun = n <= 4 && c.chance(1, 30);
  if (W > 1 && c.chance(1, 60)) W = static_cast<int>(c.range(6, 12)), c.cls("many ranks");
  for (size_t i = 0; i < n; i++) p.shapes.push_back(genShape(c, 0, 3, 40, c.chance(1, 8)));
  for (size_t i = 0; i < n; i++) p.frozen.push_back(c.chance(1, 8));
  // every trainable parameter is used at least once, in a drawn order
  std::vector<size_t> order;
  for (size_t i = 0; i < n; i++)
    if (!p.frozen[i] || c.coin()) order.push_back(i);
  for (size_t i = 0; i + 1 < order.size(); i++) std::swap(order[i], order[i + c.draw(order.size() - i)]);
  size_t extra = order.empty() ? 0 : c.draw(4);
  for (size_t k = 0; k < extra; k++) order.push_back(order[c.draw(order.size())]);
  for (size_t i : order) {
    Use u{i, static_cast<int>(c.draw(2)), static_cast<int>(c.draw(3)), genData(c, numelOf(p.shapes[i]), p.dt, Data::Small)};
    p.uses.push_back(u);
  }
  bool trains = false;
  for (auto& u : p.uses) trains = trains || !p.frozen[u.param];
  std::vector<std::vector<std::vector<double>>> init(static_cast<size_t>(W));
  for (auto& in : init)
    for (auto& s : p.shapes) in.push_back(genData(c, numelOf(s), p.dt, Data::Small));
  int root = static_cast<int>(c.draw(static_cast<size_t>(W)));
  int64_t bytes = 0, sz = static_cast<int64_t>(tt::dtypeSize(p.dt));
  for (auto& s : p.shapes) bytes += numelOf(s) * sz;
  int64_t cap = 0;
  switch (c.draw(5)) {
    case 0: cap = ds::kDefaultBucketBytesCap; break;
    case 1: cap = c.range(0, bytes + 8); break;
    case 2: cap = c.around(numelOf(p.shapes[0]) * sz, 4); break;
    case 3: cap = c.range(0, 64); break;
    default: cap = c.range(0, 40) * sz;
  }
  size_t iters = static_cast<size_t>(longRun ? c.range(8, 30) : c.range(1, c.thorough ? 6 : 4));
  if (longRun) p.dt = DType::Float32, c.cls("many iterations");
  std::vector<Iter> its(iters);
  for (auto& it : its) {
    for (int r = 0; r < W; r++) it.x.push_back(genData(c, static_cast<int64_t>(p.uses.size()), p.dt, Data::Unit));
    it.zero = c.chance(2, 3);
    it.step = longRun ? c.chance(1, 4) : c.coin();
    it.extraForward = static_cast<int>(c.weighted({6, 1, 1}));
    if (c.chance(1, 5)) {
      it.partial.resize(static_cast<size_t>(c.range(1, 2)));
      for (auto& m : it.partial)
        for (size_t i = 0; i < n; i++) m.push_back(c.coin());
      it.zero = true;
    }
  }
  c.note("%d ranks, root %d, %zu parameters of %s, cap %lld of %lld bytes, %zu iterations", W, root, n, dtName(p.dt), static_cast<long long>(cap), static_cast<long long>(bytes), iters);
  for (size_t i = 0; i < n; i++) c.note("; p%zu %s%s", i, str(p.shapes[i]).c_str(), p.frozen[i] ? " frozen" : "");
  for (auto& u : p.uses) c.note("; use p%zu kind %d depth %d", u.param, u.kind, u.depth);
  for (auto& it : its) c.note("; %s%s", it.zero ? "zero " : "", it.step ? "step" : "");
  for (size_t t = 0; t < iters; t++)
    for (auto& m : its[t].partial) {
      c.note("; before iteration %zu a pass through", t);
      for (size_t i = 0; i < n; i++)
        if (m[i]) c.note(" p%zu", i);
    }
  if (p.uses.empty()) c.discard();
  const float lr = 0.125f;

  gWorld = std::make_shared<World>(W);
  std::vector<std::shared_ptr<ds::DistributedProcessGroup>> groups;
  for (int r = 0; r < W; r++) groups.push_back(groupOf(r, W));
  std::vector<Result> res(static_cast<size_t>(W));
  runRanks(W, [&](int r) {
    Result& o = res[static_cast<size_t>(r)];
    Net net(p, init[static_cast<size_t>(r)]);
    std::vector<Tensor> handles = net.params;
    auto before = net.parameters();
    {
    ds::DistributedModule dm(net, groups[static_cast<size_t>(r)], root, cap);
    auto after = dm.parameters();
    if (before != after || before != net.parameters()) o.identity = false, o.what = "the wrapper lists other parameters than the module";
    for (size_t i = 0; i < n; i++) {
      o.start.push_back(readVec(net.params[i]));
      if (readVec(handles[i]) != o.start[i]) o.identity = false, o.what = "an earlier handle of a parameter no longer shares its values";
      if (toShape(net.params[i].shape()) != p.shapes[i] || net.params[i].requiresGrad() == p.frozen[i] || net.params[i].dtype() != p.dt)
        o.identity = false, o.what = "a parameter changed its shape, type or gradient flag";
    }
    for (auto& it : its) {
      for (auto& m : it.partial) {
        net.only = m;
        Tensor y = dm(rawTensor({static_cast<int64_t>(p.uses.size())}, p.dt, it.x[static_cast<size_t>(r)]));
        if (y.defined() && y.requiresGrad()) y.backward();
      }
      net.only.clear();
      if (it.zero) dm.zeroGrad();
      Tensor x = rawTensor({static_cast<int64_t>(p.uses.size())}, p.dt, it.x[static_cast<size_t>(r)]);
      {
        tt::NoGradGuard g;
        o.plain.push_back(readVec(net.forward(x))[0]);
      }
      for (int e = 0; e < it.extraForward; e++) {
        tt::NoGradGuard g;
        dm(x);
      }
      int calls = net.calls;
      Tensor y = dm(x);
      if (net.calls != calls + 1) o.identity = false, o.what = "the wrapped module ran more than once";
      o.out.push_back(readVec(y)[0]);
      if (y.requiresGrad()) y.backward();
      std::vector<std::vector<double>> g;
      std::vector<bool> has;
      for (auto& t : net.params) {
        bool h = t.requiresGrad() && t.grad().defined();
        has.push_back(h);
        g.push_back(h ? readVec(t.grad()) : std::vector<double>());
        if (h && toShape(t.grad().shape()) != toShape(t.shape())) o.identity = false, o.what = "a gradient has another shape than its parameter";
      }
      o.grads.push_back(g);
      o.has.push_back(has);
      if (it.step) {
        std::vector<tt::TensorPtr> ps;
        for (auto* q : dm.parameters())
          if (q->requiresGrad()) ps.push_back(q);
        tt::optim::SGD sgd(std::move(ps), lr);
        sgd.step();
      }
      std::vector<std::vector<double>> v;
      for (auto& t : net.params) v.push_back(readVec(t));
      o.values.push_back(v);
    }
    }
    // the module outlives the wrapper and trains on its own
    Tensor x = rawTensor({static_cast<int64_t>(p.uses.size())}, p.dt, its[0].x[static_cast<size_t>(r)]);
    size_t before2 = gWorld->calls[static_cast<size_t>(r)];
    Tensor y = net.forward(x);
    if (y.requiresGrad()) y.backward();
    if (gWorld->calls[static_cast<size_t>(r)] != before2) o.identity = false, o.what = "a collective ran after the wrapper was destroyed";
  });
  VP_CHECK(c, gWorld->bad.empty(), "%s", gWorld->bad.c_str());
  int64_t reductions = gWorld->reductions;
  gWorld.reset();

  double eps = epsOf(p.dt);
  for (int r = 0; r < W; r++) {
    Result& o = res[static_cast<size_t>(r)];
    VP_CHECK(c, o.identity, "rank %d: %s", r, o.what.c_str());
    for (size_t i = 0; i < n; i++)
      for (size_t k = 0; k < o.start[i].size(); k++)
        VP_CHECK(c, sameValue(o.start[i][k], init[static_cast<size_t>(root)][i][k]), "rank %d starts with p%zu[%zu]=%g, the root had %g", r, i, k, o.start[i][k], init[static_cast<size_t>(root)][i][k]);
    for (size_t t = 0; t < iters; t++) VP_CHECK(c, sameValue(o.out[t], o.plain[t]), "rank %d iteration %zu: the wrapper returns %g, the module %g", r, t, o.out[t], o.plain[t]);
  }
  // gradients
  std::vector<std::vector<double>> acc(n), mag(n);
  for (size_t i = 0; i < n; i++) acc[i].assign(static_cast<size_t>(numelOf(p.shapes[i])), 0.0), mag[i] = acc[i];
  for (size_t t = 0; t < iters; t++) {
    if (its[t].zero)
      for (size_t i = 0; i < n; i++) std::fill(acc[i].begin(), acc[i].end(), 0.0), std::fill(mag[i].begin(), mag[i].end(), 0.0);
    // the parameters every rank holds at this point
    const auto& values = t == 0 ? init[static_cast<size_t>(root)] : res[0].values[t - 1];
    for (auto& u : p.uses) {
      size_t k = static_cast<size_t>(&u - p.uses.data());
      for (size_t j = 0; j < acc[u.param].size(); j++) {
        double local = 0, m = 0;
        for (int r = 0; r < W; r++) {
          double g = its[t].x[static_cast<size_t>(r)][k] * u.coef[j] * (u.kind == 1 ? 2 * values[u.param][j] : 1.0);
          local += g;
          m += std::fabs(g);
        }
        acc[u.param][j] += local / W;
        mag[u.param][j] += m;
      }
    }
    for (size_t i = 0; i < n; i++) {
      for (int r = 0; r < W; r++) {
        Result& o = res[static_cast<size_t>(r)];
        if (p.frozen[i]) {
          VP_CHECK(c, !o.has[t][i], "rank %d: frozen p%zu got a gradient", r, i);
          continue;
        }
        VP_CHECK(c, o.has[t][i] && o.grads[t][i].size() == acc[i].size(), "rank %d iteration %zu: p%zu has no gradient", r, t, i);
        for (size_t j = 0; j < acc[i].size(); j++) {
          double tol = eps * (16 + 4.0 * static_cast<double>(t + 1) * static_cast<double>(p.uses.size())) * mag[i][j] + 64 * tinyOf(p.dt);
          VP_CHECK(c, near(o.grads[t][i][j], acc[i][j], tol), "rank %d of %d, iteration %zu: gradient of p%zu[%zu] is %g, the average over the ranks is %g", r, W, t, i, j,
                   o.grads[t][i][j], acc[i][j]);
          VP_CHECK(c, sameValue(o.grads[t][i][j], res[0].grads[t][i][j]), "iteration %zu: gradient of p%zu[%zu] differs between ranks 0 and %d: %g and %g", t, i, j, r,
                   res[0].grads[t][i][j], o.grads[t][i][j]);
        }
      }
      for (int r = 1; r < W; r++)
        for (size_t j = 0; j < acc[i].size(); j++)
          VP_CHECK(c, sameValue(res[static_cast<size_t>(r)].values[t][i][j], res[0].values[t][i][j]), "iteration %zu: p%zu[%zu] differs between ranks", t, i, j);
      // accumulate from what the ranks hold, so that rounding does not pile up in the comparison
      if (!p.frozen[i]) acc[i] = res[0].grads[t][i];
    }
  }
  if (W > 1 && trains) c.nontrivial();
  c.cls(cap >= bytes ? "one bucket" : "several buckets");
  if (W == 1) c.cls("one rank");
  for (auto& it : its)
    if (!it.partial.empty()) {
      c.cls("passes that reach some parameters only");
      break;
    }
  if (reductions > W * static_cast<int64_t>(iters)) c.cls("several reductions per pass");
  for (size_t i = 0; i < n; i++)
    if (p.frozen[i]) {
      c.cls("frozen parameters");
      break;
    }
}

// ---- real layers: against the module without the wrapper ------------------------------------------

struct LayerSpec {
  int kind;
  int64_t out;
};

std::shared_ptr<tt::nn::Sequential> buildNet(const std::vector<LayerSpec>& ls, int64_t in) {
  auto s = std::make_shared<tt::nn::Sequential>(std::initializer_list<std::shared_ptr<tt::nn::Module>>{});
  for (auto& l : ls) {
    if (l.kind == 0 || l.kind == 1) {
      s->emplaceBack<tt::nn::Linear>(in, l.out, l.kind == 0);
      in = l.out;
    } else {
      s->emplaceBack<tt::nn::Relu>();
    }
  }
  return s;
}

void layers(Case& c) {
  int W = static_cast<int>(c.range(1, 4));
  int64_t in = c.range(1, 6);
  std::vector<LayerSpec> ls;
  size_t L = static_cast<size_t>(c.range(1, 4));
  for (size_t i = 0; i < L; i++) ls.push_back({static_cast<int>(c.draw(3)), c.range(1, 6)});
  ls.insert(ls.begin(), {0, c.range(1, 6)});
  int64_t cap = c.coin() ? c.range(0, 200) : ds::kDefaultBucketBytesCap;
  unsigned seed = static_cast<unsigned>(c.range(0, 1000));
  size_t iters = static_cast<size_t>(c.range(1, 3));
  int root = static_cast<int>(c.draw(static_cast<size_t>(W)));
  std::vector<std::vector<Arr>> xs(iters);
  for (auto& x : xs)
    for (int r = 0; r < W; r++) {
      int64_t b = c.range(1, 4);
      x.emplace_back(Shape{b, in}, genData(c, b * in, DType::Float32, Data::Unit));
    }
  c.note("%d ranks, root %d, %lld inputs, cap %lld, %zu iterations;", W, root, static_cast<long long>(in), static_cast<long long>(cap), iters);
  for (auto& l : ls) c.note(" %d:%lld", l.kind, static_cast<long long>(l.out));
  tt::manualSeed(seed);
  std::vector<std::shared_ptr<tt::nn::Sequential>> nets, plain;
  for (int r = 0; r < W; r++) nets.push_back(buildNet(ls, in));
  for (int r = 0; r < W; r++) plain.push_back(buildNet(ls, in));
  auto lossOf = [](const Tensor& y) { return tt::function::sum(tt::function::mul(y, y)); };
  gWorld = std::make_shared<World>(W);
  std::vector<std::shared_ptr<ds::DistributedProcessGroup>> groups;
  for (int r = 0; r < W; r++) groups.push_back(groupOf(r, W));
  // values per rank after each iteration
  std::vector<std::vector<std::vector<Arr>>> grads(static_cast<size_t>(W)), vals(static_cast<size_t>(W));
  std::vector<std::vector<Arr>> outs(static_cast<size_t>(W)), start(static_cast<size_t>(W));
  runRanks(W, [&](int r) {
    auto R = static_cast<size_t>(r);
    ds::DistributedModule dm(*nets[R], groups[R], root, cap);
    tt::optim::SGD sgd(dm.parameters(), 0.004f);
    for (auto* q : dm.parameters()) start[R].push_back(readArr(*q));
    for (size_t t = 0; t < iters; t++) {
      sgd.zeroGrad();
      Tensor x = rawTensor(xs[t][R].shape, DType::Float32, xs[t][R].v);
      Tensor y = dm(x);
      outs[R].push_back(readArr(y));
      lossOf(y).backward();
      std::vector<Arr> g, v;
      for (auto* q : dm.parameters()) g.push_back(readArr(q->grad()));
      sgd.step();
      for (auto* q : dm.parameters()) v.push_back(readArr(*q));
      grads[R].push_back(g);
      vals[R].push_back(v);
    }
  });
  VP_CHECK(c, gWorld->bad.empty(), "%s", gWorld->bad.c_str());
  gWorld.reset();
  for (size_t t = 0; t < iters; t++) {
    std::vector<Arr> avg, mag;
    for (int r = 0; r < W; r++) {
      auto R = static_cast<size_t>(r);
      auto ps = plain[R]->parameters();
      const auto& held = t == 0 ? start[0] : vals[0][t - 1];
      VP_CHECK(c, held.size() == ps.size(), "the wrapper lists %zu parameters of %zu", held.size(), ps.size());
      for (size_t i = 0; i < ps.size(); i++) {
        if (t == 0) VP_CHECK(c, start[R][i].v == start[0][i].v, "parameter %zu starts differently on ranks 0 and %d", i, r);
        if (ps[i]->numel() > 0) encode(held[i].v, DType::Float32, ps[i]->dataPtr<>());
      }
      plain[R]->zeroGrad();
      Tensor x = rawTensor(xs[t][R].shape, DType::Float32, xs[t][R].v);
      Tensor y = (*plain[R])(x);
      Arr ya = readArr(y);
      for (size_t k = 0; k < ya.v.size(); k++) VP_CHECK(c, sameValue(ya.v[k], outs[R][t].v[k]), "rank %d iteration %zu: output %zu is %g, unwrapped %g", r, t, k, outs[R][t].v[k], ya.v[k]);
      lossOf(y).backward();
      for (size_t i = 0; i < ps.size(); i++) {
        Arr g = readArr(ps[i]->grad());
        if (r == 0) avg.push_back(Arr(g.shape, std::vector<double>(g.v.size(), 0.0))), mag.push_back(avg.back());
        for (size_t k = 0; k < g.v.size(); k++) avg[i].v[k] += g.v[k] / W, mag[i].v[k] += std::fabs(g.v[k]);
      }
    }
    for (auto& m : mag)
      for (double x : m.v)
        if (!(x < 1e30)) c.discard();  // training diverged: the float sum may overflow
    for (int r = 0; r < W; r++)
      for (size_t i = 0; i < avg.size(); i++)
        for (size_t k = 0; k < avg[i].v.size(); k++) {
          double got = grads[static_cast<size_t>(r)][t][i].v[k];
          VP_CHECK(c, near(got, avg[i].v[k], 1e-6 * mag[i].v[k] + 1e-30), "rank %d of %d iteration %zu: gradient %zu[%zu] is %g, the average is %g", r, W, t, i, k, got, avg[i].v[k]);
        }
  }
  if (W > 1) c.nontrivial();
}

// ---- the sampler ----------------------------------------------------------------------------------

uint32_t engineSeed(unsigned long s) {
  uint32_t m = static_cast<uint32_t>(s) % 2147483647u;
  return m == 0 ? 1 : m;
}

void sampler(Case& c) {
  size_t R = static_cast<size_t>(c.coin() ? c.range(1, 5) : c.range(1, 40));
  size_t N;
  switch (c.weighted({4, 3, 2, 1})) {
    case 0: N = static_cast<size_t>(c.range(0, 40)); break;
    case 1: N = static_cast<size_t>(std::max<int64_t>(0, static_cast<int64_t>(R) * c.range(0, 20) + c.range(-1, 1))); break;
    case 2: N = static_cast<size_t>(c.range(0, static_cast<int64_t>(R))); break;
    default: N = static_cast<size_t>(c.range(0, c.chance(1, 20) ? 60000 : 2000));
  }
  bool shuffle = c.coin(), drop = c.coin();
  unsigned long seed = c.coin() ? static_cast<unsigned long>(c.range(0, 5)) : static_cast<unsigned long>(c.bits());
  bool viaGroup = c.chance(1, 3);
  size_t epochs = static_cast<size_t>(c.range(0, 3));
  std::vector<size_t> es;
  for (size_t e = 0; e < epochs; e++) es.push_back(static_cast<size_t>(c.chance(1, 5) ? c.range(0, 2000) : c.range(0, 4)));
  c.note("%zu items, %zu ranks, shuffle %d, drop %d, seed %lu, %s;", N, R, shuffle, drop, seed, viaGroup ? "world from the process group" : "world given");
  for (auto e : es) c.note(" epoch %zu", e);
  std::map<size_t, std::vector<std::vector<size_t>>> seen;
  Rng noise = c.sub();
  std::vector<std::vector<std::vector<size_t>>> got(es.size() + 1, std::vector<std::vector<size_t>>(R));
  for (size_t r = 0; r < R; r++) {
    tt::manualSeed(static_cast<unsigned>(noise.below(1000)));  // every rank has its own random state
    std::unique_ptr<ds::DistributedSampler> s;
    if (viaGroup) {
      gWorld = std::make_shared<World>(static_cast<int>(R));
      ds::DistributedProcessGroup::getInstance() = groupOf(static_cast<int>(r), static_cast<int>(R));
      s = std::make_unique<ds::DistributedSampler>(N, std::nullopt, std::nullopt, shuffle, seed, drop);
    } else {
      s = std::make_unique<ds::DistributedSampler>(N, R, r, shuffle, seed, drop);
    }
    got[0][r] = s->indices();
    VP_CHECK(c, s->size() == got[0][r].size(), "size %zu, %zu indices", s->size(), got[0][r].size());
    for (size_t e = 0; e < es.size(); e++) {
      s->setEpoch(es[e]);
      got[e + 1][r] = s->indices();
    }
  }
  if (viaGroup) {
    ds::DistributedProcessGroup::getInstance() = std::make_shared<ds::DistributedProcessGroup>();
    gWorld.reset();
  }
  size_t per = drop ? N / R : (N + R - 1) / R;
  for (size_t e = 0; e < got.size(); e++) {
    std::vector<size_t> times(N, 0);
    for (size_t r = 0; r < R; r++) {
      VP_CHECK(c, got[e][r].size() == per, "rank %zu of %zu has %zu indices of %zu items, not %zu", r, R, got[e][r].size(), N, per);
      for (auto i : got[e][r]) {
        VP_CHECK(c, i < N, "rank %zu got index %zu of %zu items", r, i, N);
        times[i]++;
      }
    }
    size_t total = per * R, missing = 0, repeats = 0;
    for (size_t i = 0; i < N; i++) {
      if (times[i] == 0) missing++;
      else repeats += times[i] - 1;
      VP_CHECK(c, times[i] <= (total + N - 1) / N, "item %zu of %zu is delivered %zu times by %zu ranks of %zu", i, N, times[i], R, per);
    }
    if (drop) VP_CHECK(c, repeats == 0 && missing == N - total, "%zu items missing and %zu repeated when dropping %zu of %zu", missing, repeats, N - total, N);
    else VP_CHECK(c, missing == 0 && repeats == total - N, "%zu items missing and %zu repeated when padding %zu to %zu", missing, repeats, N, total);
    size_t ep = e == 0 ? 0 : es[e - 1];
    auto it = seen.find(ep);
    if (it == seen.end()) seen[ep] = got[e];
    else VP_CHECK(c, it->second == got[e], "epoch %zu is not reproduced", ep);
  }
  if (shuffle && N >= 40) {
    // 1 chance in 40! that an honest shuffle keeps the order, or repeats the one of another epoch
    for (auto a = seen.begin(); a != seen.end(); ++a)
      for (auto b = std::next(a); b != seen.end(); ++b)
        // the linear congruential generator has the same state for seeds 0 and 1, and for equal seeds modulo 2^31-1
        VP_CHECK(c, engineSeed(seed + a->first) == engineSeed(seed + b->first) || a->second != b->second, "epochs %zu and %zu visit %zu items in the same order", a->first, b->first, N);
    c.cls("epochs compared");
  }
  if (!shuffle)
    for (auto& [ep, v] : seen) VP_CHECK(c, v == got[0], "without shuffling epoch %zu differs from the first", ep);
  if (R > 1 && N > 0) c.nontrivial();
  if (N % R == 0) c.cls("divisible");
  if (N < R) c.cls("fewer items than ranks");
}

// Data set sizes that a float cannot hold exactly.
void largeSampler(Case& c) {
  size_t R = static_cast<size_t>(c.range(1, 5));
  size_t N = (size_t{1} << 24) + static_cast<size_t>(c.range(0, 9));
  bool drop = c.coin();
  c.note("%zu items, %zu ranks, drop %d", N, R, drop);
  size_t per = drop ? N / R : (N + R - 1) / R;
  size_t sum = 0, last = 0;
  for (size_t r = 0; r < R; r++) {
    ds::DistributedSampler s(N, R, r, false, 0, drop);
    VP_CHECK(c, s.size() == per, "rank %zu of %zu has %zu indices of %zu items, not %zu", r, R, s.size(), N, per);
    sum += s.size();
    for (auto i : s.indices()) last = std::max(last, i);
  }
  VP_CHECK(c, last < N && (drop || last == N - 1), "the largest index of %zu items is %zu", N, last);
  c.nontrivial();
}

}  // namespace

int main(int argc, char** argv) {
  Suite s;
  s.property = "C20";
  s.rule = "a case is non-trivial when more than one rank takes part and a parameter is trained (gradients), or when more than one rank shares a non-empty data set (sampler)";
  s.assumptions = {"all ranks run the same model and the same sequence of steps, one backward pass per forward pass through the wrapper",
                   "every trainable parameter takes part in the forward pass", "all parameters have one data type",
                   "the communicator is simulated in the process: collectives complete when waited for; NCCL and CUDA are not exercised"};
  s.init = noCache;
  s.props = {{"averaged gradients", averages, 4000, 150000}, {"layers", layers, 1500, 60000}, {"sampler", sampler, 15000, 500000}, {"large data sets", largeSampler, 16, 100}};
  return runSuite(s, argc, argv);
}
