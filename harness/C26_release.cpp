// C26: what a program drops is given back. Random programs (graphs, training runs, model trees, files, stores) are run
// several times in one process; live heap bytes, file descriptors and threads must not grow from run to run.
#include <dirent.h>
#include <sanitizer/allocator_interface.h>
#include <sys/stat.h>

#include "Data/DatasetMNIST.h"
#include "Distributed/FileStore.h"
#include "Distributed/TCPStore.h"
#include "Tensor/NoGradGuard.h"
#include "Utils/MMapUtils.h"
#include "port.h"
#include "training.h"
#include <thread>

namespace {

size_t live() { return __sanitizer_get_current_allocated_bytes(); }
int countDir(const char* d) {
  int n = 0;
  DIR* p = opendir(d);
  if (!p) return 0;
  while (readdir(p)) n++;
  closedir(p);
  return n;
}

// Runs `f` until a run leaves nothing behind; fails when several in a row do.
template <typename F>
void released(Case& c, F f, const char* what) {
  f();
  size_t last = live();
  int grown = 0;
  size_t first = last;
  for (int i = 0; i < 5; i++) {
    f();
    size_t now = live();
    if (now <= last) return;
    grown++;
    last = now;
  }
  c.fail("%s: each of %d runs left memory behind, %zu bytes in all", what, grown, last - first);
}

// ---------------------------------------------------------------------------------------------------- graphs
struct Step {
  int op, a, b, k;
};
struct Program {
  std::vector<Step> steps;
  std::vector<char> leafGrad;
  bool persistent = false;  // the leaves outlive the runs
  bool keepHandles = false;
};
const char* kOps[] = {"add", "mul", "sub", "div", "relu", "sin", "matmul", "softmax", "logSoftmax", "permute", "reshape", "flatten+unflatten", "linear",
                      "dropout", "+=", "*=", "drop", "copy handle", "backward", "zeroGrad", "hook", "unhook", "noGrad", "unsqueeze", "sort", "topk", "narrow",
                      "concat", "split", "clone", "inplace fill", "view_", "grad handle", "requires twice", "mse", "nll", "sqrt", "gelu", "layerNorm",
                      "max", "gather", "toType", "print-free read", "detached copy", "pool", "conv", "embedding", "attention", "varMean", "stack"};
constexpr int kOpCount = sizeof(kOps) / sizeof(kOps[0]);
void hookFn(void* ctx, tt::Tensor&) { ++*static_cast<int*>(ctx); }

struct Hooked {
  Tensor t;
  int64_t id;
};
int gHookRuns = 0;

struct Machine {
  std::vector<Tensor> leaves;
  std::vector<Hooked> hooks;
  explicit Machine(const Program& p) {
    for (size_t i = 0; i < p.leafGrad.size(); i++) {
      std::vector<double> v(16);
      for (size_t j = 0; j < 16; j++) v[j] = 0.1 * static_cast<double>(1 + (i * 5 + j * 3) % 7);
      leaves.push_back(rawTensor({4, 4}, DType::Float32, v, p.leafGrad[i] != 0));
    }
  }
  void run(const Program& p);
};

void Machine::run(const Program& p) {
  // every tensor in the pool is [4,4]; `safe` results can be differentiated, `once` ones only once
  struct Slot {
    Tensor t;
    bool safe, once;
  };
  std::vector<Slot> pool;
  std::vector<Tensor> others;
  for (auto& l : leaves) pool.push_back({l, true, false});
  bool spent = false;  // a graph with a `once` node was differentiated
  for (auto& s : p.steps) {
    if (pool.empty()) break;
    Slot& A = pool[s.a % pool.size()];
    Slot& B = pool[s.b % pool.size()];
    Tensor a = A.t, b = B.t;
    bool safe = A.safe && B.safe, once = A.once || B.once;
    auto put = [&](Tensor t, bool sf, bool on) { pool.push_back({std::move(t), sf, on}); };
    switch (s.op) {
      case 0: put(a + b, safe, once); break;
      case 1: put(a * b, safe, once); break;
      case 2: put(a - b * 0.5f, safe, once); break;
      case 3: put(a / (b * b + 1.f), safe, once); break;
      case 4: put(fn::relu(a), A.safe, A.once); break;
      case 5: put(a.sin(), A.safe, A.once); break;
      case 6: put(a.matmul(b, s.k & 1, s.k & 2), !a.requiresGrad() && !b.requiresGrad() && safe, once); break;
      case 7: put(fn::softmax(a, s.k & 1), A.safe, true); break;
      case 8: put(fn::logSoftmax(a, s.k & 1), A.safe, true); break;
      case 9: put(a.permute({1, 0}), A.safe, A.once); break;
      case 10: put(a.reshape({2, 8}).reshape({4, 4}), A.safe, A.once); break;
      case 11: put(a.flatten().unflatten(0, {4, 4}), A.safe, A.once); break;
      case 12: put(fn::linear(a, b, s.k & 1 ? leaves[0].clone().flatten().narrow(0, 0, 4) : Tensor()), safe && !(s.k & 1), true); break;
      case 13: put(fn::dropout(a, 0.5f, s.k & 1), A.safe, true); break;
      case 14: {
        Tensor x = a * 1.f;
        x += b;
        put(x, safe, once);
        break;
      }
      case 15: {
        Tensor x = a * 1.f;
        x *= b;
        put(x, safe, once);
        break;
      }
      case 16:
        if (pool.size() > leaves.size()) pool.erase(pool.begin() + static_cast<long>(leaves.size() + s.a % (pool.size() - leaves.size())));
        break;
      case 17: put(a, A.safe, A.once); break;
      case 18:
        if (!A.safe || !a.requiresGrad() || (spent && A.once)) break;
        {
          if (A.once) spent = true;
          Tensor l = s.k & 1 ? a.sum() : a;
          if (s.k & 1) l.backward();
          else a.backward(Tensor::ones({4, 4}));
        }
        break;
      case 19: if (a.requiresGrad()) a.zeroGrad(); break;
      case 20: {
        Tensor& l = leaves[s.a % leaves.size()];
        if (l.requiresGrad() && hooks.size() < 4) hooks.push_back({l, l.registerHook(&hookFn, &gHookRuns)});
        break;
      }
      case 21:
        if (!hooks.empty()) {
          hooks.back().t.unregisterHook(hooks.back().id);
          hooks.pop_back();
        }
        break;
      case 22: {
        tt::NoGradGuard g;
        Tensor x = a * b + a;
        others.push_back(x);
        break;
      }
      case 23: others.push_back(fn::unsqueeze(a, s.k & 1)); break;
      case 24: others.push_back(fn::sort(a, s.k & 1).first); break;
      case 25: others.push_back(fn::topk(a, 2, s.k & 1).second); break;
      case 26: others.push_back(fn::narrow(a, 0, s.k & 1, 2)); break;
      case 27: {
        std::vector<Tensor> v{a, b};
        others.push_back(fn::concat(tt::ArrayView<Tensor>(v), s.k & 1));
        break;
      }
      case 28: for (auto& t : fn::split(a, 2, s.k & 1)) others.push_back(t); break;
      case 29: others.push_back(a.clone()); break;
      case 30: {
        Tensor x = a.clone();
        Tensor y = x;
        x.fill_(2.f);
        others.push_back(y);
        break;
      }
      case 31: {
        Tensor x = a * 1.f;
        x.reshape_({16});
        x.unsqueeze_(0);
        others.push_back(x);
        break;
      }
      case 32: if (a.requiresGrad() && a.grad().defined()) others.push_back(a.grad()); break;
      case 33: if (s.a % pool.size() < leaves.size() && a.requiresGrad()) pool[s.a % pool.size()].t.setRequiresGrad(true); break;
      case 34: {
        Tensor target = b.clone();
        target.setRequiresGrad(false);
        Tensor l = fn::mseLoss(a, target);
        if (A.safe && a.requiresGrad() && !(spent && A.once)) {
          if (A.once) spent = true;
          l.backward();
        }
        break;
      }
      case 35: {
        Tensor l = fn::nllLoss(fn::logSoftmax(a, 1), rawTensor({4}, DType::Int64, {0, 3, 1, 2}));
        if (A.safe && a.requiresGrad() && !(spent && A.once)) {
          if (A.once) spent = true;
          l.backward();
        }
        break;
      }
      case 36: others.push_back(fn::sqrt(a * a + 1.f)); break;
      case 37: others.push_back(fn::gelu(a)); break;
      case 38: others.push_back(fn::layerNorm(a, {4}, Tensor::ones({4}), Tensor::zeros({4}), 1e-5f)); break;
      case 39: others.push_back(fn::max(a, 1, false).first); break;
      case 40: others.push_back(fn::gather(a, 0, rawTensor({2, 4}, DType::Int64, {0, 1, 2, 3, 3, 2, 1, 0}))); break;
      case 41: others.push_back(a.to(s.k & 1 ? DType::Float16 : DType::Int64)); break;
      case 42: (void)a.toList<float>(); break;
      case 43: {
        Tensor x = a.clone();
        x.setRequiresGrad(true);
        Tensor y = x * b;
        others.push_back(x);
        if (safe && !(spent && once)) {
          if (once) spent = true;
          y.sum().backward();
        }
        break;
      }
      case 44: {
        Tensor x = fn::maxPool2d(a.reshape({1, 1, 4, 4}), 2, 2);
        if (A.safe && a.requiresGrad() && !(spent && A.once)) {
          if (A.once) spent = true;
          x.sum().backward();
        }
        break;
      }
      case 45: {
        Tensor w = rawTensor({2, 1, 2, 2}, DType::Float32, {1, 2, 3, 4, 5, 6, 7, 8}, true);
        Tensor x = fn::conv2d(a.reshape({1, 1, 4, 4}), w, {}, 1, s.k & 1);
        if (A.safe && !(spent && A.once)) {
          if (A.once) spent = true;
          x.sum().backward();
        }
        break;
      }
      case 46: others.push_back(fn::embedding(rawTensor({3}, DType::Int64, {0, 3, 1}), a)); break;
      case 47: others.push_back(fn::sdpAttention(a, b, b, s.k & 1)); break;
      case 48: others.push_back(fn::varMean(a, int64_t(1), true).first); break;
      default: {
        std::vector<Tensor> v{a, b};
        others.push_back(fn::stack(tt::ArrayView<Tensor>(v), s.k & 1));
      }
    }
    if (pool.size() > 12) pool.erase(pool.begin() + static_cast<long>(leaves.size()));
    if (others.size() > 10) others.erase(others.begin());
  }
}

void graphs(Case& c) {
  Program p;
  int nl = static_cast<int>(c.range(1, 3));
  for (int i = 0; i < nl; i++) p.leafGrad.push_back(c.chance(3, 4));
  p.persistent = c.coin();
  int n = static_cast<int>(c.range(1, c.thorough ? 40 : 20));
  int back = 0, made = 0;
  for (int i = 0; i < n; i++) {
    Step s;
    s.op = c.chance(1, 5) ? 18 : static_cast<int>(c.draw(kOpCount));
    s.a = static_cast<int>(c.draw(12));
    s.b = static_cast<int>(c.draw(12));
    s.k = static_cast<int>(c.draw(4));
    back += s.op == 18;
    made += s.op < 16;
    p.steps.push_back(s);
    c.note("%s(%d,%d,%d); ", kOps[s.op], s.a, s.b, s.k);
  }
  c.note("%s leaves", p.persistent ? "lasting" : "fresh");
  if (p.persistent) {
    Machine m(p);
    // hooks are registered again in each run, so they are taken off after it
    released(c, [&] {
      m.run(p);
      for (auto& h : m.hooks) h.t.unregisterHook(h.id);
      m.hooks.clear();
    }, "a program on lasting leaves");
    c.cls("lasting leaves");
  } else {
    released(c, [&] {
      Machine m(p);
      m.run(p);
    }, "a program");
    c.cls("fresh leaves");
  }
  if (back > 0) c.cls("with backward");
  if (made > 0) c.nontrivial();
}

// --------------------------------------------------------------------------------------------------- training
void training(Case& c) {
  Plan p = genPlan(c, true);
  bool clear = c.chance(3, 4), evaluate = c.coin(), keepLoss = c.chance(1, 3), guard = c.coin();
  bool storing = c.chance(1, 4);
  c.note("clear %d evaluate %d keepLoss %d guard %d storing %d", clear, evaluate, keepLoss, guard, storing);
  std::string path = scratchPath("m");
  auto whole = [&](bool steady) {
    tt::manualSeed(p.seed);
    Net net(p);
    auto opt = makeOpt(p, net.parameters());
    std::unique_ptr<optim::lr_scheduler::StepLR> sch;
    if (p.stepSize) sch = std::make_unique<optim::lr_scheduler::StepLR>(*opt, p.stepSize, p.gamma);
    auto set = std::make_shared<Set>(p);
    Tensor kept;
    size_t last = 0;
    int grown = 0, epochs = steady ? 7 : 2;
    for (int e = 0; e < epochs; e++) {
      {
        auto loader = makeLoader(p, set);
        for (auto [i, batch] : loader) {
          if (clear) net.zeroGrad();
          Tensor out = net(batch[0]);
          Tensor l = lossOf(p, out, batch[1]);
          if (l.requiresGrad()) l.backward();
          opt->step();
          if (keepLoss) kept = l;
        }
        if (sch) sch->step();
        if (evaluate) {
          std::optional<tt::NoGradGuard> g;
          if (guard) g.emplace();
          net.eval();
          for (auto [i, batch] : loader) (void)net(batch[0]);
          net.train();
        }
        if (storing) {
          tt::save(net, path);
          if (!tt::load(net, path)) c.fail("loading the saved model failed");
        }
      }
      set->asked.clear();
      set->asked.shrink_to_fit();
      size_t now = live();
      if (e >= 2) grown = now > last ? grown + 1 : 0;
      last = now;
    }
    if (steady && grown >= 4) c.fail("every one of the last %d epochs left memory behind", grown);
  };
  whole(true);
  released(c, [&] { whole(false); }, "a training run");
  if (p.samples > 1) c.nontrivial();
  c.cls(clear ? "clearing" : "accumulating");
}

// -------------------------------------------------------------------------------------------------- resources
struct ShortStore : tt::distributed::FileStore {
  explicit ShortStore(const std::string& p) : FileStore(p) { timeout_ = std::chrono::milliseconds(5); }
};
void resources(Case& c) {
  int kind = static_cast<int>(c.weighted({3, 3, 3, 3, 2}));
  int64_t n = c.range(1, 4);
  uint64_t seed = c.bits();
  static const char* names[] = {"file store", "TCP store", "mapping", "model files", "image files"};
  c.note("%s x%lld seed %llu", names[kind], (long long)n, (unsigned long long)seed);
  auto body = [&] {
    Rng r(seed);
    switch (kind) {
      case 0: {
        tt::distributed::FileStore s(scratchPath("store"));
        for (int64_t i = 0; i < n; i++) {
          s.set("k" + std::to_string(r.below(3)), std::vector<uint8_t>(r.below(50), 7));
          (void)s.add("n", 1);
          (void)s.check({"k0", "none"});
          (void)s.deleteKey("k1");
          if (r.below(2)) {
            ShortStore t(scratchPath("store"));
            if (r.below(2)) t.wait({"none"});
            else (void)t.get("none");
          }
        }
        break;
      }
      case 1: {
        Port p;
        tt::distributed::TCPStore s("127.0.0.1", p.port, true, false, -1, std::chrono::milliseconds(4));
        for (int64_t i = 0; i < n; i++) {
          tt::distributed::TCPStore t("127.0.0.1", p.port, false, false, -1, std::chrono::milliseconds(3000));
          t.set("k" + std::to_string(r.below(3)), std::vector<uint8_t>(r.below(50), 7));
          if (r.below(2)) (void)t.get("none");
          (void)t.add("n", 1);
        }
        break;
      }
      case 2: {
        std::string path = scratchPath("map");
        size_t len = 1 + r.below(9000);
        writeFile(path, Bytes(len, 3));
        for (int64_t i = 0; i < n; i++) {
          auto m = tt::MMapUtils::mapFileForRead(path);
          if (m.success) tt::MMapUtils::unmapFile(m);
          auto bad = tt::MMapUtils::mapFileForRead(r.below(2) ? path + "-none" : scratchRoot());
          if (bad.success) tt::MMapUtils::unmapFile(bad);
        }
        break;
      }
      case 3: {
        std::string path = scratchPath("model");
        nn::Sequential net{std::make_shared<nn::Linear>(3, 4), std::make_shared<nn::Relu>(), std::make_shared<nn::Linear>(4, 2)};
        nn::Sequential other{std::make_shared<nn::Linear>(3, 4), std::make_shared<nn::Relu>(), std::make_shared<nn::Linear>(4, 3)};
        for (int64_t i = 0; i < n; i++) {
          (void)tt::save(net, path);
          (void)tt::load(net, path);
          (void)tt::load(other, path, r.below(2));
          Bytes b;
          (void)readFile(path, b);
          if (!b.empty() && r.below(2)) b.resize(r.below(b.size()));
          else if (!b.empty()) b[r.below(std::min<size_t>(b.size(), 120))] ^= static_cast<uint8_t>(1 + r.below(255));
          writeFile(path, b);
          (void)tt::load(net, path);
          (void)tt::save(net, scratchRoot() + "/none/x");
          (void)tt::load(net, scratchRoot() + "/none/x");
        }
        break;
      }
      default: {
        std::string dir = scratchPath("img/");
        mkdir(dir.c_str(), 0700);
        for (int64_t i = 0; i < n; i++) {
          int64_t k = r.below(4);
          Bytes im{0, 0, 8, 3, 0, 0, 0, static_cast<uint8_t>(k), 0, 0, 0, 2, 0, 0, 0, 2}, lb{0, 0, 8, 1, 0, 0, 0, static_cast<uint8_t>(k)};
          im.resize(im.size() + k * 4, 9);
          lb.resize(lb.size() + k, 1);
          if (r.below(3) == 0) im.resize(r.below(im.size()));
          if (r.below(3) == 0) lb.resize(r.below(lb.size()));
          writeFile(dir + "train-images-idx3-ubyte", im);
          writeFile(dir + "train-labels-idx1-ubyte", lb);
          data::DatasetMNIST d(dir, data::DatasetMNIST::TRAIN, nullptr);
          if (d.size() > 0) (void)d.getItem(0);
        }
      }
    }
  };
  body();
  int fds = countDir("/proc/self/fd"), threads = countDir("/proc/self/task"), grownFd = 0, grownTh = 0;
  for (int i = 0; i < 3; i++) {
    body();
    int t = 0;
    for (int w = 0; w < 200; w++) {  // ended threads may take a moment to leave
      t = countDir("/proc/self/task");
      if (t <= threads) break;
      std::this_thread::sleep_for(std::chrono::milliseconds(10));
    }
    int f = countDir("/proc/self/fd");
    grownFd += f > fds;
    grownTh += t > threads;
    fds = f;
    threads = t;
  }
  VP_CHECK(c, grownFd < 3, "%s: every run left file descriptors open", names[kind]);
  VP_CHECK(c, grownTh < 3, "%s: every run left threads running", names[kind]);
  released(c, body, names[kind]);
  c.cls(names[kind]);
  c.nontrivial();
}

}  // namespace

int main(int argc, char** argv) {
  makeScratchRoot();
  Suite s;
  s.property = "C26";
  s.rule = "graphs: at least one recorded operation; training: at least two samples; resources: every case";
  s.assumptions = {"memory is counted with the block cache off (the cache is the subject of C13)",
                   "a first run may leave caches behind that later runs use; growth in five successive runs is a leak",
                   "handles, hooks and models the program keeps are kept"};
  s.init = noCache;
  s.props = {{"graphs", graphs, 60000, 2000000}, {"training", training, 3000, 120000}, {"resources", resources, 700, 20000}};
  int rc = runSuite(s, argc, argv);
  removeTree(scratchRoot());
  return rc;
}
