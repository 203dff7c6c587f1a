// C18: generated trees of modules: listings, propagation of requests, sequential order, layers against functions.
#include <map>
#include <set>

#include "Functions.h"
#include "Operations.h"
#include "Optimizer.h"
#include "Utils/RandomGenerator.h"
#include "modules.h"
using namespace vp;
namespace fn = tt::function;
namespace op = tt::op;

namespace {

const std::vector<DType> kFloats = {DType::Float32, DType::Float16, DType::BFloat16};
tt::Options opt(DType t) { return tt::options::dtype(t); }

// A layer that tells its mode and counts initialisation requests.
template <typename M>
struct Probe : M {
  using M::M;
  bool mode() const { return this->training_; }
};
struct Plain : nn::Module {  // a module without anything of its own
  std::vector<std::shared_ptr<nn::Module>> held;
};
struct List : nn::ModuleList {
  using nn::ModuleList::ModuleList;
};

// ---- the tree and what is known about it ----------------------------------------------------------------
struct Item {
  std::string name;
  Tensor* live;
  bool param;
};
struct T {
  std::shared_ptr<nn::Module> m;
  std::string kind;
  std::vector<Item> own;
  std::vector<std::pair<std::string, std::shared_ptr<T>>> kids;
  std::function<bool()> mode;
  Node* node = nullptr;
  std::function<void(Case&, T&)> afterReset;  // what initialisation must have produced
  bool training = true;                       // the mode it must be in
  int resets = 0;
};
using TP = std::shared_ptr<T>;

template <typename M>
std::shared_ptr<Probe<M>> keep(const TP& t, std::shared_ptr<Probe<M>> m, const char* kind) {
  t->m = m;
  t->kind = kind;
  auto* raw = m.get();
  t->mode = [raw] { return raw->mode(); };
  return m;
}
void within(Case& c, const Tensor& t, double bound, const char* what) {
  for (double x : readVec(t)) VP_CHECK(c, std::fabs(x) <= bound * (1 + epsOf(t.dtype()) + 1e-6), "%s: %g after initialisation, the bound is %g", what, x, bound);
}

TP genLayer(Case& c) {
  auto t = std::make_shared<T>();
  DType dt = c.chance(1, 4) ? c.pick(kFloats) : DType::Float32;
  int64_t a = c.range(1, 4), b = c.range(1, 4);
  bool bias = c.coin();
  switch (c.draw(10)) {
    case 0: {
      auto m = keep(t, std::make_shared<Probe<nn::Linear>>(a, b, bias, opt(dt)), "Linear");
      t->own = {{"weight", &m->weight(), true}};
      if (bias) t->own.push_back({"bias", &m->bias(), true});
      t->afterReset = [a](Case& c, T& t) {
        for (auto& i : t.own) within(c, *i.live, 1 / std::sqrt(static_cast<double>(a)), "Linear");
      };
      break;
    }
    case 1: {
      int64_t k = c.range(1, 3);
      auto m = keep(t, std::make_shared<Probe<nn::Conv2D>>(a, b, tt::Dim2D(k, 2), 1, 0, bias, opt(dt)), "Conv2D");
      t->own = {{"weight", &m->weight(), true}};
      if (bias) t->own.push_back({"bias", &m->bias(), true});
      t->afterReset = [a, k](Case& c, T& t) {
        for (auto& i : t.own) within(c, *i.live, 1 / std::sqrt(static_cast<double>(a * k * 2)), "Conv2D");
      };
      break;
    }
    case 2: {
      auto m = keep(t, std::make_shared<Probe<nn::Embedding>>(a, b, opt(dt)), "Embedding");
      t->own = {{"weight", &m->weight(), true}};
      t->afterReset = [](Case& c, T& t) { within(c, *t.own[0].live, 9, "Embedding"); };
      break;
    }
    case 3: {
      int64_t dim = 2 * a, ctx = c.range(1, 6);
      auto m = keep(t, std::make_shared<Probe<nn::RoPE>>(dim, ctx, 100.f, std::nullopt, opt(dt)), "RoPE");
      t->own = {{"rope", &m->cache(), false}};
      t->afterReset = [dim, ctx](Case& c, T& t) {
        Tensor want = op::ropeInit(dim, ctx, 100.f, std::nullopt, opt(DType::Float32));
        auto got = readVec(*t.own[0].live), w = readVec(want);
        VP_CHECK(c, got.size() == w.size(), "RoPE table of %zu values", got.size());
        for (size_t i = 0; i < w.size(); i++) VP_CHECK(c, std::fabs(got[i] - w[i]) <= 2 * epsOf(t.own[0].live->dtype()), "RoPE table element %zu is %g after initialisation, not %g", i, got[i], w[i]);
      };
      break;
    }
    case 4: {
      Shape s = {a};
      auto m = keep(t, std::make_shared<Probe<nn::LayerNorm>>(tt::IntArrayView(s), 1e-5f, bias, opt(dt)), "LayerNorm");
      t->own = {{"weight", &m->weight(), true}};
      if (bias) t->own.push_back({"bias", &m->bias(), true});
      t->afterReset = [](Case& c, T& t) {
        for (auto& i : t.own)
          for (double x : readVec(*i.live)) VP_CHECK(c, x == (i.name == "weight" ? 1 : 0), "LayerNorm %s starts at %g", i.name.c_str(), x);
      };
      break;
    }
    case 5: {
      Shape s = {a};
      auto m = keep(t, std::make_shared<Probe<nn::RMSNorm>>(tt::IntArrayView(s), 1e-5f, opt(dt)), "RMSNorm");
      t->own = {{"weight", &m->weight(), true}};
      t->afterReset = [](Case& c, T& t) {
        for (double x : readVec(*t.own[0].live)) VP_CHECK(c, x == 1, "RMSNorm starts at %g", x);
      };
      break;
    }
    case 6: keep(t, std::make_shared<Probe<nn::Relu>>(), "Relu"); break;
    case 7: keep(t, std::make_shared<Probe<nn::Dropout>>(), "Dropout"); break;
    case 8: keep(t, std::make_shared<Probe<nn::Softmax>>(-1), "Softmax"); break;
    default: keep(t, std::make_shared<Probe<nn::Flatten>>(), "Flatten"); break;
  }
  return t;
}

TP genTree(Case& c, int depth, int& budget) {
  budget--;
  if (depth <= 0 || budget <= 0 || c.chance(1, 3)) {
    if (c.chance(2, 3)) return genLayer(c);
  }
  auto t = std::make_shared<T>();
  auto kids = [&](bool numbered) {
    std::vector<TP> v;
    int64_t n = depth > 0 && budget > 0 ? c.range(0, 4) : 0;
    if (numbered && depth > 0 && c.chance(1, 12)) n = c.chance(1, 20) ? c.range(99, 130) : 11;  // names of two and three digits
    for (int64_t i = 0; i < n; i++) v.push_back(n > 5 ? genLayer(c) : genTree(c, depth - 1, budget));
    return v;
  };
  auto names = [&](const std::vector<TP>& v) {
    std::set<std::string> used;
    for (size_t i = 0; i < v.size(); i++) {
      std::string n = c.chance(1, 2) ? genName(c) : std::string(1, static_cast<char>('p' + i));
      // no two names of one module may collide, not even through the separator
      for (auto& ch : n)
        if (ch == '.') ch = ',';
      while (!used.insert(n).second) n += static_cast<char>('A' + i);
      t->kids.emplace_back(n, v[i]);
    }
  };
  switch (c.draw(4)) {
    case 0: {
      auto n = std::make_shared<Node>();
      t->m = n;
      t->node = n.get();
      t->kind = "Node";
      auto* raw = n.get();
      t->mode = [raw] { return raw->training(); };
      std::set<std::string> used;
      int64_t np = c.range(0, 3), nb = c.range(0, 2);
      auto fill = [&](std::vector<std::pair<std::string, Tensor>>& out, bool param) {
        for (int64_t i = 0; i < (param ? np : nb); i++) {
          std::string name = genName(c);
          for (auto& ch : name)
            if (ch == '.') ch = ',';
          while (!used.insert(name).second) name += static_cast<char>('0' + i);
          DType dt = param || c.coin() ? c.pick(kFloats) : c.oneOf<DType>({DType::Int64, DType::Int32, DType::Bool});
          Shape s = genShape(c, 0, 3, 8, c.chance(1, 12));
          out.emplace_back(name, rawTensor(s, dt, genData(c, numelOf(s), dt, Data::Small), param && c.chance(5, 6)));
        }
      };
      fill(n->params, true);
      fill(n->buffers, false);
      for (auto& p : n->params) t->own.push_back({p.first, &p.second, true});
      for (auto& p : n->buffers) t->own.push_back({p.first, &p.second, false});
      auto v = kids(false);
      names(v);
      if (c.coin()) {
        std::vector<std::pair<std::string, std::reference_wrapper<nn::Module>>> list;
        size_t split = c.draw(t->kids.size() + 1);
        for (size_t i = 0; i < split; i++) list.emplace_back(t->kids[i].first, *t->kids[i].second->m);
        n->registerModules(list);
        for (size_t i = split; i < t->kids.size(); i++) n->registerModule(t->kids[i].first, *t->kids[i].second->m);
      } else
        for (auto& k : t->kids) n->registerModule(k.first, *k.second->m);
      break;
    }
    case 1: {
      auto m = keep(t, std::make_shared<Probe<Plain>>(), "Module");
      auto v = kids(false);
      names(v);
      for (auto& k : t->kids) m->registerModule(k.first, *k.second->m);
      break;
    }
    case 2: {
      auto v = kids(true);
      bool list = c.coin();
      std::shared_ptr<Probe<List>> m;
      size_t from = 0;
      if (list && v.size() >= 2) {
        m = std::make_shared<Probe<List>>(std::initializer_list<std::shared_ptr<nn::Module>>{v[0]->m, v[1]->m});
        from = 2;
      } else m = std::make_shared<Probe<List>>();
      for (size_t i = from; i < v.size(); i++) m->pushBack(v[i]->m);
      keep(t, m, "ModuleList");
      for (size_t i = 0; i < v.size(); i++) t->kids.emplace_back(std::to_string(i), v[i]);
      if (c.chance(1, 3)) {
        m->emplaceBack<Probe<nn::Linear>>(2, 3);
        auto k = std::make_shared<T>();
        auto& made = static_cast<Probe<nn::Linear>&>((*m)[v.size()]);
        k->kind = "Linear";
        auto* raw = &made;
        k->m = std::shared_ptr<nn::Module>(m, raw);
        k->mode = [raw] { return raw->mode(); };
        k->own = {{"weight", &raw->weight(), true}, {"bias", &raw->bias(), true}};
        t->kids.emplace_back(std::to_string(v.size()), k);
        c.cls("emplaceBack");
      }
      VP_CHECK(c, m->size() == t->kids.size() && m->empty() == t->kids.empty(), "a list of %zu modules has size %zu", t->kids.size(), m->size());
      size_t i = 0;
      for (auto& k : *m) {
        VP_CHECK(c, i < t->kids.size() && k.get() == t->kids[i].second->m.get() && &(*m)[i] == k.get(), "entry %zu of a module list is another module", i);
        i++;
      }
      VP_CHECK(c, i == t->kids.size(), "iterating a list of %zu modules visits %zu", t->kids.size(), i);
      break;
    }
    default: {
      auto v = kids(true);
      std::shared_ptr<Probe<nn::Sequential>> m;
      using L = std::initializer_list<std::shared_ptr<nn::Module>>;
      size_t n = v.size();
      if (n == 0) m = std::make_shared<Probe<nn::Sequential>>(L{});
      else if (n == 1) m = std::make_shared<Probe<nn::Sequential>>(L{v[0]->m});
      else if (n == 2) m = std::make_shared<Probe<nn::Sequential>>(L{v[0]->m, v[1]->m});
      else m = std::make_shared<Probe<nn::Sequential>>(L{v[0]->m, v[1]->m, v[2]->m});
      for (size_t i = 3; i < n; i++) m->pushBack(v[i]->m);
      keep(t, m, "Sequential");
      for (size_t i = 0; i < n; i++) t->kids.emplace_back(std::to_string(i), v[i]);
      break;
    }
  }
  return t;
}
TP genTree(Case& c) {
  int budget = c.thorough ? 40 : 16;
  auto t = genTree(c, static_cast<int>(c.range(1, 4)), budget);
  if (c.chance(1, 60)) {  // deep inside other modules
    int64_t depth = c.range(3, 40);
    for (int64_t i = 0; i < depth; i++) {
      auto up = std::make_shared<T>();
      auto m = keep(up, std::make_shared<Probe<Plain>>(), "Module");
      up->kids.emplace_back(std::string(1, static_cast<char>('a' + i % 26)), t);
      m->registerModule(up->kids[0].first, *t->m);
      t = up;
    }
    c.cls("deep tree");
  }
  return t;
}
void all(T& t, const std::function<void(T&)>& f) {
  f(t);
  for (auto& k : t.kids) all(*k.second, f);
}
std::vector<T*> nodes(T& t) {
  std::vector<T*> v;
  all(t, [&](T& x) { v.push_back(&x); });
  return v;
}
void list(T& t, const std::string& prefix, bool states, std::vector<std::pair<std::string, Tensor*>>& out) {
  for (auto& i : t.own)
    if (i.param || states) out.emplace_back(prefix + i.name, i.live);
  for (auto& k : t.kids) list(*k.second, prefix + k.first + ".", states, out);
}
void expectListing(Case& c, T& t, const std::string& prefix, const char* when) {
  for (int states = 0; states < 2; states++) {
    std::vector<std::pair<std::string, Tensor*>> want;
    list(t, prefix, states == 1, want);
    const char* what = states ? "namedStates" : "namedParameters";
    auto got = states ? t.m->namedStates(prefix) : t.m->namedParameters(prefix);
    VP_CHECK(c, got.size() == want.size(), "%s: %s of a %s lists %zu tensors, it has %zu", when, what, t.kind.c_str(), got.size(), want.size());
    std::set<std::string> names;
    std::set<Tensor*> tensors;
    for (size_t i = 0; i < got.size(); i++) {
      VP_CHECK(c, got[i].first == want[i].first, "%s: %s entry %zu is called '%s', expected '%s'", when, what, i, got[i].first.c_str(), want[i].first.c_str());
      VP_CHECK(c, got[i].second == want[i].second, "%s: %s '%s' is not the module's own tensor", when, what, got[i].first.c_str());
      VP_CHECK(c, names.insert(got[i].first).second, "%s: %s names '%s' twice", when, what, got[i].first.c_str());
      VP_CHECK(c, tensors.insert(got[i].second).second, "%s: %s lists a tensor twice", when, what);
    }
    auto plain = states ? t.m->states() : t.m->parameters();
    VP_CHECK(c, plain.size() == want.size(), "%s: %zu tensors without names, %zu with", when, plain.size(), want.size());
    for (size_t i = 0; i < plain.size(); i++) VP_CHECK(c, plain[i] == want[i].second, "%s: tensor %zu without name is another one", when, i);
  }
}

void listing(Case& c) {
  auto t = genTree(c);
  auto v = nodes(*t);
  c.note("%zu modules", v.size());
  if (v.size() > 2) c.nontrivial();
  expectListing(c, *t, "", "at first");
  expectListing(c, *t, c.oneOf<const char*>({"model.", "a", ".", ""}), "with a prefix");
  for (auto* x : v)
    if (c.chance(1, 3)) expectListing(c, *x, "", "of a part");
  // a module added later is listed, too
  if (t->kind == "ModuleList" || t->kind == "Sequential") {
    auto k = genLayer(c);
    static_cast<nn::ModuleList&>(*t->m).pushBack(k->m);
    t->kids.emplace_back(std::to_string(t->kids.size()), k);
    expectListing(c, *t, "", "after pushBack");
    c.cls("grown");
  } else if (t->kind == "Node" || t->kind == "Module") {
    auto k = genLayer(c);
    t->m->registerModule("zz", *k->m);
    t->kids.emplace_back("zz", k);
    expectListing(c, *t, "", "after registerModule");
  }
}

// ---- requests reach every descendant ----------------------------------------------------------------------
struct Snapshot {
  Shape shape;
  DType dt;
  std::vector<double> v;
  bool grad;
};
Snapshot snap(const Tensor& t) { return {toShape(t.shape()), t.dtype(), readVec(t), t.requiresGrad()}; }
void expectSame(Case& c, const Tensor& t, const Snapshot& s, const std::string& name, const char* when) {
  VP_CHECK(c, t.defined() && toShape(t.shape()) == s.shape && t.dtype() == s.dt, "%s: '%s' is now %s %s", when, name.c_str(), dtName(t.dtype()), str(toShape(t.shape())).c_str());
  VP_CHECK(c, t.requiresGrad() == s.grad, "%s: '%s' %s gradients", when, name.c_str(), s.grad ? "no longer takes" : "now takes");
  auto now = readVec(t);
  for (size_t i = 0; i < now.size(); i++) VP_CHECK(c, sameValue(now[i], s.v[i]), "%s: element %zu of '%s' went from %g to %g", when, i, name.c_str(), s.v[i], now[i]);
}

void requests(Case& c) {
  auto t = genTree(c);
  auto v = nodes(*t);
  if (v.size() > 2) c.nontrivial();
  c.note("%zu modules:", v.size());
  std::vector<std::pair<std::string, Tensor*>> states;
  list(*t, "", true, states);
  // stale values that initialisation must replace
  for (auto& [name, p] : states)
    if (p->numel()) p->fill_(p->dtype() == DType::Bool ? 1 : 50);
  size_t steps = 1 + c.draw(7);
  for (size_t k = 0; k < steps; k++) {
    T& at = c.coin() ? *t : *v[c.draw(v.size())];
    std::vector<std::pair<std::string, Tensor*>> inside;
    list(at, "", true, inside);
    std::map<Tensor*, Snapshot> before;
    for (auto& s : states) before[s.second] = snap(*s.second);
    std::set<Tensor*> in;
    for (auto& s : inside) in.insert(s.second);
    auto others = [&](const char* when) {
      for (auto& [name, p] : states)
        if (!in.count(p)) expectSame(c, *p, before[p], name, when);
    };
    switch (c.draw(5)) {
      case 0: {  // mode
        bool mode = c.coin();
        c.note(mode ? "train;" : "eval;");
        if (mode) c.coin() ? at.m->train() : at.m->train(true);
        else c.coin() ? at.m->eval() : at.m->train(false);
        all(at, [&](T& x) { x.training = mode; });
        c.cls("mode");
        break;
      }
      case 1: {  // conversion
        DType dt = c.pick(kFloats);
        c.note("to %s;", dtName(dt));
        switch (c.draw(3)) {
          case 0: at.m->to(dt); break;
          case 1: at.m->to(dt, tt::Device(tt::DeviceType::CPU)); break;
          default: at.m->to(tt::Device(tt::DeviceType::CPU)); dt = DType::Bool; break;  // no conversion
        }
        for (auto& [name, p] : inside) {
          auto s = before[p];
          if (dt != DType::Bool) {
            s.dt = dt;
            for (auto& x : s.v) x = roundDt(x, dt);
          }
          expectSame(c, *p, s, name, "after conversion");
        }
        others("conversion of another part");
        c.cls("conversion");
        break;
      }
      case 2: {  // gradients
        c.note("zeroGrad;");
        std::map<Tensor*, std::vector<double>> grads;
        for (auto& [name, p] : states) {
          if (!p->requiresGrad() || !isFloatT(p->dtype())) continue;
          if (c.chance(2, 3)) {
            Shape s = toShape(p->shape());
            p->setGrad(rawTensor(s, p->dtype(), std::vector<double>(static_cast<size_t>(numelOf(s)), 3)));
          }
          if (p->grad().defined()) grads[p] = readVec(p->grad());
        }
        std::vector<std::pair<std::string, Tensor*>> params;
        list(at, "", false, params);
        std::set<Tensor*> cleared;
        for (auto& s : params) cleared.insert(s.second);
        at.m->zeroGrad();
        for (auto& [name, p] : states) {
          if (p->requiresGrad() && isFloatT(p->dtype())) {
            bool has = p->grad().defined();
            if (cleared.count(p)) {
              if (has)
                for (double x : readVec(p->grad())) VP_CHECK(c, x == 0, "after zeroGrad the gradient of '%s' holds %g", name.c_str(), x);
            } else if (grads.count(p)) {
              VP_CHECK(c, has && readVec(p->grad()) == grads[p], "zeroGrad of another part changed the gradient of '%s'", name.c_str());
            }
          } else if (cleared.count(p)) c.cls("frozen parameter");
          expectSame(c, *p, before[p], name, "after zeroGrad");
        }
        c.cls("gradients");
        break;
      }
      case 3: {  // initialisation
        c.note("init;");
        tt::manualSeed(c.draw(1000));
        if (c.coin()) at.m->initParameters();
        else at.m->resetParameters();
        all(at, [&](T& x) {
          if (x.node) x.resets++;
          if (x.afterReset) x.afterReset(c, x);
        });
        for (auto& [name, p] : inside) {
          auto& s = before[p];
          VP_CHECK(c, toShape(p->shape()) == s.shape && p->dtype() == s.dt && p->requiresGrad() == s.grad, "initialisation turned '%s' into %s %s", name.c_str(), dtName(p->dtype()),
                   str(toShape(p->shape())).c_str());
        }
        others("initialisation of another part");
        c.cls("initialisation");
        break;
      }
      default: {  // a parameter is replaced or frozen
        std::vector<std::pair<std::string, Tensor*>> params;
        list(*t, "", false, params);
        if (params.empty()) break;
        auto& [name, p] = params[c.draw(params.size())];
        if (!isFloatT(p->dtype())) break;
        c.note("edit;");
        bool grad = p->requiresGrad();
        if (c.coin()) {
          Shape s = toShape(p->shape());
          *p = rawTensor(s, p->dtype(), genData(c, numelOf(s), p->dtype(), Data::Small), grad);
        } else {
          p->setRequiresGrad(!grad);
          c.cls("frozen or thawed");
        }
      }
    }
    for (auto* x : v) {
      VP_CHECK(c, x->mode() == x->training, "a %s is in %s mode", x->kind.c_str(), x->mode() ? "training" : "evaluation");
      if (x->node) VP_CHECK(c, x->node->resets == x->resets, "a module was initialised %d times instead of %d", x->node->resets, x->resets);
    }
    expectListing(c, *t, "", "after a request");
  }
}

// ---- layers compute the functional layer ------------------------------------------------------------------
struct Layer {
  std::shared_ptr<nn::Module> m;
  std::function<Tensor(const Tensor&, const std::vector<Tensor>&)> f;  // input, copies of the listed parameters
  std::string name;
  Shape out;
};
Shape infer(const Shape& in, int64_t k0, int64_t k1, int64_t s0, int64_t s1, int64_t p0, int64_t p1, int64_t ch) {
  return {in[0], ch, (in[2] + 2 * p0 - k0) / s0 + 1, (in[3] + 2 * p1 - k1) / s1 + 1};
}
// A layer that takes this input.
Layer genStep(Case& c, const Shape& in, DType dt) {
  Layer l;
  l.out = in;
  bool image = in.size() == 4;
  int64_t last = in.empty() ? 1 : in.back();
  std::vector<int> kinds = {0, 1, 2, 3, 4, 5};  // shape keeping
  if (in.size() == 2) kinds.insert(kinds.end(), {6, 6, 6, 7, 8});
  if (in.size() >= 1 && in.size() != 2) kinds.insert(kinds.end(), {7, 8});
  if (image) kinds.insert(kinds.end(), {9, 9, 9, 10, 10, 11});
  if (in.size() > 2) kinds.push_back(11);
  int kind = c.pick(kinds);
  if ((kind == 3 || kind == 4) && in.empty()) kind = 0;
  switch (kind) {
    case 0: l = {std::make_shared<nn::Relu>(), [](const Tensor& x, const std::vector<Tensor>&) { return fn::relu(x); }, "Relu", in}; break;
    case 1: l = {std::make_shared<nn::Gelu>(), [](const Tensor& x, const std::vector<Tensor>&) { return fn::gelu(x); }, "Gelu", in}; break;
    case 2: l = {std::make_shared<nn::Silu>(), [](const Tensor& x, const std::vector<Tensor>&) { return fn::silu(x); }, "Silu", in}; break;
    case 3: case 4: {
      int64_t d = c.range(-static_cast<int64_t>(in.size()), static_cast<int64_t>(in.size()) - 1);
      if (kind == 3) l = {std::make_shared<nn::Softmax>(d), [d](const Tensor& x, const std::vector<Tensor>&) { return fn::softmax(x, d); }, "Softmax", in};
      else l = {std::make_shared<nn::LogSoftmax>(d), [d](const Tensor& x, const std::vector<Tensor>&) { return fn::logSoftmax(x, d); }, "LogSoftmax", in};
      break;
    }
    case 5: {
      float p = c.oneOf<float>({0.f, 0.25f, 0.5f, 0.9f});
      bool plain = c.chance(1, 4);
      if (plain) p = 0.5f;
      auto m = plain ? std::make_shared<Probe<nn::Dropout>>() : std::make_shared<Probe<nn::Dropout>>(p);
      auto* raw = m.get();
      l = {m, [p, raw](const Tensor& x, const std::vector<Tensor>&) { return fn::dropout(x, p, raw->mode()); }, "Dropout", in};
      break;
    }
    case 6: {
      int64_t out = c.range(1, 6);
      bool bias = c.coin();
      l = {std::make_shared<nn::Linear>(last, out, bias, opt(dt)),
           [bias](const Tensor& x, const std::vector<Tensor>& p) { return bias ? fn::linear(x, p.at(0), p.at(1)) : fn::linear(x, p.at(0)); }, bias ? "Linear+b" : "Linear", {in[0], out}};
      break;
    }
    case 7: {
      Shape s = {last};
      bool bias = c.coin();
      float eps = c.oneOf<float>({1e-5f, 1e-3f, 0.5f});
      l = {std::make_shared<nn::LayerNorm>(tt::IntArrayView(s), eps, bias, opt(dt)),
           [=](const Tensor& x, const std::vector<Tensor>& p) { return fn::layerNorm(x, tt::IntArrayView(s), p.at(0), bias ? p.at(1) : Tensor(), eps); }, "LayerNorm", in};
      break;
    }
    case 8: {
      Shape s = {last};
      float eps = c.oneOf<float>({1e-5f, 1e-3f, 0.5f});
      l = {std::make_shared<nn::RMSNorm>(tt::IntArrayView(s), eps, opt(dt)), [=](const Tensor& x, const std::vector<Tensor>& p) { return fn::rmsNorm(x, tt::IntArrayView(s), p.at(0), eps); },
           "RMSNorm", in};
      break;
    }
    case 9: {
      int64_t p0 = c.range(0, 2), p1 = c.range(0, 2), k0 = c.range(1, std::min<int64_t>(3, in[2] + 2 * p0)), k1 = c.range(1, std::min<int64_t>(3, in[3] + 2 * p1));
      int64_t s0 = c.range(1, 3), s1 = c.range(1, 3), out = c.range(1, 3);
      bool bias = c.coin();
      tt::Dim2D k(k0, k1), s(s0, s1), p(p0, p1);
      l = {std::make_shared<nn::Conv2D>(in[1], out, k, s, p, bias, opt(dt)),
           [=](const Tensor& x, const std::vector<Tensor>& w) { return fn::conv2d(x, w.at(0), bias ? w.at(1) : Tensor(), s, p); }, "Conv2D", infer(in, k0, k1, s0, s1, p0, p1, out)};
      break;
    }
    case 10: {
      int64_t k0 = c.range(1, std::min<int64_t>(3, in[2])), k1 = c.range(1, std::min<int64_t>(3, in[3]));
      int64_t p0 = c.range(0, k0 / 2), p1 = c.range(0, k1 / 2), s0 = c.range(1, 3), s1 = c.range(1, 3);
      bool stride = c.coin();
      if (!stride) s0 = k0, s1 = k1;
      tt::Dim2D k(k0, k1), s(s0, s1), p(p0, p1);
      l = {stride ? std::make_shared<nn::MaxPool2D>(k, s, p) : std::make_shared<nn::MaxPool2D>(k, std::nullopt, p),
           [=](const Tensor& x, const std::vector<Tensor>&) { return fn::maxPool2d(x, k, s, p); }, "MaxPool2D", infer(in, k0, k1, s0, s1, p0, p1, in[1])};
      break;
    }
    default: {
      int64_t from = image ? c.range(1, 2) : c.range(0, 1), to = c.coin() ? -1 : static_cast<int64_t>(in.size()) - 1;
      if (image && c.chance(2, 3)) from = 1;
      Shape s(in.begin(), in.begin() + from);
      int64_t rest = 1;
      for (size_t i = static_cast<size_t>(from); i < in.size(); i++) rest *= in[i];
      s.push_back(rest);
      l = {std::make_shared<nn::Flatten>(from, to), [=](const Tensor& x, const std::vector<Tensor>&) { return fn::flatten(x, from, to); }, "Flatten", s};
    }
  }
  return l;
}
// Gives every parameter values of its own and returns independent copies.
std::vector<Tensor> settle(Case& c, nn::Module& m, int how) {
  std::vector<Tensor> copies;
  for (auto* p : m.states()) {
    Shape s = toShape(p->shape());
    DType dt = p->dtype();
    auto v = genData(c, numelOf(s), dt, Data::Small);
    if (how == 0) *p = rawTensor(s, dt, v, p->requiresGrad());        // a new tensor takes the place
    else if (how == 1) {                                              // written element by element
      auto* ptr = p->dataPtr<>();
      if (!v.empty()) encode(v, dt, ptr);
    } else if (how == 2) p->copy_(rawTensor(s, dt, v));               // copied into
    else v = readVec(*p);
    copies.push_back(rawTensor(s, dt, v, p->requiresGrad()));
  }
  return copies;
}
void expectEqual(Case& c, const Tensor& a, const Tensor& b, const char* what) {
  VP_CHECK(c, a.defined() && b.defined() && toShape(a.shape()) == toShape(b.shape()) && a.dtype() == b.dtype(), "%s: shapes %s and %s", what, str(toShape(a.shape())).c_str(), str(toShape(b.shape())).c_str());
  auto x = readVec(a), y = readVec(b);
  for (size_t i = 0; i < x.size(); i++) VP_CHECK(c, sameValue(x[i], y[i]), "%s: element %zu is %.9g, the functional layer gives %.9g", what, i, x[i], y[i]);
}
Shape genInput(Case& c) {
  switch (c.weighted({4, 3, 1})) {
    case 0: return {c.range(1, 4), c.range(1, 6)};
    case 1: return {c.range(1, 2), c.range(1, 3), c.range(1, 7), c.range(1, 7)};
    default: return genShape(c, 1, 3, 24);
  }
}

void layers(Case& c) {
  DType dt = c.chance(2, 3) ? DType::Float32 : c.pick(kFloats);
  Shape in = genInput(c);
  bool grad = dt == DType::Float32 && c.coin();
  if (c.chance(1, 6)) {  // layers with other inputs
    if (c.coin()) {
      int64_t n = c.range(1, 8), d = c.range(1, 6);
      nn::Embedding e(n, d, opt(dt));
      auto p = settle(c, e, static_cast<int>(c.draw(3)));
      Shape s = genShape(c, 1, 2, 8);
      std::vector<double> ids(static_cast<size_t>(numelOf(s)));
      for (auto& x : ids) x = static_cast<double>(c.draw(static_cast<uint64_t>(n)));
      Tensor idx = rawTensor(s, DType::Int64, ids);
      c.note("Embedding %lld x %lld", (long long)n, (long long)d);
      expectEqual(c, e(idx), fn::embedding(idx, p.at(0)), "Embedding");
    } else {
      int64_t d = 2 * c.range(1, 3), ctx = c.range(2, 8), seq = c.range(1, ctx), off = c.range(0, ctx - seq);
      nn::RoPE r(d, ctx, 50.f, std::nullopt, opt(dt));
      auto p = settle(c, r, static_cast<int>(c.draw(4)));
      Shape s = {c.range(1, 2), c.range(1, 2), seq, d};
      Tensor x = rawTensor(s, dt, genData(c, numelOf(s), dt, Data::Small));
      c.note("RoPE %lld of %lld at %lld", (long long)seq, (long long)ctx, (long long)off);
      expectEqual(c, r.forward(x, off), fn::ropeApply(x, p.at(0), off), "RoPE");
      expectEqual(c, static_cast<nn::Module&>(r)(x), fn::ropeApply(x, p.at(0)), "RoPE");
    }
    c.nontrivial();
    return;
  }
  Layer l = genStep(c, in, dt);
  c.note("%s on %s %s", l.name.c_str(), str(in).c_str(), dtName(dt));
  bool mode = c.coin();
  l.m->train(mode);
  int rounds = static_cast<int>(c.range(1, 3));
  for (int r = 0; r < rounds; r++) {  // parameters are edited between uses
    auto p = settle(c, *l.m, static_cast<int>(c.draw(r ? 4 : 3)));
    if (!p.empty()) c.nontrivial();
    auto data = genData(c, numelOf(in), dt, Data::Small);
    Tensor x = rawTensor(in, dt, data, grad), y = rawTensor(in, dt, data, grad);
    auto seed = c.draw(1000);
    tt::manualSeed(seed);
    Tensor a = c.coin() ? (*l.m)(x) : l.m->forward(x);
    tt::manualSeed(seed);
    Tensor b = l.f(y, p);
    expectEqual(c, a, b, l.name.c_str());
    VP_CHECK(c, toShape(a.shape()) == l.out, "%s of %s has shape %s", l.name.c_str(), str(in).c_str(), str(toShape(a.shape())).c_str());
    static const std::set<std::string> differentiable = {"Relu", "Softmax", "LogSoftmax", "Dropout", "Linear", "Linear+b", "Conv2D", "MaxPool2D", "Flatten"};
    if (grad && a.requiresGrad() && differentiable.count(l.name)) {
      VP_CHECK(c, b.requiresGrad(), "%s records a graph, the function does not", l.name.c_str());
      l.m->zeroGrad();
      Tensor g = rawTensor(l.out, dt, genData(c, numelOf(l.out), dt, Data::Small));
      a.backward(g);
      b.backward(g);
      expectEqual(c, x.grad(), y.grad(), "the input's gradient");
      auto live = l.m->parameters();
      for (size_t i = 0; i < live.size(); i++) expectEqual(c, live[i]->grad(), p[i].grad(), "a listed parameter's gradient");
      c.cls("gradients compared");
    }
  }
}

// A chain, possibly of chains, applied in order.
void sequential(Case& c) {
  DType dt = c.chance(3, 4) ? DType::Float32 : c.pick(kFloats);
  Shape in = genInput(c), at = in;
  std::vector<Layer> steps;
  size_t n = c.chance(1, 100) ? 7 + c.draw(60) : c.draw(7);
  std::string names;
  for (size_t i = 0; i < n; i++) {
    steps.push_back(genStep(c, at, dt));
    at = steps.back().out;
    names += " " + steps.back().name;
    if (numelOf(at) > 4000) break;
  }
  if (steps.size() > 20) c.cls("long chain");
  if (steps.size() > 1) c.nontrivial();
  c.note("%s %s:%s", str(in).c_str(), dtName(dt), names.c_str());
  // nested: a run of steps becomes a Sequential of its own
  struct Chain {
    static std::shared_ptr<nn::Module> make(Case& c, std::vector<Layer>& s, size_t from, size_t to, int depth) {
      auto seq = std::make_shared<nn::Sequential>(std::initializer_list<std::shared_ptr<nn::Module>>{});
      for (size_t i = from; i < to;) {
        size_t left = to - i;
        if (depth > 0 && c.chance(1, 4)) {
          size_t k = c.draw(left + 1);
          seq->pushBack(make(c, s, i, i + k, depth - 1));
          i += k;
          if (k) continue;
        }
        seq->pushBack(s[i++].m);
      }
      return seq;
    }
  };
  auto seq = Chain::make(c, steps, 0, steps.size(), 2);
  seq->train(c.coin());
  std::vector<std::vector<Tensor>> params;
  std::vector<tt::TensorPtr> listed;
  for (auto& s : steps) {
    params.push_back(settle(c, *s.m, static_cast<int>(c.draw(3))));
    for (auto* p : s.m->parameters()) listed.push_back(p);
  }
  VP_CHECK(c, seq->parameters() == listed, "the chain lists %zu parameters, its parts %zu", seq->parameters().size(), listed.size());
  for (int round = 0; round < 2; round++) {
    auto data = genData(c, numelOf(in), dt, Data::Small);
    Tensor x = rawTensor(in, dt, data);
    auto seed = c.draw(1000);
    tt::manualSeed(seed);
    Tensor a = (*seq)(x);
    tt::manualSeed(seed);
    Tensor b = rawTensor(in, dt, data);
    for (size_t i = 0; i < steps.size(); i++) b = steps[i].f(b, params[i]);
    expectEqual(c, a, b, "the chain");
    auto now = readVec(x);
    for (size_t i = 0; i < now.size(); i++) VP_CHECK(c, sameValue(now[i], data[i]), "the chain changed its input");
    // an optimiser step through the listing must be seen by the next forward pass
    if (listed.empty() || dt != DType::Float32) break;
    std::vector<tt::TensorPtr> mine;
    for (auto& ps : params)
      for (auto& p : ps) mine.push_back(&p);
    for (size_t i = 0; i < listed.size(); i++) {
      Shape s = toShape(listed[i]->shape());
      Tensor g = rawTensor(s, dt, genData(c, numelOf(s), dt, Data::Small));
      listed[i]->setGrad(g);
      mine[i]->setGrad(g);
    }
    tt::optim::SGD(seq->parameters(), 0.1f).step();
    tt::optim::SGD(std::move(mine), 0.1f).step();
    c.cls("after an optimiser step");
  }
}

}  // namespace

int main(int argc, char** argv) {
  Suite s;
  s.property = "C18";
  s.rule = "the tree has more than two modules, the chain more than one layer, or the layer has parameters";
  s.assumptions = {"a module instance is registered once; sibling names are distinct and contain no dot"};
  s.init = noCache;
  s.props = {{"listing", listing, 60000, 600000},
             {"requests", requests, 120000, 1500000},
             {"layers", layers, 300000, 3000000},
             {"sequential", sequential, 120000, 1200000}};
  return runSuite(s, argc, argv);
}
