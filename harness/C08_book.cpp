// C08: gradient bookkeeping over training histories.
//
// A pool of handles is driven through recorded operations with small integer values (all results and gradients are
// exact), backward passes, clears, recording scopes, flag changes, hooks, in-place updates and handle releases. The
// model keeps the recorded graph and replays each backward pass; after every step all handles are compared.
#include <condition_variable>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <thread>

#include "Functions.h"
#include "Operations.h"
#include "ref.h"
using namespace vp;
namespace fn = tt::function;
using tt::LossReduction;

namespace {

struct Edge {
  int in;         // node
  int64_t i, o;   // element of the input, element of the output
  double d;
};
struct HookRec;
struct Node {
  bool rg = false, leaf = false;
  Shape shape;
  bool hasGrad = false;
  std::vector<double> grad;
  std::vector<Edge> jac;
  std::vector<int> in;
  std::vector<HookRec*> hooks;
};
struct HookRec {
  Case* c = nullptr;
  int node = 0;
  int64_t id = -1;
  bool on = true;
  int calls = 0, want = 0;
  std::vector<double> seen;
};
void hookFn(void* ctx, Tensor& grad) {
  auto* h = static_cast<HookRec*>(ctx);
  h->calls++;
  h->seen = grad.defined() ? readVec(grad) : std::vector<double>{};
}
struct Slot {
  Tensor t;
  int node;
  std::vector<double> v;  // the handle's contents
};

struct World {
  Case& c;
  std::vector<Node> nodes;
  std::vector<Slot> slots;
  std::list<HookRec> hooks;
  std::vector<std::unique_ptr<tt::NoGradGuard>> guards;
  int backwards = 0, ops = 0;
  bool sawScope = false, sawHook = false;
  explicit World(Case& c) : c(c) {}

  bool recording() const { return guards.empty(); }

  void addSlot(Tensor t, Node n, std::vector<double> v) {
    nodes.push_back(std::move(n));
    slots.push_back({std::move(t), static_cast<int>(nodes.size()) - 1, std::move(v)});
  }
  void newLeaf() {
    static const std::vector<Shape> shapes = {{}, {1}, {2}, {3}, {2, 2}, {1, 3}};
    Shape s = c.pick(shapes);
    bool rg = c.chance(3, 4);
    std::vector<double> v(numelOf(s));
    for (auto& x : v) x = static_cast<double>(c.range(-3, 3));
    Node n;
    n.rg = rg;
    n.leaf = true;
    n.shape = s;
    Tensor t;
    if (c.coin()) {
      t = rawTensor(s, DType::Float32, v, rg);
    } else {
      t = rawTensor(s, DType::Float32, v, false);
      t.setRequiresGrad(rg);
    }
    c.note("h%zu = leaf%s%s; ", slots.size(), str(s).c_str(), rg ? "*" : "");
    addSlot(t, n, v);
  }
  size_t any() { return c.draw(slots.size()); }
  bool small(const std::vector<double>& v, double cap = 2000) const {
    for (double x : v)
      if (std::fabs(x) > cap) return false;
    return true;
  }
  // result of an operation on slots
  void result(Tensor t, const Shape& s, std::vector<double> v, std::vector<int> in, std::vector<Edge> jac) {
    Node n;
    n.shape = s;
    bool rg = false;
    for (int k : in) rg |= nodes[k].rg;
    n.rg = recording() && rg;
    if (n.rg) {
      n.in = std::move(in);
      n.jac = std::move(jac);
    } else {
      // a constant: a flag set on it later makes it a leaf
      n.leaf = true;
    }
    addSlot(std::move(t), std::move(n), std::move(v));
    ops++;
  }

  void binary() {
    size_t a = any(), b = any();
    const Shape sa = nodes[slots[a].node].shape, sb = nodes[slots[b].node].shape;
    Shape so;
    if (!bcastShape(sa, sb, so)) return;
    const auto va = slots[a].v, vb = slots[b].v;
    if (!small(va) || !small(vb)) return;
    int k = static_cast<int>(c.draw(3));
    int na = slots[a].node, nb = slots[b].node;
    std::vector<double> v;
    std::vector<Edge> jac;
    forIndex(so, [&](const Shape& idx, int64_t o) {
      int64_t ia = bcastOffset(idx, sa), ib = bcastOffset(idx, sb);
      double x = va[ia], y = vb[ib];
      v.push_back(k == 0 ? x + y : k == 1 ? x - y : x * y);
      if (nodes[na].rg) jac.push_back({na, ia, o, k == 2 ? y : 1});
      if (nodes[nb].rg) jac.push_back({nb, ib, o, k == 2 ? x : k == 1 ? -1 : 1});
    });
    const Tensor &ta = slots[a].t, &tb = slots[b].t;
    Tensor t = k == 0 ? ta + tb : k == 1 ? ta - tb : ta * tb;
    c.note("h%zu = h%zu %c h%zu; ", slots.size(), a, "+-*"[k], b);
    result(std::move(t), so, v, {na, nb}, jac);
  }
  void unary() {
    size_t a = any();
    int na = slots[a].node;
    const Shape s = nodes[na].shape;
    const auto v = slots[a].v;
    if (!small(v)) return;
    std::vector<double> w;
    std::vector<Edge> jac;
    Shape so = s;
    Tensor t;
    int k = static_cast<int>(c.draw(6));
    if (k == 0) {
      t = slots[a].t.sum();
      so = {};
      w = {0};
      for (size_t i = 0; i < v.size(); i++) {
        w[0] += v[i];
        jac.push_back({na, (int64_t)i, 0, 1});
      }
    } else if (k == 1) {
      t = slots[a].t.flatten();
      so = {static_cast<int64_t>(v.size())};
      w = v;
      for (size_t i = 0; i < v.size(); i++) jac.push_back({na, (int64_t)i, (int64_t)i, 1});
    } else if (k == 2) {
      t = fn::relu(slots[a].t);
      for (size_t i = 0; i < v.size(); i++) {
        if (v[i] == 0) return;  // no derivative
        w.push_back(std::max(v[i], 0.0));
        if (v[i] > 0) jac.push_back({na, (int64_t)i, (int64_t)i, 1});
      }
    } else if (k == 3) {
      t = slots[a].t * 2;
      for (size_t i = 0; i < v.size(); i++) {
        w.push_back(2 * v[i]);
        jac.push_back({na, (int64_t)i, (int64_t)i, 2});
      }
    } else if (k == 4) {
      t = 1 - slots[a].t;
      for (size_t i = 0; i < v.size(); i++) {
        w.push_back(1 - v[i]);
        jac.push_back({na, (int64_t)i, (int64_t)i, -1});
      }
    } else {
      // computed inside a recording-off block
      bool in = tt::NoGradGuard::isGradEnabled();
      {
        tt::NoGradGuard g;
        VP_CHECK(c, !tt::NoGradGuard::isGradEnabled(), "recording is on inside a scope that disables it");
        if (c.coin()) {
          WithNoGrad { t = slots[a].t * 3; }
        } else {
          t = slots[a].t * 3;
        }
        VP_CHECK(c, !tt::NoGradGuard::isGradEnabled(), "an inner scope re-enabled recording");
      }
      VP_CHECK(c, tt::NoGradGuard::isGradEnabled() == in, "the scope did not restore recording");
      for (double x : v) w.push_back(3 * x);
      Node n;
      n.shape = s;
      n.leaf = true;
      c.note("h%zu = nograd(h%zu * 3); ", slots.size(), a);
      addSlot(t, n, w);
      sawScope = true;
      return;
    }
    static const char* names[] = {"sum", "flatten", "relu", "2*", "1-"};
    c.note("h%zu = %s(h%zu); ", slots.size(), names[k], a);
    result(std::move(t), so, w, {na}, jac);
  }
  void scope() {
    if (!guards.empty() && c.coin()) {
      guards.pop_back();
      c.note("end scope; ");
    } else if (guards.size() < 3) {
      guards.push_back(std::make_unique<tt::NoGradGuard>());
      c.note("begin no-grad; ");
      sawScope = true;
    }
  }
  void copyHandle() {
    size_t a = any();
    c.note("h%zu = copy of h%zu; ", slots.size(), a);
    Slot s = slots[a];
    slots.push_back(s);
  }
  void cloneHandle() {
    size_t a = any();
    Node n;
    n.shape = nodes[slots[a].node].shape;
    n.rg = nodes[slots[a].node].rg;
    n.leaf = true;
    c.note("h%zu = clone of h%zu; ", slots.size(), a);
    Tensor t = slots[a].t.clone();
    addSlot(t, n, slots[a].v);
  }
  void drop() {
    if (slots.size() < 2) return;
    size_t a = any();
    c.note("release h%zu (last takes its place); ", a);
    slots[a] = slots.back();
    slots.pop_back();
  }
  int useCount(int node) {
    int k = 0;
    for (auto& s : slots) k += s.node == node;
    return k;
  }
  bool usedInGraph(int node) {
    for (auto& n : nodes)
      for (int k : n.in)
        if (k == node) return true;
    return false;
  }
  void flag() {
    size_t a = any();
    int k = slots[a].node;
    Node& n = nodes[k];
    bool to = c.coin();
    if (to == n.rg) {
      c.note("h%zu.setRequiresGrad(%d) again; ", a, to);
      slots[a].t.setRequiresGrad(to);
      return;
    }
    // the flag belongs to the handle it is set on
    if (!n.hooks.empty()) return;
    c.note("h%zu.setRequiresGrad(%d); ", a, to);
    slots[a].t.setRequiresGrad(to);
    Node m;
    m.shape = n.shape;
    m.rg = to;
    m.leaf = true;
    nodes.push_back(m);
    slots[a].node = static_cast<int>(nodes.size()) - 1;
  }
  void hook() {
    size_t a = any();
    int k = slots[a].node;
    Node& n = nodes[k];
    if (!n.hooks.empty() && c.chance(2, 5)) {
      size_t h = c.draw(n.hooks.size());
      HookRec* r = n.hooks[h];
      c.note("h%zu.unregisterHook(%lld); ", a, (long long)r->id);
      slots[a].t.unregisterHook(r->id);
      r->on = false;
      n.hooks.erase(n.hooks.begin() + h);
      return;
    }
    if (n.rg && !n.leaf) return;
    hooks.emplace_back();
    HookRec* r = &hooks.back();
    r->c = &c;
    r->node = k;
    r->id = slots[a].t.registerHook(&hookFn, r);
    c.note("h%zu.registerHook() -> %lld; ", a, (long long)r->id);
    if (!n.rg) {
      VP_CHECK(c, r->id < 0, "a hook was registered on a tensor that does not require gradients");
      r->on = false;
      return;
    }
    VP_CHECK(c, r->id >= 0, "registering a hook returned %lld", (long long)r->id);
    for (HookRec* o : n.hooks) VP_CHECK(c, o->id != r->id, "two registered hooks share the id %lld", (long long)r->id);
    n.hooks.push_back(r);
    sawHook = true;
  }
  void clear() {
    size_t a = any();
    Node& n = nodes[slots[a].node];
    if (!n.rg) return;
    int64_t e = static_cast<int64_t>(slots[a].v.size());
    int k = static_cast<int>(c.draw(3));
    if (!n.leaf) return;
    if (k == 0) {
      c.note("h%zu.setGrad(none); ", a);
      slots[a].t.setGrad(Tensor());
      n.hasGrad = false;
      n.grad.clear();
    } else if (k == 1) {
      c.note("h%zu.zeroGrad(); ", a);
      slots[a].t.zeroGrad();
      n.hasGrad = true;
      n.grad.assign(e, 0.0);
    } else {
      std::vector<double> g(e);
      for (auto& x : g) x = static_cast<double>(c.range(-4, 4));
      Tensor gt = rawTensor(n.shape, DType::Float32, g);
      if (c.coin() || !n.hasGrad) {
        c.note("h%zu.setGrad(%s); ", a, str(g, 4).c_str());
        slots[a].t.setGrad(gt.clone());
        n.grad = g;
      } else {
        c.note("h%zu.addGrad(%s); ", a, str(g, 4).c_str());
        slots[a].t.addGrad(gt);
        for (int64_t i = 0; i < e; i++) n.grad[i] += g[i];
      }
      n.hasGrad = true;
      for (int64_t i = 0; i < e; i++) VP_CHECK(c, readVec(gt)[i] == g[i], "the gradient handed over was changed");
    }
  }
  // training-style update of a leaf in place
  void update() {
    size_t a = any();
    Node& n = nodes[slots[a].node];
    if (!n.leaf || !small(slots[a].v, 100)) return;
    auto d = genData(c, static_cast<int64_t>(slots[a].v.size()), DType::Float32, Data::Ints);
    if (!small(d, 100)) return;
    bool plus = c.coin();
    c.note("no-grad { h%zu %s %s }; ", a, plus ? "+=" : "-=", str(d, 4).c_str());
    Tensor dt = rawTensor(n.shape, DType::Float32, d);
    WithNoGrad {
      if (plus) slots[a].t += dt;
      else slots[a].t -= dt;
    }
    for (size_t i = 0; i < d.size(); i++) slots[a].v[i] += plus ? d[i] : -d[i];
  }
  void backward() {
    size_t a = any();
    int root = slots[a].node;
    Node& R = nodes[root];
    std::vector<double> up(slots[a].v.size());
    int form = static_cast<int>(c.draw(8));
    if (!R.rg) {
      c.note("h%zu.backward() without gradients; ", a);
      slots[a].t.backward(rawTensor(R.shape, DType::Float32, up));
      return;
    }
    if (form == 0) {
      Shape s = R.shape;
      s.push_back(2);
      c.note("h%zu.backward(wrong shape); ", a);
      slots[a].t.backward(rawTensor(s, DType::Float32, std::vector<double>(numelOf(s), 1.0)));
      return;
    }
    if (form == 1 && up.size() > 1) {
      c.note("h%zu.backward() of a non-scalar; ", a);
      slots[a].t.backward();
      return;
    }
    bool plain = R.shape.empty() && form < 5;
    for (auto& x : up) x = plain ? 1.0 : static_cast<double>(c.range(-3, 3));
    // model
    size_t N = nodes.size();
    std::vector<std::vector<double>> g(N);
    std::vector<bool> need(N, false);
    need[root] = true;
    for (int i = root; i >= 0; i--) {
      if (!need[i]) continue;
      for (int k : nodes[i].in)
        if (nodes[k].rg) need[k] = true;
    }
    g[root] = up;
    for (int i = root; i >= 0; i--) {
      if (!need[i]) continue;
      if (g[i].empty()) g[i].assign(numelOf(nodes[i].shape), 0.0);
      for (int k : nodes[i].in)
        if (nodes[k].rg && g[k].empty()) g[k].assign(numelOf(nodes[k].shape), 0.0);
      for (auto& e : nodes[i].jac) g[e.in][e.i] += e.d * g[i][e.o];
      if (!small(g[i], 1e6)) return;
    }
    for (int i = root; i >= 0; i--) {
      if (!need[i] || !nodes[i].leaf) continue;
      Node& n = nodes[i];
      if (!n.hasGrad) n.grad.assign(numelOf(n.shape), 0.0);
      n.hasGrad = true;
      for (size_t e = 0; e < n.grad.size(); e++) n.grad[e] += g[i][e];
      for (HookRec* h : n.hooks) {
        h->want++;
        c.cls("hook ran");
      }
    }
    c.note("h%zu.backward(%s); ", a, plain ? "" : str(up, 4).c_str());
    if (plain) slots[a].t.backward();
    else slots[a].t.backward(rawTensor(R.shape, DType::Float32, up));
    backwards++;
    for (auto& h : hooks)
      if (h.on && h.want > 0 && need.size() > (size_t)h.node && need[h.node]) {
        const auto& want = nodes[h.node].grad;
        VP_CHECK(c, h.seen.size() == want.size(), "a hook saw %zu gradient elements, expected %zu", h.seen.size(), want.size());
        for (size_t e = 0; e < want.size(); e++)
          VP_CHECK(c, h.seen[e] == want[e], "a hook saw gradient element %zu = %g, expected %g", e, h.seen[e], want[e]);
      }
  }
  void check() {
    VP_CHECK(c, tt::NoGradGuard::isGradEnabled() == recording(), "recording is %d inside %zu scopes", tt::NoGradGuard::isGradEnabled(), guards.size());
    for (size_t i = 0; i < slots.size(); i++) {
      Slot& s = slots[i];
      Node& n = nodes[s.node];
      VP_CHECK(c, s.t.requiresGrad() == n.rg, "h%zu.requiresGrad() is %d, expected %d", i, s.t.requiresGrad(), n.rg);
      VP_CHECK(c, s.t.isLeaf() == (n.rg && n.leaf), "h%zu.isLeaf() is %d, expected %d", i, s.t.isLeaf(), n.rg && n.leaf);
      auto now = readVec(s.t);
      VP_CHECK(c, Shape(s.t.shape().begin(), s.t.shape().end()) == n.shape, "h%zu changed its shape", i);
      for (size_t e = 0; e < now.size(); e++)
        VP_CHECK(c, now[e] == s.v[e], "h%zu element %zu is %g, expected %g", i, e, now[e], s.v[e]);
      if (!n.rg || !n.leaf) continue;
      const Tensor& g = s.t.grad();
      VP_CHECK(c, g.defined() == n.hasGrad, "h%zu %s a gradient, expected %s", i, g.defined() ? "has" : "has not", n.hasGrad ? "one" : "none");
      if (!n.hasGrad) continue;
      VP_CHECK(c, Shape(g.shape().begin(), g.shape().end()) == n.shape, "the gradient of h%zu has another shape", i);
      VP_CHECK(c, !g.requiresGrad(), "the gradient of h%zu requires gradients", i);
      auto gv = readVec(g);
      for (size_t e = 0; e < gv.size(); e++)
        VP_CHECK(c, gv[e] == n.grad[e], "gradient element %zu of h%zu is %g, expected %g", e, i, gv[e], n.grad[e]);
    }
    for (auto& h : hooks)
      VP_CHECK(c, h.calls == h.want, "a hook%s ran %d times, expected %d", h.on ? "" : " (unregistered)", h.calls, h.want);
  }
};

void histories(Case& c) {
  World w(c);
  w.newLeaf();
  w.newLeaf();
  int64_t steps = c.range(6, c.thorough ? 60 : 36);
  for (int64_t k = 0; k < steps; k++) {
    int kind = static_cast<int>(c.weighted({4, 12, 8, 10, 5, 4, 3, 2, 2, 3, 3, 3}));
    if (kind != 0 && w.slots.empty()) kind = 0;
    if (w.slots.size() > 14) w.drop();
    switch (kind) {
      case 0: w.newLeaf(); break;
      case 1: w.binary(); break;
      case 2: w.unary(); break;
      case 3: w.backward(); break;
      case 4: w.hook(); break;
      case 5: w.scope(); break;
      case 6: w.clear(); break;
      case 7: w.copyHandle(); break;
      case 8: w.cloneHandle(); break;
      case 9: w.drop(); break;
      case 10: w.flag(); break;
      default: w.update(); break;
    }
    w.check();
  }
  while (!w.guards.empty()) {
    w.guards.pop_back();
    w.check();
  }
  if (w.sawScope) c.cls("recording scopes");
  if (w.sawHook) c.cls("hooks");
  if (w.backwards > 1) c.cls("several backward passes");
  if (w.backwards >= 1 && w.ops >= 2) c.nontrivial();
}

// The same computation with recording on, recording off and inputs without the flag: same values, and the flag follows
// the rule.
struct Op {
  const char* name;
  int inputs;
  Shape a, b;  // fixed trailing shapes where the operation wants them; empty: free shape
};
// Graphs of hundreds of steps: long chains, many uses of one value, many contributions to one sum.
struct Counter {
  int calls = 0;
};
void largeGraphs(Case& c) {
  struct Step {
    int a, b;  // -1: no second operand
    double wa, wb;
  };
  int64_t k = c.range(1, 3);
  int L = static_cast<int>(c.range(1, 4)), N = static_cast<int>(c.chance(1, 4) ? c.range(300, 900) : c.range(20, 300));
  int mode = static_cast<int>(c.draw(4));
  std::vector<std::vector<double>> val;
  std::vector<Tensor> leaves, all;
  std::vector<bool> grad;
  std::vector<Counter> count(static_cast<size_t>(L));
  for (int i = 0; i < L; i++) {
    val.push_back(genData(c, k, DType::Float32, Data::Small));
    grad.push_back(i == 0 || c.chance(3, 4));
    leaves.push_back(rawTensor({k}, DType::Float32, val.back(), grad.back()));
    if (grad.back()) leaves.back().registerHook([](void* p, Tensor&) { static_cast<Counter*>(p)->calls++; }, &count[static_cast<size_t>(i)]);
  }
  all = leaves;
  c.note("%d leaves, %d steps, %s", L, N, mode == 0 ? "chain" : mode == 1 ? "any earlier value" : mode == 2 ? "one value used throughout" : "ladder");
  Rng r = c.sub();
  std::vector<Step> steps;
  Tensor half = rawTensor({}, DType::Float32, {0.5}), minusOne = rawTensor({}, DType::Float32, {-1.0});
  for (int i = 0; i < N; i++) {
    int have = static_cast<int>(all.size());
    Step s{have - 1, -1, 0.5, 0.5};
    switch (mode) {
      case 0: s.b = r.below(3) ? -1 : static_cast<int>(r.below(static_cast<uint64_t>(L))); break;
      case 1: s.a = static_cast<int>(r.below(static_cast<uint64_t>(have))), s.b = static_cast<int>(r.below(static_cast<uint64_t>(have))); break;
      case 2: s.b = std::min(have - 1, L); break;
      default: s.b = have - 1 - static_cast<int>(r.below(static_cast<uint64_t>(std::min(have, 3)))); break;
    }
    Tensor t;
    std::vector<double> v(static_cast<size_t>(k));
    if (s.b < 0) {
      s.wa = -1;
      t = tt::function::mul(all[static_cast<size_t>(s.a)], minusOne);
    } else {
      bool minus = r.below(2);
      if (minus) s.wb = -0.5;
      t = minus ? tt::function::sub(all[static_cast<size_t>(s.a)], all[static_cast<size_t>(s.b)]) : tt::function::add(all[static_cast<size_t>(s.a)], all[static_cast<size_t>(s.b)]);
      t = tt::function::mul(t, half);
    }
    for (size_t e = 0; e < v.size(); e++)
      v[e] = s.wa * val[static_cast<size_t>(s.a)][e] + (s.b < 0 ? 0 : s.wb * val[static_cast<size_t>(s.b)][e]);
    val.push_back(v);
    steps.push_back(s);
    all.push_back(t);
  }
  // the result: the last value, or a sum of many
  std::vector<double> weight(all.size(), 0.0);
  Tensor out = all.back();
  weight.back() = 1;
  if (c.coin()) {
    int m = static_cast<int>(c.range(2, 120));
    for (int i = 0; i < m; i++) {
      size_t at = r.below(all.size());
      out = tt::function::add(out, all[at]);
      weight[at] += 1;
    }
    c.note(", the sum of %d of them", m);
  }
  if (c.coin()) all.clear();  // only the result keeps the graph
  std::vector<double> adj = weight, mag = weight;
  for (size_t i = steps.size(); i-- > 0;) {
    size_t at = i + static_cast<size_t>(L);
    const Step& s = steps[i];
    adj[static_cast<size_t>(s.a)] += s.wa * adj[at];
    mag[static_cast<size_t>(s.a)] += std::fabs(s.wa) * mag[at];
    if (s.b >= 0) adj[static_cast<size_t>(s.b)] += s.wb * adj[at], mag[static_cast<size_t>(s.b)] += std::fabs(s.wb) * mag[at];
  }
  bool known = false;  // does any leaf that requires gradients reach the result?
  std::vector<bool> need(weight.size(), false);
  for (int i = 0; i < L; i++) need[static_cast<size_t>(i)] = grad[static_cast<size_t>(i)];
  for (size_t i = 0; i < steps.size(); i++) {
    const Step& s = steps[i];
    need[i + static_cast<size_t>(L)] = need[static_cast<size_t>(s.a)] || (s.b >= 0 && need[static_cast<size_t>(s.b)]);
  }
  for (size_t i = 0; i < weight.size(); i++) known |= weight[i] != 0 && need[i];
  VP_CHECK(c, out.requiresGrad() == known, "the result %s gradients", known ? "does not require" : "requires");
  if (!known) c.discard();
  c.nontrivial();
  if (N >= 300) c.cls("hundreds of steps");
  // which leaves the result depends on
  std::vector<bool> used(weight.size(), false);
  for (size_t i = 0; i < weight.size(); i++) used[i] = weight[i] != 0;
  for (size_t i = steps.size(); i-- > 0;)
    if (used[i + static_cast<size_t>(L)]) {
      used[static_cast<size_t>(steps[i].a)] = true;
      if (steps[i].b >= 0) used[static_cast<size_t>(steps[i].b)] = true;
    }
  int passes = static_cast<int>(c.range(1, 3));
  Tensor g = rawTensor({k}, DType::Float32, std::vector<double>(static_cast<size_t>(k), 1.0));
  for (int p = 1; p <= passes; p++) {
    out.backward(g);
    for (int i = 0; i < L; i++) {
      size_t q = static_cast<size_t>(i);
      if (!grad[q]) continue;
      if (!used[q]) {
        VP_CHECK(c, count[q].calls == 0, "the hook of leaf %d ran, the result does not depend on it", i);
        continue;
      }
      VP_CHECK(c, count[q].calls == p, "the hook of leaf %d ran %d times in %d passes", i, count[q].calls, p);
      VP_CHECK(c, leaves[q].grad().defined(), "leaf %d got no gradient", i);
      for (double x : readVec(leaves[q].grad()))
        VP_CHECK(c, near(x, p * adj[q], 1e-4 * p * mag[q] + 1e-30), "after %d passes the gradient of leaf %d is %.9g, expected %.9g", p, i, x, p * adj[q]);
    }
  }
}

void values(Case& c) {
  int k = static_cast<int>(c.draw(24));
  Shape s = genShape(c, 1, 4, 40);
  if (numelOf(s) == 0) c.discard();
  Shape sa = s, sb = s;
  int64_t B = c.range(1, 3), C = c.range(1, 3), H = c.range(2, 5), W = c.range(2, 5), O = c.range(1, 3);
  if (k == 11) { sa = {B, C}; sb = {O, C}; }
  if (k == 12) { sa = {B, C, H, W}; sb = {O, C, 2, 2}; }
  if (k == 13) { sa = {B, C, H, W}; sb = {1}; }
  if (k == 14) { sa = {B, C}; sb = {B, C}; }
  if (k == 15) { sa = {B, C}; sb = {1}; }
  if (k == 16) { sa = {B, H, W}; sb = {B, W, O}; }
  if (k == 17) { sb = {s.back()}; }
  auto va = genData(c, numelOf(sa), DType::Float32, Data::Pos), vb = genData(c, numelOf(sb), DType::Float32, Data::Pos);
  int64_t d = c.draw(sa.size());
  std::vector<double> tg(B);
  for (auto& x : tg) x = static_cast<double>(c.draw(C));
  auto run = [&](const Tensor& a, const Tensor& b) -> Tensor {
    switch (k) {
      case 0: return a + b;
      case 1: return a - b;
      case 2: return a * b;
      case 3: return a / b;
      case 4: return a.pow(b);
      case 5: return a.sin();
      case 6: return a.sum();
      case 7: return fn::softmax(a, d);
      case 8: return fn::logSoftmax(a, d);
      case 9: return fn::relu(a) * b;
      case 10: return fn::reshape(a, tt::IntArrayView(std::vector<int64_t>{numelOf(sa)}));
      case 11: return fn::linear(a, b);
      case 12: return fn::conv2d(a, b, {}, tt::Dim2D(1, 1), tt::Dim2D(1, 0));
      case 13: return fn::maxPool2d(a, tt::Dim2D(2, 1), tt::Dim2D(1, 1), tt::Dim2D(0, 0)) * b;
      case 14: return fn::mseLoss(a, b.requiresGrad() ? rawTensor(sb, DType::Float32, vb) : b, LossReduction::MEAN);
      case 15: return fn::nllLoss(a * b, rawTensor({B}, DType::Int64, tg), LossReduction::SUM);
      case 16: return fn::matmul(a, b);
      case 17: return fn::rmsNorm(a, tt::IntArrayView(sb), b);
      case 18: return fn::dropout(a, 0.3f, false);
      case 19: return a.flatten(0, -1);
      case 20: return fn::unsqueeze(a, d);
      case 21: return fn::mean(a);
      case 22: return fn::concat(tt::ArrayView<Tensor>(std::vector<Tensor>{a, b}), 0);
      default: return fn::permute(a) ;
    }
  };
  bool ra = c.coin(), rb = c.coin();
  c.note("operation %d on %s%s and %s%s", k, str(sa).c_str(), ra ? "*" : "", str(sb).c_str(), rb ? "*" : "");
  Tensor a = rawTensor(sa, DType::Float32, va, ra), b = rawTensor(sb, DType::Float32, vb, rb);
  Tensor on = run(a, b), off;
  {
    tt::NoGradGuard g;
    off = run(a, b);
  }
  Tensor plain = run(rawTensor(sa, DType::Float32, va, false), rawTensor(sb, DType::Float32, vb, false));
  bool usesB = k <= 4 || k == 9 || k == 11 || k == 12 || k == 13 || k == 15 || k == 16 || k == 17 || k == 22;
  bool want = ra || (usesB && rb);
  if (k == 17 || k == 16) c.cls("matmul or norm");
  VP_CHECK(c, on.requiresGrad() == want, "recorded result: requiresGrad is %d, expected %d", on.requiresGrad(), want);
  VP_CHECK(c, !want || !on.isLeaf(), "a recorded result is a leaf");
  VP_CHECK(c, !off.requiresGrad(), "a result computed with recording disabled requires gradients");
  VP_CHECK(c, !plain.requiresGrad(), "a result of plain inputs requires gradients");
  auto x = readVec(on), y = readVec(off), z = readVec(plain);
  VP_CHECK(c, x.size() == y.size() && x.size() == z.size(), "the sizes differ");
  for (size_t i = 0; i < x.size(); i++)
    VP_CHECK(c, sameValue(x[i], y[i]) && sameValue(x[i], z[i]), "element %zu: %g recorded, %g unrecorded, %g from plain inputs", i, x[i], y[i], z[i]);
  VP_CHECK(c, a.requiresGrad() == ra && b.requiresGrad() == rb, "an input's flag changed");
  if (want) c.nontrivial();
}

// Threads with tensors of their own: what one of them does, guards included, does not show in the others. Steps are
// interleaved as generated, or left to run freely.
void threads(Case& c) {
  struct Step {
    int what;
    double k;
  };
  int T = static_cast<int>(c.range(2, 4)), N = static_cast<int>(c.range(2, 40));
  bool freeRun = c.chance(1, 4);
  std::vector<int> order;
  std::vector<std::vector<Step>> script(T);
  for (int i = 0; i < N; i++) {
    int t = static_cast<int>(c.draw(T));
    Step st{static_cast<int>(c.weighted({3, 2, 4, 4, 3, 1, 3})), static_cast<double>(c.around(-3, 3))};
    order.push_back(t);
    script[t].push_back(st);
  }
  Shape sh = genShape(c, 1, 2, 12);
  if (numelOf(sh) == 0) c.discard();
  int64_t n = numelOf(sh);
  std::vector<std::vector<double>> data(T);
  for (auto& d : data) d = genData(c, n, DType::Float32, Data::Ints);
  static const char* names[] = {"guard", "release", "multiply", "add", "backward", "leaf", "check"};
  c.note("%s:", freeRun ? "free" : "in turns");
  std::vector<size_t> at(T, 0);
  for (int t : order) {
    c.note(" %d:%s(%g)", t, names[script[t][at[t]].what], script[t][at[t]].k);
    at[t]++;
  }

  std::mutex mu;
  std::condition_variable cv;
  size_t turn = 0;
  std::vector<std::string> problem(T);
  std::vector<int> passes(T, 0), guarded(T, 0);
  auto body = [&](int me) {
    std::vector<std::unique_ptr<tt::NoGradGuard>> guards;
    Tensor x, y;
    double value = 0, slope = 0, grad = 0;
    bool recorded = false, have = false;
    auto fresh = [&] {
      x = rawTensor(sh, DType::Float32, data[me], true);
      y = x;
      value = slope = 1;
      recorded = true;
      grad = 0;
      have = false;
    };
    auto complain = [&](const char* what, double got, double want) {
      if (!problem[me].empty()) return;
      char b[200];
      snprintf(b, sizeof(b), "thread %d: %s is %g, expected %g", me, what, got, want);
      problem[me] = b;
    };
    auto run = [&](const Step& st) {
      bool on = guards.empty();
      if (tt::NoGradGuard::isGradEnabled() != on) complain("recording", tt::NoGradGuard::isGradEnabled(), on);
      switch (st.what) {
        case 0: guards.push_back(std::make_unique<tt::NoGradGuard>()); guarded[me]++; break;
        case 1: if (!guards.empty()) guards.pop_back(); break;
        case 2:
          y = y * rawTensor({1}, DType::Float32, {st.k});
          value *= st.k;
          recorded = on && recorded;
          slope = recorded ? slope * st.k : 0;
          break;
        case 3:
          y = y + x;
          value += 1;
          slope = on ? (recorded ? slope : 0) + 1 : 0;
          recorded = on;
          break;
        case 4:
          if (!recorded || !on) break;
          y.sum().backward();
          grad += slope;
          have = true;
          passes[me]++;
          y = x;
          value = slope = 1;
          break;
        case 5: fresh(); break;
        default: break;
      }
      if (std::fabs(value) > 1e4 || std::fabs(slope) > 1e4) {
        y = x;
        value = slope = 1;
        recorded = true;
      }
      if (y.requiresGrad() != recorded) complain("requiresGrad", y.requiresGrad(), recorded);
      auto v = readVec(y);
      for (int64_t i = 0; i < n; i++)
        if (v[i] != value * data[me][i]) complain("a value", v[i], value * data[me][i]);
      if (have) {
        auto g = readVec(x.grad());
        for (int64_t i = 0; i < n; i++)
          if (g[i] != grad) complain("a gradient", g[i], grad);
      }
    };
    fresh();
    size_t next = 0;
    if (freeRun) {
      for (auto& st : script[me]) run(st);
    } else {
      std::unique_lock<std::mutex> lock(mu);
      for (; next < script[me].size(); next++) {
        cv.wait(lock, [&] { return turn < order.size() && order[turn] == me; });
        run(script[me][next]);
        turn++;
        cv.notify_all();
      }
    }
    while (!guards.empty()) guards.pop_back();
  };
  std::vector<std::thread> ts;
  for (int t = 0; t < T; t++) ts.emplace_back(body, t);
  for (auto& t : ts) t.join();
  VP_CHECK(c, tt::NoGradGuard::isGradEnabled(), "recording is off in a thread without guards");
  for (auto& p : problem) VP_CHECK(c, p.empty(), "%s", p.c_str());
  int active = 0, g = 0;
  for (int t = 0; t < T; t++) {
    active += passes[t] > 0;
    g += guarded[t] > 0;
  }
  if (freeRun) c.cls("threads running freely");
  if (active > 0 && g > 0 && script[0].size() < static_cast<size_t>(N)) c.nontrivial();
}

}  // namespace

int main(int argc, char** argv) {
  Suite s;
  s.property = "C08";
  s.rule = "histories: at least two operations and one effective backward pass; values: an input requires gradients; threads: a guard in one and a backward pass in one of several";
  s.assumptions = {"small integer values, so every value and gradient is exact in 32-bit floats",
                   "the gradient flag is not changed on a tensor with hooks; recording and differentiating go on through handles and results made before the change",
                   "hooks are registered on leaf tensors: the library runs them there"};
  s.init = noCache;
  s.props = {{"histories", histories, 500000, 6000000}, {"values", values, 100000, 2000000}, {"large graphs", largeGraphs, 6000, 200000}, {"threads", threads, 12000, 400000}};
  return runSuite(s, argc, argv);
}
