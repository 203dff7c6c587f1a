// Module trees with arbitrary parameters, scratch directories and raw tensor bytes.
#pragma once
#include <functional>
#include <memory>

#include "Modules.h"
#include "ref.h"
#include "scratch.h"

namespace vp {

namespace nn = tt::nn;

inline Bytes rawBytes(const Tensor& t) {
  Bytes b(static_cast<size_t>(t.numel()) * tt::dtypeSize(t.dtype()));
  if (!b.empty()) memcpy(b.data(), const_cast<Tensor&>(t).dataPtr<>(), b.size());
  return b;
}

// A module whose parameters, buffers and children are chosen at run time.
struct Node : nn::Module {
  std::vector<std::pair<std::string, Tensor>> params, buffers;
  std::vector<std::pair<std::string, std::shared_ptr<Node>>> kids;
  int resets = 0;
  std::vector<std::pair<std::string, tt::TensorPtr>> namedParameters_() override {
    std::vector<std::pair<std::string, tt::TensorPtr>> r;
    for (auto& p : params) r.emplace_back(p.first, &p.second);
    return r;
  }
  std::vector<std::pair<std::string, tt::TensorPtr>> namedStates_() override {
    auto r = namedParameters_();
    for (auto& p : buffers) r.emplace_back(p.first, &p.second);
    return r;
  }
  void resetParameters() override {
    resets++;
    Module::resetParameters();
  }
  bool training() const { return training_; }
  void adopt(const std::string& name, std::shared_ptr<Node> k) {
    kids.emplace_back(name, k);
    registerModule(name, *k);
  }
};

struct Entry {
  std::string name;  // full name
  Shape shape;
  DType dt;
  Bytes data;
  bool param = true;
};

inline std::string genName(Case& c) {
  switch (c.weighted({6, 3, 1, 1, 1, 1})) {
    case 0: return std::string(1, static_cast<char>('a' + c.draw(8)));
    case 1: return c.oneOf({"weight", "bias", "layer1", "0", "1", "w_2", "running_mean"});
    case 2: return "";
    case 3: return std::string(static_cast<size_t>(c.range(20, 300)), static_cast<char>('a' + c.draw(3)));
    case 4: return c.oneOf({"a b", "\xC3\xA9t\xC3\xA9", "x\ny", "a.b", "%s%n"});
    default: return std::string("n\0z", 3);
  }
}
inline Bytes genBytes(Rng& r, int64_t n, DType dt) {
  Bytes b(static_cast<size_t>(n) * tt::dtypeSize(dt));
  for (auto& x : b) x = static_cast<uint8_t>(dt == DType::Bool ? r.below(2) : r.below(256));
  if (isFloatT(dt) && r.below(2)) {
    // ordinary values, so that a mix-up of equal random bytes cannot hide
    for (int64_t i = 0; i < n; i++) {
      if (dt == DType::Float32) {
        float f = static_cast<float>((r.unit() - 0.5) * 8);
        memcpy(&b[static_cast<size_t>(i) * 4], &f, 4);
      }
    }
  }
  return b;
}
// A tensor holding these bytes; sometimes a slice of a larger one.
inline Tensor bytesTensor(Case& c, const Shape& shape, DType dt, const Bytes& data, bool grad, std::vector<Tensor>* keep = nullptr) {
  Made m = makeTensor(c, shape, dt, std::vector<double>(static_cast<size_t>(numelOf(shape)), 0.0), true, false);
  if (!data.empty()) memcpy(m.t.dataPtr<>(), data.data(), data.size());
  if (grad) m.t.setRequiresGrad(true);
  if (keep && m.view) keep->push_back(m.base);
  return m.t;
}

}  // namespace vp

namespace vp {

// The description of a tree, from which equal or edited modules can be built.
struct Spec {
  struct Item {
    std::string name;
    Shape shape;
    DType dt;
    Bytes data;
    bool buffer = false;
  };
  std::vector<Item> items;
  std::vector<std::pair<std::string, Spec>> kids;
};

inline Spec genSpec(Case& c, int depth, int64_t maxItems, int64_t maxNumel, const std::vector<DType>& dts) {
  Spec s;
  int64_t n = c.range(0, maxItems);
  for (int64_t i = 0; i < n; i++) {
    Spec::Item it;
    it.name = genName(c);
    bool dup = false;
    for (auto& o : s.items) dup |= o.name == it.name;
    if (dup) it.name += std::to_string(i);
    it.shape = genShape(c, 0, 8, maxNumel, true);
    it.dt = dts[c.draw(dts.size())];
    it.buffer = c.chance(1, 4);
    Rng r = c.sub();
    it.data = genBytes(r, numelOf(it.shape), it.dt);
    s.items.push_back(std::move(it));
  }
  if (depth > 0) {
    int64_t k = c.range(0, 3);
    for (int64_t i = 0; i < k; i++) {
      std::string nm = genName(c);
      for (auto& o : s.kids)
        if (o.first == nm) nm += "k" + std::to_string(i);
      s.kids.emplace_back(nm, genSpec(c, depth - 1, maxItems, maxNumel, dts));
    }
  }
  return s;
}
inline std::shared_ptr<Node> buildNode(Case& c, const Spec& s, std::vector<Tensor>* keep = nullptr) {
  auto n = std::make_shared<Node>();
  for (auto& it : s.items) {
    Tensor t = bytesTensor(c, it.shape, it.dt, it.data, !it.buffer && isFloatT(it.dt), keep);
    (it.buffer ? n->buffers : n->params).emplace_back(it.name, t);
  }
  for (auto& k : s.kids) n->adopt(k.first, buildNode(c, k.second, keep));
  return n;
}
// Every entry under its full name: own parameters, own buffers, then the children in order.
inline void listSpec(const Spec& s, const std::string& prefix, std::vector<Entry>& out) {
  for (int pass = 0; pass < 2; pass++)
    for (auto& it : s.items)
      if (it.buffer == (pass == 1)) out.push_back({prefix + it.name, it.shape, it.dt, it.data, !it.buffer});
  for (auto& k : s.kids) listSpec(k.second, prefix + k.first + ".", out);
}
inline std::vector<Entry> listSpec(const Spec& s) {
  std::vector<Entry> v;
  listSpec(s, "", v);
  return v;
}
inline bool uniqueNames(const std::vector<Entry>& e) {
  std::vector<std::string> n;
  for (auto& x : e) n.push_back(x.name);
  std::sort(n.begin(), n.end());
  return std::adjacent_find(n.begin(), n.end()) == n.end();
}
// The live tensors in the order of listSpec.
inline void listNode(Node& n, std::vector<Tensor*>& out) {
  for (auto& p : n.params) out.push_back(&p.second);
  for (auto& p : n.buffers) out.push_back(&p.second);
  for (auto& k : n.kids) listNode(*k.second, out);
}
inline void eachItem(Spec& s, const std::function<void(Spec&)>& f) {
  f(s);
  for (auto& k : s.kids) eachItem(k.second, f);
}

}  // namespace vp
