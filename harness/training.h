// Random models, data, optimizers and schedules for checks that train.
#pragma once
#include <set>

#include "Data/DataLoader.h"
#include "Data/Sampler.h"
#include "Functions.h"
#include "Operations.h"
#include "Optimizer.h"
#include "Scheduler.h"
#include "Serializer.h"
#include "Utils/RandomGenerator.h"
#include "modules.h"

using namespace vp;
namespace optim = tinytorch::optim;
namespace data = tinytorch::data;
namespace fn = tt::function;

namespace {

enum Kind { kLinear, kConv, kPool, kRelu, kFlatten, kSoftmax, kLogSoftmax, kSin, kDropout };
struct LayerSpec {
  Kind kind;
  int64_t in = 0, out = 0, kh = 1, kw = 1, sh = 1, sw = 1, ph = 0, pw = 0;
  bool bias = true;
  float p = 0;
};
enum OptKind { oSgd, oAdam, oAdamW, oRms, oAdagrad, oAdaDelta };
struct Plan {
  std::vector<LayerSpec> layers;
  std::vector<int> program;  // order of layers; a layer may come twice
  Shape sample, target;
  int64_t classes = 0;  // 0: regression
  bool mean = true;
  int64_t samples = 0, batch = 1, epochs = 1;
  bool dropLast = false, shuffle = false, sampled = false;
  std::vector<Arr> xs, ys;
  std::vector<size_t> order;
  OptKind opt = oSgd;
  float lr = 0.1f, wd = 0, momentum = 0;
  bool nesterov = false;
  int64_t stepSize = 0;  // 0: no scheduler
  float gamma = 1;
  int64_t accumulate = 1;
  std::vector<char> frozen;  // by layer
  uint64_t seed = 1;
  bool dropout = false;
};

struct Sin : nn::Module {
  Tensor forward(const Tensor& x) override { return x.sin(); }
};

struct Net : nn::Module {
  std::vector<std::shared_ptr<nn::Module>> layers;
  std::vector<int> program;
  explicit Net(const Plan& p) : program(p.program) {
    for (auto& l : p.layers) {
      std::shared_ptr<nn::Module> m;
      switch (l.kind) {
        case kLinear: m = std::make_shared<nn::Linear>(l.in, l.out, l.bias); break;
        case kConv: m = std::make_shared<nn::Conv2D>(l.in, l.out, tt::Dim2D(l.kh, l.kw), tt::Dim2D(l.sh, l.sw), tt::Dim2D(l.ph, l.pw), l.bias); break;
        case kPool: m = std::make_shared<nn::MaxPool2D>(tt::Dim2D(l.kh, l.kw), tt::Dim2D(l.sh, l.sw)); break;
        case kRelu: m = std::make_shared<nn::Relu>(); break;
        case kFlatten: m = std::make_shared<nn::Flatten>(1); break;
        case kSoftmax: m = std::make_shared<nn::Softmax>(1); break;
        case kLogSoftmax: m = std::make_shared<nn::LogSoftmax>(1); break;
        case kSin: m = std::make_shared<Sin>(); break;
        default: m = std::make_shared<nn::Dropout>(l.p); break;
      }
      registerModule("l" + std::to_string(layers.size()), *m);
      layers.push_back(m);
    }
    for (size_t i = 0; i < p.layers.size(); i++)
      if (p.frozen[i])
        for (auto* t : layers[i]->parameters()) t->setRequiresGrad(false);
  }
  Tensor forward(const Tensor& input) override {
    Tensor x = input;
    for (int i : program) x = (*layers[i])(x);
    return x;
  }
  Tensor* weight(int i, const LayerSpec& l) {
    if (l.kind == kLinear) return &static_cast<nn::Linear&>(*layers[i]).weight();
    return &static_cast<nn::Conv2D&>(*layers[i]).weight();
  }
  Tensor* bias(int i, const LayerSpec& l) {
    if (l.kind == kLinear) return &static_cast<nn::Linear&>(*layers[i]).bias();
    return &static_cast<nn::Conv2D&>(*layers[i]).bias();
  }
};

struct Set : data::Dataset {
  const Plan& p;
  std::vector<size_t> asked;
  explicit Set(const Plan& plan) : p(plan) {}
  size_t size() const override { return p.samples; }
  std::vector<Tensor> getItem(size_t i) override {
    asked.push_back(i);
    Tensor y = p.classes ? Tensor::scalar(static_cast<int64_t>(p.ys[i].v[0]), tt::options::dtype(DType::Int64))
                         : rawTensor(p.target, DType::Float32, p.ys[i].v);
    return {rawTensor(p.sample, DType::Float32, p.xs[i].v), y};
  }
};
struct Order : data::Sampler {
  std::vector<size_t> order;
  explicit Order(std::vector<size_t> o) : order(std::move(o)) {}
  std::vector<size_t> indices() const override { return order; }
  size_t size() const override { return order.size(); }
};

Plan genPlan(Case& c, bool allowDropout) {
  Plan p;
  p.seed = c.draw(1 << 20);
  auto add = [&](LayerSpec l) {
    p.layers.push_back(l);
    p.program.push_back(static_cast<int>(p.layers.size()) - 1);
  };
  auto activation = [&] {
    switch (c.weighted({4, 2, 1, allowDropout ? 3 : 0})) {
      case 0: add({kRelu}); break;
      case 1: add({kSin}); break;
      case 2: break;
      default:
        add({kDropout});
        p.layers.back().p = c.oneOf({0.5f, 0.2f, 0.9f});
        p.dropout = true;
    }
  };
  int64_t f;
  if (c.chance(1, 2)) {
    int64_t ch = c.range(1, 3), H = c.range(3, 8), W = c.range(3, 8);
    p.sample = {ch, H, W};
    int blocks = static_cast<int>(c.draw(3));
    for (int b = 0; b < blocks; b++) {
      LayerSpec l{kConv};
      l.in = ch;
      l.out = c.range(1, 4);
      l.kh = c.range(1, std::min<int64_t>(3, H));
      l.kw = c.range(1, std::min<int64_t>(3, W));
      l.sh = c.range(1, 2);
      l.sw = c.range(1, 2);
      l.ph = c.draw(2);
      l.pw = c.draw(2);
      l.bias = c.chance(3, 4);
      add(l);
      ch = l.out;
      H = (H + 2 * l.ph - l.kh) / l.sh + 1;
      W = (W + 2 * l.pw - l.kw) / l.sw + 1;
      activation();
      if (H >= 2 && W >= 2 && c.chance(1, 3)) {
        LayerSpec q{kPool};
        q.kh = c.range(1, 2);
        q.kw = c.range(1, 2);
        q.sh = c.range(1, 2);
        q.sw = c.range(1, 2);
        add(q);
        H = (H - q.kh) / q.sh + 1;
        W = (W - q.kw) / q.sw + 1;
      }
    }
    add({kFlatten});
    f = ch * H * W;
  } else {
    f = c.range(1, 9);
    p.sample = {f};
  }
  int dense = static_cast<int>(1 + c.draw(3));
  for (int d = 0; d < dense; d++) {
    LayerSpec l{kLinear};
    l.in = f;
    l.out = c.chance(1, 4) && f < 12 ? f : c.range(1, 8);
    l.bias = c.chance(3, 4);
    add(l);
    int at = p.program.back();
    activation();
    if (l.in == l.out && c.chance(1, 2)) {  // the same layer once more
      p.program.push_back(at);
      activation();
    }
    f = l.out;
  }
  if (f > 1 && c.chance(1, 2)) {
    p.classes = f;
    add({kLogSoftmax});
  } else {
    p.target = {f};
    if (c.chance(1, 4)) add({kSoftmax});
  }
  if (c.chance(1, 8)) {  // a layer that takes no part
    LayerSpec l{kLinear};
    l.in = l.out = 2;
    p.layers.push_back(l);
  }
  p.mean = c.chance(2, 3);
  p.samples = c.range(1, 12);
  p.batch = c.range(1, 5);
  p.epochs = c.range(1, 3);
  p.dropLast = c.chance(1, 5);
  int kind = static_cast<int>(c.draw(3));
  p.shuffle = kind == 1;
  p.sampled = kind == 2;
  auto xs = genData(c, p.samples * numelOf(p.sample), DType::Float32, Data::Unit);
  auto ys = genData(c, p.samples * std::max<int64_t>(1, numelOf(p.target)), DType::Float32, Data::Unit);
  Rng r = c.sub();
  for (int64_t i = 0; i < p.samples; i++) {
    int64_t n = numelOf(p.sample), m = numelOf(p.target);
    p.xs.emplace_back(p.sample, std::vector<double>(xs.begin() + i * n, xs.begin() + (i + 1) * n));
    if (p.classes) p.ys.emplace_back(Shape{}, std::vector<double>{static_cast<double>(r.below(p.classes))});
    else p.ys.emplace_back(p.target, std::vector<double>(ys.begin() + i * m, ys.begin() + (i + 1) * m));
    p.order.push_back(r.below(p.samples));
  }
  p.opt = static_cast<OptKind>(c.weighted({3, 2, 1, 1, 1, 1}));
  p.lr = c.oneOf({0.05f, 0.01f, 0.3f});
  p.wd = c.chance(1, 3) ? 0.01f : 0.f;
  if (p.opt == oSgd) {
    p.momentum = c.coin() ? 0.9f : 0.f;
    p.nesterov = p.momentum > 0 && c.coin();
  }
  if (c.coin()) {
    p.stepSize = c.range(1, 3);
    p.gamma = c.oneOf({0.5f, 0.1f, 2.f});
  }
  p.accumulate = c.chance(1, 3) ? c.range(2, 3) : 1;
  p.frozen.assign(p.layers.size(), 0);
  if (c.chance(1, 4)) p.frozen[c.draw(p.layers.size())] = 1;
  std::string s;
  static const char* names[] = {"linear", "conv", "pool", "relu", "flatten", "softmax", "logsoftmax", "sin", "dropout"};
  for (int i : p.program) {
    auto& l = p.layers[i];
    s += std::string(" ") + names[l.kind] + std::to_string(i) + (p.frozen[i] ? "(frozen)" : "");
    if (l.kind == kLinear || l.kind == kConv) s += "[" + std::to_string(l.in) + "->" + std::to_string(l.out) + (l.bias ? "+b" : "") + "]";
    if (l.kind == kConv || l.kind == kPool)
      s += "k" + std::to_string(l.kh) + "x" + std::to_string(l.kw) + "s" + std::to_string(l.sh) + "x" + std::to_string(l.sw) + "p" + std::to_string(l.ph) +
           "x" + std::to_string(l.pw);
  }
  c.note("sample %s net:%s; %s %s; %lld samples by %lld x%lld epochs; optimizer %d lr %g wd %g momentum %g; schedule %lld %g; accumulate %lld; seed %llu\n",
         str(p.sample).c_str(), s.c_str(), p.classes ? "nll" : "mse", p.mean ? "mean" : "sum", (long long)p.samples, (long long)p.batch,
         (long long)p.epochs, p.opt, p.lr, p.wd, p.momentum, (long long)p.stepSize, p.gamma, (long long)p.accumulate, (unsigned long long)p.seed);
  return p;
}

std::unique_ptr<optim::Optimizer> makeOpt(const Plan& p, std::vector<tt::TensorPtr> ps) {
  switch (p.opt) {
    case oSgd: return std::make_unique<optim::SGD>(std::move(ps), p.lr, p.momentum, 0.f, p.wd, p.nesterov);
    case oAdam: return std::make_unique<optim::Adam>(std::move(ps), p.lr, std::make_pair(0.9f, 0.999f), 1e-4f, p.wd, false);
    case oAdamW: return std::make_unique<optim::AdamW>(std::move(ps), p.lr, std::make_pair(0.9f, 0.999f), 1e-4f, p.wd, false);
    case oRms: return std::make_unique<optim::RMSprop>(std::move(ps), p.lr, 0.9f, 1e-4f, p.wd, 0.f, false);
    case oAdagrad: return std::make_unique<optim::Adagrad>(std::move(ps), p.lr, 0.f, p.wd, 0.f, 1e-4f);
    default: return std::make_unique<optim::AdaDelta>(std::move(ps), p.lr, 0.9f, 1e-4f, p.wd);
  }
}
Tensor lossOf(const Plan& p, Tensor out, Tensor y) {
  auto r = p.mean ? tt::LossReduction::MEAN : tt::LossReduction::SUM;
  if (p.classes) return nn::NLLLoss(r)(out, y);
  return nn::MSELoss(r)(out, y);
}
data::DataLoader makeLoader(const Plan& p, std::shared_ptr<data::Dataset> set) {
  std::shared_ptr<data::Sampler> sampler;
  if (p.sampled) sampler = std::make_shared<Order>(p.order);
  return data::DataLoader(set, static_cast<size_t>(p.batch), sampler, p.shuffle, p.dropLast);
}

}  // namespace
