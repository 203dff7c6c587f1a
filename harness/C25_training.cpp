// C25: whole training runs. Models, data, losses, optimizers and schedulers are generated.
//  * every step of a run is compared with a double-precision forward and backward pass and the published update rule,
//    starting from the parameters the library has at that moment;
//  * a run is repeated with harmless acts in between (evaluation, reading, saving, derived tensors, dropped graphs):
//    every parameter must stay the same to the last bit;
//  * a run without optimizer state is interrupted, saved, and continued in a fresh model.
#include "training.h"

namespace {

// ------------------------------------------------------------------------------------------------ reference pass
struct RefParam {
  std::vector<double> w, b, gw, gb;
};
struct RefPass {
  const Plan& p;
  std::vector<RefParam> par;
  double loss = 0, scale = 0;
  bool sick = false;  // an input so close to a kink that 32-bit rounding decides
  bool noisy = false;  // rounds like a 32-bit computation might, to see how much that changes
  Rng noise{77};
  explicit RefPass(const Plan& plan) : p(plan), par(plan.layers.size()) {}

  void blur(Arr& a) {
    double m = 0;
    for (double t : a.v) m = std::max(m, std::fabs(t));
    for (double& t : a.v)
      if (t != 0) t += 3e-7 * (m + std::fabs(t)) * (noise.unit() * 2 - 1);
  }
  void run(const Arr& x, const std::vector<Arr>& ys);
  Arr forward(int i, const Arr& x, bool afterRelu);
  Arr backward(int i, const Arr& x, const Arr& y, const Arr& gy);
};
Shape convOut(const LayerSpec& l, const Shape& s, int64_t ch) {
  return {s[0], ch, (s[2] + 2 * l.ph - l.kh) / l.sh + 1, (s[3] + 2 * l.pw - l.kw) / l.sw + 1};
}
Arr RefPass::forward(int i, const Arr& x, bool afterRelu) {
  const LayerSpec& l = p.layers[i];
  const RefParam& q = par[i];
  int64_t B = x.shape[0];
  switch (l.kind) {
    case kLinear: {
      Arr y(Shape{B, l.out});
      for (int64_t b = 0; b < B; b++)
        for (int64_t o = 0; o < l.out; o++) {
          double s = l.bias ? q.b[o] : 0;
          for (int64_t k = 0; k < l.in; k++) s += x.v[b * l.in + k] * q.w[o * l.in + k];
          y.v[b * l.out + o] = s;
        }
      return y;
    }
    case kConv: {
      Arr y(convOut(l, x.shape, l.out));
      int64_t H = x.shape[2], W = x.shape[3], oh = y.shape[2], ow = y.shape[3], at = 0;
      for (int64_t b = 0; b < B; b++)
        for (int64_t o = 0; o < l.out; o++)
          for (int64_t r = 0; r < oh; r++)
            for (int64_t s = 0; s < ow; s++) {
              double t = l.bias ? q.b[o] : 0;
              for (int64_t ch = 0; ch < l.in; ch++)
                for (int64_t u = 0; u < l.kh; u++)
                  for (int64_t v = 0; v < l.kw; v++) {
                    int64_t h = r * l.sh + u - l.ph, w = s * l.sw + v - l.pw;
                    if (h >= 0 && h < H && w >= 0 && w < W) t += x.v[((b * l.in + ch) * H + h) * W + w] * q.w[((o * l.in + ch) * l.kh + u) * l.kw + v];
                  }
              y.v[at++] = t;
            }
      return y;
    }
    case kPool: {
      Arr y(convOut(l, x.shape, x.shape[1]));
      int64_t H = x.shape[2], W = x.shape[3], at = 0;
      for (int64_t bc = 0; bc < B * x.shape[1]; bc++)
        for (int64_t r = 0; r < y.shape[2]; r++)
          for (int64_t s = 0; s < y.shape[3]; s++) {
            double best = -1e300, second = -1e300;
            for (int64_t u = 0; u < l.kh; u++)
              for (int64_t v = 0; v < l.kw; v++) {
                double t = x.v[(bc * H + r * l.sh + u) * W + s * l.sw + v];
                if (t > best) second = best, best = t;
                else second = std::max(second, t);
              }
            if (best - second < 1e-4 * (1 + std::fabs(best)) && !(afterRelu && best == 0 && second == 0)) sick = true;
            y.v[at++] = best;
          }
      return y;
    }
    case kRelu: {
      Arr y = x;
      for (auto& t : y.v) {
        if (std::fabs(t) < 1e-4 && t != 0) sick = true;
        t = std::max(t, 0.0);
      }
      return y;
    }
    case kSin: {
      Arr y = x;
      for (auto& t : y.v) t = std::sin(t);
      return y;
    }
    case kFlatten: return Arr(Shape{B, x.numel() / B}, x.v);
    default: {
      Arr y = x;
      int64_t n = x.shape[1];
      for (int64_t b = 0; b < B; b++) {
        double m = -1e300, s = 0;
        for (int64_t k = 0; k < n; k++) m = std::max(m, x.v[b * n + k]);
        for (int64_t k = 0; k < n; k++) s += std::exp(x.v[b * n + k] - m);
        for (int64_t k = 0; k < n; k++) {
          double z = x.v[b * n + k] - m - std::log(s);
          y.v[b * n + k] = l.kind == kLogSoftmax ? z : std::exp(z);
        }
      }
      return y;
    }
  }
}
Arr RefPass::backward(int i, const Arr& x, const Arr& y, const Arr& gy) {
  const LayerSpec& l = p.layers[i];
  RefParam& q = par[i];
  Arr g(x.shape);
  int64_t B = x.shape[0];
  switch (l.kind) {
    case kLinear:
      for (int64_t b = 0; b < B; b++)
        for (int64_t o = 0; o < l.out; o++) {
          double d = gy.v[b * l.out + o];
          if (l.bias) q.gb[o] += d;
          for (int64_t k = 0; k < l.in; k++) {
            q.gw[o * l.in + k] += d * x.v[b * l.in + k];
            scale = std::max(scale, std::fabs(d * x.v[b * l.in + k]));
            g.v[b * l.in + k] += d * q.w[o * l.in + k];
          }
          scale = std::max(scale, std::fabs(d));
        }
      break;
    case kConv: {
      int64_t H = x.shape[2], W = x.shape[3], at = 0;
      for (int64_t b = 0; b < B; b++)
        for (int64_t o = 0; o < l.out; o++)
          for (int64_t r = 0; r < y.shape[2]; r++)
            for (int64_t s = 0; s < y.shape[3]; s++) {
              double d = gy.v[at++];
              if (l.bias) q.gb[o] += d;
              scale = std::max(scale, std::fabs(d));
              for (int64_t ch = 0; ch < l.in; ch++)
                for (int64_t u = 0; u < l.kh; u++)
                  for (int64_t v = 0; v < l.kw; v++) {
                    int64_t h = r * l.sh + u - l.ph, w = s * l.sw + v - l.pw;
                    if (h < 0 || h >= H || w < 0 || w >= W) continue;
                    int64_t xi = ((b * l.in + ch) * H + h) * W + w, wi = ((o * l.in + ch) * l.kh + u) * l.kw + v;
                    q.gw[wi] += d * x.v[xi];
                    scale = std::max(scale, std::fabs(d * x.v[xi]));
                    g.v[xi] += d * q.w[wi];
                  }
            }
      break;
    }
    case kPool: {
      int64_t H = x.shape[2], W = x.shape[3], at = 0;
      for (int64_t bc = 0; bc < B * x.shape[1]; bc++)
        for (int64_t r = 0; r < y.shape[2]; r++)
          for (int64_t s = 0; s < y.shape[3]; s++) {
            int64_t best = -1;
            for (int64_t u = 0; u < l.kh; u++)
              for (int64_t v = 0; v < l.kw; v++) {
                int64_t t = (bc * H + r * l.sh + u) * W + s * l.sw + v;
                if (best < 0 || x.v[t] > x.v[best]) best = t;
              }
            g.v[best] += gy.v[at++];
          }
      break;
    }
    case kRelu:
      for (int64_t k = 0; k < x.numel(); k++) g.v[k] = x.v[k] > 0 ? gy.v[k] : 0;
      break;
    case kSin:
      for (int64_t k = 0; k < x.numel(); k++) g.v[k] = std::cos(x.v[k]) * gy.v[k];
      break;
    case kFlatten: g.v = gy.v; break;
    default: {
      int64_t n = x.shape[1];
      for (int64_t b = 0; b < B; b++) {
        double s = 0;
        for (int64_t k = 0; k < n; k++) s += gy.v[b * n + k] * (l.kind == kLogSoftmax ? 1 : y.v[b * n + k]);
        for (int64_t k = 0; k < n; k++) {
          double yv = y.v[b * n + k];
          g.v[b * n + k] = l.kind == kLogSoftmax ? gy.v[b * n + k] - std::exp(yv) * s : yv * (gy.v[b * n + k] - s);
        }
      }
    }
  }
  return g;
}
void RefPass::run(const Arr& x, const std::vector<Arr>& ys) {
  std::vector<Arr> a{x};
  for (size_t k = 0; k < p.program.size(); k++) {
    a.push_back(forward(p.program[k], a.back(), k > 0 && p.layers[p.program[k - 1]].kind == kRelu));
    if (noisy) blur(a.back());
  }
  const Arr& out = a.back();
  int64_t B = x.shape[0], n = out.numel() / B;
  Arr g(out.shape);
  loss = 0;
  for (int64_t b = 0; b < B; b++)
    if (p.classes) {
      int64_t t = static_cast<int64_t>(ys[b].v[0]);
      double w = p.mean ? 1.0 / static_cast<double>(B) : 1.0;
      loss -= w * out.v[b * n + t];
      g.v[b * n + t] = -w;
    } else {
      double w = p.mean ? 1.0 / static_cast<double>(B * n) : 1.0;
      for (int64_t k = 0; k < n; k++) {
        double d = out.v[b * n + k] - ys[b].v[k];
        loss += w * d * d;
        g.v[b * n + k] = 2 * w * d;
      }
    }
  for (size_t k = p.program.size(); k-- > 0;) {
    g = backward(p.program[k], a[k], a[k + 1], g);
    if (noisy) blur(g);
  }
}

struct State {
  std::vector<double> s1, s2;
  bool started = false;
};
// One published update of every element; `t` counts steps.
void update(const Plan& p, State& st, std::vector<double>& x, const std::vector<double>& grad, double lr, int64_t t) {
  size_t n = x.size();
  if (!st.started) {
    st.s1.assign(n, 0);
    st.s2.assign(n, 0);
  }
  for (size_t i = 0; i < n; i++) {
    double g = grad[i];
    if (p.opt == oAdamW) x[i] *= 1 - lr * p.wd;
    else g += static_cast<double>(p.wd) * x[i];
    const double eps = 1e-4f, b1 = 0.9f, b2 = 0.999f, a = 0.9f;
    switch (p.opt) {
      case oSgd:
        if (p.momentum > 0) {
          st.s1[i] = st.started ? p.momentum * st.s1[i] + g : g;
          g = p.nesterov ? g + p.momentum * st.s1[i] : st.s1[i];
        }
        x[i] -= lr * g;
        break;
      case oAdam:
      case oAdamW:
        st.s1[i] = b1 * st.s1[i] + (1 - b1) * g;
        st.s2[i] = b2 * st.s2[i] + (1 - b2) * g * g;
        x[i] -= lr * (st.s1[i] / (1 - std::pow(b1, t))) / (std::sqrt(st.s2[i] / (1 - std::pow(b2, t))) + eps);
        break;
      case oRms:
        st.s1[i] = a * st.s1[i] + (1 - a) * g * g;
        x[i] -= lr * g / (std::sqrt(st.s1[i]) + eps);
        break;
      case oAdagrad:
        st.s1[i] += g * g;
        x[i] -= lr * g / (std::sqrt(st.s1[i]) + eps);
        break;
      default: {
        st.s1[i] = a * st.s1[i] + (1 - a) * g * g;
        double d = std::sqrt(st.s2[i] + eps) / std::sqrt(st.s1[i] + eps) * g;
        st.s2[i] = a * st.s2[i] + (1 - a) * d * d;
        x[i] -= lr * d;
      }
    }
  }
  st.started = true;
}

void reference(Case& c) {
  Plan p = genPlan(c, false);
  tt::manualSeed(p.seed);
  Net net(p);
  auto set = std::make_shared<Set>(p);
  auto opt = makeOpt(p, net.parameters());
  std::unique_ptr<optim::lr_scheduler::StepLR> sched;
  if (p.stepSize) sched = std::make_unique<optim::lr_scheduler::StepLR>(*opt, p.stepSize, p.gamma);
  int64_t steps = 0, compared = 0, pending = 0;
  RefPass ref(p);
  std::vector<RefPass> alts(4, RefPass(p));
  for (size_t k = 0; k < alts.size(); k++) {
    alts[k].noisy = true;
    alts[k].noise = Rng(77 + k);
  }
  auto anySick = [&] {
    bool sick = ref.sick;
    for (auto& a : alts) sick |= a.sick;
    return sick;
  };
  struct Slot {
    Tensor* t;
    int layer;
    bool isBias;
    State st;
    bool used;
  };
  std::vector<Slot> slots;
  std::set<int> used(p.program.begin(), p.program.end());
  for (size_t i = 0; i < p.layers.size(); i++) {
    auto& l = p.layers[i];
    if (l.kind != kLinear && l.kind != kConv) continue;
    bool live = used.count(static_cast<int>(i)) && !p.frozen[i];
    slots.push_back({net.weight(static_cast<int>(i), l), static_cast<int>(i), false, {}, live});
    if (l.bias) slots.push_back({net.bias(static_cast<int>(i), l), static_cast<int>(i), true, {}, live});
  }
  size_t count = 0;
  for (auto& s : slots) count += s.t != nullptr;
  VP_CHECK(c, net.parameters().size() == count, "the model lists %zu parameters instead of %zu", net.parameters().size(), count);
  bool anyLive = false;
  for (auto& s : slots) anyLive |= s.used;

  auto fetch = [&] {  // parameters and gradients of the reference start from the library's values
    for (auto& s : slots) {
      (s.isBias ? ref.par[s.layer].b : ref.par[s.layer].w) = readVec(*s.t);
      for (auto& alt : alts) (s.isBias ? alt.par[s.layer].b : alt.par[s.layer].w) = readVec(*s.t);
    }
  };
  auto clear = [&] {
    for (auto& s : slots) {
      (s.isBias ? ref.par[s.layer].gb : ref.par[s.layer].gw).assign(s.t->numel(), 0);
      for (auto& alt : alts) (s.isBias ? alt.par[s.layer].gb : alt.par[s.layer].gw).assign(s.t->numel(), 0);
    }
    ref.scale = 0;
    ref.sick = false;
    for (auto& alt : alts) alt.sick = false;
  };
  clear();
  bool noGrads = true;  // no backward pass since the gradients were cleared for good
  for (int64_t e = 0; e < p.epochs; e++) {
    auto loader = makeLoader(p, set);
    set->asked.clear();
    double lrWant = p.stepSize ? p.lr * std::pow(static_cast<double>(p.gamma), static_cast<double>(e / p.stepSize)) : p.lr;
    VP_CHECK(c, std::fabs(opt->getLr() - lrWant) <= 1e-5 * lrWant, "epoch %lld: rate %g instead of %g", (long long)e, opt->getLr(), lrWant);
    for (auto [idx, batch] : loader) {
      std::vector<size_t> ids = set->asked;
      set->asked.clear();
      Shape bs = p.sample;
      bs.insert(bs.begin(), static_cast<int64_t>(ids.size()));
      std::vector<double> xv;
      std::vector<Arr> ys;
      for (size_t id : ids) {
        xv.insert(xv.end(), p.xs[id].v.begin(), p.xs[id].v.end());
        ys.push_back(p.ys[id]);
      }
      VP_CHECK(c, batch.size() == 2 && toShape(batch[0].shape()) == bs, "a batch has shape %s instead of %s", str(toShape(batch[0].shape())).c_str(), str(bs).c_str());
      fetch();
      ref.run(Arr(bs, xv), ys);
      double lossNoise = 0;
      for (auto& alt : alts) {
        alt.run(Arr(bs, xv), ys);
        lossNoise += std::fabs(ref.loss - alt.loss);
      }
      double top = ref.loss;
      for (auto& q : ref.par) {
        for (double w : q.w) top = std::max(top, std::fabs(w));
        for (double w : q.b) top = std::max(top, std::fabs(w));
      }
      if (!(top < 100)) {  // the run diverges: rounding is amplified without bound
        c.cls("diverged");
        return;
      }
      Tensor out = net(batch[0]);
      Tensor loss = lossOf(p, out, batch[1]);
      double got = readVec(loss)[0];
      VP_CHECK(c, anySick() || std::fabs(got - ref.loss) <= 1e-6 + 1e-5 * std::fabs(ref.loss) + 10 * lossNoise, "step %lld: loss %.9g instead of %.9g", (long long)steps, got, ref.loss);
      VP_CHECK(c, loss.requiresGrad() == anyLive, "step %lld: the loss %s gradients", (long long)steps, anyLive ? "does not record" : "records");
      if (anyLive) {
        loss.backward();
        noGrads = false;
      }
      if (++pending < p.accumulate) continue;
      pending = 0;
      std::vector<std::vector<double>> before;
      for (auto& s : slots) before.push_back(readVec(*s.t));
      std::vector<std::vector<double>> grads(slots.size());
      for (size_t k = 0; k < slots.size(); k++) {
        auto& s = slots[k];
        if (p.frozen[s.layer]) {
          VP_CHECK(c, !s.t->requiresGrad(), "a frozen parameter requires gradients");
          continue;
        }
        bool has = s.t->grad().defined();
        VP_CHECK(c, has || noGrads || !s.used, "parameter %zu has no gradient", k);
        if (!has) continue;
        grads[k] = readVec(s.t->grad());
        auto& want = s.isBias ? ref.par[s.layer].gb : ref.par[s.layer].gw;
        VP_CHECK(c, grads[k].size() == want.size(), "a gradient has %zu elements instead of %zu", grads[k].size(), want.size());
        if (anySick()) continue;
        double m = 0;
        double tol = 0;
        for (size_t i = 0; i < want.size(); i++) {
          m = std::max(m, std::fabs(want[i]));
          double d = 0;
          for (auto& alt : alts) d += std::fabs(want[i] - (s.isBias ? alt.par[s.layer].gb : alt.par[s.layer].gw)[i]);
          tol = std::max(tol, d);
        }
        tol = 1e-6 + 1e-4 * m + 2e-6 * ref.scale + 10 * tol;
        if (tol > 0.1 * m && m > 1e-3 * ref.scale) {
          c.cls("ill-conditioned gradient");
          continue;
        }
        if (m > 0 && tol < 0.01 * m) c.cls("tightly compared gradient");
        for (size_t i = 0; i < want.size(); i++)
          VP_CHECK(c, std::fabs(grads[k][i] - want[i]) <= tol, "step %lld: gradient of the %s of layer %d at %zu is %.7g instead of %.7g",
                   (long long)steps, s.isBias ? "bias" : "weight", s.layer, i, grads[k][i], want[i]);
        compared++;
      }
      opt->step();
      steps++;
      for (size_t k = 0; k < slots.size(); k++) {
        auto& s = slots[k];
        std::vector<double> x = before[k];
        if (!grads[k].empty()) update(p, s.st, x, grads[k], opt->getLr(), steps);
        auto now = readVec(*s.t);
        for (size_t i = 0; i < x.size(); i++) {
          double move = std::fabs(x[i] - before[k][i]);
          double cancel = p.wd > 0 && p.opt != oSgd && p.opt != oAdamW && !grads[k].empty() ? 1e-6 * (std::fabs(grads[k][i]) + p.wd * std::fabs(before[k][i])) / 1e-4 * opt->getLr() : 0;
          VP_CHECK(c, std::fabs(now[i] - x[i]) <= 1e-6 * std::fabs(before[k][i]) + 1e-3 * move + 1e-6 + cancel,
                   "step %lld: %s of layer %d at %zu goes from %.7g to %.7g instead of %.7g", (long long)steps, s.isBias ? "bias" : "weight", s.layer, i,
                   before[k][i], now[i], x[i]);
        }
      }
      if (anySick()) c.cls("a step at a kink");
      opt->zeroGrad();
      noGrads = true;
      clear();
    }
    if (sched) sched->step();
  }
  if (p.program.size() > p.layers.size() || std::set<int>(p.program.begin(), p.program.end()).size() < p.program.size()) c.cls("a layer used twice");
  if (p.accumulate > 1) c.cls("accumulated gradients");
  if (p.classes) c.cls("classification");
  if (compared > 0 && steps > 1) c.nontrivial();
}

using Snapshot = std::vector<Bytes>;
Snapshot snap(Net& n) {
  Snapshot s;
  for (auto* t : n.parameters()) s.push_back(rawBytes(*t));
  return s;
}

// One run; `acts` are done before step i.
struct Acts {
  std::vector<std::vector<int>> at;
  int64_t resumeAt = -1;
};
void disturb(Case& c, const Plan& p, Net& net, optim::Optimizer& opt, int what, const Tensor& probe, bool gradsClear) {
  auto ps = net.parameters();
  switch (what) {
    case 0: {  // evaluation
      tt::NoGradGuard g;
      net.eval();
      Tensor y = net(probe);
      Tensor z = fn::softmax(y, 1);
      readVec(z);
      net.train();
      break;
    }
    case 1:  // values worked out from a parameter and changed
      for (auto* t : ps) {
        tt::NoGradGuard g;
        Tensor k = t->clone();
        k.fill_(tt::Scalar(7.f));
        Tensor r = fn::reshape(*t, tt::IntArrayView(std::vector<int64_t>{t->numel()}));
        r.fill_(tt::Scalar(9.f));
      }
      break;
    case 2:
      for (auto* t : ps) t->toList<float>();
      break;
    case 3: {
      std::string f = scratchPath("model.bin");
      VP_CHECK(c, tt::save(net, f), "saving failed");
      VP_CHECK(c, tt::load(net, f), "loading failed");
      break;
    }
    case 4: {  // a recorded computation nobody differentiates
      net.eval();
      Tensor y = net(probe);
      Tensor l = y.sum() * y.sum();
      net.train();
      break;
    }
    case 5:
      if (gradsClear) opt.zeroGrad();
      break;
    case 6: {  // an unrelated model learns
      Tensor w = rawTensor({2, numelOf(p.sample)}, DType::Float32, std::vector<double>(2 * numelOf(p.sample), 0.5), true);
      optim::SGD other({&w}, 0.1f);
      Tensor x = fn::flatten(probe, 1, -1);
      fn::linear(x, w).sum().backward();
      other.step();
      break;
    }
    default: {  // handles come and go
      std::vector<Tensor> copies;
      for (auto* t : ps) copies.push_back(*t);
      for (auto* t : ps)
        if (t->requiresGrad() && t->grad().defined()) copies.push_back(t->grad());
      break;
    }
  }
}
std::vector<Snapshot> trainRun(Case& c, const Plan& p, const Acts& acts) {
  tt::manualSeed(p.seed);
  auto net = std::make_unique<Net>(p);
  auto set = std::make_shared<Set>(p);
  auto opt = makeOpt(p, net->parameters());
  std::unique_ptr<optim::lr_scheduler::StepLR> sched;
  if (p.stepSize) sched = std::make_unique<optim::lr_scheduler::StepLR>(*opt, p.stepSize, p.gamma);
  Shape one = p.sample;
  one.insert(one.begin(), 1);
  std::vector<double> ramp(numelOf(one));
  for (size_t i = 0; i < ramp.size(); i++) ramp[i] = 0.1 * static_cast<double>(i);
  Tensor probe = rawTensor(one, DType::Float32, ramp);
  std::vector<Snapshot> out{snap(*net)};
  size_t k = 0;
  int64_t steps = 0, pending = 0;
  net->train();
  auto act = [&] {
    if (k < acts.at.size())
      for (int a : acts.at[k]) disturb(c, p, *net, *opt, a, probe, pending == 0 && k % 2 == 0 && steps > 0);
    k++;
  };
  for (int64_t e = 0; e < p.epochs; e++) {
    auto loader = makeLoader(p, set);
    for (auto [idx, batch] : loader) {
      if (acts.resumeAt == steps && pending == 0) {  // goes on in a fresh model
        std::string f = scratchPath("resume.bin");
        VP_CHECK(c, tt::save(*net, f), "saving failed");
        float lr = opt->getLr();
        Plan q = p;
        auto fresh = std::make_unique<Net>(q);
        VP_CHECK(c, tt::load(*fresh, f), "loading failed");
        opt = makeOpt(p, fresh->parameters());
        opt->setLr(lr);
        if (steps > 0) opt->zeroGrad();
        net = std::move(fresh);
        c.cls("resumed");
      }
      act();
      Tensor loss = lossOf(p, (*net)(batch[0]), batch[1]);
      if (loss.requiresGrad()) loss.backward();
      act();
      if (++pending < p.accumulate) continue;
      pending = 0;
      opt->step();
      steps++;
      opt->zeroGrad();
      out.push_back(snap(*net));
    }
    if (sched) sched->step();
  }
  return out;
}
void compare(Case& c, const std::vector<Snapshot>& a, const std::vector<Snapshot>& b, const char* what) {
  VP_CHECK(c, a.size() == b.size(), "%s: %zu steps instead of %zu", what, b.size() - 1, a.size() - 1);
  for (size_t k = 0; k < a.size(); k++)
    for (size_t i = 0; i < a[k].size(); i++) VP_CHECK(c, a[k][i] == b[k][i], "%s: parameter %zu differs after step %zu", what, i, k);
}

void undisturbed(Case& c) {
  Plan p = genPlan(c, true);
  Acts acts;
  int64_t points = 2 * p.epochs * ((p.samples + p.batch - 1) / p.batch);
  int64_t total = 0;
  for (int64_t k = 0; k < points; k++) {
    std::vector<int> v;
    for (int64_t n = c.weighted({3, 3, 1}); n > 0; n--) v.push_back(static_cast<int>(c.draw(8)));
    total += static_cast<int64_t>(v.size());
    for (int a : v) c.note("act %d before half-step %lld\n", a, (long long)k);
    acts.at.push_back(v);
  }
  auto a = trainRun(c, p, {});
  auto b = trainRun(c, p, acts);
  compare(c, a, b, "with harmless acts in between");
  if (c.chance(1, 3)) compare(c, a, trainRun(c, p, {}), "the same run again");
  bool moved = false;
  for (size_t i = 0; i < a[0].size(); i++) moved |= a.front()[i] != a.back()[i];
  if (p.dropout) c.cls("dropout");
  if (moved && total > 0) c.nontrivial();
}

void resumed(Case& c) {
  Plan p = genPlan(c, false);
  p.opt = oSgd;
  p.momentum = 0;
  p.nesterov = false;
  p.stepSize = 0;
  p.shuffle = false;
  int64_t steps = p.epochs * std::max<int64_t>(1, (p.samples + p.batch - 1) / p.batch) / p.accumulate;
  Acts acts;
  acts.resumeAt = c.draw(std::max<int64_t>(1, steps));
  auto a = trainRun(c, p, {});
  auto b = trainRun(c, p, acts);
  compare(c, a, b, "continued in a fresh model");
  bool moved = false;
  for (size_t i = 0; i < a[0].size(); i++) moved |= a.front()[i] != a.back()[i];
  if (moved && acts.resumeAt > 0) c.nontrivial();
}

}  // namespace

int main(int argc, char** argv) {
  makeScratchRoot();
  Suite s;
  s.property = "C25";
  s.rule = "reference: at least two steps and a compared gradient; undisturbed: an act took place and a parameter moved; resumed: after the first step and a parameter moved";
  s.assumptions = {"32-bit parameters and data of moderate size",
                   "a step whose activations lie within 1e-4 of a kink is compared for its update only",
                   "each step of the reference starts from the parameters the library has then"};
  s.init = noCache;
  s.props = {{"reference", reference, 16000, 1500000}, {"undisturbed", undisturbed, 8000, 800000}, {"resumed", resumed, 8000, 400000}};
  int rc = runSuite(s, argc, argv);
  removeTree(scratchRoot());
  return rc;
}
