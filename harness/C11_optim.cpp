// C11: optimizers and the step scheduler over training histories, against their published rules in double precision.
#include <memory>

#include "Operations.h"
#include "Optimizer.h"
#include "Scheduler.h"
#include "ref.h"
#include "defaults.h"
using namespace vp;
namespace optim = tt::optim;

namespace {

enum Kind { kSgd, kAdagrad, kRms, kAdaDelta, kAdam, kAdamW };
const char* kName[] = {"SGD", "Adagrad", "RMSprop", "AdaDelta", "Adam", "AdamW"};

struct Hyper {
  Kind kind;
  float lr, wd = 0, momentum = 0, damp = 0, lrDecay = 0, init = 0, eps = 1e-8f, alpha = 0.9f, b1 = 0.9f, b2 = 0.999f;
  bool nesterov = false, centered = false, ams = false;
};

struct Param {
  Shape shape;
  std::vector<double> x;
  bool has = false;              // gradient
  std::vector<double> g;
  std::vector<double> s1, s2, s3;  // state
  bool started = false;
  std::vector<double> mag;       // size of everything added so far
  std::vector<bool> sick;        // rounding decides the outcome: no longer compared
};

// One step of the rule for one parameter.
void rule(const Hyper& h, Param& p, double lr, int64_t t) {
  size_t n = p.x.size();
  if (!p.has) return;
  if (!p.started) {
    p.s1.assign(n, h.kind == kAdagrad ? static_cast<double>(h.init) : 0.0);
    p.s2.assign(n, 0.0);
    p.s3.assign(n, 0.0);
  }
  double wd = h.wd, eps = h.eps;
  for (size_t i = 0; i < n; i++) {
    double g = p.g[i], before = p.x[i];
    if (h.kind == kAdamW) {
      p.x[i] *= 1 - lr * wd;
    } else if (wd != 0) {
      double e = g + wd * p.x[i];
      if (h.kind != kSgd && e != 0 && std::fabs(e) < 1e-3 * (std::fabs(g) + std::fabs(wd * p.x[i]))) p.sick[i] = true;
      if (h.kind != kSgd && e == 0 && g != 0) p.sick[i] = true;
      g = e;
    }
    double step = 0;
    switch (h.kind) {
      case kSgd:
        if (h.momentum != 0) {
          p.s1[i] = p.started ? h.momentum * p.s1[i] + (1 - static_cast<double>(h.damp)) * g : g;
          g = h.nesterov ? g + h.momentum * p.s1[i] : p.s1[i];
        }
        step = lr * g;
        break;
      case kAdagrad:
        p.s1[i] += g * g;
        step = lr / (1 + static_cast<double>(t - 1) * h.lrDecay) * g / (std::sqrt(p.s1[i]) + eps);
        break;
      case kRms: {
        double a = h.alpha;
        p.s1[i] = a * p.s1[i] + (1 - a) * g * g;
        double v = p.s1[i];
        if (h.centered) {
          p.s2[i] = a * p.s2[i] + (1 - a) * g;
          v -= p.s2[i] * p.s2[i];
          if (v < 1e-2 * p.s1[i] || (p.s1[i] != 0 && v <= 0)) p.sick[i] = true;
        }
        double d = g / (std::sqrt(std::max(v, 0.0)) + eps);
        if (h.momentum != 0) {
          p.s3[i] = h.momentum * p.s3[i] + d;
          d = p.s3[i];
        }
        step = lr * d;
        break;
      }
      case kAdaDelta: {
        double r = h.alpha;
        p.s1[i] = r * p.s1[i] + (1 - r) * g * g;
        double d = std::sqrt(p.s2[i] + eps) / std::sqrt(p.s1[i] + eps) * g;
        p.s2[i] = r * p.s2[i] + (1 - r) * d * d;
        step = lr * d;
        break;
      }
      case kAdam:
      case kAdamW: {
        p.s1[i] = h.b1 * p.s1[i] + (1 - static_cast<double>(h.b1)) * g;
        p.s2[i] = h.b2 * p.s2[i] + (1 - static_cast<double>(h.b2)) * g * g;
        double m = p.s1[i] / (1 - std::pow(static_cast<double>(h.b1), static_cast<double>(t)));
        double v = p.s2[i] / (1 - std::pow(static_cast<double>(h.b2), static_cast<double>(t)));
        if (h.ams) v = p.s3[i] = std::max(p.s3[i], v);
        step = lr * m / (std::sqrt(v) + eps);
        break;
      }
    }
    p.x[i] -= step;
    p.mag[i] += std::fabs(step) + std::fabs(p.x[i] - before) + (h.kind == kSgd ? lr * std::fabs(g) : 0);
  }
  p.started = true;
}

std::unique_ptr<optim::Optimizer> make(const Hyper& h, std::vector<Tensor*> ps) {
  switch (h.kind) {
    case kSgd: return std::make_unique<optim::SGD>(std::move(ps), h.lr, h.momentum, h.damp, h.wd, h.nesterov);
    case kAdagrad: return std::make_unique<optim::Adagrad>(std::move(ps), h.lr, h.lrDecay, h.wd, h.init, h.eps);
    case kRms: return std::make_unique<optim::RMSprop>(std::move(ps), h.lr, h.alpha, h.eps, h.wd, h.momentum, h.centered);
    case kAdaDelta: return std::make_unique<optim::AdaDelta>(std::move(ps), h.lr, h.alpha, h.eps, h.wd);
    case kAdam: return std::make_unique<optim::Adam>(std::move(ps), h.lr, std::make_pair(h.b1, h.b2), h.eps, h.wd, h.ams);
    default: return std::make_unique<optim::AdamW>(std::move(ps), h.lr, std::make_pair(h.b1, h.b2), h.eps, h.wd, h.ams);
  }
}

Hyper genHyper(Case& c) {
  Hyper h;
  h.kind = static_cast<Kind>(c.draw(6));
  h.lr = c.pick(std::vector<float>{0.1f, 0.01f, 0.5f, 0.003f, 1.f});
  if (c.coin()) h.wd = c.pick(std::vector<float>{0.1f, 0.01f, 0.5f});
  h.eps = c.pick(std::vector<float>{1e-8f, 1e-3f, 1e-6f, 0.1f});
  h.alpha = c.pick(std::vector<float>{0.9f, 0.99f, 0.5f});
  if (h.kind == kSgd || h.kind == kRms) {
    if (c.coin()) h.momentum = c.pick(std::vector<float>{0.9f, 0.5f, 0.1f});
    if (h.kind == kSgd && h.momentum != 0) {
      if (c.coin()) h.nesterov = true;
      else if (c.coin()) h.damp = c.pick(std::vector<float>{0.5f, 0.1f, 1.f});
    }
    if (h.kind == kRms) h.centered = c.chance(1, 3);
  }
  if (h.kind == kAdagrad) {
    if (c.coin()) h.lrDecay = c.pick(std::vector<float>{0.1f, 0.9f});
    if (c.coin()) h.init = c.pick(std::vector<float>{0.1f, 1.f});
  }
  if (h.kind == kAdam || h.kind == kAdamW) {
    int k = static_cast<int>(c.draw(3));
    h.b1 = k == 0 ? 0.9f : k == 1 ? 0.5f : 0.f;
    h.b2 = k == 0 ? 0.999f : k == 1 ? 0.9f : 0.5f;
    h.ams = c.chance(1, 3);
  }
  c.note("%s lr %g wd %g momentum %g damp %g nesterov %d decay %g init %g eps %g alpha %g centered %d betas %g %g ams %d; ", kName[h.kind], h.lr, h.wd,
         h.momentum, h.damp, h.nesterov, h.lrDecay, h.init, h.eps, h.alpha, h.centered, h.b1, h.b2, h.ams);
  return h;
}

std::vector<double> genGrad(Case& c, int64_t n) {
  Rng r = c.sub();
  std::vector<double> g(n);
  for (auto& x : g) {
    x = roundF32((0.05 + 2 * r.unit()) * (r.below(2) ? 1 : -1));
    if (r.below(12) == 0) x = 0;
  }
  return g;
}

void histories(Case& c) {
  Hyper h = genHyper(c);
  size_t P = static_cast<size_t>(c.range(1, 4));
  bool longRun = c.chance(1, 400), many = !longRun && c.chance(1, 400), large = !longRun && !many && c.chance(1, 1500);
  if (many) P = static_cast<size_t>(c.range(5, 70));
  if (longRun) P = 1;
  if (longRun || many || large) c.cls(longRun ? "long run" : many ? "many parameters" : "large parameters");
  std::vector<Param> ref(P);
  std::vector<Tensor> ts(P), mirror(P);
  std::vector<bool> frozen(P, false);
  for (size_t i = 0; i < P; i++) {
    Param& p = ref[i];
    if (i > 0 && c.chance(1, 4)) {
      // shares its storage with the previous parameter until one of them is updated
      p.shape = ref[i - 1].shape;
      p.x = ref[i - 1].x;
      ts[i] = ts[i - 1].clone();
      c.cls("shared storage");
    } else {
      p.shape = large && i == 0 ? genLargeShape(c, 1, 3) : genShape(c, 0, 3, longRun ? 3 : 12, false);
      p.x = genData(c, numelOf(p.shape), DType::Float32, Data::Small);
      Made m = makeTensor(c, p.shape, DType::Float32, p.x, true, true);
      ts[i] = m.t;
    }
    p.mag.assign(p.x.size(), 0.0);
    p.sick.assign(p.x.size(), false);
    mirror[i] = rawTensor(p.shape, DType::Float32, p.x, true);
    c.note("p%zu%s; ", i, str(p.shape).c_str());
  }
  std::vector<Tensor*> order, back;
  for (size_t i = 0; i < P; i++) order.push_back(&ts[i]);
  for (size_t i = P; i-- > 0;) back.push_back(&mirror[i]);
  auto opt = make(h, order), opt2 = make(h, back);
  double lr = h.lr, base = h.lr;
  int64_t period = c.range(1, 4), epoch = 0, t = 0;
  float gamma = c.pick(std::vector<float>{0.5f, 0.1f, 0.9f, 2.f});
  bool sched = c.coin() && !longRun, manual = false;
  std::unique_ptr<optim::lr_scheduler::StepLR> s1, s2;
  if (sched) {
    s1 = std::make_unique<optim::lr_scheduler::StepLR>(*opt, period, gamma);
    s2 = std::make_unique<optim::lr_scheduler::StepLR>(*opt2, period, gamma);
    c.note("StepLR %lld %g; ", (long long)period, gamma);
  }
  int64_t ops = longRun ? c.range(200, 1500) : c.range(3, large ? 8 : c.thorough ? 60 : 30), steps = 0, missing = 0;
  for (int64_t k = 0; k < ops; k++) {
    switch (longRun ? c.weighted({8, 10}) : c.weighted({8, 10, 3, 2, 1, 2, 1})) {
      case 0: {  // gradients
        size_t i = c.draw(P);
        if (frozen[i]) break;
        Param& p = ref[i];
        auto g = genGrad(c, static_cast<int64_t>(p.x.size()));
        Tensor gt = rawTensor(p.shape, DType::Float32, g);
        int form = static_cast<int>(c.draw(3));
        if (form == 0) {
          ts[i].setGrad(gt);
          mirror[i].setGrad(rawTensor(p.shape, DType::Float32, g));
          p.g = g;
        } else {
          if (form == 1) {
            ts[i].addGrad(gt);
            mirror[i].addGrad(gt);
          } else {
            (ts[i] * gt).sum().backward();
            (mirror[i] * gt).sum().backward();
          }
          if (!p.has) p.g.assign(g.size(), 0.0);
          for (size_t e = 0; e < g.size(); e++) p.g[e] = roundF32(p.g[e] + g[e]);
        }
        p.has = true;
        c.note("p%zu %s %s; ", i, form == 0 ? "setGrad" : form == 1 ? "addGrad" : "backward", str(g, 4).c_str());
        break;
      }
      case 1: {  // step
        t++;
        steps++;
        std::vector<std::vector<double>> before(P);
        for (size_t i = 0; i < P; i++) {
          before[i] = readVec(ts[i]);
          if (!ref[i].has) missing++;
          rule(h, ref[i], lr, t);
        }
        opt->step();
        opt2->step();
        c.note("step; ");
        for (size_t i = 0; i < P; i++) {
          auto now = readVec(ts[i]);
          VP_CHECK(c, toShape(ts[i].shape()) == ref[i].shape, "p%zu changed its shape", i);
          VP_CHECK(c, ts[i].requiresGrad() == !frozen[i] && (frozen[i] || ts[i].isLeaf()), "p%zu is no leaf or %s gradients after a step", i, frozen[i] ? "takes" : "takes no");
          for (size_t e = 0; e < now.size(); e++) {
            if (!ref[i].has) {
              VP_CHECK(c, sameValue(now[e], before[i][e]), "p%zu has no gradient but element %zu went from %.9g to %.9g", i, e, before[i][e], now[e]);
              continue;
            }
            if (ref[i].sick[e]) continue;
            double tol = 2e-5 * (1 + std::fabs(ref[i].x[e])) + 2e-4 * ref[i].mag[e];
            VP_CHECK(c, near(now[e], ref[i].x[e], tol), "after step %lld element %zu of p%zu is %.9g, the rule gives %.9g (tolerance %.3g)", (long long)t,
                     e, i, now[e], ref[i].x[e], tol);
          }
        }
        break;
      }
      case 2: {  // clear
        if (c.coin()) {
          opt->zeroGrad();
          opt2->zeroGrad();
          for (size_t i = 0; i < P; i++) {
            if (frozen[i]) continue;
            ref[i].has = true;
            ref[i].g.assign(ref[i].x.size(), 0.0);
          }
          c.note("zeroGrad; ");
        } else {
          size_t i = c.draw(P);
          if (frozen[i]) break;
          ts[i].setGrad(Tensor());
          mirror[i].setGrad(Tensor());
          ref[i].has = false;
          c.note("p%zu no gradient; ", i);
        }
        break;
      }
      case 3:
        if (!sched || c.chance(1, 4)) {
          float l = c.pick(std::vector<float>{0.05f, 0.2f, 0.002f});
          opt->setLr(l);
          opt2->setLr(l);
          lr = l;
          manual = true;
          c.note("setLr %g; ", l);
        }
        break;
      case 4:
        if (sched && !manual) {
          epoch = c.range(0, 12);
          s1->step(epoch);
          s2->step(epoch);
          lr = base * std::pow(static_cast<double>(gamma), static_cast<double>(epoch / period));
          c.note("schedule to %lld; ", (long long)epoch);
          c.cls("explicit epoch");
        }
        break;
      case 6: {  // a parameter is frozen (which drops its gradient) or takes gradients again
        size_t i = c.draw(P);
        frozen[i] = !frozen[i];
        ts[i].setRequiresGrad(!frozen[i]);
        mirror[i].setRequiresGrad(!frozen[i]);
        ref[i].has = false;
        c.note("p%zu %s; ", i, frozen[i] ? "frozen" : "thawed");
        c.cls("frozen");
        break;
      }
      default:
        if (sched) {
          s1->step();
          s2->step();
          epoch++;
          if (epoch % period == 0) lr *= gamma;
          c.note("schedule; ");
        }
        break;
    }
    if (lr > 50 || std::fabs(lr) < 1e-9) break;
    VP_CHECK(c, near(opt->getLr(), lr, 1e-5 * lr + 1e-38), "the learning rate is %.9g, expected %.9g", opt->getLr(), lr);
    if (sched) VP_CHECK(c, s1->getLastEpoch() == epoch, "the scheduler is at epoch %lld, expected %lld", (long long)s1->getLastEpoch(), (long long)epoch);
    bool big = false;
    for (size_t i = 0; i < P; i++) {
      if (frozen[i]) {
        VP_CHECK(c, !ts[i].requiresGrad(), "p%zu is no longer frozen", i);
      }
      const Tensor g = frozen[i] ? Tensor() : ts[i].grad();
      VP_CHECK(c, g.defined() == ref[i].has, "p%zu %s a gradient", i, g.defined() ? "has" : "has not");
      if (ref[i].has) {
        auto gv = readVec(g);
        for (size_t e = 0; e < gv.size(); e++)
          VP_CHECK(c, gv[e] == ref[i].g[e], "gradient element %zu of p%zu is %.9g, expected %.9g", e, i, gv[e], ref[i].g[e]);
      }
      auto a = readVec(ts[i]), b = readVec(mirror[i]);
      for (size_t e = 0; e < a.size(); e++) {
        VP_CHECK(c, sameValue(a[e], b[e]), "p%zu element %zu is %.9g, and %.9g with the parameters in the opposite order", i, e, a[e], b[e]);
        big |= !(std::fabs(a[e]) < 1e4);
      }
    }
    if (big) break;
  }
  if (missing) c.cls("missing gradients");
  c.cls(kName[h.kind]);
  if (steps >= 2) c.nontrivial();
}

void schedule(Case& c) {
  float lr = c.pick(std::vector<float>{0.1f, 1.f, 0.003f});
  int64_t size = c.range(1, 7);
  float gamma = c.pick(std::vector<float>{0.5f, 0.1f, 0.9f, 1.f, 1.5f});
  Tensor p = rawTensor({1}, DType::Float32, {1.0}, true);
  optim::SGD opt({&p}, lr);
  optim::lr_scheduler::StepLR s(opt, size, gamma);
  int64_t epoch = 0, n = c.range(1, 40);
  c.note("StepLR lr %g size %lld gamma %g: ", lr, (long long)size, gamma);
  VP_CHECK(c, near(opt.getLr(), lr, 0), "constructing the scheduler changed the rate to %.9g", opt.getLr());
  for (int64_t k = 0; k < n; k++) {
    if (c.chance(1, 12)) {
      epoch = c.range(0, 40);
      s.step(epoch);
      c.note("-> %lld ", (long long)epoch);
    } else {
      s.step();
      epoch++;
      c.note("+ ");
    }
    double want = lr * std::pow(static_cast<double>(gamma), static_cast<double>(epoch / size));
    VP_CHECK(c, s.getLastEpoch() == epoch, "the epoch is %lld, expected %lld", (long long)s.getLastEpoch(), (long long)epoch);
    VP_CHECK(c, near(opt.getLr(), want, 1e-5 * want + 1e-38), "at epoch %lld the rate is %.9g, expected %.9g", (long long)epoch, opt.getLr(), want);
    VP_CHECK(c, near(s.getLastLr(), opt.getLr(), 0), "the scheduler reports %.9g, the optimizer uses %.9g", s.getLastLr(), opt.getLr());
  }
  if (n > size) c.nontrivial();
}

// Optimizers made with the default settings, against the same with the settings written out.
void defaults(Case& c) {
  int64_t n = c.range(1, 4);
  auto v = genData(c, n, DType::Float32, Data::Small);
  Tensor a = rawTensor({n}, DType::Float32, v, true), b = rawTensor({n}, DType::Float32, v, true);
  float lr = c.oneOf({0.1f, 0.02f});
  int kind = static_cast<int>(c.draw(6)), given = static_cast<int>(c.draw(2));
  std::unique_ptr<optim::Optimizer> x, y;
  auto P = [](Tensor& t) { return std::vector<tt::TensorPtr>{&t}; };
  switch (kind) {
    case 0:
      x = given ? std::make_unique<optim::SGD>(P(a), lr) : std::make_unique<optim::SGD>(P(a));
      y = std::make_unique<optim::SGD>(P(b), given ? lr : 0.001f, 0.f, 0.f, 0.f, false);
      break;
    case 1:
      x = given ? std::make_unique<optim::Adagrad>(P(a), lr) : std::make_unique<optim::Adagrad>(P(a));
      y = std::make_unique<optim::Adagrad>(P(b), given ? lr : 0.01f, 0.f, 0.f, 0.f, 1e-10f);
      break;
    case 2:
      x = given ? std::make_unique<optim::RMSprop>(P(a), lr) : std::make_unique<optim::RMSprop>(P(a));
      y = std::make_unique<optim::RMSprop>(P(b), given ? lr : 0.01f, 0.99f, 1e-8f, 0.f, 0.f, false);
      break;
    case 3:
      x = given ? std::make_unique<optim::AdaDelta>(P(a), lr) : std::make_unique<optim::AdaDelta>(P(a));
      y = std::make_unique<optim::AdaDelta>(P(b), given ? lr : 1.0f, 0.9f, 1e-6f, 0.f);
      break;
    case 4:
      x = given ? std::make_unique<optim::Adam>(P(a), lr) : std::make_unique<optim::Adam>(P(a));
      y = std::make_unique<optim::Adam>(P(b), given ? lr : 0.001f, std::make_pair(0.9f, 0.999f), 1e-8f, 0.f, false);
      break;
    default:
      x = given ? std::make_unique<optim::AdamW>(P(a), lr) : std::make_unique<optim::AdamW>(P(a));
      y = std::make_unique<optim::AdamW>(P(b), given ? lr : 0.001f, std::make_pair(0.9f, 0.999f), 1e-8f, 0.01f, false);
  }
  c.note("optimizer %d, rate %s\n", kind, given ? "given" : "left out");
  VP_CHECK(c, x->getLr() == y->getLr(), "the rate is %g instead of %g", x->getLr(), y->getLr());
  std::unique_ptr<optim::lr_scheduler::StepLR> s, u;
  if (c.coin()) {
    int64_t size = c.range(1, 3);
    s = std::make_unique<optim::lr_scheduler::StepLR>(*x, size);
    u = std::make_unique<optim::lr_scheduler::StepLR>(*y, size, 0.1f, -1);
  }
  int64_t steps = c.range(1, 6);
  for (int64_t k = 0; k < steps; k++) {
    double g = c.oneOf({1.0, 1e-3, 1e-6});  // small gradients make the small constants visible
    auto gv = genData(c, n, DType::Float32, Data::Small);
    for (auto& t : gv) t *= g;
    a.setGrad(rawTensor({n}, DType::Float32, gv));
    b.setGrad(rawTensor({n}, DType::Float32, gv));
    x->step();
    y->step();
    if (s) {
      s->step();
      u->step();
      VP_CHECK(c, x->getLr() == y->getLr(), "after %lld steps the rate is %g instead of %g", (long long)k + 1, x->getLr(), y->getLr());
    }
    auto p = readVec(a), q = readVec(b);
    for (int64_t i = 0; i < n; i++) VP_CHECK(c, sameValue(p[i], q[i]), "step %lld: element %lld is %.9g instead of %.9g", (long long)k, (long long)i, p[i], q[i]);
  }
  c.nontrivial();
}

}  // namespace

int main(int argc, char** argv) {
  Suite s;
  s.property = "C11";
  s.rule = "histories: at least two steps; schedules: at least one completed period";
  s.assumptions = {"bias corrections and rate decay use the optimizer's own step count, also for a parameter that had no gradient in some step",
                   "AMSGrad keeps the maximum of the bias-corrected second moment",
                   "elements whose decayed gradient or centred variance cancels almost completely are no longer compared: rounding decides there",
                   "Nesterov momentum is used without dampening; the scheduler starts at its default epoch"};
  s.init = noCache;
  s.props = {{"histories", histories, 80000, 3000000}, {"schedule", schedule, 100000, 2000000},
             {"defaults", defaults, 40000, 400000}};
  return runSuite(s, argc, argv);
}
