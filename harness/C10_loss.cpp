// C10: loss values and gradients against their definitions.
#include "Functions.h"
#include "Operations.h"
#include "ref.h"
#include "Modules.h"
#include "defaults.h"
using namespace vp;
namespace fn = tt::function;
namespace op = tt::op;
using tt::LossReduction;

namespace {

const LossReduction kRed[] = {LossReduction::MEAN, LossReduction::SUM, LossReduction::NONE};
const char* kRedName[] = {"mean", "sum", "none"};

DType floatType(Case& c) {
  return std::vector<DType>{DType::Float32, DType::Float16, DType::BFloat16}[c.weighted({5, 1, 1})];
}

// Upstream gradient of a loss result: none given (scalars), or random values.
Tensor upstream(Case& c, const Shape& s, DType dt, std::vector<double>& g, bool& plain) {
  plain = s.empty() && c.chance(1, 3);
  g = plain ? std::vector<double>{1.0} : genData(c, numelOf(s), dt, c.coin() ? Data::Small : Data::Ints);
  return plain ? Tensor() : rawTensor(s, dt, g);
}

void mse(Case& c) {
  DType dt = floatType(c);
  Shape si = genShape(c, 0, 4, 60, false), st = si;
  bool bcast = c.chance(1, 4);
  if (bcast) {
    for (auto& x : si)
      if (c.chance(1, 3)) x = 1;
    for (auto& x : st)
      if (c.chance(1, 3)) x = 1;
    if (!st.empty() && c.chance(1, 3)) st.erase(st.begin(), st.begin() + c.range(1, st.size()));
    else if (!si.empty() && c.chance(1, 3)) si.erase(si.begin(), si.begin() + c.range(1, si.size()));
  } else if (c.chance(1, 15)) {
    si = {c.range(20, 60), c.range(10, 60)};
    st = si;
  }
  Shape so;
  if (!bcastShape(si, st, so)) c.discard();
  int red = static_cast<int>(c.draw(3));
  bool rg = c.chance(5, 6);
  Made x = makeTensor(c, si, dt, genData(c, numelOf(si), dt, Data::Small), true, rg);
  Made t = makeTensor(c, st, dt, genData(c, numelOf(st), dt, Data::Small));
  c.note("mseLoss %s input %s%s target %s %s", dtName(dt), str(si).c_str(), rg ? "*" : "", str(st).c_str(), kRedName[red]);
  double n = static_cast<double>(numelOf(so)), f = red == 0 ? 1 / n : 1;
  Arr want(red == 2 ? so : Shape{}, 0.0);
  std::vector<double> mag(want.v.size(), 0.0);
  forIndex(so, [&](const Shape& idx, int64_t o) {
    double a = x.ref.v[bcastOffset(idx, si)], b = t.ref.v[bcastOffset(idx, st)];
    want.v[red == 2 ? o : 0] += f * (a - b) * (a - b);
    mag[red == 2 ? o : 0] += f * (a - b) * (a - b);
  });
  Tensor y = red == 0 && c.coin() ? fn::mseLoss(x.t, t.t) : fn::mseLoss(x.t, t.t, kRed[red]);
  double e = epsOf(dt), acc = e * (n + 8);
  bool overflow = false;
  for (double w : want.v) overflow |= dt == DType::Float16 && std::fabs(w) > 60000;
  if (red == 0 && dt == DType::Float16 && want.v[0] * n > 60000) overflow = true;
  if (overflow) c.discard();
  // the terms are rounded to the type and added in it
  expectNear(c, y, want, dt, [&](size_t i) { return mag[i] * (6 * e + acc) + tinyOf(dt) * (n + 2); }, "mseLoss");
  VP_CHECK(c, y.requiresGrad() == rg, "requiresGrad is %d", y.requiresGrad());
  if (rg) {
    std::vector<double> g;
    bool plain;
    Tensor up = upstream(c, want.shape, dt, g, plain);
    c.note(" upstream %s", plain ? "default" : str(g, 6).c_str());
    if (plain) y.backward();
    else y.backward(up);
    Arr gw(si, 0.0);
    std::vector<double> gm(gw.v.size(), 0.0), cnt(gw.v.size(), 0.0);
    forIndex(so, [&](const Shape& idx, int64_t o) {
      int64_t i = bcastOffset(idx, si);
      double a = x.ref.v[i], b = t.ref.v[bcastOffset(idx, st)];
      double d = f * 2 * (a - b) * g[red == 2 ? o : 0];
      gw.v[i] += d;
      gm[i] += std::fabs(d);
      cnt[i]++;
    });
    expectNear(c, x.t.grad(), gw, dt, [&](size_t i) { return gm[i] * (8 * e + e * (cnt[i] + 4)) + tinyOf(dt) * (cnt[i] + 3); }, "mseLoss gradient");
    if (!plain) {
      auto now = readVec(up);
      for (size_t i = 0; i < now.size(); i++) VP_CHECK(c, sameValue(now[i], g[i]), "the upstream gradient changed");
    }
    c.cls(kRedName[red]);
    if (bcast && si != st) c.cls("broadcast");
    if (numelOf(so) > 1) c.nontrivial();
  }
  expectUnchanged(c, x, "input");
  expectUnchanged(c, t, "target");
}

void nll(Case& c) {
  DType dt = floatType(c);
  int64_t N = c.chance(1, 12) ? c.range(10, 200) : c.range(1, 6), K = c.chance(1, 12) ? c.range(10, 120) : c.range(1, 6);
  if (c.chance(1, 100)) {
    if (c.coin()) N = c.range(200, 3000), K = std::min<int64_t>(K, 10);
    else K = c.range(120, 5000), N = std::min<int64_t>(N, 10);
    c.cls("large batch or class count");
  }
  int red = static_cast<int>(c.draw(3));
  bool rg = c.chance(5, 6), composed = c.coin();
  Made x = makeTensor(c, {N, K}, dt, genData(c, N * K, dt, Data::Small), true, rg);
  std::vector<double> tv(N);
  for (auto& q : tv) q = static_cast<double>(c.draw(K));
  Made t = makeTensor(c, {N}, DType::Int64, tv);
  c.note("nllLoss%s %s [%lld,%lld]%s %s targets %s", composed ? "(logSoftmax)" : "", dtName(dt), (long long)N, (long long)K, rg ? "*" : "",
         kRedName[red], str(tv, 8).c_str());
  double f = red == 0 ? 1.0 / static_cast<double>(N) : 1, e = epsOf(dt);
  std::vector<double> lp = x.ref.v, p(N * K, 0.0);
  if (composed)
    for (int64_t i = 0; i < N; i++) {
      double mx = -INFINITY, s = 0;
      for (int64_t k = 0; k < K; k++) mx = std::max(mx, lp[i * K + k]);
      for (int64_t k = 0; k < K; k++) s += std::exp(lp[i * K + k] - mx);
      for (int64_t k = 0; k < K; k++) {
        lp[i * K + k] -= mx + std::log(s);
        p[i * K + k] = std::exp(lp[i * K + k]);
      }
    }
  Arr want(red == 2 ? Shape{N} : Shape{}, 0.0);
  std::vector<double> mag(want.v.size(), 0.0);
  for (int64_t i = 0; i < N; i++) {
    double w = lp[i * K + static_cast<int64_t>(tv[i])];
    want.v[red == 2 ? i : 0] -= f * w;
    mag[red == 2 ? i : 0] += f * (std::fabs(w) + (composed ? 1 : 0));
  }
  Tensor in = composed ? fn::logSoftmax(x.t, c.coin() ? 1 : -1) : x.t;
  Tensor y = red == 0 && c.coin() ? fn::nllLoss(in, t.t) : fn::nllLoss(in, t.t, kRed[red]);
  double acc = 2 * e * static_cast<double>(N + 8) + 0x1p-23 * static_cast<double>(K + 8);
  expectNear(c, y, want, dt, [&](size_t i) { return mag[i] * (4 * e + acc) + 2 * tinyOf(dt); }, "nllLoss");
  VP_CHECK(c, y.requiresGrad() == rg, "requiresGrad is %d", y.requiresGrad());
  if (rg) {
    std::vector<double> g;
    bool plain;
    Tensor up = upstream(c, want.shape, dt, g, plain);
    c.note(" upstream %s", plain ? "default" : str(g, 6).c_str());
    if (plain) y.backward();
    else y.backward(up);
    Arr gw(Shape{N, K}, 0.0);
    std::vector<double> gm(N * K);
    for (int64_t i = 0; i < N; i++)
      for (int64_t k = 0; k < K; k++) {
        double u = g[red == 2 ? i : 0] * f, hot = k == static_cast<int64_t>(tv[i]) ? 1 : 0;
        gw.v[i * K + k] = (p[i * K + k] - hot) * u;
        gm[i * K + k] = (p[i * K + k] * (1 + std::fabs(lp[i * K + k])) + hot) * std::fabs(u);
      }
    expectNear(c, x.t.grad(), gw, dt, [&](size_t i) { return gm[i] * (8 * e + acc) + 8 * tinyOf(dt); }, "nllLoss gradient");
    if (!plain) {
      auto now = readVec(up);
      for (size_t i = 0; i < now.size(); i++) VP_CHECK(c, sameValue(now[i], g[i]), "the upstream gradient changed");
    }
    c.cls(kRedName[red]);
    if (composed) c.cls("log-softmax");
    if (N > 1 && K > 1) c.nontrivial();
  }
  expectUnchanged(c, x, "input");
  expectUnchanged(c, t, "target");
}

void defaults(Case& c) {
  int64_t B = c.range(1, 5), C = c.range(1, 4);
  Tensor x = rawTensor({B, C}, DType::Float32, genData(c, B * C, DType::Float32, Data::Small));
  Tensor y = rawTensor({B, C}, DType::Float32, genData(c, B * C, DType::Float32, Data::Small));
  std::vector<double> t(B);
  for (auto& v : t) v = static_cast<double>(c.draw(C));
  Tensor k = rawTensor({B}, DType::Int64, t);
  tt::nn::MSELoss mse, mseSum(LossReduction::SUM);
  tt::nn::NLLLoss nll, nllSum(LossReduction::SUM);
  switch (c.draw(6)) {
    case 0: VP_SAME(fn::mseLoss(x, y), fn::mseLoss(x, y, LossReduction::MEAN)); break;
    case 1: VP_SAME(fn::nllLoss(x, k), fn::nllLoss(x, k, LossReduction::MEAN)); break;
    case 2: VP_SAME(mse(x, y), fn::mseLoss(x, y, LossReduction::MEAN)); break;
    case 3: VP_SAME(nll(x, k), fn::nllLoss(x, k, LossReduction::MEAN)); break;
    case 4: VP_SAME(mseSum(x, y), fn::mseLoss(x, y, LossReduction::SUM)); break;
    default: VP_SAME(nllSum(x, k), fn::nllLoss(x, k, LossReduction::SUM)); break;
  }
}

}  // namespace

int main(int argc, char** argv) {
  Suite s;
  s.property = "C10";
  s.rule = "a gradient is taken and more than one element (class and sample) takes part";
  s.assumptions = {"targets are valid labels; the target itself does not require gradients (the library asserts so)",
                   "half-precision cases whose definition overflows the type are discarded; 16-bit sums are added in the 16-bit type"};
  s.init = noCache;
  gLargeOdds = 30000;
  s.props = {{"mseLoss", mse, 500000, 12000000}, {"nllLoss", nll, 500000, 12000000},
             {"defaults", defaults, 40000, 400000}};
  return runSuite(s, argc, argv);
}
