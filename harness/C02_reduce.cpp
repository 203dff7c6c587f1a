// C02: reductions against a double-precision reference that enumerates the covered elements.
#include "ref.h"
#include "Functions.h"
#include "defaults.h"
namespace fn = tinytorch::function;
#include "Operations.h"

using namespace vp;
namespace op = tinytorch::op;

namespace {

DType pickFloat(Case& c) {
  static const DType d[] = {DType::Float32, DType::Float16, DType::BFloat16};
  return d[c.weighted({3, 1, 1})];
}

struct Bucket {
  std::vector<int64_t> src;  // linear positions, in increasing order
};
// Groups the elements of a shape by their coordinates outside the reduced axes.
struct Plan {
  Shape outShape;
  std::vector<Bucket> buckets;
};
Plan makePlan(const Shape& s, const std::vector<bool>& red, bool keep) {
  Plan p;
  Shape kept;
  for (size_t i = 0; i < s.size(); i++) {
    if (!red[i]) {
      p.outShape.push_back(s[i]);
      kept.push_back(s[i]);
    } else if (keep) {
      p.outShape.push_back(1);
    }
  }
  p.buckets.resize(numelOf(kept));
  Shape ks = stridesOf(kept);
  forIndex(s, [&](const Shape& idx, int64_t lin) {
    int64_t o = 0;
    size_t k = 0;
    for (size_t i = 0; i < s.size(); i++)
      if (!red[i]) o += idx[i] * ks[k++];
    p.buckets[o].src.push_back(lin);
  });
  return p;
}

struct Input {
  Made a;
  DType dt;
  Data kind;
};
Input genInput(Case& c, bool allowZero) {
  Input in;
  in.dt = pickFloat(c);
  static const Data kinds[] = {Data::Ints, Data::Small, Data::Unit, Data::Distinct, Data::Wide};
  in.kind = kinds[c.weighted({4, 3, 1, 2, 1})];
  int64_t lim = in.dt == DType::Float32 ? (c.chance(1, 30) ? 5000 : 200) : 120;
  Shape s = genShape(c, 0, 8, lim, allowZero);
  if (allowZero && s.size() > 1 && c.chance(1, 20)) s[c.draw(s.size())] = 0;
  bool infs = c.chance(1, 12);
  auto v = genData(c, numelOf(s), in.dt, in.kind);
  if (infs) {
    // infinities of one sign only, sometimes everywhere
    double inf = c.coin() ? INFINITY : -INFINITY;
    uint64_t m = c.range(1, 3);
    Rng r = c.sub();
    for (auto& x : v)
      if (r.below(m) == 0) x = inf;
  }
  in.a = makeTensor(c, s, in.dt, v);
  c.note("%s %s%s %s; ", dtName(in.dt), str(s).c_str(), in.a.view ? " view" : "", str(v, 12).c_str());
  if (numelOf(s) > 1) c.nontrivial();
  return in;
}

struct Axes {
  std::vector<bool> red;
  std::vector<int64_t> dims;  // as passed: negative and permuted
  bool keep = false;
  int mode = 0;  // 0 all, 1 one dim, 2 several
};
Axes genAxes(Case& c, size_t rank) {
  Axes a;
  a.red.assign(rank, false);
  a.mode = rank == 0 ? 0 : static_cast<int>(c.weighted({2, 4, 4}));
  if (a.mode == 0) {
    a.red.assign(rank, true);
    return a;
  }
  a.keep = c.coin();
  auto arg = [&](int64_t d) { return c.chance(1, 3) ? d - static_cast<int64_t>(rank) : d; };
  if (a.mode == 1) {
    int64_t d = c.draw(rank);
    a.red[d] = true;
    a.dims.push_back(arg(d));
    return a;
  }
  std::vector<int64_t> pool;
  for (size_t i = 0; i < rank; i++) pool.push_back(i);
  int64_t k = c.range(1, rank);
  for (int64_t i = 0; i < k; i++) {
    size_t j = c.draw(pool.size());
    a.red[pool[j]] = true;
    a.dims.push_back(arg(pool[j]));
    pool.erase(pool.begin() + j);
  }
  return a;
}

void notAlias(Case& c, const Input& in, Tensor r, const char* what) {
  // a later in-place change of the result must not reach the input
  if (!r.defined() || r.numel() == 0) return;
  if (isFloatT(r.dtype())) r.fill_(-123.f);
  else r.fill_(static_cast<int64_t>(-123));
  expectUnchanged(c, in.a, what);
}

void minmax(Case& c) {
  Input in = genInput(c, false);
  const Shape& s = in.a.ref.shape;
  const auto& v = in.a.ref.v;
  Axes ax = genAxes(c, s.size());
  if (ax.mode == 2) {
    // index reductions work on one axis
    ax.mode = 1;
    int64_t d = ax.dims[0];
    ax.dims = {d};
    ax.red.assign(s.size(), false);
    ax.red[d < 0 ? d + s.size() : d] = true;
  }
  bool isMax = c.coin();
  int api = static_cast<int>(c.draw(2));
  c.note("%s mode %d dim %s keep %d api %d", isMax ? "max" : "min", ax.mode, str(Shape(ax.dims)).c_str(), ax.keep, api);
  Plan p = makePlan(s, ax.red, ax.keep);
  Arr vals(p.outShape, 0.0), idx(p.outShape, 0.0);
  for (size_t b = 0; b < p.buckets.size(); b++) {
    double best = v[p.buckets[b].src[0]];
    int64_t at = 0;
    for (size_t k = 1; k < p.buckets[b].src.size(); k++) {
      double x = v[p.buckets[b].src[k]];
      if (isMax ? x > best : x < best) {
        best = x;
        at = k;
      }
    }
    vals.v[b] = best;
    idx.v[b] = at;
  }
  const Tensor& t = in.a.t;
  if (ax.mode == 0) {
    Tensor r = api == 0 ? (isMax ? op::max(t) : op::min(t)) : (isMax ? t.max() : t.min());
    Tensor i = api == 0 ? (isMax ? op::argmax(t) : op::argmin(t)) : (isMax ? t.argmax() : t.argmin());
    expectExact(c, r, vals, in.dt, isMax ? "max" : "min");
    expectExact(c, i, idx, DType::Int64, isMax ? "argmax" : "argmin");
    notAlias(c, in, r, "writing to the result of min/max");
    notAlias(c, in, i, "writing to the result of argmin/argmax");
  } else {
    int64_t d = ax.dims[0];
    tt::TensorPair r;
    Tensor i2;
    if (api == 0) {
      r = isMax ? op::maxOnDim(t, d, ax.keep) : op::minOnDim(t, d, ax.keep);
    } else {
      r = isMax ? t.max(d, ax.keep) : t.min(d, ax.keep);
      i2 = isMax ? t.argmax(d, ax.keep) : t.argmin(d, ax.keep);
    }
    expectExact(c, r.first, vals, in.dt, isMax ? "max on dim" : "min on dim");
    expectExact(c, r.second, idx, DType::Int64, isMax ? "index of max on dim" : "index of min on dim");
    if (i2.defined()) expectExact(c, i2, idx, DType::Int64, "argmin/argmax on dim");
    notAlias(c, in, r.first, "writing to the result of min/max on dim");
  }
  expectUnchanged(c, in.a, "min/max");
  expectSurround(c, in.a, "min/max");
  c.cls(ax.mode ? (isMax ? "max dim" : "min dim") : (isMax ? "max all" : "min all"));
}

// True if every partial sum of the values is exactly representable whatever the order.
bool exactSum(const std::vector<double>& v, const Bucket& b, DType dt) {
  double total = 0;
  for (auto i : b.src) {
    if (!std::isfinite(v[i]) || v[i] != std::floor(v[i])) return false;
    total += std::fabs(v[i]);
  }
  return total <= 1 / epsOf(dt);
}

void summean(Case& c) {
  bool isMean = c.coin();
  Input in = genInput(c, !isMean);
  const Shape& s = in.a.ref.shape;
  const auto& v = in.a.ref.v;
  Axes ax = genAxes(c, s.size());
  int api = static_cast<int>(c.draw(2));
  c.note("%s mode %d dims %s keep %d api %d", isMean ? "mean" : "sum", ax.mode, str(Shape(ax.dims)).c_str(), ax.keep, api);
  Plan p = makePlan(s, ax.red, ax.keep);
  Arr want(p.outShape, 0.0);
  std::vector<double> tols(p.buckets.size());
  double e = epsOf(in.dt);
  for (size_t b = 0; b < p.buckets.size(); b++) {
    double sum = 0, mag = 0;
    for (auto i : p.buckets[b].src) {
      sum += v[i];
      mag += std::fabs(v[i]);
    }
    double n = static_cast<double>(p.buckets[b].src.size());
    // a magnitude near overflow is outside what the formula promises
    if (std::isfinite(mag) && in.dt == DType::Float16 && mag > 30000) c.discard();
    double t = exactSum(v, p.buckets[b], in.dt) ? 0 : e * (n + 2) * mag + tinyOf(in.dt);
    if (isMean) {
      sum /= n;
      t = t / n + 4 * e * std::fabs(sum) + 2 * tinyOf(in.dt);
    }
    want.v[b] = sum;
    tols[b] = std::isfinite(t) ? t : 0;
  }
  const Tensor& t = in.a.t;
  Tensor r;
  if (ax.mode == 0) {
    if (api == 0) r = isMean ? op::mean(t) : op::sum(t);
    else r = isMean ? t.mean() : t.sum();
  } else if (ax.mode == 1) {
    int64_t d = ax.dims[0];
    if (api == 0) r = isMean ? op::meanOnDim(t, d, ax.keep) : op::sumOnDim(t, d, ax.keep);
    else r = isMean ? t.mean(d, ax.keep) : t.sum(d, ax.keep);
  } else {
    tt::IntArrayView dv(ax.dims);
    if (api == 0) r = isMean ? op::meanOnDims(t, dv, ax.keep) : op::sumOnDims(t, dv, ax.keep);
    else r = isMean ? t.mean(dv, ax.keep) : t.sum(dv, ax.keep);
  }
  expectNear(c, r, want, in.dt, [&](size_t i) { return tols[i]; }, isMean ? "mean" : "sum");
  notAlias(c, in, r, isMean ? "writing to the result of mean" : "writing to the result of sum");
  expectUnchanged(c, in.a, "sum/mean");
  expectSurround(c, in.a, "sum/mean");
  if (r.numel() == 0 || t.numel() == 0) c.cls("zero-size");
  static const char* names[2][3] = {{"sum all", "sum dim", "sum dims"}, {"mean all", "mean dim", "mean dims"}};
  c.cls(names[isMean][ax.mode]);
}

void variance(Case& c) {
  Input in = genInput(c, false);
  const Shape& s = in.a.ref.shape;
  const auto& v = in.a.ref.v;
  for (double x : v)
    if (!std::isfinite(x)) c.discard();
  if (in.kind == Data::Wide && in.dt != DType::Float32) c.discard();
  Axes ax = genAxes(c, s.size());
  bool unbiased = c.coin();
  bool both = c.coin();
  int api = static_cast<int>(c.draw(2));
  c.note("%s unbiased %d mode %d dims %s keep %d api %d", both ? "varMean" : "var", unbiased, ax.mode,
         str(Shape(ax.dims)).c_str(), ax.keep, api);
  Plan p = makePlan(s, ax.red, ax.keep);
  Arr wantV(p.outShape, 0.0), wantM(p.outShape, 0.0);
  std::vector<double> tv(p.buckets.size()), tm(p.buckets.size());
  double e = epsOf(in.dt);
  for (size_t b = 0; b < p.buckets.size(); b++) {
    const auto& src = p.buckets[b].src;
    double n = static_cast<double>(src.size());
    double sum = 0, mag = 0;
    for (auto i : src) {
      sum += v[i];
      mag += std::fabs(v[i]);
    }
    double mean = sum / n;
    double me = (exactSum(v, p.buckets[b], in.dt) ? 0 : e * (n + 2) * mag / n) + 4 * e * std::fabs(mean) + 2 * tinyOf(in.dt);
    double ss = 0, err = 0;
    for (auto i : src) {
      double d = v[i] - mean;
      ss += d * d;
      double de = me + e * (std::fabs(d) + me);
      err += 2 * std::fabs(d) * de + de * de;
    }
    if (in.dt == DType::Float16 && ss > 30000) c.discard();
    err += e * (n + 4) * (ss + err) + (n + 2) * tinyOf(in.dt);
    double div = unbiased ? n - 1 : n;
    if (n == 1 && unbiased) {
      // zero degrees of freedom: a scalar reports 0, everything else has no value
      wantV.v[b] = s.empty() ? 0 : NAN;
      tv[b] = 0;
    } else {
      wantV.v[b] = ss / div;
      tv[b] = err / div + 6 * e * ss / div + 4 * tinyOf(in.dt);
    }
    wantM.v[b] = mean;
    tm[b] = me;
  }
  const Tensor& t = in.a.t;
  Tensor var, mean;
  if (ax.mode == 0) {
    if (api == 0 || both) {
      auto r = api == 0 ? op::varMean(t, unbiased) : t.varMean(unbiased);
      var = r.first;
      mean = r.second;
    } else {
      var = t.var(unbiased);
    }
  } else if (ax.mode == 1) {
    int64_t d = ax.dims[0];
    if (api == 0 || both) {
      auto r = api == 0 ? op::varMeanOnDim(t, d, unbiased, ax.keep) : t.varMean(d, unbiased, ax.keep);
      var = r.first;
      mean = r.second;
    } else {
      var = t.var(d, unbiased, ax.keep);
    }
  } else {
    tt::IntArrayView dv(ax.dims);
    if (api == 0 || both) {
      auto r = api == 0 ? op::varMeanOnDims(t, dv, unbiased, ax.keep) : t.varMean(dv, unbiased, ax.keep);
      var = r.first;
      mean = r.second;
    } else {
      var = t.var(dv, unbiased, ax.keep);
    }
  }
  expectNear(c, var, wantV, in.dt, [&](size_t i) { return tv[i]; }, "variance");
  if (mean.defined()) expectNear(c, mean, wantM, in.dt, [&](size_t i) { return tm[i]; }, "mean of varMean");
  notAlias(c, in, var, "writing to the result of var");
  if (mean.defined()) notAlias(c, in, mean, "writing to the mean of varMean");
  expectUnchanged(c, in.a, "var");
  expectSurround(c, in.a, "var");
  static const char* names[2][3] = {{"var all", "var dim", "var dims"}, {"unbiased all", "unbiased dim", "unbiased dims"}};
  c.cls(names[unbiased][ax.mode]);
}

// Reducing in one step equals reducing axis by axis, exactly, on small integers.
void decompose(Case& c) {
  DType dt = pickFloat(c);
  Shape s = genShape(c, 1, 8, 60);
  auto v = genData(c, numelOf(s), dt, Data::Ints);
  double mag = 0;
  for (double x : v) mag += std::fabs(x);
  if (mag > 1 / epsOf(dt)) dt = DType::Float32;  // every partial sum is an integer the type holds
  Made a = makeTensor(c, s, dt, v);
  c.note("%s %s; ", dtName(dt), str(s).c_str());
  Axes ax = genAxes(c, s.size());
  while (ax.mode != 2) ax = genAxes(c, s.size()), c.choices() > 1000 ? c.discard() : void();
  Tensor once = a.t.sum(tt::IntArrayView(ax.dims), true);
  Tensor step = a.t;
  Tensor mx = a.t;
  for (auto d : ax.dims) {
    step = step.sum(d, true);
    mx = mx.max(d, true).first;
  }
  Shape keep = s;
  for (size_t i = 0; i < s.size(); i++)
    if (ax.red[i]) keep[i] = 1;
  expectExact(c, step, Arr(keep, readVec(once)), dt, "sum over several axes against one axis at a time");
  VP_CHECK(c, sameValue(readVec(mx.max())[0], readVec(a.t.max())[0]), "maximum of partial maxima differs from the maximum");
  if (numelOf(s) > 1 && ax.dims.size() > 1) c.nontrivial();
}

void defaults(Case& c) {
  Tensor a = someTensor(c, 1, 4);
  int64_t d = c.around(-a.dim(), a.dim() - 1);
  std::vector<int64_t> ds{d};
  if (a.dim() > 1 && c.coin()) ds.push_back(d < 0 ? (d == -1 ? -2 : -1) : (d == 0 ? 1 : 0));
  tt::IntArrayView dv(ds);
  bool u = c.coin();
  switch (c.draw(23)) {
    case 0: VP_SAME(a.var(), a.var(true)); break;
    case 1: VP_SAME(a.varMean(), a.varMean(true)); break;
    case 2: VP_SAME(a.min(d), a.min(d, false)); break;
    case 3: VP_SAME(a.max(d), a.max(d, false)); break;
    case 4: VP_SAME(a.argmin(d), a.argmin(d, false)); break;
    case 5: VP_SAME(a.argmax(d), a.argmax(d, false)); break;
    case 6: VP_SAME(a.sum(d), a.sum(d, false)); break;
    case 7: VP_SAME(a.mean(d), a.mean(d, false)); break;
    case 8: VP_SAME(a.var(d, u), a.var(d, u, false)); break;
    case 9: VP_SAME(a.varMean(d, u), a.varMean(d, u, false)); break;
    case 10: VP_SAME(a.sum(dv), a.sum(dv, false)); break;
    case 11: VP_SAME(a.mean(dv), a.mean(dv, false)); break;
    case 12: VP_SAME(a.var(dv), a.var(dv, true, false)); break;
    case 13: VP_SAME(a.var(dv, u), a.var(dv, u, false)); break;
    case 14: VP_SAME(a.varMean(dv), a.varMean(dv, true, false)); break;
    case 15: VP_SAME(fn::sum(a, d), fn::sum(a, d, false)); break;
    case 16: VP_SAME(fn::sum(a, dv), fn::sum(a, dv, false)); break;
    case 17: VP_SAME(fn::mean(a, d), fn::mean(a, d, false)); break;
    case 18: VP_SAME(fn::mean(a, dv), fn::mean(a, dv, false)); break;
    case 19: VP_SAME(fn::var(a, d, u), fn::var(a, d, u, false)); break;
    case 20: VP_SAME(fn::var(a, dv, u), fn::var(a, dv, u, false)); break;
    case 21: VP_SAME(fn::varMean(a, d, u), fn::varMean(a, d, u, false)); break;
    default: VP_SAME(fn::varMean(a, dv, u), fn::varMean(a, dv, u, false)); break;
  }
}

}  // namespace

int main(int argc, char** argv) {
  Suite s;
  s.property = "C02";
  s.rule = "a case is non-trivial when the reduced tensor has more than one element";
  s.assumptions = {"inputs contain no NaN and extrema are taken over at least one element",
                   "sums of small integers must be exact; other sums may differ by the rounding error of sequential summation"};
  s.init = noCache;
  gLargeOdds = 6000;
  s.props = {{"minmax", minmax, 700000, 20000000},
             {"sum and mean", summean, 700000, 20000000},
             {"variance", variance, 500000, 15000000},
             {"decompose", decompose, 150000, 4000000},
             {"defaults", defaults, 60000, 1000000}};
  return runSuite(s, argc, argv);
}
