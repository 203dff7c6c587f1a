// C17: random draws: reproducible from the seed, inside their bounds, distributed as asked.
// The statistical bounds are set so far out (about 1e-12 each) that a correct generator does not reach them.
#include <algorithm>
#include <cmath>
#include <map>
#include <set>

#include "Data/DataLoader.h"
#include "Initializer.h"
#include "modules.h"
#include "Functions.h"
#include "defaults.h"
using namespace vp;

namespace {

const std::vector<DType> kFloats = {DType::Float32, DType::Float16, DType::BFloat16};
const std::vector<DType> kTypes = {DType::Float32, DType::Float16, DType::BFloat16, DType::Int32, DType::Int64, DType::Bool};
tt::Options opt(DType t) { return tt::options::dtype(t); }
tt::IntArrayView view(const Shape& s) { return tt::IntArrayView(s); }

unsigned long genSeed(Case& c) {
  switch (c.weighted({3, 2, 1, 1})) {
    case 0: return c.draw(20);
    case 1: return c.draw(1ul << 31);
    case 2: return c.bits();
    default: return c.oneOf<unsigned long>({0, 1, 2147483646, 2147483647, 2147483648ul, 4294967295ul, ~0ul});
  }
}

// ---- a draw that can be repeated exactly ----------------------------------------------------------------
struct Act {
  std::function<Bytes()> run;
  std::string name;
  bool restarts = false;   // sets the generator itself (samplers with a seed of their own)
  double entropy = 0;      // bits of the result: consecutive draws with many bits must differ
};

class Blank : public tt::data::Dataset {
 public:
  explicit Blank(size_t n) : n_(n) {}
  size_t size() const override { return n_; }
  std::vector<Tensor> getItem(size_t i) override { return {Tensor::scalar(static_cast<int64_t>(i), tt::options::dtype(DType::Int64))}; }
  size_t n_;
};

Act genAct(Case& c) {
  Act a;
  Shape s = genShape(c, 0, 3, 40, c.chance(1, 12));
  auto n = static_cast<double>(numelOf(s));
  DType dt = c.pick(kFloats);
  int kind = static_cast<int>(c.draw(15));
  double digits = dt == DType::Float32 ? 20 : 6;
  switch (kind) {
    case 0: a = {[=] { return rawBytes(Tensor::rand(view(s), opt(dt))); }, "rand", false, n * digits}; break;
    case 1: a = {[=] { return rawBytes(Tensor::randn(view(s), opt(dt))); }, "randn", false, n * digits}; break;
    case 2: {
      auto lo = static_cast<float>(c.range(-50, 50)), hi = lo + static_cast<float>(c.range(1, 60));
      a = {[=] { return rawBytes(Tensor::uniform(view(s), lo, hi, opt(dt))); }, "uniform", false, n * 2};
      break;
    }
    case 3: {
      auto p = static_cast<float>(c.range(1, 9)) / 10.f;
      a = {[=] { return rawBytes(Tensor::bernoulli(view(s), p, opt(dt))); }, "bernoulli", false, n * 0.15};
      break;
    }
    case 4: a = {[=] { Tensor t = Tensor::empty(view(s), opt(dt)); t.fillUniform_(-2, 3); return rawBytes(t); }, "fillUniform_", false, n * 4}; break;
    case 5: a = {[=] { Tensor t = Tensor::zeros(view(s), opt(dt)); t.fillNormal_(1, 2); return rawBytes(t); }, "fillNormal_", false, n * 4}; break;
    case 6: a = {[=] { Tensor t = Tensor::ones(view(s), opt(dt)); t.fillBernoulli_(0.4f); return rawBytes(t); }, "fillBernoulli_", false, n * 0.5}; break;
    case 7: {
      Tensor x = Tensor::ones(view(s), opt(dt));
      auto p = static_cast<float>(c.range(1, 9)) / 10.f;
      a = {[=] { return rawBytes(tt::function::dropout(x, p, true)); }, "dropout", false, n * 0.15};
      break;
    }
    case 8: {
      Tensor x = Tensor::ones(view(s), opt(dt));
      a = {[=] { return rawBytes(tt::op::dropout(x, 0.5f)); }, "op::dropout", false, n * 0.5};
      break;
    }
    case 9: {
      int64_t k = c.range(1, 12), b = c.range(1, 4), draws = c.range(1, k);
      bool repl = c.coin(), flat = c.coin();
      Shape ws = flat ? Shape{k} : Shape{b, k};
      Tensor w = Tensor::ones(view(ws), opt(c.pick(kTypes)));
      a = {[=] { return rawBytes(tt::op::multinomial(w, draws, repl)); }, "multinomial", false,
           k < 2 ? 0 : static_cast<double>(flat ? 1 : b) * (repl ? static_cast<double>(draws) : 1)};
      break;
    }
    case 10: {
      int64_t in = c.range(1, 6), out = c.range(1, 6);
      int which = static_cast<int>(c.draw(4));
      a.name = "resetParameters";
      a.entropy = static_cast<double>(in * out) * 10;
      a.run = [=]() -> Bytes {
        std::shared_ptr<tt::nn::Module> m;
        if (which == 0) m = std::make_shared<tt::nn::Linear>(in, out);
        else if (which == 1) m = std::make_shared<tt::nn::Conv2D>(in, out, tt::Dim2D(2, 3));
        else if (which == 2) m = std::make_shared<tt::nn::Embedding>(in, out);
        else m = std::make_shared<tt::nn::Sequential>(std::initializer_list<std::shared_ptr<tt::nn::Module>>{std::make_shared<tt::nn::Linear>(in, out), std::make_shared<tt::nn::Linear>(out, in)});
        m->resetParameters();
        Bytes all;
        for (auto* p : m->parameters()) {
          auto b = rawBytes(*p);
          all.insert(all.end(), b.begin(), b.end());
        }
        return all;
      };
      break;
    }
    case 11: {
      int64_t in = c.range(1, 6), out = c.range(1, 6);
      bool fanOut = c.coin();
      a = {[=] {
             Tensor t = Tensor::empty(view({out, in}), opt(dt));
             tt::nn::Initializer::kaimingUniform(t, 0, fanOut ? tt::nn::FanMode::FAN_OUT : tt::nn::FanMode::FAN_IN);
             return rawBytes(t);
           },
           "kaimingUniform", false, static_cast<double>(in * out) * 5};
      break;
    }
    case 12: {
      auto k = c.draw(60);
      a = {[=] {
             auto ds = std::make_shared<Blank>(k);
             tt::data::DataLoader l(ds, 7);
             Bytes all;
             for (auto b : l) {
               auto v = rawBytes(std::get<1>(b).at(0));
               all.insert(all.end(), v.begin(), v.end());
             }
             return all;
           },
           "shuffled loader", false, k > 1 ? static_cast<double>(k) : 0};
      break;
    }
    case 13: {
      auto k = c.draw(60);
      auto seed = genSeed(c);
      auto epoch = c.draw(4);
      a = {[=] {
             tt::data::RandomSampler r(k, seed);
             if (epoch) r.setEpoch(epoch);
             auto v = r.indices();
             Bytes b(v.size() * sizeof(size_t));
             if (!v.empty()) memcpy(b.data(), v.data(), b.size());
             return b;
           },
           "RandomSampler", true, 0};
      break;
    }
    default: {
      auto m = std::make_shared<tt::nn::Dropout>(static_cast<float>(c.range(1, 9)) / 10.f);
      Tensor x = Tensor::ones(view(s), opt(dt));
      a = {[=] { return rawBytes((*m)(x)); }, "nn::Dropout", false, n * 0.15};
      break;
    }
  }
  c.note("%s%s;", a.name.c_str(), str(s).c_str());
  return a;
}

// Re-seeding reproduces the whole sequence, whatever was drawn in between; drawing twice does not repeat.
void histories(Case& c) {
  auto seed = genSeed(c);
  c.note("seed %lu", seed);
  std::vector<Act> acts;
  size_t k = 1 + c.draw(8);
  for (size_t i = 0; i < k; i++) {
    acts.push_back(genAct(c));
    if (c.chance(1, 3)) acts.push_back(acts.back());
  }
  if (k > 1) c.nontrivial();
  tt::manualSeed(seed);
  std::vector<Bytes> first;
  for (auto& a : acts) first.push_back(a.run());
  for (size_t i = 1; i < acts.size(); i++)
    if (acts[i].name == acts[i - 1].name && first[i].size() == first[i - 1].size() && acts[i].entropy >= 60 && !acts[i].restarts && !first[i].empty()) {
      VP_CHECK(c, first[i] != first[i - 1], "two %s in a row under seed %lu draw the very same %zu bytes", acts[i].name.c_str(), seed, first[i].size());
      c.cls("draws compared");
    }
  // something else is drawn, perhaps under other seeds
  size_t junk = c.draw(5);
  for (size_t i = 0; i < junk; i++) {
    if (c.chance(1, 3)) tt::manualSeed(genSeed(c));
    genAct(c).run();
    c.cls("other draws between");
  }
  size_t rounds = 1 + c.draw(2);
  for (size_t r = 0; r < rounds; r++) {
    tt::manualSeed(seed);
    // possibly only the beginning of the sequence
    size_t upto = c.chance(1, 4) ? c.draw(acts.size()) + 1 : acts.size();
    for (size_t i = 0; i < upto; i++) {
      auto again = acts[i].run();
      VP_CHECK(c, again == first[i], "after re-seeding with %lu draw %zu (%s) is different", seed, i, acts[i].name.c_str());
    }
  }
}

// Without a seed, draws must still be in range and not repeat.
void unseeded(Case& c) {
  Act a = genAct(c);
  if (a.restarts || a.entropy < 60) c.discard();
  c.nontrivial();
  auto x = a.run(), y = a.run();
  VP_CHECK(c, x.size() == y.size() && x != y, "two unseeded draws of %s agree in all %zu bytes", a.name.c_str(), x.size());
  for (float v : Tensor::rand(view(Shape{50})).toList<float>()) VP_CHECK(c, v >= 0 && v <= 1, "an unseeded uniform value is %g", v);
}

// ---- statistics -----------------------------------------------------------------------------------------
void expectKS(Case& c, std::vector<double> v, const std::function<double(double)>& cdf, double rel, const char* what, double abs = 0) {
  std::sort(v.begin(), v.end());
  double n = static_cast<double>(v.size()), d = 0;
  auto slack = [&](double x) { return rel * std::fabs(x) + abs; };  // what rounding may have moved a value by
  for (size_t i = 0; i < v.size(); i++) {
    // groups of equal values (rounded to 16 bits) count at both ends
    d = std::max(d, std::max(static_cast<double>(i + 1) / n - cdf(v[i] + slack(v[i])), cdf(v[i] - slack(v[i])) - static_cast<double>(i) / n));
  }
  VP_CHECK(c, d * std::sqrt(n) < 3.9, "%s: %zu values are %.4f away from the distribution asked for (%.2f standard errors)", what, v.size(), d, d * std::sqrt(n));
}
void expectUncorrelated(Case& c, const std::vector<double>& v, size_t lag, const char* what) {
  if (v.size() < lag + 200) return;
  double n = static_cast<double>(v.size()), mean = 0, var = 0, cov = 0;
  for (double x : v) mean += x / n;
  for (double x : v) var += (x - mean) * (x - mean) / n;
  if (var <= 1e-9 * (mean * mean + 1e-30)) return;
  for (size_t i = 0; i + lag < v.size(); i++) cov += (v[i] - mean) * (v[i + lag] - mean);
  double r = cov / var / std::sqrt(n - static_cast<double>(lag));
  VP_CHECK(c, std::fabs(r) < 8, "%s: values %zu apart are correlated (%.1f standard errors)", what, lag, r);
}

double Phi(double z) { return 0.5 * std::erfc(-z / std::sqrt(2.0)); }

// The distance between distribution functions hardly sees the tails: count what lies beyond them.
void expectTails(Case& c, const std::vector<double>& v, double mean, double sd, double slack) {
  if (slack > 0.05) return;
  for (double t : {2.0, 2.5, 3.0, 3.5, 4.0})
    for (int side : {-1, 1, 0}) {
      double seen = 0, both = side ? 1 : 2, n = static_cast<double>(v.size()) * both;
      // what rounding may have carried across the line counts for it and against it
      double most = n * Phi(-t + slack), least = n * Phi(-t - slack);
      if (least < 14) continue;
      for (double x : v) {
        double z = (x - mean) / sd;
        if (side ? z * side > t : std::fabs(z) > t) seen++;
      }
      VP_CHECK(c, seen > 0 && seen > least - 8 * std::sqrt(least) && seen < most + 8 * std::sqrt(most) + 10,
               "of %zu normal values %g lie more than %g deviations %s, about %g expected", v.size(), seen, t, side < 0 ? "below" : side > 0 ? "above" : "off", (most + least) / 2);
      if (t >= 3) c.cls("tails counted");
    }
}

// Draws n values in calls of the given size.
std::vector<double> collect(const std::function<Tensor(int64_t)>& draw, int64_t n, int64_t per) {
  std::vector<double> v;
  while (static_cast<int64_t>(v.size()) < n) {
    auto x = readVec(draw(per));
    v.insert(v.end(), x.begin(), x.end());
  }
  return v;
}

void distributions(Case& c) {
  auto seed = genSeed(c);
  DType dt = c.pick(kFloats);
  double eps = epsOf(dt);
  int64_t n = c.chance(1, 8) ? 200000 : c.thorough ? 20000 : 6000;
  // in one call, or in many small ones: the pooled values must obey the same law
  int64_t per = c.oneOf<int64_t>({n, n, n / 7, 100, 17, 3, 2, 1});
  if (per < 20) n = std::min<int64_t>(n, 4000);
  int kind = static_cast<int>(c.draw(5));
  if (n > 100000) c.cls("200 000 values");
  bool inPlace = c.coin();
  tt::manualSeed(seed);
  c.nontrivial();
  if (per < n) c.cls("many small draws");
  auto shaped = [&](int64_t k) { return k % 4 == 0 && inPlace ? Shape{4, k / 4} : Shape{k}; };
  if (kind == 0) {
    double lo = 0, hi = 1;
    bool plain = c.chance(1, 3);
    if (!plain) {
      lo = roundDt(static_cast<double>(c.range(-1000, 1000)) / c.oneOf<double>({1, 10, 1000}), dt);
      hi = roundDt(lo + static_cast<double>(c.range(1, 1000)) / c.oneOf<double>({1, 10, 300}), dt);
      if (c.chance(1, 10)) hi = lo;
    }
    c.note("uniform %g..%g %s seed %lu in draws of %lld", lo, hi, dtName(dt), seed, (long long)per);
    auto v = collect(
        [&](int64_t k) {
          if (plain) return Tensor::rand(view(shaped(k)), opt(dt));
          if (!inPlace) return Tensor::uniform(view(shaped(k)), static_cast<float>(lo), static_cast<float>(hi), opt(dt));
          Tensor t = Tensor::empty(view(shaped(k)), opt(dt));
          if (k % 2) tt::nn::Initializer::uniform(t, static_cast<float>(lo), static_cast<float>(hi));
          else t.fillUniform_(static_cast<float>(lo), static_cast<float>(hi));
          return t;
        },
        n, per);
    for (double x : v) VP_CHECK(c, x >= lo && x <= hi, "a uniform value of %g..%g is %.9g", lo, hi, x);
    double width = hi - lo, mag = std::max(std::fabs(lo), std::fabs(hi));
    if (width > 50 * eps * mag) {
      expectKS(c, v, [&](double x) { return std::min(1.0, std::max(0.0, (x - lo) / width)); }, 0, "uniform", eps * mag);
    }
    expectUncorrelated(c, v, 1, "uniform");
    expectUncorrelated(c, v, static_cast<size_t>(per), "uniform");
  } else if (kind == 1) {
    double mean = roundF32(static_cast<double>(c.range(-200, 200)) / 10), sd = roundF32(static_cast<double>(c.range(1, 500)) / 100);
    bool plain = c.chance(1, 3);
    if (plain) mean = 0, sd = 1;
    c.note("normal %g, %g %s seed %lu in draws of %lld", mean, sd, dtName(dt), seed, (long long)per);
    auto v = collect(
        [&](int64_t k) {
          if (plain) return Tensor::randn(view(shaped(k)), opt(dt));
          Tensor t = Tensor::empty(view(shaped(k)), opt(dt));
          if (inPlace) tt::nn::Initializer::normal(t, static_cast<float>(mean), static_cast<float>(sd));
          else t.fillNormal_(static_cast<float>(mean), static_cast<float>(sd));
          return t;
        },
        n, per);
    for (double x : v) VP_CHECK(c, std::isfinite(x) && std::fabs(x - mean) < 9 * sd + eps * (std::fabs(mean) + 9 * sd), "a normal value of %g±%g is %g", mean, sd, x);
    expectKS(c, v, [&](double x) { return Phi((x - mean) / sd); }, eps, "normal");
    expectTails(c, v, mean, sd, eps * (std::fabs(mean) + 5 * sd) / sd);
    expectUncorrelated(c, v, 1, "normal");
    expectUncorrelated(c, v, static_cast<size_t>(per), "normal");
  } else if (kind == 2 || kind == 3) {
    double p = c.oneOf<double>({0, 1, 0.5, 0.01, 0.99, -1});
    if (p < 0) p = static_cast<double>(c.range(1, 999)) / 1000;
    p = roundF32(p);
    bool op = c.coin();
    double keep = kind == 2 ? p : static_cast<double>(1.f - static_cast<float>(p));
    if (kind == 3 && op) keep = p;
    if (kind == 3 && op && p == 0) c.discard();
    c.note("%s p=%g %s seed %lu in draws of %lld", kind == 2 ? "bernoulli" : op ? "op::dropout" : "dropout", p, dtName(dt), seed, (long long)per);
    auto layer = tt::nn::Dropout(static_cast<float>(p));
    auto v = collect(
        [&](int64_t k) {
          if (kind == 3) {
            Tensor one = Tensor::ones(view(shaped(k)), opt(dt));
            if (op) return tt::op::dropout(one, static_cast<float>(p));
            return inPlace ? layer(one) : tt::function::dropout(one, static_cast<float>(p), true);
          }
          if (!inPlace) return Tensor::bernoulli(view(shaped(k)), static_cast<float>(p), opt(dt));
          Tensor t = Tensor::empty(view(shaped(k)), opt(dt));
          t.fillBernoulli_(static_cast<float>(p));
          return t;
        },
        n, per);
    double ones = 0, want = kind == 3 ? roundDt(1 / keep, dt) : 1;
    for (double& x : v) {
      VP_CHECK(c, x == 0 || std::fabs(x - want) <= 2 * eps * want, "a drawn value is %g, neither 0 nor %g", x, want);
      x = x != 0;
      ones += x;
    }
    auto m = static_cast<double>(v.size());
    if (keep == 0 || keep == 1) VP_CHECK(c, ones == keep * m, "with probability %g, %g of %g values are set", keep, ones, m);
    else VP_CHECK(c, std::fabs(ones - keep * m) < 7.5 * std::sqrt(m * keep * (1 - keep)) + 6, "with probability %g, %g of %g values are set", keep, ones, m);
    if (keep > 0.05 && keep < 0.95) {
      expectUncorrelated(c, v, 1, "bernoulli");
      expectUncorrelated(c, v, static_cast<size_t>(per), "bernoulli");
    }
  } else {
    // permutations: where does the first index go, and which one comes first
    size_t k = 2 + c.draw(8);
    size_t rounds = c.thorough ? 4000 : 1200;
    bool sampler = c.coin();
    std::vector<double> first(k), place(k);
    for (size_t r = 0; r < rounds; r++) {
      std::vector<size_t> v;
      if (sampler) v = tt::data::RandomSampler(k, (seed * 2654435761u + r * 40503u * 2654435761u) % 2147483647u).indices();
      else {
        auto ds = std::make_shared<Blank>(k);
        tt::data::DataLoader l(ds, k);
        for (auto b : l)
          for (double x : readVec(std::get<1>(b).at(0))) v.push_back(static_cast<size_t>(x));
      }
      VP_CHECK(c, v.size() == k, "a permutation of %zu has %zu entries", k, v.size());
      for (size_t i = 0; i < k; i++) {
        if (i == 0) first[v[i]]++;
        if (v[i] == 0) place[i]++;
      }
    }
    c.note("%zu %s permutations of %zu seed %lu", rounds, sampler ? "sampler" : "loader", k, seed);
    double e = static_cast<double>(rounds) / static_cast<double>(k), sd = std::sqrt(e);
    for (size_t i = 0; i < k; i++) {
      VP_CHECK(c, std::fabs(first[i] - e) < 8 * sd, "index %zu comes first in %g of %zu permutations of %zu", i, first[i], rounds, k);
      VP_CHECK(c, std::fabs(place[i] - e) < 8 * sd, "index 0 comes at place %zu in %g of %zu permutations of %zu", i, place[i], rounds, k);
    }
    c.cls("permutations");
  }
}

// ---- multinomial ----------------------------------------------------------------------------------------
std::vector<double> genWeights(Case& c, int64_t k, DType dt) {
  std::vector<double> w(static_cast<size_t>(k));
  int kind = static_cast<int>(c.draw(8));
  Rng r = c.sub();
  double cap = dt == DType::Float16 ? 60000 : 1e30;
  for (auto& x : w) {
    switch (kind) {
      case 0: x = 1; break;
      case 1: x = static_cast<double>(r.below(5)); break;
      case 2: x = r.below(3) ? 0 : static_cast<double>(1 + r.below(9)); break;
      case 3: x = r.unit(); break;
      case 4: x = std::pow(10.0, r.unit() * 8 - 4); break;
      case 5: x = std::pow(2.0, -140 + static_cast<double>(r.below(12))); break;  // down to the smallest numbers
      case 6: x = (dt == DType::Float16 ? 60000 : 3e38) * (0.5 + r.unit() / 2); break;  // sums beyond the type
      default: x = static_cast<double>(r.below(100)); break;
    }
    if (kind == 7 && r.below(4) == 0) x = 0;
    if (dt == DType::Bool) x = x >= 1;
    else if (dt == DType::Int32 || dt == DType::Int64) x = std::floor(std::min(x, 1e9));
    else {
      if (kind != 6) x = std::min(x, cap);
      x = roundDt(x, dt);
    }
  }
  c.cls(kind == 5 ? "tiny weights" : kind == 6 ? "huge weights" : "weights");
  double total = 0;
  for (double x : w) total += x;
  if (!(total > 0)) w[c.draw(static_cast<uint64_t>(k))] = 1;
  return w;
}

void expectCounts(Case& c, const std::vector<double>& seen, const std::vector<double>& want, const char* what) {
  double chi = 0, rest = 0, restSeen = 0;
  int dof = 0;
  for (size_t i = 0; i < seen.size(); i++) {
    if (want[i] < 5) {
      rest += want[i];
      restSeen += seen[i];
      continue;
    }
    chi += (seen[i] - want[i]) * (seen[i] - want[i]) / want[i];
    dof++;
  }
  if (rest >= 5) chi += (restSeen - rest) * (restSeen - rest) / rest, dof++;
  else VP_CHECK(c, restSeen < rest + 12 * std::sqrt(rest) + 40, "%s: rare outcomes came %g times, %g expected", what, restSeen, rest);
  VP_CHECK(c, chi < dof + 8 * std::sqrt(2.0 * dof) + 60, "%s: chi-square %.1f for %d classes", what, chi, dof);
}

void multinomial(Case& c) {
  DType dt = c.pick(kTypes);
  int64_t k = c.range(1, c.chance(1, 6) ? 200 : 12), b = c.range(1, 4);
  bool flat = c.coin(), repl = c.coin(), rows = !flat && c.chance(1, 12);
  if (flat) b = 1;
  if (rows) b = c.range(5, 300), k = c.range(1, 20);
  std::vector<double> all;
  std::vector<std::vector<double>> w;
  int64_t most = k;
  for (int64_t i = 0; i < b; i++) {
    w.push_back(genWeights(c, k, dt));
    all.insert(all.end(), w.back().begin(), w.back().end());
    most = std::min<int64_t>(most, static_cast<int64_t>(std::count_if(w.back().begin(), w.back().end(), [](double x) { return x > 0; })));
  }
  int64_t draws = repl ? c.range(1, rows ? 60 : c.thorough ? 4000 : 1200) : c.chance(1, 3) ? most : c.range(1, most);
  auto seed = genSeed(c);
  c.note("%lld rows of %lld %s weights %s, %lld draws %s replacement, seed %lu", (long long)b, (long long)k, dtName(dt), str(w[0], 14).c_str(), (long long)draws,
         repl ? "with" : "without", seed);
  if (most > 1) c.nontrivial();
  Made m = makeTensor(c, flat ? Shape{k} : Shape{b, k}, dt, all);
  tt::manualSeed(seed);
  bool fn = c.coin();
  auto once = [&] { return fn ? tt::function::multinomial(m.t, draws, repl) : tt::op::multinomial(m.t, draws, repl); };
  auto check = [&](const Tensor& t) {
    expectShape(c, t, flat ? Shape{draws} : Shape{b, draws}, DType::Int64, "multinomial");
    auto v = readVec(t);
    for (int64_t i = 0; i < b; i++) {
      std::set<int64_t> had;
      for (int64_t s = 0; s < draws; s++) {
        auto x = static_cast<int64_t>(v[static_cast<size_t>(i * draws + s)]);
        VP_CHECK(c, x >= 0 && x < k, "row %lld: draw %lld names category %lld of %lld", (long long)i, (long long)s, (long long)x, (long long)k);
        VP_CHECK(c, w[static_cast<size_t>(i)][static_cast<size_t>(x)] > 0, "row %lld: draw %lld picks category %lld, whose weight is zero", (long long)i, (long long)s, (long long)x);
        if (!repl) VP_CHECK(c, had.insert(x).second, "row %lld: category %lld is drawn twice without replacement", (long long)i, (long long)x);
      }
    }
    return v;
  };
  auto v = check(once());
  // distribution of single draws, pooled over the row (with replacement) or over repeated calls
  std::vector<double> seen(static_cast<size_t>(k)), want(static_cast<size_t>(k));
  double total = 0, count = 0;
  for (double x : w[0]) total += x;
  std::map<std::pair<int64_t, int64_t>, double> pairs;
  if (repl) {
    for (int64_t s = 0; s < draws; s++) seen[static_cast<size_t>(v[static_cast<size_t>(s)])]++, count++;
  }
  int rounds = repl ? (draws < 20 ? 200 : 0) : c.thorough ? 3000 : 600;
  if (rows) rounds /= 10;
  for (int r = 0; r < rounds; r++) {
    auto x = check(once());
    seen[static_cast<size_t>(x[0])]++, count++;
    if (!repl && draws > 1) pairs[{static_cast<int64_t>(x[0]), static_cast<int64_t>(x[1])}]++;
  }
  if (count == 0) return;
  for (size_t i = 0; i < want.size(); i++) want[i] = count * (w[0][i] / total);
  expectCounts(c, seen, want, repl ? "multinomial" : "first of several draws");
  if (!pairs.empty() && k <= 12) {
    std::vector<double> ps, pw;
    for (int64_t i = 0; i < k; i++)
      for (int64_t j = 0; j < k; j++) {
        double a = w[0][static_cast<size_t>(i)] / total, bb = w[0][static_cast<size_t>(j)] / total;
        if (i == j || a <= 0 || bb <= 0) continue;
        double rest = 0;
        for (int64_t q = 0; q < k; q++)
          if (q != i) rest += w[0][static_cast<size_t>(q)] / total;
        pw.push_back(static_cast<double>(rounds) * a * bb / rest);
        auto it = pairs.find({i, j});
        ps.push_back(it == pairs.end() ? 0 : it->second);
      }
    expectCounts(c, ps, pw, "first two draws without replacement");
    c.cls("second draw looked at");
  }
  double spread = 0;
  for (double x : w[0]) spread += x / total * (x / total);
  if (repl && draws >= 200 && spread < 0.6) {
    std::vector<double> row(v.begin(), v.begin() + draws);
    expectUncorrelated(c, row, 1, "multinomial draws");
  }
  if (repl && b == 2 && draws >= 200) {  // rows are drawn independently
    bool same = true;
    for (int64_t s = 0; s < draws; s++) same = same && v[static_cast<size_t>(s)] == v[static_cast<size_t>(draws + s)];
    if (spread < 0.6) VP_CHECK(c, !same, "both rows drew the same %lld categories", (long long)draws);
  }
}

// A category far down a long list is as likely as the first.
void longLists(Case& c) {
  int64_t k = c.oneOf<int64_t>({70000, 300000, 1100000});
  DType dt = c.oneOf<DType>({DType::Float32, DType::Int64, DType::Float16});
  double each = dt == DType::Float32 ? c.oneOf<double>({1, 0.1, 1e-20, 7e20}) : 3;
  double head = c.chance(1, 2) ? 0 : dt == DType::Float32 ? each * 3e7 : dt == DType::Int64 ? 9e7 : 0;
  c.note("%lld %s weights of %g after one of %g", (long long)k, dtName(dt), each, head);
  c.nontrivial();
  std::vector<double> w(static_cast<size_t>(k), roundDt(each, dt));
  w[0] = roundDt(head, dt);
  Tensor t = rawTensor({k}, dt, w);
  tt::manualSeed(genSeed(c));
  int n = c.thorough ? 900 : 300;
  auto v = readVec(tt::op::multinomial(t, c.thorough ? 900 : 300, false));
  double total = w[0];
  for (size_t i = 1; i < w.size(); i++) total += w[i];
  std::set<double> had;
  std::vector<double> bins(10), want(10);
  double others = 0;
  for (double x : v) {
    VP_CHECK(c, x >= 0 && x < static_cast<double>(k) && w[static_cast<size_t>(x)] > 0, "category %g of %lld is drawn", x, (long long)k);
    VP_CHECK(c, had.insert(x).second, "category %g is drawn twice", x);
    if (x > 0) bins[static_cast<size_t>(x * 10 / static_cast<double>(k))]++, others++;
  }
  VP_CHECK(c, others >= n - 1, "only %g of %d draws name one of the equal categories", others, n);
  for (auto& x : want) x = others / 10;
  expectCounts(c, bins, want, "tenths of a long list of equal weights");
}

// ---- initialisers ---------------------------------------------------------------------------------------
void initialisers(Case& c) {
  DType dt = c.pick(kFloats);
  double eps = epsOf(dt);
  auto seed = genSeed(c);
  int kind = static_cast<int>(c.draw(5));
  tt::manualSeed(seed);
  auto bounded = [&](const Tensor& t, double bound, const char* what) {
    auto v = readVec(t);
    double top = 0;
    for (double x : v) {
      VP_CHECK(c, std::isfinite(x) && std::fabs(x) <= bound * (1 + 4e-7 + eps) + tinyOf(dt), "%s: %g lies outside ±%g", what, x, bound);
      top = std::max(top, std::fabs(x));
    }
    if (v.size() >= 60) VP_CHECK(c, top > bound * 0.6, "%s: %zu values stay below %g, the bound is %g", what, v.size(), top, bound);
    if (v.size() >= 100 && bound > 100 * tinyOf(dt)) {
      expectKS(c, v, [&](double x) { return std::min(1.0, std::max(0.0, (x + bound) / (2 * bound))); }, 2 * eps, what);
      c.cls("distribution looked at");
    }
  };
  if (kind == 0) {
    Shape s = {c.range(1, 30), c.range(1, 30)};
    while (s.size() < 5 && c.chance(1, 3)) s.push_back(c.range(1, 4));
    double a = c.coin() ? 0 : static_cast<double>(c.range(-50, 50)) / 10;
    bool out = c.coin();
    c.note("kaimingUniform %s %s a=%g %s seed %lu", str(s).c_str(), dtName(dt), a, out ? "fan out" : "fan in", seed);
    double fanIn = static_cast<double>(numelOf(s) / s[0]), fanOut = static_cast<double>(numelOf(s) / s[1]);
    Made m = makeTensor(c, s, dt, genData(c, numelOf(s), dt, Data::Small));
    auto fans = tt::nn::Initializer::calculateFan(m.t);
    VP_CHECK(c, fans.first == static_cast<int64_t>(fanIn) && fans.second == static_cast<int64_t>(fanOut), "fan sizes of %s are %lld and %lld", str(s).c_str(), (long long)fans.first,
             (long long)fans.second);
    double gain = std::sqrt(2 / (1 + a * a));
    double got = tt::nn::Initializer::calculateGain(static_cast<float>(a));
    VP_CHECK(c, std::fabs(got - gain) < 1e-6 * gain, "the gain of slope %g is %g, not %g", a, got, gain);
    tt::nn::Initializer::kaimingUniform(m.t, static_cast<float>(a), out ? tt::nn::FanMode::FAN_OUT : tt::nn::FanMode::FAN_IN);
    expectShape(c, m.t, s, dt, "kaimingUniform");
    bounded(m.t, gain * std::sqrt(3 / (out ? fanOut : fanIn)), "kaimingUniform");
    expectSurround(c, m, "kaimingUniform");
    c.nontrivial();
  } else if (kind == 1 || kind == 2) {
    int64_t in = c.chance(1, 12) ? 0 : c.range(1, 40), out = c.range(1, 40), kh = c.range(1, 4), kw = c.range(1, 4);
    bool bias = c.coin();
    c.note("%s %lld -> %lld %lldx%lld %s bias %d seed %lu", kind == 1 ? "Linear" : "Conv2D", (long long)in, (long long)out, (long long)kh, (long long)kw, dtName(dt), bias, seed);
    std::shared_ptr<tt::nn::Module> m;
    {  // stale contents must not shine through
      Tensor junk = Tensor::full(view({out}), 77.f, opt(dt));
    }
    if (kind == 1) m = std::make_shared<tt::nn::Linear>(in, out, bias, opt(dt));
    else m = std::make_shared<tt::nn::Conv2D>(in, out, tt::Dim2D(kh, kw), 1, 0, bias, opt(dt));
    m->resetParameters();
    auto p = m->namedParameters();
    VP_CHECK(c, p.size() == (bias ? 2u : 1u), "%zu parameters", p.size());
    double fan = static_cast<double>(kind == 1 ? in : in * kh * kw);
    for (auto& [name, t] : p) {
      if (in == 0) {
        for (double x : readVec(*t)) VP_CHECK(c, x == 0, "a layer without inputs has %s %g", name.c_str(), x);
        c.cls("no inputs");
      } else bounded(*t, 1 / std::sqrt(fan), name.c_str());
    }
    if (in) c.nontrivial();
  } else if (kind == 3) {
    int64_t n = c.range(1, 60), d = c.range(1, 60);
    c.note("Embedding %lld x %lld %s seed %lu", (long long)n, (long long)d, dtName(dt), seed);
    tt::nn::Embedding e(n, d, opt(dt));
    e.resetParameters();
    auto v = readVec(*e.parameters().at(0));
    for (double x : v) VP_CHECK(c, std::fabs(x) < 9, "an embedding starts at %g", x);
    if (v.size() > 100) expectKS(c, v, Phi, eps, "embedding weights");
    c.nontrivial();
  } else {
    Shape s = genShape(c, 0, 4, 60);
    Made m = makeTensor(c, s, dt, genData(c, numelOf(s), dt, Data::Small));
    bool one = c.coin();
    c.note("%s %s", one ? "ones" : "zeros", str(s).c_str());
    if (one) tt::nn::Initializer::ones(m.t);
    else tt::nn::Initializer::zeros(m.t);
    expectExact(c, m.t, Arr(s, std::vector<double>(static_cast<size_t>(numelOf(s)), one ? 1 : 0)), dt, "constant initialiser");
    expectSurround(c, m, "constant initialiser");
  }
}

void defaults(Case& c) {
  uint64_t seed = c.draw(100000);
  int64_t n = c.range(1, 200);
  Tensor a = rawTensor({n}, DType::Float32, std::vector<double>(n, 0.0)), b = a.clone();
  auto twice = [&](auto f, auto g, const char* what) {
    tt::manualSeed(seed);
    f();
    tt::manualSeed(seed);
    g();
    same(c, a, b, what);
  };
  c.note("seed %llu, %lld elements\n", (unsigned long long)seed, (long long)n);
  switch (c.draw(6)) {
    case 0: twice([&] { a.fillNormal_(); }, [&] { b.fillNormal_(0.f, 1.f); }, "fillNormal_"); break;
    case 1: twice([&] { a.fillNormal_(3.f); }, [&] { b.fillNormal_(3.f, 1.f); }, "fillNormal_ with a mean"); break;
    case 2: twice([&] { nn::Initializer::normal(a); }, [&] { nn::Initializer::normal(b, 0.f, 1.f); }, "Initializer::normal"); break;
    case 3: {
      Tensor w = rawTensor({2, 3}, DType::Float32, std::vector<double>(6, 0.0)), v = w.clone();
      a = w, b = v;
      twice([&] { nn::Initializer::kaimingUniform(a); }, [&] { nn::Initializer::kaimingUniform(b, 0.f, nn::FanMode::FAN_IN); }, "kaimingUniform");
      break;
    }
    case 4: {
      Tensor w = rawTensor({n}, DType::Float32, std::vector<double>(n, 1.0));
      twice([&] { a = tt::function::multinomial(w, n); }, [&] { b = tt::function::multinomial(w, n, false); }, "multinomial");
      break;
    }
    default: {
      std::vector<int64_t> sh{n};
      tt::IntArrayView sv(sh);
      int what = static_cast<int>(c.draw(4));
      auto make = [&](bool full) {
        tt::Options o = tt::options::dtype(DType::Float32);
        switch (what) {
          case 0: return full ? Tensor::rand(sv, o) : Tensor::rand(sv);
          case 1: return full ? Tensor::randn(sv, o) : Tensor::randn(sv);
          case 2: return full ? Tensor::uniform(sv, -1.f, 2.f, o) : Tensor::uniform(sv, -1.f, 2.f);
          default: return full ? Tensor::bernoulli(sv, 0.3f, o) : Tensor::bernoulli(sv, 0.3f);
        }
      };
      twice([&] { a = make(false); }, [&] { b = make(true); }, "random tensors without options");
      VP_CHECK(c, !a.requiresGrad(), "a random tensor requires gradients by default");
    }
  }
}

}  // namespace

int main(int argc, char** argv) {
  Suite s;
  s.property = "C17";
  s.rule = "more than one draw in the history, or a draw whose outcome is not forced";
  s.assumptions = {"weights are non-negative and finite with a positive sum, and at least as many positive ones as draws without replacement",
                   "the width of a uniform range is representable", "statistical laws are decided by tests with false-alarm odds below 1e-11 per case"};
  s.init = noCache;
  s.props = {{"unseeded", unseeded, 400, 4000},
             {"histories", histories, 20000, 500000},
             {"distributions", distributions, 1600, 12000},
             {"multinomial", multinomial, 4000, 40000},
             {"long lists", longLists, 16, 64, 300},
             {"initialisers", initialisers, 6000, 120000},
             {"defaults", defaults, 20000, 200000}};
  return runSuite(s, argc, argv);
}
