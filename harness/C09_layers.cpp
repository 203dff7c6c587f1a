// C09: neural-network layers against their defining formulas, evaluated in double precision.
#include <optional>

#include "Functions.h"
#include "Operations.h"
#include "Utils/RandomGenerator.h"
#include "ref.h"
#include "Modules.h"
#include "defaults.h"
namespace nn = tinytorch::nn;
using namespace vp;
namespace fn = tt::function;
namespace op = tt::op;

namespace {

DType floatType(Case& c) {
  return std::vector<DType>{DType::Float32, DType::Float16, DType::BFloat16}[c.weighted({4, 2, 2})];
}
// sizes: mostly small, sometimes past usual block sizes
int64_t size(Case& c, int64_t hi, int64_t big) { return c.chance(1, 12) ? c.range(1, big) : c.range(1, hi); }

// leading axes: mostly few rows, sometimes hundreds
Shape leading(Case& c) {
  if (!c.chance(1, 150)) return genShape(c, 0, 3, 12, false);
  c.cls("hundreds of rows");
  return c.coin() ? Shape{c.range(200, 1100)} : Shape{c.range(2, 40), c.range(10, 30)};
}

void linear(Case& c) {
  DType dt = floatType(c);
  Shape lead = leading(c);
  bool many = numelOf(lead) >= 200;
  int64_t K = size(c, 9, many ? 20 : c.chance(1, 20) ? 3000 : 200), O = size(c, 7, many ? 20 : c.chance(1, 20) ? 600 : 40);
  if (K * O * numelOf(lead) > 400000) K = 9;
  Shape si = lead;
  si.push_back(K);
  bool withBias = c.coin();
  c.note("linear %s input %s out %lld bias %d", dtName(dt), str(si).c_str(), (long long)O, withBias);
  Made x = makeTensor(c, si, dt, genData(c, numelOf(si), dt, Data::Small));
  Made w = makeTensor(c, {O, K}, dt, genData(c, O * K, dt, Data::Small));
  Made b;
  if (withBias) b = makeTensor(c, {O}, dt, genData(c, O, dt, Data::Small));
  Shape so = lead;
  so.push_back(O);
  Arr want(so, 0.0);
  std::vector<double> mag(numelOf(so), 0.0);
  int64_t rows = numelOf(lead);
  for (int64_t r = 0; r < rows; r++)
    for (int64_t o = 0; o < O; o++) {
      double s = withBias ? b.ref.v[o] : 0, m = std::fabs(s);
      for (int64_t k = 0; k < K; k++) {
        double p = x.ref.v[r * K + k] * w.ref.v[o * K + k];
        s += p;
        m += std::fabs(p);
      }
      want.v[r * O + o] = s;
      mag[r * O + o] = m;
    }
  Tensor t = withBias ? fn::linear(x.t, w.t, b.t) : fn::linear(x.t, w.t);
  double e = epsOf(dt) * static_cast<double>(K + 4);
  expectNear(c, t, want, dt, [&](size_t i) { return e * mag[i] + tinyOf(dt) * static_cast<double>(K + 2); }, "linear");
  expectUnchanged(c, x, "linear input");
  expectUnchanged(c, w, "linear weight");
  if (withBias) expectUnchanged(c, b, "linear bias");
  if (rows > 1 && O > 1 && K > 1) c.nontrivial();
}

void conv(Case& c) {
  DType dt = floatType(c);
  int64_t N = c.range(1, 3), C = size(c, 3, 9), O = size(c, 4, 17), H = size(c, 6, c.chance(1, 10) ? 40 : 14), W = size(c, 6, c.chance(1, 10) ? 40 : 14);
  int64_t ph = c.draw(3), pw = c.draw(3);
  int64_t kmax = c.chance(1, 12) ? 9 : 4;
  int64_t kh = c.range(1, std::min<int64_t>(kmax, H + 2 * ph)), kw = c.range(1, std::min<int64_t>(kmax, W + 2 * pw));
  int64_t sh = c.range(1, 3), sw = c.range(1, 3);
  if (c.chance(1, 150)) {  // one axis beyond any block a kernel may work in
    H = std::min<int64_t>(H, std::max<int64_t>(kh, 7)), W = std::min<int64_t>(W, std::max<int64_t>(kw, 7)), C = std::min<int64_t>(C, 3), O = std::min<int64_t>(O, 4);
    switch (c.draw(3)) {
      case 0: N = c.range(4, 70); break;
      case 1: C = c.range(10, 140); break;
      default: O = c.range(18, 140); break;
    }
    c.cls("large batch or channel count");
  }
  int64_t oh = (H + 2 * ph - kh) / sh + 1, ow = (W + 2 * pw - kw) / sw + 1;
  bool withBias = c.coin();
  c.note("conv2d %s [%lld,%lld,%lld,%lld] out %lld kernel %lldx%lld stride %lldx%lld padding %lldx%lld bias %d", dtName(dt), (long long)N,
         (long long)C, (long long)H, (long long)W, (long long)O, (long long)kh, (long long)kw, (long long)sh, (long long)sw, (long long)ph,
         (long long)pw, withBias);
  Made x = makeTensor(c, {N, C, H, W}, dt, genData(c, N * C * H * W, dt, Data::Small));
  Made w = makeTensor(c, {O, C, kh, kw}, dt, genData(c, O * C * kh * kw, dt, Data::Small));
  Made b;
  if (withBias) b = makeTensor(c, {O}, dt, genData(c, O, dt, Data::Small));
  Arr want(Shape{N, O, oh, ow}, 0.0);
  std::vector<double> mag(want.v.size(), 0.0);
  size_t at = 0;
  for (int64_t n = 0; n < N; n++)
    for (int64_t o = 0; o < O; o++)
      for (int64_t y = 0; y < oh; y++)
        for (int64_t q = 0; q < ow; q++, at++) {
          double s = withBias ? b.ref.v[o] : 0, m = std::fabs(s);
          for (int64_t ch = 0; ch < C; ch++)
            for (int64_t i = 0; i < kh; i++)
              for (int64_t j = 0; j < kw; j++) {
                int64_t yy = y * sh + i - ph, xx = q * sw + j - pw;
                if (yy < 0 || yy >= H || xx < 0 || xx >= W) continue;
                double p = x.ref.v[((n * C + ch) * H + yy) * W + xx] * w.ref.v[((o * C + ch) * kh + i) * kw + j];
                s += p;
                m += std::fabs(p);
              }
          want.v[at] = s;
          mag[at] = m;
        }
  bool square = sh == sw && ph == pw && c.coin();
  Tensor bt = withBias ? b.t : Tensor();
  Tensor t = square ? fn::conv2d(x.t, w.t, bt, sh, ph) : fn::conv2d(x.t, w.t, bt, tt::Dim2D(sh, sw), tt::Dim2D(ph, pw));
  double terms = static_cast<double>(C * kh * kw);
  expectNear(c, t, want, dt, [&](size_t i) { return epsOf(dt) * (terms + 4) * mag[i] + tinyOf(dt) * (terms + 2); }, "conv2d");
  expectUnchanged(c, x, "conv2d input");
  expectUnchanged(c, w, "conv2d weight");
  if (withBias) expectUnchanged(c, b, "conv2d bias");
  if (O > 1 && oh * ow > 1 && C > 1) c.nontrivial();
}

void pool(Case& c) {
  DType dt = floatType(c);
  int64_t N = c.range(1, 3), C = size(c, 4, c.chance(1, 10) ? 40 : 9), H = size(c, 7, c.chance(1, 10) ? 60 : 15), W = size(c, 7, c.chance(1, 10) ? 60 : 15);
  bool flat = c.chance(1, 3);
  if (c.chance(1, 150)) {
    H = std::min<int64_t>(H, 9), W = std::min<int64_t>(W, 9), C = std::min<int64_t>(C, 4);
    (c.coin() ? N : C) = c.range(10, 140);
    c.cls("large batch or channel count");
  }
  if (flat) N = 1;
  int64_t kmax = c.chance(1, 12) ? 9 : 4;
  int64_t kh = c.range(1, std::min<int64_t>(kmax, H)), kw = c.range(1, std::min<int64_t>(kmax, W));
  int64_t ph = c.draw(kh / 2 + 1), pw = c.draw(kw / 2 + 1);
  int64_t sh = c.range(1, 3), sw = c.range(1, 3);
  int64_t oh = (H + 2 * ph - kh) / sh + 1, ow = (W + 2 * pw - kw) / sw + 1;
  Shape si = flat ? Shape{C, H, W} : Shape{N, C, H, W};
  c.note("maxPool2d %s %s kernel %lldx%lld stride %lldx%lld padding %lldx%lld", dtName(dt), str(si).c_str(), (long long)kh, (long long)kw,
         (long long)sh, (long long)sw, (long long)ph, (long long)pw);
  bool negative = c.chance(1, 3);
  auto v = genData(c, numelOf(si), dt, c.pick(std::vector<Data>{Data::Small, Data::Wide, Data::Ints}));
  if (negative)
    for (auto& q : v) q = -std::fabs(q);
  Made x = makeTensor(c, si, dt, v);
  Arr want(flat ? Shape{C, oh, ow} : Shape{N, C, oh, ow}, 0.0);
  size_t at = 0;
  for (int64_t p = 0; p < N * C; p++)
    for (int64_t y = 0; y < oh; y++)
      for (int64_t q = 0; q < ow; q++, at++) {
        double m = -INFINITY;
        for (int64_t i = 0; i < kh; i++)
          for (int64_t j = 0; j < kw; j++) {
            int64_t yy = y * sh + i - ph, xx = q * sw + j - pw;
            if (yy < 0 || yy >= H || xx < 0 || xx >= W) continue;
            m = std::max(m, x.ref.v[(p * H + yy) * W + xx]);
          }
        want.v[at] = m;
      }
  bool square = sh == sw && kh == kw && ph == pw && c.coin();
  Tensor t = square ? fn::maxPool2d(x.t, kh, sh, ph) : fn::maxPool2d(x.t, tt::Dim2D(kh, kw), tt::Dim2D(sh, sw), tt::Dim2D(ph, pw));
  expectNear(c, t, want, dt, [](size_t) { return 0.0; }, "maxPool2d");
  expectUnchanged(c, x, "maxPool2d input");
  if (negative && ph + pw > 0) c.cls("negative with padding");
  if (C > 1 && oh * ow > 1 && kh * kw > 1) c.nontrivial();
}

void softmax(Case& c) {
  DType dt = floatType(c);
  Shape s = genShape(c, 1, 4, 60, false);
  int64_t d = c.draw(s.size());
  if (s.size() > 1 && c.chance(1, 200)) s[(d + 1) % s.size()] = c.range(250, 1100);
  if (c.chance(1, 20)) s[d] = c.range(100, 5000);
  int64_t len = s[d], inner = 1;
  for (size_t k = d + 1; k < s.size(); k++) inner *= s[k];
  int64_t outer = numelOf(s) / (len * inner);
  if (numelOf(s) > 40000) c.discard();
  bool lg = c.coin();
  Data kind = c.pick(std::vector<Data>{Data::Small, Data::Wide, Data::Ints});
  auto v = genData(c, numelOf(s), dt, kind);
  int mode = static_cast<int>(c.draw(5));
  // large magnitudes
  if (mode == 0)
    for (auto& x : v) x = roundDt(std::max(-60000.0, std::min(60000.0, x * 1e4)), dt);
  if (mode == 1) {
    double shift = roundDt(std::ldexp(static_cast<double>(c.range(-9, 9)), 7), dt);
    for (auto& x : v) x = roundDt(std::max(-60000.0, std::min(60000.0, x)) + shift, dt);
  }
  if (kind == Data::Wide && mode > 1)
    for (auto& x : v)
      if (!(std::fabs(x) < 1e6)) x = roundDt(std::copysign(1e4, x), dt);
  // masked entries, one entry per row stays
  bool masked = mode == 2 && len > 1;
  if (masked)
    for (int64_t o = 0; o < outer; o++)
      for (int64_t q = 0; q < inner; q++) {
        int64_t keep = c.draw(len);
        Rng r = c.sub();
        for (int64_t k = 0; k < len; k++)
          if (k != keep && r.below(3) == 0) v[o * len * inner + q + k * inner] = -INFINITY;
      }
  int64_t arg = c.coin() ? d : d - static_cast<int64_t>(s.size());
  c.note("%s %s %s dim %lld%s", lg ? "logSoftmax" : "softmax", dtName(dt), str(s).c_str(), (long long)arg, masked ? " masked" : "");
  Made x = makeTensor(c, s, dt, v);
  Arr want(s, 0.0);
  std::vector<double> tol(v.size(), 0.0);
  double e = epsOf(dt), f = 0x1p-23;
  for (int64_t o = 0; o < outer; o++)
    for (int64_t q = 0; q < inner; q++) {
      int64_t b = o * len * inner + q;
      double mx = -INFINITY, sum = 0;
      for (int64_t k = 0; k < len; k++) mx = std::max(mx, x.ref.v[b + k * inner]);
      for (int64_t k = 0; k < len; k++) sum += std::exp(x.ref.v[b + k * inner] - mx);
      for (int64_t k = 0; k < len; k++) {
        double z = x.ref.v[b + k * inner] - mx, l = z - std::log(sum);
        double acc = f * static_cast<double>(len + 4);
        if (lg) {
          want.v[b + k * inner] = l;
          tol[b + k * inner] = 2 * e * std::fabs(l) + acc + f * (std::fabs(z) + std::log(sum)) + tinyOf(dt);
        } else {
          double p = std::exp(l);
          want.v[b + k * inner] = p;
          tol[b + k * inner] = p * (3 * e + acc + (std::isinf(z) ? 0 : 2 * f * std::fabs(z))) + 2 * tinyOf(dt) + 1e-38;
        }
      }
    }
  Tensor t;
  int form = static_cast<int>(c.draw(3));
  if (form == 0) t = lg ? fn::logSoftmax(x.t, arg) : fn::softmax(x.t, arg);
  else if (form == 1) t = lg ? op::logSoftmax(x.t, arg) : op::softmax(x.t, arg);
  else {
    t = rawTensor(s, dt, std::vector<double>(v.size(), 5.0));
    if (lg) op::logSoftmaxOut(t, x.t, arg);
    else op::softmaxOut(t, x.t, arg);
  }
  expectNear(c, t, want, dt, [&](size_t i) { return tol[i]; }, lg ? "logSoftmax" : "softmax");
  if (!lg) {
    auto got = readVec(t);
    for (int64_t o = 0; o < outer; o++)
      for (int64_t q = 0; q < inner; q++) {
        double sum = 0;
        for (int64_t k = 0; k < len; k++) sum += got[o * len * inner + q + k * inner];
        double lim = 4 * e + static_cast<double>(len + 4) * (f + 2 * tinyOf(dt));
        VP_CHECK(c, std::fabs(sum - 1) <= lim, "softmax row %lld sums to %.9g", (long long)o, sum);
      }
  }
  expectUnchanged(c, x, "softmax input");
  if (masked) c.cls("masked entries");
  if (len > 2000) c.cls("long dimension");
  if (len > 1 && numelOf(s) > len) c.nontrivial();
}

void norm(Case& c) {
  DType dt = floatType(c);
  Shape lead = leading(c);
  int64_t D = c.chance(1, 12) && numelOf(lead) < 200 ? c.range(100, 4500) : c.range(1, 24);
  Shape s = lead;
  s.push_back(D);
  if (numelOf(s) > 30000) c.discard();
  bool layer = c.coin(), withW = c.chance(3, 4), withB = layer && c.chance(3, 4);
  double scale = c.pick(std::vector<double>{1, 1, 1e-2, 50, 1000, 1e4});
  auto v = genData(c, numelOf(s), dt, c.coin() ? Data::Small : Data::Ints);
  double shift = c.chance(1, 4) ? static_cast<double>(c.range(-8, 8)) : 0.0;
  for (auto& x : v) x = roundDt(std::max(-60000.0, std::min(60000.0, (x + shift) * scale)), dt);
  float eps = c.pick(std::vector<float>{1e-5f, 1e-8f, 1e-3f, 0.1f});
  c.note("%s %s %s scale %g weight %d bias %d eps %g", layer ? "layerNorm" : "rmsNorm", dtName(dt), str(s).c_str(), scale, withW, withB, eps);
  Made x = makeTensor(c, s, dt, v), w, b;
  if (withW) w = makeTensor(c, {D}, dt, genData(c, D, dt, Data::Small));
  if (withB) b = makeTensor(c, {D}, dt, genData(c, D, dt, Data::Small));
  Arr want(s, 0.0);
  std::vector<double> tol(v.size());
  double f = 0x1p-23, e = epsOf(dt);
  for (int64_t r = 0; r < numelOf(lead); r++) {
    double mean = 0, var = 0, big = 0;
    for (int64_t j = 0; j < D; j++) {
      mean += x.ref.v[r * D + j];
      big = std::max(big, std::fabs(x.ref.v[r * D + j]));
    }
    mean = layer ? mean / static_cast<double>(D) : 0.0;
    for (int64_t j = 0; j < D; j++) var += (x.ref.v[r * D + j] - mean) * (x.ref.v[r * D + j] - mean);
    var /= static_cast<double>(D);
    double inv = 1 / std::sqrt(var + eps);
    double d = layer ? f * static_cast<double>(D + 4) * big : 0.0;  // error of the mean
    for (int64_t j = 0; j < D; j++) {
      double z = (x.ref.v[r * D + j] - mean) * inv, k = withW ? w.ref.v[j] : 1.0, a = withB ? b.ref.v[j] : 0.0;
      want.v[r * D + j] = z * k + a;
      double rel = d * inv;
      double t = rel > 0.05 ? INFINITY : rel * (2 + 2 * std::fabs(z)) + f * static_cast<double>(D + 8) * std::fabs(z);
      tol[r * D + j] = t * std::fabs(k) + 2 * e * (std::fabs(z * k) + std::fabs(a)) + tinyOf(dt) + 1e-30;
      if (std::isinf(t) || (std::fabs(want.v[r * D + j]) > 60000 && dt == DType::Float16)) tol[r * D + j] = INFINITY;
    }
  }
  std::vector<int64_t> ns{D};
  Tensor wt = withW ? w.t : Tensor(), bt = withB ? b.t : Tensor();
  Tensor t;
  if (layer) t = fn::layerNorm(x.t, tt::IntArrayView(ns), wt, bt, eps);
  else t = fn::rmsNorm(x.t, tt::IntArrayView(ns), wt, eps);
  auto got = readVec(t);
  expectShape(c, t, s, dt, "norm");
  for (size_t i = 0; i < got.size(); i++)
    if (!std::isinf(tol[i]))
      VP_CHECK(c, near(got[i], want.v[i], tol[i]), "element %zu is %.9g, expected %.9g (tolerance %g)", i, got[i], want.v[i], tol[i]);
  expectUnchanged(c, x, "norm input");
  if (withW) expectUnchanged(c, w, "norm weight");
  if (withB) expectUnchanged(c, b, "norm bias");
  if (D > 100) c.cls("long rows");
  if (D > 1 && numelOf(lead) > 1) c.nontrivial();
}

void rope(Case& c) {
  DType dt = floatType(c);
  int64_t half = c.chance(1, 15) ? c.range(9, 70) : c.range(1, 8), D = 2 * half;
  int64_t ctx = c.chance(1, 10) ? c.range(100, 3000) : c.range(1, 12);
  float theta = c.pick(std::vector<float>{10000.f, 500000.f, 10.f, 100.f, 2.f});
  std::optional<tt::RopeScalingConfig> sc;
  if (c.coin()) {
    float lo = c.pick(std::vector<float>{1.f, 0.5f, 2.f}), hi = lo * c.pick(std::vector<float>{2.f, 4.f, 1.5f});
    sc.emplace(c.pick(std::vector<float>{8.f, 2.f, 32.f}), hi, lo, c.pick(std::vector<int64_t>{8192, 16, 64, 200}));
  }
  c.note("rope %s head %lld context %lld base %g", dtName(dt), (long long)D, (long long)ctx, theta);
  if (sc) c.note(" scaling %g %g %g %lld", sc->factor, sc->highFreqFactor, sc->lowFreqFactor, (long long)sc->originalContextLength);
  Tensor table = op::ropeInit(D, ctx, theta, sc, tt::options::dtype(dt));
  expectShape(c, table, {ctx, D, 2}, dt, "rope table");
  auto tv = readVec(table);
  std::vector<double> inv(half), plain(half);
  for (int64_t i = 0; i < half; i++) {
    double w = std::pow(static_cast<double>(theta), -2.0 * static_cast<double>(i) / static_cast<double>(D));
    plain[i] = w;
    if (sc) {
      double wave = 2 * M_PI / w, len = static_cast<double>(sc->originalContextLength);
      double lo = len / sc->lowFreqFactor, hi = len / sc->highFreqFactor;
      if (wave > lo) {
        w /= sc->factor;
        c.cls("low frequency");
      } else if (wave >= hi) {
        double sm = (len / wave - sc->lowFreqFactor) / (sc->highFreqFactor - sc->lowFreqFactor);
        w = (1 - sm) * w / sc->factor + sm * w;
        c.cls("interpolated frequency");
      }
    }
    inv[i] = w;
  }
  for (int64_t p = 0; p < ctx; p++)
    for (int64_t i = 0; i < D; i++) {
      double a = static_cast<double>(p) * inv[i % half], tol = (a + static_cast<double>(p) * plain[i % half]) * 4e-6 + 2 * epsOf(dt) + 1e-6;
      size_t at = (p * D + i) * 2;
      VP_CHECK(c, near(tv[at], std::cos(a), tol) && near(tv[at + 1], std::sin(a), tol),
               "table at position %lld, dimension %lld is (%.7g, %.7g), expected (%.7g, %.7g)", (long long)p, (long long)i, tv[at], tv[at + 1],
               std::cos(a), std::sin(a));
    }
  // application, from the table's own values
  int64_t B = c.range(1, 3), Hn = c.range(1, 3), L = c.range(1, std::min<int64_t>(ctx, c.chance(1, 80) ? 300 : 5)), off = c.draw(ctx - L + 1);
  if (c.chance(1, 60)) (c.coin() ? B : Hn) = c.range(4, 70);
  Made x = makeTensor(c, {B, Hn, L, D}, dt, genData(c, B * Hn * L * D, dt, Data::Small));
  c.note(" apply [%lld,%lld,%lld,%lld] offset %lld", (long long)B, (long long)Hn, (long long)L, (long long)D, (long long)off);
  Arr want = x.ref;
  for (int64_t r = 0; r < B * Hn; r++)
    for (int64_t t = 0; t < L; t++)
      for (int64_t i = 0; i < half; i++) {
        size_t a = (r * L + t) * D + i, b = a + half, k = ((off + t) * D + i) * 2;
        double x1 = x.ref.v[a], x2 = x.ref.v[b];
        want.v[a] = x1 * tv[k] - x2 * tv[k + 1];
        want.v[b] = x2 * tv[k] + x1 * tv[k + 1];
      }
  Tensor y = off == 0 && c.coin() ? fn::ropeApply(x.t, table) : fn::ropeApply(x.t, table, off);
  expectNear(c, y, want, dt, [&](size_t i) { return 2 * epsOf(dt) * std::fabs(want.v[i]) + 4e-6; }, "ropeApply");
  expectUnchanged(c, x, "rope input");
  if (off > 0) c.cls("offset");
  if (L > 1 && half > 1) c.nontrivial();
}

void siluMul(Case& c) {
  DType dt = floatType(c);
  Shape lead = leading(c);
  int64_t D = numelOf(lead) >= 200 ? c.range(1, 7) : size(c, 7, c.chance(1, 20) ? 3000 : 100);
  Shape s = lead;
  s.push_back(2 * D);
  c.note("siluMul %s %s", dtName(dt), str(s).c_str());
  auto v = genData(c, numelOf(s), dt, Data::Small);
  if (c.chance(1, 4))
    for (auto& x : v) x = roundDt(x * 30, dt);
  Made x = makeTensor(c, s, dt, v);
  Shape so = lead;
  so.push_back(D);
  Arr want(so, 0.0);
  for (int64_t r = 0; r < numelOf(lead); r++)
    for (int64_t j = 0; j < D; j++) {
      double g = x.ref.v[r * 2 * D + j], u = x.ref.v[r * 2 * D + D + j];
      want.v[r * D + j] = g / (1 + std::exp(-g)) * u;
    }
  Tensor t = c.coin() ? fn::siluMul(x.t) : op::siluMul(x.t);
  expectNear(c, t, want, dt, [&](size_t i) { return (3 * epsOf(dt) + 3e-5) * std::fabs(want.v[i]) + 130 * tinyOf(dt) + 1e-33; }, "siluMul");
  expectUnchanged(c, x, "siluMul input");
  if (numelOf(lead) > 1 && D > 1) c.nontrivial();
}

void embedding(Case& c) {
  DType dt = floatType(c);
  bool tall = c.chance(1, 150), wide = !tall && c.chance(1, 150);
  int64_t V = tall ? c.range(100, 5000) : size(c, 6, 100), D = wide ? c.range(40, 2000) : tall ? c.range(1, 6) : size(c, 6, 40);
  Shape si = c.chance(1, 150) && !wide ? Shape{c.range(16, 1100)} : genShape(c, 1, 3, 16, true);
  std::vector<double> idx(numelOf(si));
  for (auto& x : idx) x = static_cast<double>(c.draw(V));
  c.note("embedding %s table [%lld,%lld] indices %s %s", dtName(dt), (long long)V, (long long)D, str(si).c_str(), str(idx, 8).c_str());
  Made w = makeTensor(c, {V, D}, dt, genData(c, V * D, dt, Data::Distinct));
  Made ix = makeTensor(c, si, DType::Int64, idx);
  Shape so = si;
  so.push_back(D);
  Arr want(so, 0.0);
  for (size_t i = 0; i < idx.size(); i++)
    for (int64_t j = 0; j < D; j++) want.v[i * D + j] = w.ref.v[static_cast<int64_t>(idx[i]) * D + j];
  Tensor t = fn::embedding(ix.t, w.t);
  expectExact(c, t, want, dt, "embedding");
  expectUnchanged(c, w, "embedding table");
  expectUnchanged(c, ix, "embedding indices");
  if (idx.size() > 1 && V > 1) c.nontrivial();
}

// Number of successes outside this range has a probability below 1e-10.
bool plausible(double kept, double n, double q) {
  double sd = std::sqrt(n * q * (1 - q));
  return std::fabs(kept - n * q) <= 6.6 * sd + 8;
}

void dropout(Case& c) {
  DType dt = floatType(c);
  bool large = c.chance(1, 4);
  Shape s = large ? Shape{c.range(10, 40), c.range(10, 40)} : genShape(c, 0, 4, 40, false);
  float p = c.pick(std::vector<float>{0.f, 0.1f, 0.25f, 0.5f, 0.75f, 0.9f, 1.f});
  bool training = c.chance(3, 4), rg = c.coin() && dt == DType::Float32;
  tt::manualSeed(static_cast<unsigned long>(c.bits() % 1000003));
  for (uint64_t k = c.draw(4); k-- > 0;) (void)Tensor::rand({static_cast<int64_t>(c.range(1, 5))});
  auto v = genData(c, numelOf(s), dt, Data::Small);
  for (auto& x : v)
    if (std::fabs(x) < 0.01) x = 1;
  c.note("dropout %s %s p %g training %d", dtName(dt), str(s).c_str(), p, training);
  Made x = makeTensor(c, s, dt, v, true, rg);
  Tensor t = fn::dropout(x.t, p, training);
  expectShape(c, t, s, dt, "dropout");
  auto got = readVec(t);
  double keep = 1.0 - static_cast<double>(p);
  size_t kept = 0;
  std::vector<double> grad(v.size());
  for (size_t i = 0; i < got.size(); i++) {
    if (!training) {
      VP_CHECK(c, got[i] == x.ref.v[i], "evaluation: element %zu is %.9g, not the input's %.9g", i, got[i], x.ref.v[i]);
      grad[i] = 1;
      continue;
    }
    if (got[i] == 0) continue;
    kept++;
    grad[i] = 1 / keep;
    VP_CHECK(c, p < 1, "probability one keeps element %zu", i);
    double w = x.ref.v[i] / keep;
    VP_CHECK(c, near(got[i], w, (2 * epsOf(dt) + 2e-7) * std::fabs(w)), "element %zu is %.9g, neither zero nor %.9g", i, got[i], w);
  }
  if (training) {
    VP_CHECK(c, plausible(static_cast<double>(kept), static_cast<double>(got.size()), keep), "%zu of %zu elements kept with probability %g", kept,
             got.size(), keep);
    if (large && p > 0.05 && p < 0.95) {
      // positions are independent: rows differ
      size_t rowLen = s[1], equal = 0;
      for (int64_t r = 1; r < s[0]; r++) {
        size_t same = 0;
        for (size_t j = 0; j < rowLen; j++) same += (got[r * rowLen + j] == 0) == (got[j] == 0);
        equal += same == rowLen;
      }
      VP_CHECK(c, equal <= static_cast<size_t>(s[0]) / 2 + 3, "%zu of %lld rows have the same mask", equal, (long long)s[0]);
    }
  }
  expectUnchanged(c, x, "dropout input");
  if (rg) {
    Tensor up = rawTensor(s, dt, std::vector<double>(v.size(), 1.0));
    t.backward(up);
    auto g = readVec(x.t.grad());
    for (size_t i = 0; i < g.size(); i++)
      VP_CHECK(c, near(g[i], grad[i], 1e-5 * (1 + grad[i])), "gradient element %zu is %.9g, expected %.9g", i, g[i], grad[i]);
    c.cls("gradient");
  }
  if (training && p > 0 && p < 1 && got.size() > 8) c.nontrivial();
}

struct Att {
  int64_t B, Hn, L, S, D, Dv;
  int rank;
  Shape shape(int64_t rows, int64_t cols) const {
    Shape s;
    if (rank >= 4) s.push_back(B);
    if (rank >= 3) s.push_back(Hn);
    s.push_back(rows);
    s.push_back(cols);
    return s;
  }
};

void attention(Case& c) {
  DType dt = floatType(c);
  Att a;
  a.rank = static_cast<int>(c.range(2, 4));
  a.B = a.rank >= 4 ? c.range(1, 3) : 1;
  a.Hn = a.rank >= 3 ? c.range(1, 3) : 1;
  bool wide = c.chance(1, 150);  // sizes beyond any block a kernel may work in
  a.L = wide ? c.range(1, 150) : c.range(1, 6);
  bool causal = c.chance(1, 3);
  if (!wide && a.rank >= 3 && c.chance(1, 150)) (a.rank >= 4 && c.coin() ? a.B : a.Hn) = c.range(4, 70);
  a.S = c.coin() ? a.L : wide ? c.range(1, 150) : size(c, 6, 40);
  a.D = wide ? c.range(1, 70) : c.range(1, 8);
  a.Dv = wide ? c.range(1, 70) : c.range(1, 6);
  int mask = causal ? 0 : static_cast<int>(c.draw(3));
  std::optional<float> scale;
  if (c.chance(1, 3)) scale = c.pick(std::vector<float>{1.f, 0.1f, 2.f, 0.f});
  Shape sq = a.shape(a.L, a.D), sk = a.shape(a.S, a.D), sv = a.shape(a.S, a.Dv);
  int64_t R = a.B * a.Hn;
  c.note("attention %s q%s k%s v%s causal %d mask %d", dtName(dt), str(sq).c_str(), str(sk).c_str(), str(sv).c_str(), causal, mask);
  if (scale) c.note(" scale %g", *scale);
  Made q = makeTensor(c, sq, dt, genData(c, numelOf(sq), dt, Data::Unit));
  Made k = makeTensor(c, sk, dt, genData(c, numelOf(sk), dt, Data::Unit));
  Made v = makeTensor(c, sv, dt, genData(c, numelOf(sv), dt, Data::Small));
  Made m;
  Shape sm;
  if (mask) {
    sm = c.chance(1, 2) || a.rank == 2 ? Shape{a.L, a.S} : a.shape(a.L, a.S);
    if (sm.size() > 2 && c.coin()) sm[sm.size() - 3] = 1;
    if (c.chance(1, 5)) sm[sm.size() - 2] = 1;
    std::vector<double> mv = genData(c, numelOf(sm), mask == 1 ? DType::Bool : dt, Data::Unit);
    int64_t rows = numelOf(sm) / a.S;
    for (int64_t r = 0; r < rows; r++) {
      int64_t keep = c.draw(a.S);
      if (mask == 1) mv[r * a.S + keep] = 1;
      else if (c.coin())
        for (int64_t j = 0; j < a.S; j++)
          if (j != keep && (j + r) % 3 == 0) mv[r * a.S + j] = -INFINITY;
    }
    m = makeTensor(c, sm, mask == 1 ? DType::Bool : dt, mv);
    c.note(" mask%s", str(sm).c_str());
  }
  double sf = scale ? *scale : 1 / std::sqrt(static_cast<double>(a.D));
  Arr want(a.shape(a.L, a.Dv), 0.0);
  std::vector<double> tol(want.v.size());
  double e = epsOf(dt);
  Shape full{a.B, a.Hn, a.L, a.S};
  for (int64_t r = 0; r < R; r++)
    for (int64_t i = 0; i < a.L; i++) {
      std::vector<double> sc(a.S);
      double mx = -INFINITY, sum = 0, err = 0;
      for (int64_t j = 0; j < a.S; j++) {
        double d = 0, mag = 0;
        for (int64_t x = 0; x < a.D; x++) {
          double p = q.ref.v[(r * a.L + i) * a.D + x] * k.ref.v[(r * a.S + j) * a.D + x];
          d += p;
          mag += std::fabs(p);
        }
        sc[j] = d * sf;
        double bias = 0;
        if (causal && j > i) sc[j] = -INFINITY;
        if (mask) {
          double mv = m.ref.v[bcastOffset({r / a.Hn, r % a.Hn, i, j}, sm)];
          if (mask == 1) {
            if (mv == 0) sc[j] = -INFINITY;
          } else {
            bias = mv;
            sc[j] += mv;
          }
        }
        if (!std::isinf(sc[j])) err = std::max(err, e * ((a.D + 3) * mag * std::fabs(sf) + 2 * std::fabs(bias) + std::fabs(sc[j])) + 1e-6);
        mx = std::max(mx, sc[j]);
      }
      for (auto& x : sc) sum += std::exp(x - mx);
      for (int64_t x = 0; x < a.Dv; x++) {
        double o = 0, mag = 0;
        for (int64_t j = 0; j < a.S; j++) {
          double t = std::exp(sc[j] - mx) / sum * v.ref.v[(r * a.S + j) * a.Dv + x];
          o += t;
          mag += std::fabs(t);
        }
        want.v[(r * a.L + i) * a.Dv + x] = o;
        tol[(r * a.L + i) * a.Dv + x] = mag * (2 * std::expm1(2 * err) + e * static_cast<double>(a.S + 8)) + 8 * a.S * tinyOf(dt) + 1e-7;
      }
    }
  Tensor mt = mask ? m.t : Tensor();
  Tensor t;
  if (!mask && !scale && c.coin()) t = fn::sdpAttention(q.t, k.t, v.t, causal);
  else t = fn::sdpAttention(q.t, k.t, v.t, causal, mt, 0.f, scale);
  expectNear(c, t, want, dt, [&](size_t i) { return tol[i]; }, "attention");
  expectUnchanged(c, q, "query");
  expectUnchanged(c, k, "key");
  expectUnchanged(c, v, "value");
  if (mask) expectUnchanged(c, m, "mask");
  if (causal) {
    // later keys and values do not matter
    int64_t cut = c.draw(a.L);
    auto k2 = k.ref.v, v2 = v.ref.v;
    for (int64_t r = 0; r < R; r++)
      for (int64_t j = cut + 1; j < a.S; j++) {
        for (int64_t x = 0; x < a.D; x++) k2[(r * a.S + j) * a.D + x] = roundDt(1.5 + 0.25 * static_cast<double>((j + x) % 5), dt);
        for (int64_t x = 0; x < a.Dv; x++) v2[(r * a.S + j) * a.Dv + x] = roundDt(-9.0 + static_cast<double>((j + x) % 5), dt);
      }
    auto x = readVec(t), y = readVec(fn::sdpAttention(q.t, rawTensor(sk, dt, k2), rawTensor(sv, dt, v2), true, {}, 0.f, scale));
    for (int64_t r = 0; r < R; r++)
      for (int64_t i = 0; i <= cut; i++)
        for (int64_t z = 0; z < a.Dv; z++) {
          size_t at = (r * a.L + i) * a.Dv + z;
          VP_CHECK(c, sameValue(x[at], y[at]), "query %lld depends on keys after position %lld: %.9g became %.9g", (long long)i, (long long)cut, x[at],
                   y[at]);
        }
    c.cls("causal");
  }
  if (mask) c.cls(mask == 1 ? "boolean mask" : "additive mask");
  if (a.L > 1 && a.S > 1 && a.D > 1) c.nontrivial();
}

// Attention dropout: with equal scores and unit values each output is the kept share of the weights, rescaled.
void attentionDropout(Case& c) {
  int64_t L = c.range(1, 12), S = c.range(50, 400), D = c.range(1, 4);
  float p = c.pick(std::vector<float>{0.1f, 0.3f, 0.5f, 0.8f});
  tt::manualSeed(static_cast<unsigned long>(c.bits() % 1000003));
  c.note("attention dropout L %lld S %lld p %g", (long long)L, (long long)S, p);
  Tensor q = rawTensor({L, D}, DType::Float32, std::vector<double>(L * D, 0.0));
  Tensor k = rawTensor({S, D}, DType::Float32, genData(c, S * D, DType::Float32, Data::Unit));
  Tensor v = rawTensor({S, 1}, DType::Float32, std::vector<double>(S, 1.0));
  auto got = readVec(fn::sdpAttention(q, k, v, false, {}, p));
  double keep = 1.0 - static_cast<double>(p);
  for (size_t i = 0; i < got.size(); i++) {
    double kept = got[i] * static_cast<double>(S) * keep;
    VP_CHECK(c, std::fabs(kept - std::round(kept)) < 0.01, "row %zu keeps %.6g of %lld equal weights", i, kept, (long long)S);
    VP_CHECK(c, plausible(kept, static_cast<double>(S), keep), "row %zu keeps %.6g of %lld weights with drop probability %g", i, kept, (long long)S, p);
  }
  c.nontrivial();
}

void defaults(Case& c) {
  auto make = [&](Shape s) { return rawTensor(s, DType::Float32, genData(c, numelOf(s), DType::Float32, Data::Small)); };
  int64_t B = c.range(1, 3), C = c.range(1, 3), H = c.range(3, 6), W = c.range(3, 6), O = c.range(1, 3), D = 2 * c.range(1, 3);
  Tensor none;
  switch (c.draw(14)) {
    case 0: {
      Tensor x = make({B, C}), w = make({O, C});
      VP_SAME(fn::linear(x, w), fn::linear(x, w, none));
      break;
    }
    case 1: {
      Tensor x = make({B, C, H, W});
      VP_SAME(fn::maxPool2d(x, tt::Dim2D(2, 3), tt::Dim2D(2, 1)), fn::maxPool2d(x, tt::Dim2D(2, 3), tt::Dim2D(2, 1), tt::Dim2D(0, 0)));
      break;
    }
    case 2: {
      Tensor x = make({B, C, H, W}), w = make({O, C, 2, 3}), b = make({O});
      VP_SAME(fn::conv2d(x, w), fn::conv2d(x, w, none, tt::Dim2D(1, 1), tt::Dim2D(0, 0)));
      VP_SAME(fn::conv2d(x, w, b), fn::conv2d(x, w, b, tt::Dim2D(1, 1), tt::Dim2D(0, 0)));
      VP_SAME(fn::conv2d(x, w, b, tt::Dim2D(2, 1)), fn::conv2d(x, w, b, tt::Dim2D(2, 1), tt::Dim2D(0, 0)));
      break;
    }
    case 3: {
      double k = c.oneOf({1.0, 1e-3});  // small values make the term under the root visible
      Shape s{B, C};
      auto v = genData(c, B * C, DType::Float32, Data::Small);
      for (auto& t : v) t *= k;
      Tensor x = rawTensor(s, DType::Float32, v), w = make({C}), b = make({C});
      std::vector<int64_t> ns{C};
      VP_SAME(fn::layerNorm(x, tt::IntArrayView(ns), w, b), fn::layerNorm(x, tt::IntArrayView(ns), w, b, 1e-5f));
      VP_SAME(fn::rmsNorm(x, tt::IntArrayView(ns), w), fn::rmsNorm(x, tt::IntArrayView(ns), w, 1e-8f));
      break;
    }
    case 4: {
      Tensor q = make({B, C, H, D}), k = make({B, C, H, D}), v = make({B, C, H, D});
      bool causal = c.coin();
      VP_SAME(fn::sdpAttention(q, k, v), fn::sdpAttention(q, k, v, false, none, 0.f, std::nullopt));
      VP_SAME(fn::sdpAttention(q, k, v, causal), fn::sdpAttention(q, k, v, causal, none, 0.f, std::nullopt));
      VP_SAME(fn::sdpAttention(q, k, v, false, none, 0.f), fn::sdpAttention(q, k, v, false, none, 0.f, 1.f / std::sqrt(static_cast<float>(D))));
      break;
    }
    case 5: {
      Tensor x = make({B, C, H, D}), t = op::ropeInit(D, 16, 100.f, std::nullopt, tt::Options());
      VP_SAME(fn::ropeApply(x, t), fn::ropeApply(x, t, 0));
      break;
    }
    case 6: {
      Tensor x = make({B, 40});
      uint64_t seed = c.draw(1000);
      tt::manualSeed(seed);
      Tensor a = fn::dropout(x);
      tt::manualSeed(seed);
      VP_SAME(a, fn::dropout(x, 0.5f, true));
      tt::manualSeed(seed);
      Tensor d = fn::dropout(x, 0.25f);
      tt::manualSeed(seed);
      VP_SAME(d, fn::dropout(x, 0.25f, true));
      tt::manualSeed(seed);
      nn::Dropout m;
      Tensor e = m(x);
      tt::manualSeed(seed);
      VP_SAME(e, fn::dropout(x, 0.5f, true));
      break;
    }
    case 7: {
      Tensor x = make({B, C, H, W});
      nn::MaxPool2D m(tt::Dim2D(2, 3)), n(tt::Dim2D(2, 1), tt::Dim2D(1, 2));
      VP_SAME(m(x), fn::maxPool2d(x, tt::Dim2D(2, 3), tt::Dim2D(2, 3), tt::Dim2D(0, 0)));
      VP_SAME(n(x), fn::maxPool2d(x, tt::Dim2D(2, 1), tt::Dim2D(1, 2), tt::Dim2D(0, 0)));
      break;
    }
    case 8: {
      Tensor x = make({B, C, H, W});
      nn::Conv2D m(C, O, tt::Dim2D(2, 3)), n(C, O, tt::Dim2D(2, 1), tt::Dim2D(2, 1));
      VP_CHECK(c, m.bias().defined() && m.parameters().size() == 2, "a convolution has no bias by default");
      VP_SAME(m(x), fn::conv2d(x, m.weight(), m.bias(), tt::Dim2D(1, 1), tt::Dim2D(0, 0)));
      VP_SAME(n(x), fn::conv2d(x, n.weight(), n.bias(), tt::Dim2D(2, 1), tt::Dim2D(0, 0)));
      break;
    }
    case 9: {
      Tensor x = make({B, C});
      nn::Linear m(C, O);
      VP_CHECK(c, m.bias().defined() && m.parameters().size() == 2, "a linear layer has no bias by default");
      VP_SAME(m(x), fn::linear(x, m.weight(), m.bias()));
      break;
    }
    case 10: {
      Tensor x = make({B, C, H, W});
      nn::Flatten m, n(1);
      VP_SAME(m(x), fn::flatten(x, 0, -1));
      VP_SAME(n(x), fn::flatten(x, 1, -1));
      break;
    }
    case 11: {
      double k = c.oneOf({1.0, 1e-2});
      auto v = genData(c, B * C, DType::Float32, Data::Small);
      for (auto& t : v) t *= k;
      Tensor x = rawTensor({B, C}, DType::Float32, v);
      std::vector<int64_t> ns{C};
      tt::IntArrayView nv(ns);
      nn::LayerNorm m(nv);
      nn::RMSNorm r(nv);
      VP_CHECK(c, m.parameters().size() == 2, "a layer norm has no bias by default");
      VP_SAME(m(x), fn::layerNorm(x, nv, *m.parameters()[0], *m.parameters()[1], 1e-5f));
      VP_SAME(r(x), fn::rmsNorm(x, nv, r.weight(), 1e-5f));
      break;
    }
    case 12: {
      int64_t len = c.range(1, 20);
      if (c.chance(1, 20)) {
        nn::RoPE m(D), n(D, 4096, 10000.f);
        Tensor x = make({1, 1, H, D});
        int64_t off = c.oneOf<int64_t>({0, 4096 - H});
        VP_SAME(m.forward(x, off), n.forward(x, off));
        VP_SAME(m.forward(x), n.forward(x, 0));
      } else {
        nn::RoPE m(D, len + H), n(D, len + H, 10000.f, std::nullopt);
        Tensor x = make({1, 1, H, D});
        VP_SAME(m.forward(x, len), n.forward(x, len));
        VP_SAME(n.forward(x, len), fn::ropeApply(x, op::ropeInit(D, len + H, 10000.f, std::nullopt, tt::Options()), len));
      }
      break;
    }
    default: {
      nn::Linear l(C, O);
      nn::Conv2D k(C, O, tt::Dim2D(1, 2));
      nn::Embedding e(H, D);
      for (auto* m : {static_cast<nn::Module*>(&l), static_cast<nn::Module*>(&k), static_cast<nn::Module*>(&e)})
        for (auto* t : m->parameters()) {
          VP_CHECK(c, t->dtype() == DType::Float32 && t->requiresGrad(), "a parameter of a new layer has type %s and %s gradients", dtName(t->dtype()),
                   t->requiresGrad() ? "requires" : "does not require");
          c.nontrivial();
        }
    }
  }
}

}  // namespace

int main(int argc, char** argv) {
  Suite s;
  s.property = "C09";
  s.rule = "more than one row, channel, position or class takes part (dropout: a probability strictly between zero and one)";
  s.assumptions = {"pooling padding is at most half the kernel, attention rows keep at least one position, normalised rows are not empty",
                   "tolerances follow from unit round-off times the size of the accumulated terms",
                   "dropout masks are judged by counts whose bounds fail a correct generator less than once in 10^10"};
  s.init = noCache;
  s.props = {{"linear", linear, 200000, 1500000},      {"conv2d", conv, 150000, 1000000},
             {"maxPool2d", pool, 200000, 1500000},     {"softmax", softmax, 250000, 2000000},
             {"norm", norm, 200000, 1500000},          {"rope", rope, 150000, 1000000},
             {"siluMul", siluMul, 200000, 1500000},    {"embedding", embedding, 200000, 1500000},
             {"dropout", dropout, 200000, 1500000},    {"attention", attention, 200000, 1500000},
             {"attentionDropout", attentionDropout, 4000, 100000},
             {"defaults", defaults, 60000, 600000}};
  return runSuite(s, argc, argv);
}
