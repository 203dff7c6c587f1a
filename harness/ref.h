// Reference side of the checks: plain shapes and double arithmetic, written independently of the library.
#pragma once

#include <cmath>
#include <limits>
#include <numeric>
#include <string>
#include <vector>

#include "engine.h"

#include "Tensor/CachedAllocator.h"
#include "Tensor/Tensor.h"
#include "Functions.h"

namespace vp {

namespace tt = tinytorch;
using Shape = std::vector<int64_t>;
using tt::DType;
using tt::Tensor;

struct Arr {
  Shape shape;
  std::vector<double> v;
  Arr() = default;
  Arr(Shape s, std::vector<double> d) : shape(std::move(s)), v(std::move(d)) {}
  explicit Arr(Shape s, double fill = 0) : shape(std::move(s)) {
    int64_t n = 1;
    for (auto d : shape) n *= d;
    v.assign(n, fill);
  }
  int64_t numel() const { return static_cast<int64_t>(v.size()); }
  int64_t dim() const { return static_cast<int64_t>(shape.size()); }
};

inline int64_t numelOf(const Shape& s) {
  int64_t n = 1;
  for (auto d : s) n *= d;
  return n;
}
inline Shape stridesOf(const Shape& s) {
  Shape st(s.size());
  int64_t k = 1;
  for (int64_t i = static_cast<int64_t>(s.size()) - 1; i >= 0; i--) {
    st[i] = k;
    k *= s[i];
  }
  return st;
}
inline std::string str(const Shape& s) {
  std::string o = "[";
  for (size_t i = 0; i < s.size(); i++) o += (i ? "," : "") + std::to_string(s[i]);
  return o + "]";
}
inline std::string str(const std::vector<double>& v, size_t cap = 24) {
  std::string o = "{";
  for (size_t i = 0; i < v.size() && i < cap; i++) {
    char b[40];
    snprintf(b, sizeof(b), "%s%.9g", i ? ", " : "", v[i]);
    o += b;
  }
  if (v.size() > cap) o += ", ...(" + std::to_string(v.size()) + ")";
  return o + "}";
}
inline Shape toShape(tt::IntArrayView v) { return Shape(v.begin(), v.end()); }

// Multi-index iteration.
template <typename F>
void forIndex(const Shape& s, F f) {
  int64_t n = numelOf(s);
  Shape idx(s.size(), 0);
  for (int64_t i = 0; i < n; i++) {
    f(idx, i);
    for (int64_t d = static_cast<int64_t>(s.size()) - 1; d >= 0; d--) {
      if (++idx[d] < s[d]) break;
      idx[d] = 0;
    }
  }
}
inline int64_t offsetOf(const Shape& idx, const Shape& strides) {
  int64_t o = 0;
  for (size_t i = 0; i < idx.size(); i++) o += idx[i] * strides[i];
  return o;
}

// Offset of the element of an operand of shape s that broadcasting aligns with index idx.
inline int64_t bcastOffset(const Shape& idx, const Shape& s) {
  Shape st = stridesOf(s);
  int64_t o = 0;
  size_t lead = idx.size() - s.size();
  for (size_t i = 0; i < s.size(); i++) o += (s[i] == 1 ? 0 : idx[lead + i]) * st[i];
  return o;
}
inline bool bcastShape(const Shape& a, const Shape& b, Shape& out) {
  size_t n = std::max(a.size(), b.size());
  out.assign(n, 1);
  for (size_t i = 0; i < n; i++) {
    int64_t x = i < n - a.size() ? 1 : a[i - (n - a.size())];
    int64_t y = i < n - b.size() ? 1 : b[i - (n - b.size())];
    if (x != y && x != 1 && y != 1) return false;
    out[i] = x == 1 ? y : x;
  }
  return true;
}

// ---- data types -------------------------------------------------------------------------------

inline bool isFloatT(DType t) { return t == DType::Float32 || t == DType::Float16 || t == DType::BFloat16; }
inline const char* dtName(DType t) { return tt::dtypeToString(t); }

// Independent rounding to a binary format with p significand bits and the given exponent range.
inline double roundTo(double x, int p, int emin, double maxFinite) {
  if (std::isnan(x) || std::isinf(x) || x == 0) return x;
  int e;
  std::frexp(x, &e);  // x = m * 2^e, 0.5 <= |m| < 1
  int q = std::max(e - p, emin - p);
  double scaled = std::ldexp(x, -q);
  double r = std::nearbyint(scaled);  // ties to even
  double y = std::ldexp(r, q);
  if (std::fabs(y) > maxFinite) return std::copysign(std::numeric_limits<double>::infinity(), x);
  if (y == 0) return std::copysign(0.0, x);
  return y;
}
inline double roundF32(double x) { return static_cast<double>(static_cast<float>(x)); }
inline double roundF16(double x) { return roundTo(x, 11, -13, 65504.0); }
inline double roundBF16(double x) { return roundTo(x, 8, -125, 3.3895313892515355e38); }
inline double roundDt(double x, DType t) {
  switch (t) {
    case DType::Float32: return roundF32(x);
    case DType::Float16: return roundF16(x);
    case DType::BFloat16: return roundBF16(x);
    default: return x;
  }
}
// Unit round-off.
inline double epsOf(DType t) {
  switch (t) {
    case DType::Float32: return 0x1p-24;
    case DType::Float16: return 0x1p-11;
    case DType::BFloat16: return 0x1p-8;
    default: return 0;
  }
}
// Smallest positive (subnormal) step.
inline double tinyOf(DType t) {
  switch (t) {
    case DType::Float32: return 0x1p-149;
    case DType::Float16: return 0x1p-24;
    case DType::BFloat16: return 0x1p-133;
    default: return 0;
  }
}

// ---- bridging ---------------------------------------------------------------------------------

inline double halfBitsToDouble(uint16_t h) {
  int s = h >> 15, e = (h >> 10) & 31, m = h & 1023;
  double v;
  if (e == 31) v = m ? std::numeric_limits<double>::quiet_NaN() : std::numeric_limits<double>::infinity();
  else if (e == 0) v = std::ldexp(m, -24);
  else v = std::ldexp(1024 + m, e - 25);
  return s ? -v : v;
}
inline uint16_t doubleToHalfBits(double x) {  // x must be representable
  uint16_t s = std::signbit(x) ? 0x8000 : 0;
  if (std::isnan(x)) return s | 0x7e00;
  double a = std::fabs(x);
  if (std::isinf(a)) return s | 0x7c00;
  if (a == 0) return s;
  int e;
  std::frexp(a, &e);
  e -= 1;  // a = 1.f * 2^e
  if (e < -14) return s | static_cast<uint16_t>(std::ldexp(a, 24));
  return s | static_cast<uint16_t>((e + 15) << 10) | static_cast<uint16_t>(std::ldexp(a, 10 - e) - 1024);
}
inline double bfBitsToDouble(uint16_t b) {
  uint32_t w = static_cast<uint32_t>(b) << 16;
  float f;
  memcpy(&f, &w, 4);
  return f;
}
inline uint16_t doubleToBfBits(double x) {  // x must be representable
  float f = static_cast<float>(x);
  uint32_t w;
  memcpy(&w, &f, 4);
  if (std::isnan(x)) return static_cast<uint16_t>((w >> 16) | 0x40);
  return static_cast<uint16_t>(w >> 16);
}

// Writes values (already representable) as raw memory of the data type.
inline void encode(const std::vector<double>& v, DType t, void* out) {
  for (size_t i = 0; i < v.size(); i++) {
    switch (t) {
      case DType::Float32: static_cast<float*>(out)[i] = static_cast<float>(v[i]); break;
      case DType::Float16: static_cast<uint16_t*>(out)[i] = doubleToHalfBits(v[i]); break;
      case DType::BFloat16: static_cast<uint16_t*>(out)[i] = doubleToBfBits(v[i]); break;
      case DType::Int32: static_cast<int32_t*>(out)[i] = static_cast<int32_t>(v[i]); break;
      case DType::Int64: static_cast<int64_t*>(out)[i] = static_cast<int64_t>(v[i]); break;
      case DType::Bool: static_cast<uint8_t*>(out)[i] = v[i] != 0; break;
      default: break;
    }
  }
}
inline std::vector<double> decode(const void* p, int64_t n, DType t) {
  std::vector<double> v(n);
  for (int64_t i = 0; i < n; i++) {
    switch (t) {
      case DType::Float32: v[i] = static_cast<const float*>(p)[i]; break;
      case DType::Float16: v[i] = halfBitsToDouble(static_cast<const uint16_t*>(p)[i]); break;
      case DType::BFloat16: v[i] = bfBitsToDouble(static_cast<const uint16_t*>(p)[i]); break;
      case DType::Int32: v[i] = static_cast<const int32_t*>(p)[i]; break;
      case DType::Int64: v[i] = static_cast<double>(static_cast<const int64_t*>(p)[i]); break;
      case DType::Bool: v[i] = static_cast<const uint8_t*>(p)[i]; break;
      default: break;
    }
  }
  return v;
}

inline Tensor rawTensor(const Shape& shape, DType t, const std::vector<double>& v, bool requiresGrad = false) {
  Tensor r(tt::IntArrayView(shape), tt::options::dtype(t).requiresGrad(requiresGrad));
  if (!v.empty()) encode(v, t, r.dataPtr<>());
  return r;
}
inline std::vector<double> readVec(const Tensor& t) {
  if (t.numel() == 0) return {};
  return decode(const_cast<Tensor&>(t).dataPtr<>(), t.numel(), t.dtype());
}
inline Arr readArr(const Tensor& t) { return Arr(toShape(t.shape()), readVec(t)); }

// A tensor with the given contents.  With some probability it is a view at an offset into a larger buffer
// whose other elements are poison values, so that an index error reads something recognisably wrong.
struct Made {
  Tensor t;
  Tensor base;  // keeps the surrounding buffer alive, undefined when none
  Arr ref;
  DType dt;
  bool view = false;
};

inline Made makeTensor(Case& c, const Shape& shape, DType dt, const std::vector<double>& v, bool allowView = true,
                       bool requiresGrad = false) {
  Made m;
  m.dt = dt;
  m.ref = Arr(shape, v);
  bool view = allowView && !shape.empty() && numelOf(shape) > 0 && c.chance(1, 4);
  if (!view) {
    m.t = rawTensor(shape, dt, v, requiresGrad);
    return m;
  }
  int64_t before = c.range(1, 3), after = c.range(0, 2);
  Shape big = shape;
  big[0] += before + after;
  int64_t row = 1;
  for (size_t i = 1; i < shape.size(); i++) row *= shape[i];
  std::vector<double> all(numelOf(big), dt == DType::Bool ? 1 : 77);
  std::copy(v.begin(), v.end(), all.begin() + before * row);
  m.base = rawTensor(big, dt, all);
  m.t = m.base.narrow(0, before, shape[0]);
  if (requiresGrad) m.t.setRequiresGrad(true);
  m.view = true;
  return m;
}

// ---- generators -------------------------------------------------------------------------------

// Shapes: small ranks and sizes mostly, with size-one, zero and high-rank cases mixed in.
// One in this many shapes is large: axes beyond 255, element counts beyond 65535 (0: never).
inline int gLargeOdds = 0;
inline Shape genLargeShape(Case& c, int64_t minRank, int64_t maxRank) {
  int64_t rank = c.range(std::max<int64_t>(minRank, 1), std::max<int64_t>(minRank, std::min<int64_t>(maxRank, 4)));
  static const int64_t totals[] = {300, 4200, 33000, 66000, 140000};
  int64_t total = totals[c.weighted({4, 4, 2, 3, 1})];
  Shape s(rank, 1);
  for (auto& d : s) d = c.range(1, 3);
  int64_t a = c.draw(rank), rest = std::max<int64_t>(1, total / std::max<int64_t>(1, numelOf(s) / s[a]));
  if (rank > 1 && rest > 600 && c.coin()) {  // two long axes
    int64_t b = (a + 1 + c.draw(rank - 1)) % rank;
    rest = std::max<int64_t>(1, rest * s[b]);
    s[b] = rest > 4000 ? c.range(200, 300) : c.range(20, 60);
    rest /= s[b];
  }
  s[a] = std::max<int64_t>(1, rest - c.range(0, 9));
  c.cls("large shape");
  return s;
}

inline Shape genShape(Case& c, int64_t minRank, int64_t maxRank, int64_t maxNumel, bool allowZero = false) {
  if (gLargeOdds > 0 && maxRank > 0 && maxNumel >= 40 && c.chance(1, gLargeOdds)) return genLargeShape(c, minRank, maxRank);
  int64_t rank;
  if (maxRank > 4 && c.chance(1, 6)) rank = c.range(std::max<int64_t>(minRank, 4), maxRank);
  else rank = c.range(minRank, std::min<int64_t>(maxRank, 4));
  Shape s(rank);
  int64_t budget = std::max<int64_t>(1, maxNumel);
  for (auto& d : s) {
    size_t k = c.weighted({3, 8, 2});
    int64_t cap = k == 0 ? 1 : k == 1 ? 5 : 17;
    d = c.range(1, std::max<int64_t>(1, std::min(cap, budget)));
    budget /= d;
  }
  if (allowZero && rank > 0 && c.chance(1, 12)) s[c.draw(rank)] = 0;
  // One axis is sometimes long.
  if (rank > 0 && budget > 8 && c.chance(1, 10)) {
    auto& d = s[c.draw(rank)];
    if (d > 0) d = std::min<int64_t>(d * c.range(1, budget), 700);
  }
  return s;
}

enum class Data { Small, Unit, Pos, Wide, Special, Ints, Distinct };

inline double genValue(Rng& r, DType dt, Data kind) {
  auto pickSpecial = [&]() -> double {
    static const double sp[] = {0.0, -0.0, 1.0, -1.0, 0.5, INFINITY, -INFINITY, NAN, 1e-40, -1e-40, 3e38, -3e38,
                                1e-7, 65504, -65504, 2.5, -2.5, 1e30, 6e-8, 88.0, -104.0};
    return sp[r.below(sizeof(sp) / sizeof(sp[0]))];
  };
  if (dt == DType::Bool) return static_cast<double>(r.below(2));
  if (dt == DType::Int32 || dt == DType::Int64) {
    switch (kind) {
      case Data::Pos: return static_cast<double>(r.below(9) + 1);
      case Data::Wide: {
        double lim = dt == DType::Int32 ? 2147483647.0 : 9007199254740991.0;
        return std::floor((r.unit() * 2 - 1) * lim);
      }
      case Data::Unit: return static_cast<double>(r.below(3)) - 1;
      default: return static_cast<double>(r.below(21)) - 10;
    }
  }
  switch (kind) {
    case Data::Small: return roundDt((r.unit() * 2 - 1) * 4, dt);
    case Data::Unit: return roundDt(r.unit() * 2 - 1, dt);
    case Data::Pos: return roundDt(0.25 + r.unit() * 3, dt);
    case Data::Wide: {
      int e = static_cast<int>(r.below(dt == DType::Float16 ? 20 : 60)) - (dt == DType::Float16 ? 10 : 30);
      return roundDt(std::ldexp(r.unit() * 2 - 1, e), dt);
    }
    case Data::Special: return roundDt(r.below(3) == 0 ? (r.unit() * 2 - 1) * 8 : pickSpecial(), dt);
    case Data::Ints: return static_cast<double>(r.below(9)) - 4;
    case Data::Distinct: return roundDt((r.unit() * 2 - 1) * 100, dt);
  }
  return 0;
}

inline std::vector<double> genData(Case& c, int64_t n, DType dt, Data kind) {
  std::vector<double> v(n);
  if (n <= 8) {
    // drawn one by one so that they shrink one by one
    for (auto& x : v) {
      uint64_t s = c.draw(4096);
      if (s == 0) {
        x = kind == Data::Pos ? 1 : 0;
      } else {
        Rng r(s);
        x = genValue(r, dt, kind);
      }
    }
    return v;
  }
  Rng r = c.sub();
  for (auto& x : v) x = genValue(r, dt, kind);
  return v;
}

// ---- comparison -------------------------------------------------------------------------------

inline bool sameValue(double a, double b) {
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  return a == b;
}
// exact, signed zeros distinguished
inline bool identical(double a, double b) {
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  return a == b && std::signbit(a) == std::signbit(b);
}
inline bool near(double got, double want, double tol) {
  if (std::isnan(want)) return std::isnan(got);
  if (std::isnan(got)) return false;
  if (std::isinf(want) || std::isinf(got)) return got == want;
  return std::fabs(got - want) <= tol;
}

inline void expectShape(Case& c, const Tensor& t, const Shape& want, DType dt, const char* what) {
  if (!t.defined()) c.fail("%s: result is undefined", what);
  if (toShape(t.shape()) != want)
    c.fail("%s: shape %s, expected %s", what, str(toShape(t.shape())).c_str(), str(want).c_str());
  if (t.dtype() != dt) c.fail("%s: dtype %s, expected %s", what, dtName(t.dtype()), dtName(dt));
  if (t.numel() != numelOf(want)) c.fail("%s: element count %lld", what, (long long)t.numel());
}

// tol(i) gives the absolute tolerance of element i.
template <typename Tol>
void expectNear(Case& c, const Tensor& t, const Arr& want, DType dt, Tol tol, const char* what) {
  expectShape(c, t, want.shape, dt, what);
  auto got = readVec(t);
  for (size_t i = 0; i < got.size(); i++) {
    double w = roundDt(want.v[i], dt);
    double tl = tol(i);
    // values within tolerance of overflow may round either way
    if (!near(got[i], w, tl) && !(std::isinf(got[i]) != std::isinf(w) && !std::isnan(got[i]) && !std::isnan(w) &&
                                  std::signbit(got[i]) == std::signbit(w) &&
                                  std::isinf(roundDt(want.v[i] + std::copysign(tl * 1.01, want.v[i]), dt)) &&
                                  std::isfinite(roundDt(want.v[i] - std::copysign(tl * 1.01, want.v[i]), dt))))
      c.fail("%s: element %zu of shape %s is %.9g, expected %.9g (tolerance %.3g)", what, i, str(want.shape).c_str(),
             got[i], w, tl);
  }
}
inline void expectExact(Case& c, const Tensor& t, const Arr& want, DType dt, const char* what) {
  expectShape(c, t, want.shape, dt, what);
  auto got = readVec(t);
  for (size_t i = 0; i < got.size(); i++)
    if (!sameValue(got[i], want.v[i]))
      c.fail("%s: element %zu of shape %s is %.17g, expected %.17g", what, i, str(want.shape).c_str(), got[i],
             want.v[i]);
}
// The operand still has the contents it was made with, and so has the buffer around it.
inline void expectUnchanged(Case& c, const Made& m, const char* what) {
  if (toShape(m.t.shape()) != m.ref.shape) c.fail("%s: operand shape changed to %s", what, str(toShape(m.t.shape())).c_str());
  auto got = readVec(m.t);
  for (size_t i = 0; i < got.size(); i++)
    if (!sameValue(got[i], m.ref.v[i]))
      c.fail("%s: operand element %zu changed from %.9g to %.9g", what, i, m.ref.v[i], got[i]);
}
inline void expectSurround(Case& c, const Made& m, const char* what) {
  if (!m.view) return;
  auto all = readVec(m.base);
  int64_t n = m.ref.numel();
  // the base keeps its own value whatever happened to the view
  size_t poison = 0;
  double p = m.dt == DType::Bool ? 1 : 77;
  for (double x : all) poison += x == p;
  if (poison + n < all.size()) c.fail("%s: an element outside the view was overwritten", what);
}

inline void noCache() { tt::CachedAllocator::setCacheEnabled(false); }

}  // namespace vp
