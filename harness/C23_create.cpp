// C23: creation, fills and read-back against exact contents, with a dirtied allocator.
#include "ref.h"
#include "Operations.h"
#include "Functions.h"
#include "Utils/RandomGenerator.h"

using namespace vp;
namespace op = tinytorch::op;
using tt::IntArrayView;
using tt::Scalar;

namespace {

// A number of the library: an integer kept exactly, or a floating-point value.
struct Num {
  DType dt = DType::Float32;
  int64_t i = 0;
  double d = 0;
  bool isInt() const { return !isFloatT(dt); }
  double real() const { return isInt() ? static_cast<double>(i) : d; }
};

DType anyType(Case& c) {
  static const DType d[] = {DType::Float32, DType::Int64, DType::Float16, DType::BFloat16, DType::Int32, DType::Bool};
  return d[c.draw(6)];
}

template <typename T>
struct Raw {
  static T make(const Num& n) {
    T r;
    if constexpr (std::is_same_v<T, float>) r = static_cast<float>(n.d);
    else if constexpr (std::is_same_v<T, tt::Half> || std::is_same_v<T, tt::BFloat16>) {
      uint16_t b = std::is_same_v<T, tt::Half> ? doubleToHalfBits(n.d) : doubleToBfBits(n.d);
      memcpy(&r, &b, 2);
    } else r = static_cast<T>(n.i);
    return r;
  }
};
template <typename F>
void withType(DType t, F f) {
  switch (t) {
    case DType::Float32: f(float{}); break;
    case DType::Float16: f(tt::Half{}); break;
    case DType::BFloat16: f(tt::BFloat16{}); break;
    case DType::Int32: f(int32_t{}); break;
    case DType::Int64: f(int64_t{}); break;
    default: f(uint8_t{}); break;
  }
}

// A value of the type `dt` that the conversion to `to` is defined for.
Num genNum(Case& c, DType dt, DType to) {
  Num n;
  n.dt = dt;
  uint64_t s = c.draw(1 << 16);
  Rng r(s + 1);
  if (s < 4) {
    n.i = static_cast<int64_t>(s) - 1;
    if (dt == DType::Bool) n.i = s & 1;
    n.d = static_cast<double>(static_cast<int64_t>(s) - 1);
    return n;
  }
  if (dt == DType::Bool) {
    n.i = static_cast<int64_t>(r.below(2));
    return n;
  }
  if (!isFloatT(dt)) {
    int bits = dt == DType::Int32 ? 32 : 64;
    if (to == DType::Int32) bits = 32;
    else if (isFloatT(to) && to != DType::Float32) bits = 24;  // beyond, the step over float decides
    uint64_t m = r.next() >> (64 - bits);
    switch (r.below(4)) {
      case 0: m &= 0xff; break;
      case 1: m &= 0x1ffffff; break;
      default: break;
    }
    int64_t v = static_cast<int64_t>(m);
    if (bits == 32) v = static_cast<int32_t>(m);
    if (bits == 64 && r.below(6) == 0) v = r.below(2) ? std::numeric_limits<int64_t>::max() : std::numeric_limits<int64_t>::min();
    if (bits != 64 && r.below(2)) v = -v;
    if (bits == 32 && v > 2147483647) v = 2147483647;
    n.i = v;
    return n;
  }
  static const Data kinds[] = {Data::Small, Data::Wide, Data::Special, Data::Ints};
  n.d = genValue(r, dt, kinds[r.below(4)]);
  if (!isFloatT(to) && to != DType::Bool) {
    double lim = to == DType::Int32 ? 2147483000.0 : 9.2e18;
    if (!(std::fabs(n.d) < lim)) n.d = 2.5;
  }
  return n;
}

// The contents of one element of type `to` after conversion, as raw bytes.
std::vector<unsigned char> convertRaw(const Num& n, DType to) {
  std::vector<unsigned char> b(tt::dtypeSize(to));
  if (to == DType::Bool) {
    b[0] = n.isInt() ? n.i != 0 : n.d != 0;  // NaN counts as true
  } else if (to == DType::Int64 || to == DType::Int32) {
    int64_t v = n.isInt() ? n.i : static_cast<int64_t>(std::trunc(n.d));
    if (to == DType::Int64) memcpy(b.data(), &v, 8);
    else {
      auto w = static_cast<int32_t>(v);
      memcpy(b.data(), &w, 4);
    }
  } else {
    double v = n.isInt() ? static_cast<double>(static_cast<float>(n.i)) : n.d;
    encode({roundDt(v, to)}, to, b.data());
  }
  return b;
}
bool sameRaw(const void* got, const std::vector<unsigned char>& want, DType dt) {
  if (memcmp(got, want.data(), want.size()) == 0) return true;
  if (!isFloatT(dt)) return false;
  return std::isnan(decode(got, 1, dt)[0]) && std::isnan(decode(want.data(), 1, dt)[0]);
}
void noteNum(Case& c, const Num& n) {
  if (n.isInt()) c.note("%lld:%s ", static_cast<long long>(n.i), dtName(n.dt));
  else c.note("%g:%s ", n.d, dtName(n.dt));
}
Scalar toScalar(const Num& n) {
  switch (n.dt) {
    case DType::Float32: return Scalar(static_cast<float>(n.d));
    case DType::Float16: return Scalar(Raw<tt::Half>::make(n));
    case DType::BFloat16: return Scalar(Raw<tt::BFloat16>::make(n));
    case DType::Int32: return Scalar(static_cast<int32_t>(n.i));
    case DType::Int64: return Scalar(n.i);
    default: return Scalar(n.i != 0);
  }
}

// Leaves recognisable rubbish in released memory, so that an element nobody wrote shows.
void dirty(Case& c) {
  bool cache = c.coin();
  tt::CachedAllocator::setCacheEnabled(cache);
  if (!cache) return;
  size_t k = c.draw(4);
  std::vector<Tensor> keep;
  for (size_t i = 0; i < k; i++) {
    int64_t n = c.chance(1, 8) ? c.range(1, 300000) : c.range(1, 600);
    Tensor t({n}, tt::options::dtype(DType::Float32));
    memset(t.dataPtr<>(), c.coin() ? 0xA5 : 0xFF, static_cast<size_t>(n) * 4);
    keep.push_back(t);
  }
  if (k) c.cls("after frees");
}

void expectMeta(Case& c, const Tensor& t, const Shape& s, DType dt, bool req, const char* what) {
  VP_CHECK(c, t.defined(), "%s: no tensor", what);
  VP_CHECK(c, t.dtype() == dt, "%s: data type %s instead of %s", what, dtName(t.dtype()), dtName(dt));
  VP_CHECK(c, toShape(t.shape()) == s, "%s: shape %s instead of %s", what, str(toShape(t.shape())).c_str(), str(s).c_str());
  VP_CHECK(c, toShape(t.strides()) == stridesOf(s), "%s: strides %s for shape %s", what, str(toShape(t.strides())).c_str(), str(s).c_str());
  VP_CHECK(c, t.numel() == numelOf(s) && t.dim() == static_cast<int64_t>(s.size()), "%s: %lld elements, rank %lld", what,
           static_cast<long long>(t.numel()), static_cast<long long>(t.dim()));
  VP_CHECK(c, t.requiresGrad() == req, "%s: requires a gradient: %d", what, t.requiresGrad());
}
void expectAll(Case& c, const Tensor& t, const std::vector<unsigned char>& want, const char* what) {
  const auto* p = static_cast<const unsigned char*>(t.dataPtr<>());
  for (int64_t i = 0; i < t.numel(); i++) {
    VP_CHECK(c, sameRaw(p + i * want.size(), want, t.dtype()), "%s: element %lld is %g instead of %g", what, static_cast<long long>(i),
             decode(p + i * want.size(), 1, t.dtype())[0], decode(want.data(), 1, t.dtype())[0]);
  }
}

// ---- lists ------------------------------------------------------------------------------------

void lists(Case& c) {
  dirty(c);
  DType dt = anyType(c);
  bool req = isFloatT(dt) && c.chance(1, 4);
  auto opt = tt::options::dtype(dt).requiresGrad(req);
  size_t form = c.draw(7);
  Shape s;
  switch (form) {
    case 0: case 1: s = {c.range(0, 40)}; break;
    case 2: case 3: s = {c.range(1, 7), c.range(0, 7)}; break;
    case 4: s = {c.range(1, 4), c.range(1, 4), c.range(0, 4)}; break;
    default: s = genShape(c, 0, 6, 200, true); break;
  }
  if (form == 2 && c.chance(1, 10)) s = {0, 0};
  int64_t n = numelOf(s);
  std::vector<Num> v(n);
  for (auto& x : v) x = genNum(c, dt, dt);
  c.note("form %zu %s%s %s: ", form, dtName(dt), req ? " grad" : "", str(s).c_str());
  for (int64_t i = 0; i < n && i < 8; i++) noteNum(c, v[i]);
  withType(dt, [&](auto tag) {
    using T = decltype(tag);
    std::vector<T> flat(n);
    for (int64_t i = 0; i < n; i++) flat[i] = Raw<T>::make(v[i]);
    if (dt == DType::Float32 && n > 0 && c.chance(1, 8)) {
      uint32_t w = 0x7fa00001u | static_cast<uint32_t>(c.draw(2)) << 31;  // a NaN with a payload
      memcpy(&flat[0], &w, 4);
      c.cls("payload");
    }
    Tensor t;
    bool plain = false;
    if (s.size() == 1 && form <= 1) {
      plain = form == 0;
      t = form == 0 ? Tensor(flat) : Tensor(flat, opt);
    } else if (form == 2 || form == 3) {
      std::vector<std::vector<T>> a(s[0], std::vector<T>(s[1]));
      for (int64_t i = 0; i < n; i++) a[i / s[1]][i % s[1]] = flat[i];
      plain = form == 2;
      t = form == 2 ? Tensor(a) : Tensor(a, opt);
    } else if (form == 4) {
      std::vector<std::vector<std::vector<T>>> a(s[0], std::vector<std::vector<T>>(s[1], std::vector<T>(s[2])));
      for (int64_t i = 0; i < n; i++) a[i / (s[1] * s[2])][i / s[2] % s[1]][i % s[2]] = flat[i];
      plain = c.coin();
      t = plain ? Tensor(a) : Tensor(a, opt);
    } else {
      plain = form == 5;
      t = plain ? Tensor(flat, IntArrayView(s)) : Tensor(flat, IntArrayView(s), opt);
    }
    expectMeta(c, t, s, dt, plain ? false : req, "list");
    VP_CHECK(c, n == 0 || memcmp(t.dataPtr<>(), flat.data(), n * sizeof(T)) == 0, "list: the contents differ");
    auto back = t.toList<T>();
    VP_CHECK(c, static_cast<int64_t>(back.size()) == n, "read back %zu of %lld elements", back.size(), static_cast<long long>(n));
    VP_CHECK(c, n == 0 || memcmp(back.data(), flat.data(), n * sizeof(T)) == 0, "read back: the contents differ");
    // the tensor owns its values
    if (n > 0) {
      std::vector<T> copy = flat;
      memset(static_cast<void*>(flat.data()), 0x5a, n * sizeof(T));
      VP_CHECK(c, memcmp(t.dataPtr<>(), copy.data(), n * sizeof(T)) == 0, "the tensor follows later changes of the list");
    }
    if (n == 1) {
      T one = t.item<T>();
      VP_CHECK(c, memcmp(&one, t.dataPtr<>(), sizeof(T)) == 0, "item differs");
    }
  });
  c.cls(form <= 1 ? "1-d" : form <= 3 ? "2-d" : form == 4 ? "3-d" : "shaped");
  if (n > 1) c.nontrivial();
}

// ---- constants --------------------------------------------------------------------------------

void constants(Case& c) {
  dirty(c);
  DType dt = anyType(c);
  bool req = isFloatT(dt) && c.chance(1, 4);
  auto opt = tt::options::dtype(dt).requiresGrad(req);
  Shape s = genShape(c, 0, 8, 400, true);
  size_t form = c.draw(8);
  Num n = genNum(c, anyType(c), dt);
  if (form == 1 || form == 4) n = Num{DType::Int32, 1, 1};
  if (form == 2 || form == 5) n = Num{DType::Int32, 0, 0};
  c.note("form %zu %s%s %s value ", form, dtName(dt), req ? " grad" : "", str(s).c_str());
  noteNum(c, n);
  Scalar val = toScalar(n);
  VP_CHECK(c, val.dtype() == n.dt, "a scalar of %s says %s", dtName(n.dt), dtName(val.dtype()));
  auto want = convertRaw(n, dt);
  Tensor t;
  const char* what = "constant";
  if (form >= 4 && form <= 6) {
    // like another tensor, which may be a view, keep its type or be given options
    bool given = c.coin();
    DType od = given ? anyType(c) : dt;
    Made m = makeTensor(c, s, od, genData(c, numelOf(s), od, Data::Small), true, given ? false : req);
    std::optional<tt::Options> o;
    if (given) o = opt;
    what = form == 4 ? "onesLike" : form == 5 ? "zerosLike" : "fullLike";
    t = form == 4 ? Tensor::onesLike(m.t, o) : form == 5 ? Tensor::zerosLike(m.t, o) : Tensor::fullLike(m.t, val, o);
    expectMeta(c, t, s, dt, req, what);
    expectAll(c, t, want, what);
    expectUnchanged(c, m, what);
    expectSurround(c, m, what);
    t.fillZero_();
    expectUnchanged(c, m, what);
  } else {
    if (form == 0) s = {};
    what = form == 0 ? "scalar" : form == 1 ? "ones" : form == 2 ? "zeros" : "full";
    t = form == 0 ? Tensor::scalar(val, opt) : form == 1 ? Tensor::ones(IntArrayView(s), opt)
        : form == 2 ? Tensor::zeros(IntArrayView(s), opt) : form == 7 ? Tensor::empty(IntArrayView(s), opt) : Tensor::full(IntArrayView(s), val, opt);
    if (form == 7) {
      what = "empty";
      expectMeta(c, t, s, dt, req, what);
      t.fill_(val);
    }
    expectMeta(c, t, s, dt, req, what);
    expectAll(c, t, want, what);
    if (req) VP_CHECK(c, t.isLeaf(), "%s: not a leaf", what);
  }
  c.cls(what);
  if (numelOf(s) > 0) c.nontrivial();
}

// ---- ranges -----------------------------------------------------------------------------------

double genReal(Case& c, DType dt, double lim) {
  if (c.chance(1, 3)) return static_cast<double>(c.range(-20, 20));
  return roundDt(static_cast<double>(static_cast<int64_t>(c.draw(20001)) - 10000) / 10000 * lim, dt);
}

void ranges(Case& c) {
  dirty(c);
  static const DType types[] = {DType::Float32, DType::Int64, DType::Int32, DType::Float16, DType::BFloat16};
  DType dt = types[c.draw(5)];
  bool req = isFloatT(dt) && c.chance(1, 4);
  auto opt = tt::options::requiresGrad(req);
  if (c.coin()) opt.dtype(anyType(c));  // the element type of the range decides
  if (!isFloatT(dt)) {
    int64_t step = c.chance(1, 3) ? 1 : c.around(0, 12);
    if (step == 0) step = c.coin() ? 1 : -1;
    int64_t base = c.chance(1, 5) ? (dt == DType::Int64 ? c.around(int64_t(1) << 53, 40) : c.around(2147480000, 40)) : c.around(0, 100);
    if (c.coin()) base = -base;
    int64_t count = c.chance(1, 400) ? c.range(1000, 200000) : c.range(0, 60);
    int64_t stop = base + count * step;
    if (count > 0 && std::abs(step) > 1) stop -= (step > 0 ? 1 : -1) * static_cast<int64_t>(c.draw(std::abs(step)));
    if (count == 0 && c.chance(1, 2)) stop = base - (step > 0 ? 1 : -1) * c.range(0, 30);
    if (dt == DType::Int32 && (stop > 2147483647LL || stop < -2147483648LL)) c.discard();
    c.note("arange<%s>(%lld, %lld, %lld)", dtName(dt), static_cast<long long>(base), static_cast<long long>(stop), static_cast<long long>(step));
    auto go = [&](auto tag) {
      using T = decltype(tag);
      Tensor t = step == 1 && c.coin() ? Tensor::arange<T>(static_cast<T>(base), static_cast<T>(stop))
                                      : Tensor::arange<T>(static_cast<T>(base), static_cast<T>(stop), static_cast<T>(step), opt);
      VP_CHECK(c, t.dtype() == dt && t.dim() == 1 && t.numel() == count, "%lld elements of %s instead of %lld",
               static_cast<long long>(t.numel()), dtName(t.dtype()), static_cast<long long>(count));
      for (int64_t i = 0; i < count; i++) {
        VP_CHECK(c, t.dataPtr<T>()[i] == static_cast<T>(base + i * step), "element %lld is %lld instead of %lld", static_cast<long long>(i),
                 static_cast<long long>(t.dataPtr<T>()[i]), static_cast<long long>(base + i * step));
      }
    };
    if (dt == DType::Int64) go(int64_t{});
    else go(int32_t{});
    c.cls("integers");
    if (count > 1) c.nontrivial();
    return;
  }
  double start = genReal(c, dt, 100), stop = 0, step = 0;
  if (c.coin()) {
    step = roundDt(static_cast<double>(c.range(1, 40)) / static_cast<double>(c.pick(std::vector<int>{1, 2, 4, 8})), dt);
    stop = roundDt(start + step * static_cast<double>(c.range(0, 40)), dt);
  } else {
    step = roundDt(0.01 + static_cast<double>(c.draw(1000)) / 100, dt);
    stop = roundDt(start + step * static_cast<double>(c.draw(12000)) / 100, dt);
  }
  if (c.chance(1, 3)) {
    std::swap(start, stop);
    step = -step;
  }
  double q = (stop - start) / step;
  if (c.chance(1, 20)) {
    step = -step;
    q = -q;
  }
  if (q > 3000) c.discard();
  c.note("arange<%s>(%g, %g, %g)", dtName(dt), start, stop, step);
  double e = 0x1p-22;
  int64_t lo = std::max<int64_t>(0, static_cast<int64_t>(std::ceil(q - e * std::fabs(q)))), hi = std::max<int64_t>(0, static_cast<int64_t>(std::ceil(q + e * std::fabs(q))));
  withType(dt, [&](auto tag) {
    using T = decltype(tag);
    Num a{dt, 0, start}, b{dt, 0, stop}, d{dt, 0, step};
    if constexpr (std::is_same_v<T, float> || std::is_same_v<T, tt::Half> || std::is_same_v<T, tt::BFloat16>) {
      bool dflt = step == 1 && c.coin();
      Tensor t = dflt ? Tensor::arange<T>(Raw<T>::make(a), Raw<T>::make(b)) : Tensor::arange<T>(Raw<T>::make(a), Raw<T>::make(b), Raw<T>::make(d), opt);
      VP_CHECK(c, t.numel() >= lo && t.numel() <= hi, "%lld elements instead of %lld", static_cast<long long>(t.numel()), static_cast<long long>(lo));
      expectMeta(c, t, {t.numel()}, dt, dflt ? false : req, "arange");
      auto v = readVec(t);
      for (size_t i = 0; i < v.size(); i++) {
        double want = start + static_cast<double>(i) * step;
        double tol = epsOf(dt) * (std::fabs(want) + 0.0) + 0x1p-21 * (std::fabs(start) + std::fabs(want - start)) + tinyOf(dt);
        VP_CHECK(c, near(v[i], want, tol), "element %zu is %.9g instead of %.9g", i, v[i], want);
      }
      if (v.size() > 1) c.nontrivial();
    }
  });
  c.cls("reals");
}

void spaced(Case& c) {
  dirty(c);
  static const DType types[] = {DType::Float32, DType::Int64, DType::Int32, DType::Float16, DType::BFloat16};
  DType dt = types[c.draw(5)];
  bool req = isFloatT(dt) && c.chance(1, 4);
  auto opt = tt::options::requiresGrad(req);
  if (c.coin()) opt.dtype(anyType(c));
  int64_t steps = c.chance(1, 8) ? c.range(1, 4000) : c.range(1, 40);
  bool whole = c.coin();
  double start = 0, end = 0;
  if (isFloatT(dt)) {
    start = genReal(c, dt, 100);
    end = genReal(c, dt, 100);
  } else {
    start = static_cast<double>(c.around(0, 1000));
    end = whole ? start + static_cast<double>(c.around(0, 50) * (steps - 1)) : static_cast<double>(c.around(0, 1000));
  }
  c.note("linspace<%s>(%g, %g, %lld)", dtName(dt), start, end, static_cast<long long>(steps));
  withType(dt, [&](auto tag) {
    using T = decltype(tag);
    Num a{dt, static_cast<int64_t>(start), start}, b{dt, static_cast<int64_t>(end), end};
    Tensor t = Tensor::linspace<T>(Raw<T>::make(a), Raw<T>::make(b), steps, opt);
    expectMeta(c, t, {steps}, dt, req, "linspace");
    auto v = readVec(t);
    for (size_t i = 0; i < v.size(); i++) {
      double want = steps == 1 ? start : start + (end - start) * static_cast<double>(i) / static_cast<double>(steps - 1);
      if (isFloatT(dt)) {
        double tol = epsOf(dt) * std::fabs(want) + 0x1p-21 * (std::fabs(start) + std::fabs(end - start)) + tinyOf(dt);
        VP_CHECK(c, near(v[i], want, tol), "point %zu is %.9g instead of %.9g", i, v[i], want);
      } else {
        // a point between integers is one of its neighbours
        VP_CHECK(c, std::fabs(v[i] - want) < 1, "point %zu is %.9g instead of %.9g", i, v[i], want);
        if (want == std::floor(want)) VP_CHECK(c, v[i] == want, "point %zu is %.9g instead of %.9g", i, v[i], want);
        if (i > 0) VP_CHECK(c, (v[i] - v[i - 1]) * (end - start) >= 0, "the points are not in order");
      }
    }
  });
  c.cls(isFloatT(dt) ? "reals" : whole ? "even integers" : "uneven integers");
  if (steps > 1) c.nontrivial();
}

// ---- reading back -----------------------------------------------------------------------------

void readBack(Case& c) {
  dirty(c);
  DType dt = anyType(c), to = anyType(c);
  Shape s = c.chance(1, 3) ? Shape(c.draw(4), 1) : genShape(c, 0, 5, 120, true);
  int64_t n = numelOf(s);
  std::vector<Num> v(n);
  for (auto& x : v) x = genNum(c, dt, to);
  c.note("%s %s read as %s: ", dtName(dt), str(s).c_str(), dtName(to));
  for (int64_t i = 0; i < n && i < 8; i++) noteNum(c, v[i]);
  Made m = makeTensor(c, s, dt, std::vector<double>(n, 0), true, isFloatT(dt) && c.chance(1, 4));
  size_t w = tt::dtypeSize(dt);
  auto* p = static_cast<unsigned char*>(m.t.dataPtr<>());
  for (int64_t i = 0; i < n; i++) {
    withType(dt, [&](auto tag) {
      auto x = Raw<decltype(tag)>::make(v[i]);
      memcpy(p + i * w, &x, w);
    });
    m.ref.v[i] = v[i].real();
  }
  std::vector<unsigned char> before(p, p + n * w);
  withType(to, [&](auto tag) {
    using T = decltype(tag);
    const Tensor t = m.t;
    auto l = t.toList<T>();
    VP_CHECK(c, static_cast<int64_t>(l.size()) == n, "read %zu of %lld elements", l.size(), static_cast<long long>(n));
    for (int64_t i = 0; i < n; i++) {
      auto want = convertRaw(v[i], to);
      VP_CHECK(c, sameRaw(&l[i], want, to), "element %lld reads as %.9g instead of %.9g", static_cast<long long>(i), decode(&l[i], 1, to)[0], decode(want.data(), 1, to)[0]);
      T viaScalar = toScalar(v[i]).template to<T>();
      VP_CHECK(c, sameRaw(&viaScalar, want, to), "scalar %lld converts to %.9g instead of %.9g", static_cast<long long>(i), decode(&viaScalar, 1, to)[0], decode(want.data(), 1, to)[0]);
    }
    if (n == 1) {
      T one = t.item<T>();
      VP_CHECK(c, memcmp(&one, &l[0], sizeof(T)) == 0 || sameRaw(&one, convertRaw(v[0], to), to), "item and list differ");
      c.cls("item");
    }
  });
  VP_CHECK(c, m.t.dtype() == dt && memcmp(before.data(), m.t.dataPtr<>(), before.size()) == 0, "reading changed the tensor");
  if (n > 0 && dt != to) c.nontrivial();
}

// ---- fills ------------------------------------------------------------------------------------

void fills(Case& c) {
  dirty(c);
  DType dt = anyType(c);
  size_t form = c.draw(9);
  if (form >= 6 && !isFloatT(dt)) dt = DType::Float32;
  Shape s = genShape(c, form == 5 ? 1 : 0, 6, 300, true);
  int64_t n = numelOf(s);
  Made m = makeTensor(c, s, dt, genData(c, n, dt, Data::Small));
  Num val = genNum(c, anyType(c), dt);
  if (form == 1) val = Num{DType::Int32, 0, 0};
  if (form == 2) val = Num{DType::Int32, 1, 1};
  // other tensors that refer to the same memory
  Tensor alias = m.t, twin = m.t.clone();
  c.note("form %zu %s %s%s value ", form, dtName(dt), str(s).c_str(), m.view ? " view" : "");
  noteNum(c, val);
  auto want = convertRaw(val, dt);
  size_t w = tt::dtypeSize(dt);
  std::vector<unsigned char> expect(n * w);
  {
    std::vector<unsigned char> old(n * w);
    encode(m.ref.v, dt, old.data());
    expect = old;
  }
  auto put = [&](int64_t i) { memcpy(&expect[i * w], want.data(), w); };
  const char* what = "fill_";
  Scalar sv = toScalar(val);
  bool exact = true;
  switch (form) {
    case 0:
      c.coin() ? m.t.fill_(sv) : op::fill(m.t, sv);
      for (int64_t i = 0; i < n; i++) put(i);
      break;
    case 1:
      what = "fillZero_";
      m.t.fillZero_();
      for (int64_t i = 0; i < n; i++) put(i);
      break;
    case 2:
      what = "fillOne_";
      m.t.fillOne_();
      for (int64_t i = 0; i < n; i++) put(i);
      break;
    case 3: {
      what = "fillOffset";
      int64_t at = c.range(0, n), cnt = c.range(0, n - at);
      c.note("at %lld count %lld", static_cast<long long>(at), static_cast<long long>(cnt));
      Tensor sc = rawTensor({}, val.dt, {0});
      withType(val.dt, [&](auto tag) {
        auto x = Raw<decltype(tag)>::make(val);
        memcpy(sc.dataPtr<>(), &x, sizeof x);
      });
      op::fillOffset(m.t, sc, at, cnt);
      for (int64_t i = 0; i < cnt; i++) put(at + i);
      break;
    }
    case 4: {
      what = "fillMasked";
      std::vector<double> mask = genData(c, n, DType::Bool, Data::Small);
      Made k = makeTensor(c, s, DType::Bool, mask);
      for (int64_t i = 0; i < n; i++) {
        if (mask[i] != 0) put(i);
      }
      size_t how = c.draw(3);
      if (how == 0) {
        m.t.fillMasked_(k.t, sv);
      } else {
        Tensor out;
        if (how == 1) {
          out = op::fillMasked(m.t, k.t, sv);
        } else {
          out = Tensor::full(IntArrayView(s), 1, tt::options::dtype(dt));
          op::fillMaskedOut(out, m.t, k.t, sv);
        }
        expectUnchanged(c, m, what);
        alias = out;
        m.t = out;
      }
      expectUnchanged(c, k, "fillMasked (mask)");
      break;
    }
    case 5: {
      what = "fillLinSpace_";
      if (dt == DType::Bool) dt = DType::Int64, m = makeTensor(c, s, dt, genData(c, n, dt, Data::Small)), alias = m.t, twin = m.t.clone(), w = 8;
      double st = isFloatT(dt) ? roundDt(static_cast<double>(c.around(0, 40)) / 4, dt) : static_cast<double>(c.around(0, 40));
      double step = isFloatT(dt) ? roundDt(static_cast<double>(c.around(0, 40)) / 8, dt) : static_cast<double>(c.around(0, 40));
      m.t.fillLinSpace_(static_cast<float>(st), static_cast<float>(step), n);
      auto v = readVec(m.t);
      for (int64_t i = 0; i < n; i++) {
        double x = st + static_cast<double>(i) * step;
        if (dt == DType::Float16 && std::fabs(x) > 65000) break;  // past the range of the type
        VP_CHECK(c, near(v[i], x, (isFloatT(dt) ? epsOf(dt) : 0) * std::fabs(x)), "element %lld is %g instead of %g", static_cast<long long>(i), v[i], x);
      }
      exact = false;
      break;
    }
    default: {
      // every element is written, nothing else is
      double lo = 0, hi = 0;
      if (form == 6) {
        what = "fillUniform_";
        lo = 5, hi = 6;
        m.t.fillUniform_(5.f, 6.f);
      } else if (form == 7) {
        what = "fillNormal_";
        lo = 990, hi = 1010;
        m.t.fillNormal_(1000.f, 0.5f);
      } else {
        what = "fillBernoulli_";
        lo = hi = 1;
        m.t.fillBernoulli_(1.f);
      }
      auto v = readVec(m.t);
      for (int64_t i = 0; i < n; i++) VP_CHECK(c, v[i] >= lo && v[i] <= hi, "%s: element %lld is %g", what, static_cast<long long>(i), v[i]);
      exact = false;
      break;
    }
  }
  expectMeta(c, m.t, s, dt, false, what);
  if (exact) {
    const auto* p = static_cast<const unsigned char*>(m.t.dataPtr<>());
    for (int64_t i = 0; i < n; i++) {
      std::vector<unsigned char> e(expect.begin() + i * w, expect.begin() + (i + 1) * w);
      VP_CHECK(c, sameRaw(p + i * w, e, dt), "%s: element %lld is %g instead of %g", what, static_cast<long long>(i), decode(p + i * w, 1, dt)[0],
               decode(e.data(), 1, dt)[0]);
    }
  }
  // a copy of the handle sees the fill, a clone and the surrounding buffer do not
  VP_CHECK(c, n == 0 || memcmp(alias.dataPtr<>(), m.t.dataPtr<>(), n * w) == 0, "%s: a copy of the handle differs", what);
  auto old = readVec(twin);
  for (int64_t i = 0; i < n; i++) VP_CHECK(c, sameValue(old[i], m.ref.v[i]), "%s: a clone changed at %lld", what, static_cast<long long>(i));
  expectSurround(c, m, what);
  c.cls(what);
  if (n > 0) c.nontrivial();
}

}  // namespace

int main(int argc, char** argv) {
  Suite s;
  s.property = "C23";
  s.rule = "a case is non-trivial when it creates, fills or converts at least one element (at least two for lists and ranges; a change of type for reading back)";
  s.assumptions = {"values are within the range of the type they are converted to",
                   "nested lists are rectangular and their element type is the data type asked for",
                   "the element count of a real range may be either neighbour when the quotient is within float rounding of an integer",
                   "integer points of an uneven spacing may be rounded to either neighbour"};
  gLargeOdds = 6000;
  s.props = {{"lists", lists, 500000, 15000000},     {"constants", constants, 500000, 15000000}, {"ranges", ranges, 500000, 15000000},
             {"spaced", spaced, 300000, 10000000},   {"read back", readBack, 500000, 15000000},  {"fills", fills, 500000, 15000000}};
  return runSuite(s, argc, argv);
}
