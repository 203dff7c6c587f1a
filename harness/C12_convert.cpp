// C12: half, bfloat16 and integer conversions against an independent rounding model.
#include <climits>
#include <limits>

#include "ref.h"
using namespace vp;
using tt::BFloat16;
using tt::Half;

namespace {

float fromBits(uint32_t w) {
  float f;
  memcpy(&f, &w, 4);
  return f;
}
uint32_t toBits(float f) {
  uint32_t w;
  memcpy(&w, &f, 4);
  return w;
}

// The model, per type: value of a pattern, and the pattern a float rounds to.
template <typename T>
struct Model;
template <>
struct Model<Half> {
  static constexpr const char* name = "half";
  static constexpr DType dt = DType::Float16;
  static double value(uint16_t b) { return halfBitsToDouble(b); }
  static uint16_t bits(double x) { return doubleToHalfBits(roundF16(x)); }
  static bool nan(uint16_t b) { return (b & 0x7c00) == 0x7c00 && (b & 0x3ff); }
};
template <>
struct Model<BFloat16> {
  static constexpr const char* name = "bfloat16";
  static constexpr DType dt = DType::BFloat16;
  static double value(uint16_t b) {
    int s = b >> 15, e = (b >> 7) & 255, m = b & 127;
    double v = e == 255 ? (m ? std::numeric_limits<double>::quiet_NaN() : std::numeric_limits<double>::infinity())
                        : e == 0 ? std::ldexp(m, -133) : std::ldexp(128 + m, e - 134);
    return s ? -v : v;
  }
  static uint16_t bits(double x) { return doubleToBfBits(roundBF16(x)); }
  static bool nan(uint16_t b) { return (b & 0x7f80) == 0x7f80 && (b & 0x7f); }
};

template <typename T>
T make(uint16_t bits) {
  return T(bits, T::from_bits());
}

// x rounded to T must be `got`: the same pattern, or any NaN for NaN.
template <typename T>
bool rounds(float x, T got) {
  if (std::isnan(x)) return Model<T>::nan(got.x);
  return got.x == Model<T>::bits(x);
}
template <typename T>
void checkRound(Case& c, float x) {
  T t(x);
  VP_CHECK(c, rounds(x, t), "%s(%.9g, bits %08x) is %04x, expected %04x", Model<T>::name, x, toBits(x), t.x, Model<T>::bits(x));
  T u;
  u = x;
  VP_CHECK(c, u.x == t.x, "assigning %.9g to a %s differs from constructing it", x, Model<T>::name);
}

bool same(float a, double b) { return std::isnan(b) ? std::isnan(a) : static_cast<double>(a) == b && std::signbit(a) == std::signbit(b); }

template <typename T>
void pattern(Case& c, uint16_t b) {
  T t = make<T>(b);
  double v = Model<T>::value(b);
  float f = static_cast<float>(t);
  VP_CHECK(c, same(f, v), "%s pattern %04x reads as %.9g, it is %.9g", Model<T>::name, b, f, v);
  T back(f);
  VP_CHECK(c, std::isnan(v) ? Model<T>::nan(back.x) : back.x == b, "%s pattern %04x comes back from float as %04x", Model<T>::name, b, back.x);
  VP_CHECK(c, same(static_cast<float>(-t), -v), "negating %s pattern %04x gives %04x", Model<T>::name, b, (-t).x);
  if (std::isnan(v)) {
    for (uint32_t low : {0u, 1u, 0x1000u, 0x1fffu, 0xffffu}) checkRound<T>(c, fromBits(toBits(f) ^ low));
    return;
  }
  // around the boundary to the next pattern of larger magnitude
  uint16_t next = b + 1;
  double w = Model<T>::nan(next) ? v : Model<T>::value(next);
  double mid = std::isinf(w) && !std::isinf(v) ? v + (v - Model<T>::value(b - 1)) / 2 : (v + w) / 2;
  float m = static_cast<float>(mid);
  for (float x : {m, std::nextafterf(m, INFINITY), std::nextafterf(m, -INFINITY), std::nextafterf(f, INFINITY), std::nextafterf(f, -INFINITY)})
    checkRound<T>(c, x);
}

template <typename T>
void limits(Case& c) {
  using L = std::numeric_limits<T>;
  constexpr bool h = std::is_same_v<T, Half>;
  VP_CHECK(c, L::max().x == (h ? 0x7bff : 0x7f7f) && L::lowest().x == (h ? 0xfbff : 0xff7f), "wrong largest values");
  VP_CHECK(c, L::min().x == (h ? 0x0400 : 0x0080) && L::denorm_min().x == 1, "wrong smallest values");
  VP_CHECK(c, static_cast<float>(L::epsilon()) == (h ? 0x1p-10f : 0x1p-7f), "wrong epsilon");
  VP_CHECK(c, std::isinf(static_cast<float>(L::infinity())) && std::isnan(static_cast<float>(L::quiet_NaN())), "wrong infinity or NaN");
}

void patterns(Case& c) {
  uint32_t block = static_cast<uint32_t>(c.enumerate(512));
  c.note("%s patterns %04x-%04x", block & 256 ? "bfloat16" : "half", (block & 255) << 8, ((block & 255) << 8) | 255);
  for (uint32_t i = 0; i < 256; i++) {
    uint16_t b = static_cast<uint16_t>((block & 255) << 8 | i);
    if (block & 256) pattern<BFloat16>(c, b);
    else pattern<Half>(c, b);
  }
  limits<Half>(c);
  limits<BFloat16>(c);
  c.nontrivial();
}

// A 32-bit pattern, mostly where rounding is decided.
uint32_t interesting(Rng& r) {
  uint32_t w = static_cast<uint32_t>(r.below(1ull << 32));
  switch (r.below(6)) {
    case 0: return w;
    case 1: return (w & 0x80000000u) | static_cast<uint32_t>(r.below(48) + 100) << 23 | (w & 0x7fffff);        // the range of half
    case 2: return (w & 0xffffe000u) | static_cast<uint32_t>(r.below(2) ? 0x1000 : 0xfff + r.below(3));        // near ties of half
    case 3: return (w & 0xffff0000u) | static_cast<uint32_t>(0x7fff + r.below(3));                             // ties of bfloat16
    case 4: return (w & 0x80000000u) | static_cast<uint32_t>(r.below(14) + 100) << 23 | (w & 0x7fe000) | 0x1000;  // subnormal halves
    default: return (w & 0x80000000u) | (r.below(2) ? 0x7f800000u : 0x477fe000u) + static_cast<uint32_t>(r.below(0x4000)) - 0x2000;
  }
}

void floats(Case& c) {
  Rng r = c.sub();
  for (int i = 0; i < 2048; i++) {
    float x = fromBits(interesting(r));
    checkRound<Half>(c, x);
    checkRound<BFloat16>(c, x);
  }
  c.nontrivial();
}

// Every 32-bit pattern with the given upper half; thorough runs walk through all of them.
void everyFloat(Case& c) {
  uint32_t top = static_cast<uint32_t>(c.enumerate(65536));

  c.note("floats %04x0000-%04xffff", top, top);
  for (uint32_t low = 0; low < 65536; low++) {
    float x = fromBits(top << 16 | low);
    // The model in integers: fast enough to visit every pattern.
    uint32_t w = top << 16 | low, mag = w & 0x7fffffff;
    uint16_t sign = static_cast<uint16_t>(w >> 16 & 0x8000), want;
    uint16_t b = BFloat16(x).x, h = Half(x).x;
    if (mag > 0x7f800000) {
      VP_CHECK(c, Model<BFloat16>::nan(b) && Model<Half>::nan(h), "NaN %08x becomes bfloat16 %04x, half %04x", w, b, h);
      continue;
    }
    uint32_t q = mag >> 16, rest = mag & 0xffff;
    if (rest > 0x8000 || (rest == 0x8000 && (q & 1))) q++;
    want = sign | static_cast<uint16_t>(q);
    VP_CHECK(c, b == want, "bfloat16 of %08x is %04x, expected %04x", w, b, want);
    int e = static_cast<int>(mag >> 23) - 127;
    if (e >= 16) want = sign | 0x7c00;
    else {
      int shift = e >= -14 ? 13 : 13 - 14 - e;  // bits dropped from the 24-bit significand
      uint64_t sig = (mag & 0x7fffff) | (mag >> 23 ? 0x800000u : 0u);
      uint64_t k = 0;
      if (shift < 40) {
        k = sig >> shift;
        uint64_t rem = sig & ((1ull << shift) - 1), half = 1ull << (shift - 1);
        if (rem > half || (rem == half && (k & 1))) k++;
      }
      // k counts units of the last place; add the exponent of normal numbers
      want = sign | static_cast<uint16_t>(e >= -14 ? k + (static_cast<uint64_t>(e + 14) << 10) : k);
    }
    VP_CHECK(c, h == want, "half of %08x is %04x, expected %04x", w, h, want);
  }
  c.nontrivial();
}

template <typename T>
T rnd16(Rng& r) {
  switch (r.below(4)) {
    case 0: return T(static_cast<float>(static_cast<int>(r.below(64)) - 32));
    case 1: return T(static_cast<float>((r.unit() - 0.5) * 4));
    case 2: return make<T>(static_cast<uint16_t>(r.below(4) * 0x4000 + r.below(4)));
    default: return make<T>(static_cast<uint16_t>(r.below(65536)));
  }
}

template <typename T>
void arith(Case& c, Rng& r) {
  const char* nm = Model<T>::name;
  T a = rnd16<T>(r), b = r.below(8) ? rnd16<T>(r) : a;
  if (r.below(16) == 0) b = make<T>(a.x ^ 0x8000);
  float fa = static_cast<float>(a), fb = static_cast<float>(b);
  const T ca = a, cb = b;
  auto chk = [&](const char* name, float want, T got, T acc) {
    VP_CHECK(c, rounds(want, got), "%s %04x %s %04x is %04x, expected %04x", nm, a.x, name, b.x, got.x, Model<T>::bits(want));
    VP_CHECK(c, rounds(want, acc), "%s %04x %s= %04x is %04x, expected %04x", nm, a.x, name, b.x, acc.x, Model<T>::bits(want));
  };
  T s = a;
  s += b;
  chk("+", fa + fb, a + b, s);
  s = a;
  s -= b;
  chk("-", fa - fb, a - b, s);
  s = a;
  s *= b;
  chk("*", fa * fb, a * b, s);
  s = a;
  s /= b;
  chk("/", fa / fb, a / b, s);
  // mixed with float, double and integers
  auto fsame = [](double x, double y) { return std::isnan(x) ? std::isnan(y) : x == y; };
  float y = static_cast<float>((r.unit() - 0.5) * 100);
  VP_CHECK(c, fsame(a + y, fa + y) && fsame(a - y, fa - y) && fsame(a * y, fa * y) && fsame(a / y, fa / y), "%s %04x with float %.9g", nm, a.x, y);
  VP_CHECK(c, fsame(y + a, y + fa) && fsame(y - a, y - fa) && fsame(y * a, y * fa) && fsame(y / a, y / fa), "float %.9g with %s %04x", y, nm, a.x);
  double d = (r.unit() - 0.5) * 100, da = fa;
  VP_CHECK(c, fsame(a + d, da + d) && fsame(a - d, da - d) && fsame(a * d, da * d) && fsame(a / d, da / d), "%s %04x with double %.17g", nm, a.x, d);
  VP_CHECK(c, fsame(d + a, d + da) && fsame(d - a, d - da) && fsame(d * a, d * da) && fsame(d / a, d / da), "double %.17g with %s %04x", d, nm, a.x);
  float z = y;
  z += a;
  VP_CHECK(c, fsame(z, y + fa), "float %.9g += %s %04x", y, nm, a.x);
  z = y;
  z -= a;
  VP_CHECK(c, fsame(z, y - fa), "float %.9g -= %s %04x", y, nm, a.x);
  z = y;
  z *= a;
  VP_CHECK(c, fsame(z, y * fa), "float %.9g *= %s %04x", y, nm, a.x);
  z = y;
  z /= a;
  VP_CHECK(c, fsame(z, y / fa), "float %.9g /= %s %04x", y, nm, a.x);
  int i = static_cast<int>(r.below(2001)) - 1000;
  int64_t l = i;
  T ti(static_cast<float>(i));
  float fi = static_cast<float>(ti);
  VP_CHECK(c, rounds(fa + fi, a + i) && rounds(fa - fi, a - i) && rounds(fa * fi, a * i) && rounds(fa / fi, a / i), "%s %04x with int %d", nm, a.x, i);
  VP_CHECK(c, rounds(fi + fa, i + a) && rounds(fi - fa, i - a) && rounds(fi * fa, i * a) && rounds(fi / fa, i / a), "int %d with %s %04x", i, nm, a.x);
  VP_CHECK(c, rounds(fa + fi, a + l) && rounds(fa - fi, a - l) && rounds(fa * fi, a * l) && rounds(fa / fi, a / l), "%s %04x with int64 %d", nm, a.x, i);
  VP_CHECK(c, rounds(fi + fa, l + a) && rounds(fi - fa, l - a) && rounds(fi * fa, l * a) && rounds(fi / fa, l / a), "int64 %d with %s %04x", i, nm, a.x);
  // comparisons, through lvalues, constants and temporaries
  VP_CHECK(c, (a == b) == (fa == fb) && (a != b) == (fa != fb), "%s %04x and %04x: equality differs from float", nm, a.x, b.x);
  VP_CHECK(c, (a < b) == (fa < fb) && (a > b) == (fa > fb) && (a <= b) == (fa <= fb) && (a >= b) == (fa >= fb),
           "%s %04x and %04x: order differs from float", nm, a.x, b.x);
  VP_CHECK(c, (ca == cb) == (fa == fb) && (ca != cb) == (fa != fb) && (ca < cb) == (fa < fb) && (ca > cb) == (fa > fb) &&
                  (ca <= cb) == (fa <= fb) && (ca >= cb) == (fa >= fb),
           "constants %s %04x and %04x compare differently from float", nm, a.x, b.x);
}

void arithmetic(Case& c) {
  Rng r = c.sub();
  for (int i = 0; i < 512; i++) {
    arith<Half>(c, r);
    arith<BFloat16>(c, r);
  }
  c.nontrivial();
}

// ---- tensors ----------------------------------------------------------------------------------

const DType kAll[] = {DType::Float32, DType::Float16, DType::BFloat16, DType::Int32, DType::Int64, DType::Bool};

// A value as a bit pattern of its type.
struct Val {
  uint64_t b;
};
Val genVal(Rng& r, DType t, DType to) {
  bool toInt = to == DType::Int32 || to == DType::Int64;
  double lim = to == DType::Int64 ? 9.0e18 : 2147483520.0;
  switch (t) {
    case DType::Float32: {
      for (;;) {
        float f;
        switch (r.below(4)) {
          case 0: f = fromBits(interesting(r)); break;
          case 1: f = static_cast<float>(static_cast<int>(r.below(41)) - 20) / 4; break;
          case 2: f = static_cast<float>((r.unit() - 0.5) * 2e5); break;
          default: f = static_cast<float>((r.unit() - 0.5) * 2 * lim); break;
        }
        if (!toInt || std::fabs(f) <= lim) return {toBits(f)};
      }
    }
    case DType::Float16:
    case DType::BFloat16: {
      for (;;) {
        uint16_t b = static_cast<uint16_t>(r.below(65536));
        if (r.below(3) == 0) {
          float f = static_cast<float>(static_cast<int>(r.below(41)) - 20) / 4;
          b = t == DType::Float16 ? doubleToHalfBits(f) : doubleToBfBits(f);
        }
        double v = t == DType::Float16 ? halfBitsToDouble(b) : bfBitsToDouble(b);
        if (!toInt || std::fabs(v) <= lim) return {b};
      }
    }
    case DType::Int32:
    case DType::Int64: {
      int64_t v;
      switch (r.below(4)) {
        case 0: v = static_cast<int64_t>(r.below(41)) - 20; break;
        case 1: v = static_cast<int64_t>(r.below(1ull << 32)) - (1ll << 31); break;
        case 2: v = ((r.below(2) ? 1ll : -1ll) << r.below(t == DType::Int32 ? 31 : 63)) + static_cast<int64_t>(r.below(5)) - 2; break;
        default: v = t == DType::Int32 ? static_cast<int64_t>(r.below(200000)) - 100000 : static_cast<int64_t>(r.next()); break;
      }
      if (t == DType::Int32) v = static_cast<int32_t>(std::min<int64_t>(std::max<int64_t>(v, INT_MIN), INT_MAX));
      return {static_cast<uint64_t>(v)};
    }
    default: return {r.below(2)};
  }
}

std::string show(DType t, uint64_t b) {
  char s[64];
  switch (t) {
    case DType::Float32: snprintf(s, sizeof s, "%.9g", fromBits(static_cast<uint32_t>(b))); break;
    case DType::Float16: snprintf(s, sizeof s, "%.9g", halfBitsToDouble(static_cast<uint16_t>(b))); break;
    case DType::BFloat16: snprintf(s, sizeof s, "%.9g", bfBitsToDouble(static_cast<uint16_t>(b))); break;
    default: snprintf(s, sizeof s, "%lld", (long long)b); break;
  }
  return s;
}

// Whether `got` (a pattern of type `to`) is the conversion of `from`.
bool converts(DType t, uint64_t b, DType to, uint64_t got) {
  bool flt = isFloatT(t);
  if (!flt && !isFloatT(to)) {
    int64_t v = t == DType::Bool ? static_cast<int64_t>(b & 255) : t == DType::Int32 ? static_cast<int32_t>(b) : static_cast<int64_t>(b);
    if (to == DType::Bool) return got == (v != 0);
    if (to == DType::Int32) return static_cast<uint32_t>(got) == static_cast<uint32_t>(v);
    return static_cast<int64_t>(got) == v;
  }
  if (flt) {
    double v = t == DType::Float32 ? fromBits(static_cast<uint32_t>(b)) : t == DType::Float16 ? halfBitsToDouble(static_cast<uint16_t>(b))
                                                                                                 : Model<BFloat16>::value(static_cast<uint16_t>(b));
    switch (to) {
      case DType::Float32: {
        float g = fromBits(static_cast<uint32_t>(got));
        return same(g, v);
      }
      case DType::Float16: return rounds<Half>(static_cast<float>(v), make<Half>(static_cast<uint16_t>(got)));
      case DType::BFloat16: return rounds<BFloat16>(static_cast<float>(v), make<BFloat16>(static_cast<uint16_t>(got)));
      case DType::Int32: return static_cast<int32_t>(got) == static_cast<int32_t>(v);
      case DType::Int64: return static_cast<int64_t>(got) == static_cast<int64_t>(v);
      default: return got == (v != 0);
    }
  }
  int64_t v = t == DType::Bool ? static_cast<int64_t>(b & 255) : t == DType::Int32 ? static_cast<int32_t>(b) : static_cast<int64_t>(b);
  float f = static_cast<float>(v);
  switch (to) {
    case DType::Float32: return fromBits(static_cast<uint32_t>(got)) == f;
    case DType::Float16: return rounds<Half>(f, make<Half>(static_cast<uint16_t>(got)));
    default: {
      // rounding once from the integer, or twice through float
      auto q = make<BFloat16>(static_cast<uint16_t>(got));
      if (rounds<BFloat16>(f, q)) return true;
      double g = Model<BFloat16>::value(q.x);
      return std::fabs(g - static_cast<double>(v)) <= std::fabs(static_cast<double>(v)) * 0x1p-8;
    }
  }
}

uint64_t readBits(const void* p, int64_t i, DType t) {
  switch (t) {
    case DType::Float32:
    case DType::Int32: return static_cast<const uint32_t*>(p)[i];
    case DType::Float16:
    case DType::BFloat16: return static_cast<const uint16_t*>(p)[i];
    case DType::Int64: return static_cast<const uint64_t*>(p)[i];
    default: return static_cast<const uint8_t*>(p)[i];
  }
}
void writeBits(void* p, int64_t i, DType t, uint64_t b) {
  switch (t) {
    case DType::Float32:
    case DType::Int32: static_cast<uint32_t*>(p)[i] = static_cast<uint32_t>(b); break;
    case DType::Float16:
    case DType::BFloat16: static_cast<uint16_t*>(p)[i] = static_cast<uint16_t>(b); break;
    case DType::Int64: static_cast<uint64_t*>(p)[i] = b; break;
    default: static_cast<uint8_t*>(p)[i] = static_cast<uint8_t>(b); break;
  }
}

template <typename T>
uint64_t bitsOf(T v) {
  uint64_t b = 0;
  memcpy(&b, &v, sizeof v);
  return b;
}

template <typename T>
void lists(Case& c, const Tensor& t, DType from, DType to, const std::vector<uint64_t>& in) {
  std::vector<T> l = t.toList<T>();
  VP_CHECK(c, l.size() == in.size(), "toList gives %zu elements of %zu", l.size(), in.size());
  for (size_t i = 0; i < l.size(); i++)
    VP_CHECK(c, converts(from, in[i], to, bitsOf(l[i])), "toList element %zu of %s %s is %s", i, dtName(from), show(from, in[i]).c_str(), show(to, bitsOf(l[i])).c_str());
  if (t.numel() == 1) {
    T v = t.item<T>();
    VP_CHECK(c, converts(from, in[0], to, bitsOf(v)), "item of %s %s is %s", dtName(from), show(from, in[0]).c_str(), show(to, bitsOf(v)).c_str());
  }
}

tt::Scalar scalarOf(DType t, uint64_t b) {
  switch (t) {
    case DType::Float32: return fromBits(static_cast<uint32_t>(b));
    case DType::Float16: return make<Half>(static_cast<uint16_t>(b));
    case DType::BFloat16: return make<BFloat16>(static_cast<uint16_t>(b));
    case DType::Int32: return static_cast<int32_t>(b);
    case DType::Int64: return static_cast<int64_t>(b);
    default: return b != 0;
  }
}

void tensors(Case& c) {
  DType from = kAll[c.draw(6)], to = kAll[c.draw(6)];
  Shape shape = genShape(c, 0, 4, c.chance(1, 8) ? 3000 : 40, true);
  int64_t n = numelOf(shape);
  Rng r = c.sub();
  std::vector<uint64_t> in(n);
  for (auto& b : in) b = genVal(r, from, to).b;
  Made m = makeTensor(c, shape, from, std::vector<double>(n, 0.0), true);
  for (int64_t i = 0; i < n; i++) writeBits(m.t.dataPtr<>(), i, from, in[i]);
  c.note("%s%s%s to %s; ", dtName(from), str(shape).c_str(), m.view ? " view" : "", dtName(to));
  if (c.coin()) {
    // converting an expression of shape operations of the tensor sees the same elements
    m.t = m.t.reshape({static_cast<int64_t>(n)});
    shape = {n};
  }
  Tensor out = m.t.to(to);
  expectShape(c, out, shape, to, "the conversion");
  for (int64_t i = 0; i < n; i++) {
    uint64_t g = readBits(out.dataPtr<>(), i, to);
    VP_CHECK(c, converts(from, in[i], to, g), "element %lld of %lld: %s %s becomes %s (%llx)", (long long)i, (long long)n,
             dtName(from), show(from, in[i]).c_str(), show(to, g).c_str(), (unsigned long long)g);
  }
  for (int64_t i = 0; i < n; i++)
    VP_CHECK(c, readBits(m.t.dataPtr<>(), i, from) == (from == DType::Int32 ? in[i] & 0xffffffffu : in[i]), "the source changed at %lld", (long long)i);
  if (n > 0 && n < 64) {
    switch (to) {
      case DType::Float32: lists<float>(c, m.t, from, to, in); break;
      case DType::Float16: lists<Half>(c, m.t, from, to, in); break;
      case DType::BFloat16: lists<BFloat16>(c, m.t, from, to, in); break;
      case DType::Int32: lists<int32_t>(c, m.t, from, to, in); break;
      case DType::Int64: lists<int64_t>(c, m.t, from, to, in); break;
      default: lists<uint8_t>(c, m.t, from, to, in); break;
    }
    // the scalar conversion, and filling with a scalar of another type
    size_t i = c.draw(n);
    tt::Scalar s = scalarOf(from, in[i]);
    VP_CHECK(c, s.dtype() == from, "a scalar of %s has type %s", dtName(from), dtName(s.dtype()));
    uint64_t g = 0;
    switch (to) {
      case DType::Float32: g = bitsOf(s.to<DType::Float32>()); break;
      case DType::Float16: g = bitsOf(s.to<DType::Float16>()); break;
      case DType::BFloat16: g = bitsOf(s.to<DType::BFloat16>()); break;
      case DType::Int32: g = bitsOf(s.to<DType::Int32>()); break;
      case DType::Int64: g = bitsOf(s.to<DType::Int64>()); break;
      default: g = bitsOf(s.to<DType::Bool>()); break;
    }
    VP_CHECK(c, converts(from, in[i], to, g), "scalar %s %s becomes %s", dtName(from), show(from, in[i]).c_str(), show(to, g).c_str());
    Tensor f = Tensor::full(tt::IntArrayView(shape), s, tt::options::dtype(to));
    for (int64_t k = 0; k < n; k++) {
      uint64_t x = readBits(f.dataPtr<>(), k, to);
      VP_CHECK(c, converts(from, in[i], to, x), "filling with %s %s writes %s at %lld", dtName(from), show(from, in[i]).c_str(), show(to, x).c_str(), (long long)k);
    }
  }
  if (from != to && n > 0) c.nontrivial();
  char nm[48];
  snprintf(nm, sizeof nm, "%s to %s", dtName(from), dtName(to));
  c.cls(nm);
}

}  // namespace

int main(int argc, char** argv) {
  Suite s;
  s.property = "C12";
  s.rule = "patterns and floats: every case (each walks through a block of patterns); tensors: different data types and at least one element";
  s.assumptions = {"NaN may change its payload but stays NaN",
                   "floating-point values are only converted to integer types that can hold them",
                   "64-bit integers may reach bfloat16 through float (two roundings)"};
  s.init = noCache;
  gLargeOdds = 6000;
  s.props = {{"patterns", patterns, 512, 5120},
             {"floats", floats, 4000, 40000},
             {"every-float", everyFloat, 65536, 65536},
             {"arithmetic", arithmetic, 8000, 200000},
             {"tensors", tensors, 200000, 4000000}};
  return runSuite(s, argc, argv);
}
