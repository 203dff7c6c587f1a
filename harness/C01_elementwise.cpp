// C01: element-wise operations against a double-precision reference with its own broadcasting.
#include "ref.h"
#include "defaults.h"
#include "Operations.h"

using namespace vp;
namespace op = tinytorch::op;
namespace fn = tinytorch::function;
using tt::Scalar;

namespace {

using Un = double (*)(double);
struct UnaryOp {
  const char* name;
  Un ref;
  Tensor (*f)(const Tensor&);
  void (*out)(Tensor&, const Tensor&);
  void (*in)(Tensor&);
  double ulps;      // relative tolerance in units of round-off
  bool absTol;      // tolerance also scales with the input (cancellation in the formula)
  bool infOk;       // defined at infinities
};

double rSign(double x) { return x > 0 ? 1 : x < 0 ? -1 : 0; }
double rSquare(double x) { return x * x; }
double rSigmoid(double x) { return 1 / (1 + std::exp(-x)); }
double rRelu(double x) { return x > 0 ? x : 0; }
double rGelu(double x) { return 0.5 * x * (1 + std::tanh(0.7978845608028654 * (x + 0.044715 * x * x * x))); }
double rSilu(double x) { return x / (1 + std::exp(-x)); }
double rNeg(double x) { return -x; }
double rAbs(double x) { return std::fabs(x); }
double rSqrt(double x) { return std::sqrt(x); }
double rExp(double x) { return std::exp(x); }
double rLog(double x) { return std::log(x); }
double rSin(double x) { return std::sin(x); }
double rCos(double x) { return std::cos(x); }
double rTanh(double x) { return std::tanh(x); }

#define UNARY(n, ref, ulps, at, inf)                                                                      \
  {#n, ref, [](const Tensor& t) { return op::n(t); }, [](Tensor& o, const Tensor& t) { op::n##Out(o, t); }, \
   [](Tensor& t) { op::n##Inplace(t); }, ulps, at, inf}

const std::vector<UnaryOp> kUnary = {
    UNARY(abs, rAbs, 0, false, true),       UNARY(neg, rNeg, 0, false, true),
    UNARY(sign, rSign, 0, false, true),     UNARY(sqrt, rSqrt, 4, false, true),
    UNARY(square, rSquare, 4, false, true), UNARY(exp, rExp, 8, false, true),
    UNARY(log, rLog, 8, false, true),       UNARY(sin, rSin, 8, false, true),
    UNARY(cos, rCos, 8, false, true),       UNARY(sigmoid, rSigmoid, 16, false, true),
    UNARY(tanh, rTanh, 8, false, true),     UNARY(relu, rRelu, 0, false, true),
    UNARY(gelu, rGelu, 16, true, false),    UNARY(silu, rSilu, 16, true, false)};

DType pickFloat(Case& c) {
  static const DType d[] = {DType::Float32, DType::Float16, DType::BFloat16};
  return d[c.weighted({3, 1, 1})];
}
Data pickKind(Case& c) {
  static const Data d[] = {Data::Small, Data::Unit, Data::Wide, Data::Special, Data::Ints};
  return d[c.weighted({3, 1, 2, 2, 1})];
}

// A result tensor that already holds something else; sometimes shares its buffer with another tensor.
struct OutT {
  Tensor t, shadow;
  std::vector<double> before;
};
OutT makeOut(Case& c, const Shape& s, DType dt) {
  OutT o;
  std::vector<double> v(numelOf(s), dt == DType::Bool ? 1 : 55);
  o.t = rawTensor(s, dt, v);
  if (c.chance(1, 5)) o.shadow = o.t.clone();
  o.before = v;
  return o;
}

void noteT(Case& c, const char* n, const Made& m) {
  c.note("%s %s %s%s %s; ", n, dtName(m.dt), str(m.ref.shape).c_str(), m.view ? " view" : "", str(m.ref.v, 8).c_str());
}

void unary(Case& c) {
  const auto& o = c.pick(kUnary);
  DType dt = pickFloat(c);
  Data kind = pickKind(c);
  int64_t lim = c.chance(1, 30) ? 5000 : 120;
  Shape s = genShape(c, 0, 8, lim, true);
  auto v = genData(c, numelOf(s), dt, kind);
  if (!o.infOk)
    for (auto& x : v)
      if (std::isinf(x)) x = 3;
  Made a = makeTensor(c, s, dt, v);
  int form = static_cast<int>(c.draw(3));
  c.note("%s form %d ", o.name, form);
  noteT(c, "a", a);
  Arr want(s, 0.0);
  for (size_t i = 0; i < v.size(); i++) want.v[i] = o.ref(v[i]);
  auto tol = [&](size_t i) {
    double w = want.v[i];
    if (o.ulps == 0) return 0.0;
    double t = o.ulps * epsOf(dt) * std::fabs(w) + 2 * tinyOf(dt) + 1e-37;
    if (o.absTol) t += 16 * epsOf(dt) * std::min(std::fabs(v[i]), 40.0);
    return t;
  };
  if (form == 0) {
    Tensor r = o.f(a.t);
    expectNear(c, r, want, dt, tol, o.name);
    expectUnchanged(c, a, o.name);
  } else if (form == 1) {
    OutT out = makeOut(c, s, dt);
    o.out(out.t, a.t);
    expectNear(c, out.t, want, dt, tol, o.name);
    expectUnchanged(c, a, o.name);
    if (out.shadow.defined())
      for (double x : readVec(out.shadow))
        if (x != 55) c.fail("%s write-into form also changed a separate clone of the result tensor", o.name);
  } else {
    o.in(a.t);
    expectNear(c, a.t, want, dt, tol, o.name);
    expectSurround(c, a, o.name);
  }
  c.cls(o.name);
  if (numelOf(s) > 1) c.nontrivial();
}

// Two (or three) operand shapes that broadcast together.
std::vector<Shape> genBroadcast(Case& c, int n, bool inplaceFirst) {
  Shape full = genShape(c, 0, 8, c.chance(1, 30) ? 4000 : 150, true);
  std::vector<Shape> r;
  for (int i = 0; i < n; i++) {
    Shape s = full;
    if (!(i == 0 && inplaceFirst)) {
      size_t mode = c.weighted({3, 3, 2, 1});
      if (mode == 1) {
        for (auto& d : s)
          if (c.chance(1, 3)) d = 1;
      } else if (mode == 2) {
        size_t drop = c.draw(s.size() + 1);
        s.erase(s.begin(), s.begin() + drop);
        for (auto& d : s)
          if (c.chance(1, 4)) d = 1;
      } else if (mode == 3) {
        s.clear();
      }
    }
    r.push_back(s);
  }
  return r;
}

struct BinOp {
  const char* name;
  double (*ref)(double, double, double);
  Tensor (*f)(const Tensor&, const Tensor&, const Scalar&);
  void (*out)(Tensor&, const Tensor&, const Tensor&, const Scalar&);
  void (*in)(Tensor&, const Tensor&, const Scalar&);
  double ulps;
  bool alpha, nanOk, i64;
};
#define BIN_A(n, r)                                                                                    \
  {#n, r, [](const Tensor& a, const Tensor& b, const Scalar& s) { return op::n(a, b, s); },            \
   [](Tensor& o, const Tensor& a, const Tensor& b, const Scalar& s) { op::n##Out(o, a, b, s); },       \
   [](Tensor& a, const Tensor& b, const Scalar& s) { op::n##Inplace(a, b, s); }, 4, true, true, false}
#define BIN(n, r, u, nan, i64)                                                                         \
  {#n, r, [](const Tensor& a, const Tensor& b, const Scalar&) { return op::n(a, b); },                 \
   [](Tensor& o, const Tensor& a, const Tensor& b, const Scalar&) { op::n##Out(o, a, b); },            \
   [](Tensor& a, const Tensor& b, const Scalar&) { op::n##Inplace(a, b); }, u, false, nan, i64}
#define BIN_NI(n, r, u, nan, i64)                                                                      \
  {#n, r, [](const Tensor& a, const Tensor& b, const Scalar&) { return op::n(a, b); },                 \
   [](Tensor& o, const Tensor& a, const Tensor& b, const Scalar&) { op::n##Out(o, a, b); }, nullptr, u, false, nan, i64}

double bAdd(double a, double b, double k) { return a + k * b; }
double bSub(double a, double b, double k) { return a - k * b; }
double bMul(double a, double b, double) { return a * b; }
double bDiv(double a, double b, double) { return a / b; }
double bPow(double a, double b, double) { return std::pow(a, b); }
double bMax(double a, double b, double) { return a < b ? b : a; }
double bMin(double a, double b, double) { return b < a ? b : a; }

const std::vector<BinOp> kBin = {BIN_A(add, bAdd),
                                 BIN_A(sub, bSub),
                                 BIN(mul, bMul, 4, true, false),
                                 BIN(div, bDiv, 4, true, false),
                                 BIN(pow, bPow, 8, true, false),
                                 BIN_NI(maximum, bMax, 0, false, true),
                                 BIN_NI(minimum, bMin, 0, false, true),
                                 BIN(clampMin, bMax, 0, false, true),
                                 BIN(clampMax, bMin, 0, false, true)};

void scrub(std::vector<double>& v) {
  for (auto& x : v)
    if (std::isnan(x)) x = -3;
}

void binary(Case& c) {
  const auto& o = c.pick(kBin);
  DType dt = o.i64 && c.chance(1, 3) ? DType::Int64 : pickFloat(c);
  Data kind = pickKind(c);
  int form = static_cast<int>(c.draw(3));
  if (form == 2 && !o.in) form = 0;
  auto sh = genBroadcast(c, 2, form == 2);
  auto va = genData(c, numelOf(sh[0]), dt, kind), vb = genData(c, numelOf(sh[1]), dt, kind);
  if (!o.nanOk) scrub(va), scrub(vb);
  double alpha = 1;
  if (o.alpha && c.coin()) alpha = c.oneOf({-1.0, 2.0, 0.5, 0.0, -0.25, 3.0});
  if (o.alpha && dt == DType::Float16 && kind != Data::Small && kind != Data::Ints) {
    for (auto& x : va) x = std::isfinite(x) && std::fabs(x) < 1000 ? x : 2;
    for (auto& x : vb) x = std::isfinite(x) && std::fabs(x) < 1000 ? x : -2;
  }
  if (o.alpha && kind == Data::Special)
    for (auto& x : vb)
      if (std::fabs(x) > 1e38 && std::isfinite(x)) x = 4;
  bool alias = form == 0 && sh[0] == sh[1] && c.chance(1, 6) && !(o.alpha && kind == Data::Special);
  Made a = makeTensor(c, sh[0], dt, va);
  Made b = alias ? a : makeTensor(c, sh[1], dt, vb);
  if (alias) vb = va;
  c.note("%s form %d alpha %g%s ", o.name, form, alpha, alias ? " aliased" : "");
  noteT(c, "a", a);
  noteT(c, "b", b);
  Shape os;
  VP_CHECK(c, bcastShape(sh[0], sh[1], os), "generator produced incompatible shapes");
  if (numelOf(os) > 20000) c.discard();
  Arr want(os, 0.0);
  std::vector<double> scale(want.v.size());
  forIndex(os, [&](const Shape& idx, int64_t i) {
    double x = va[bcastOffset(idx, sh[0])], y = vb[bcastOffset(idx, sh[1])];
    want.v[i] = o.ref(x, y, alpha);
    scale[i] = o.alpha ? std::fabs(x) + 2 * std::fabs(alpha * y) : std::fabs(want.v[i]);
  });
  auto tol = [&](size_t i) {
    if (o.ulps == 0) return 0.0;
    double sc = std::isfinite(scale[i]) ? scale[i] : 0;
    return o.ulps * epsOf(dt) * sc + 4 * tinyOf(dt);
  };
  if (form == 0) {
    Tensor r = o.f(a.t, b.t, Scalar(static_cast<float>(alpha)));
    expectNear(c, r, want, dt, tol, o.name);
    expectUnchanged(c, a, o.name);
    expectUnchanged(c, b, o.name);
  } else if (form == 1) {
    bool intoSelf = os == sh[0] && c.chance(1, 5), intoOther = !intoSelf && os == sh[1] && c.chance(1, 5);
    OutT out = makeOut(c, os, dt);
    Tensor& dst = intoSelf ? a.t : intoOther ? b.t : out.t;
    o.out(dst, a.t, b.t, Scalar(static_cast<float>(alpha)));
    expectNear(c, dst, want, dt, tol, o.name);
    if (!intoSelf) expectUnchanged(c, a, o.name);
    if (!intoOther) expectUnchanged(c, b, o.name);
    if (out.shadow.defined())
      for (double x : readVec(out.shadow))
        if (x != 55) c.fail("%s write-into form also changed a separate clone of the result tensor", o.name);
  } else {
    o.in(a.t, b.t, Scalar(static_cast<float>(alpha)));
    expectNear(c, a.t, want, dt, tol, o.name);
    expectSurround(c, a, o.name);
    expectUnchanged(c, b, o.name);
  }
  c.cls(o.name);
  c.cls(sh[0] == sh[1] ? "same shape" : "broadcast");
  if (sh[0] != sh[1] && numelOf(os) > 1) c.nontrivial();
}

struct CmpOp {
  const char* name;
  bool (*ref)(double, double);
  Tensor (*f)(const Tensor&, const Tensor&);
  void (*out)(Tensor&, const Tensor&, const Tensor&);
  Tensor (*method)(const Tensor&, const Tensor&);
  Tensor (*methodS)(const Tensor&, const Scalar&);
};
#define CMP(n, OPR)                                                                                        \
  {#n, [](double a, double b) { return a OPR b; }, [](const Tensor& a, const Tensor& b) { return op::n(a, b); }, \
   [](Tensor& o, const Tensor& a, const Tensor& b) { op::n##Out(o, a, b); },                               \
   [](const Tensor& a, const Tensor& b) { return a OPR b; }, [](const Tensor& a, const Scalar& b) { return a OPR b; }}
const std::vector<CmpOp> kCmp = {CMP(eq, ==), CMP(ne, !=), CMP(lt, <), CMP(le, <=), CMP(gt, >), CMP(ge, >=)};

void compare(Case& c) {
  const auto& o = c.pick(kCmp);
  DType dt = c.chance(1, 3) ? DType::Int64 : pickFloat(c);
  Data kind = c.oneOf({Data::Ints, Data::Special, Data::Small, Data::Wide});
  auto sh = genBroadcast(c, 2, false);
  // form 1 (write-into) is the known finding compare-write-into: it has no implementation to call
  int form = c.oneOf({0, 2, 3});
  if (form == 3) sh[1].clear();
  auto va = genData(c, numelOf(sh[0]), dt, kind), vb = genData(c, numelOf(sh[1]), dt, kind);
  // some equal pairs
  if (!va.empty())
    for (auto& x : vb)
      if (c.chance(1, 4)) x = va[c.draw(va.size())];
  Made a = makeTensor(c, sh[0], dt, va), b = makeTensor(c, sh[1], dt, vb);
  c.note("%s form %d ", o.name, form);
  noteT(c, "a", a);
  noteT(c, "b", b);
  Shape os;
  bcastShape(sh[0], sh[1], os);
  if (numelOf(os) > 20000) c.discard();
  Arr want(os, 0.0);
  forIndex(os, [&](const Shape& idx, int64_t i) {
    want.v[i] = o.ref(va[bcastOffset(idx, sh[0])], vb[bcastOffset(idx, sh[1])]);
  });
  if (form == 0) {
    expectExact(c, o.f(a.t, b.t), want, DType::Bool, o.name);
  } else if (form == 1) {
    OutT out = makeOut(c, os, DType::Bool);
    o.out(out.t, a.t, b.t);
    expectExact(c, out.t, want, DType::Bool, o.name);
  } else if (form == 2) {
    expectExact(c, o.method(a.t, b.t), want, DType::Bool, o.name);
  } else {
    Scalar s = dt == DType::Int64 ? Scalar(static_cast<int64_t>(vb[0])) : Scalar(static_cast<float>(vb[0]));
    expectExact(c, o.methodS(a.t, s), want, DType::Bool, o.name);
  }
  expectUnchanged(c, a, o.name);
  expectUnchanged(c, b, o.name);
  c.cls(o.name);
  if (numelOf(os) > 1) c.nontrivial();
}

void logic(Case& c) {
  int which = static_cast<int>(c.draw(3));
  int form = static_cast<int>(c.draw(4));
  auto sh = genBroadcast(c, 2, form == 2);
  auto va = genData(c, numelOf(sh[0]), DType::Bool, Data::Small), vb = genData(c, numelOf(sh[1]), DType::Bool, Data::Small);
  Made a = makeTensor(c, sh[0], DType::Bool, va), b = makeTensor(c, sh[1], DType::Bool, vb);
  c.note("logic %d form %d ", which, form);
  noteT(c, "a", a);
  Shape os;
  if (which == 0) {
    Arr want(sh[0], 0.0);
    for (size_t i = 0; i < va.size(); i++) want.v[i] = va[i] == 0;
    Tensor r;
    if (form == 0) r = op::logicNot(a.t);
    else if (form == 1) {
      r = makeOut(c, sh[0], DType::Bool).t;
      op::logicNotOut(r, a.t);
    } else if (form == 2) {
      op::logicNotInplace(a.t);
      r = a.t;
    } else r = ~a.t;
    expectExact(c, r, want, DType::Bool, "logicNot");
    if (form != 2) expectUnchanged(c, a, "logicNot");
    else expectSurround(c, a, "logicNot");
    c.cls("not");
  } else {
    noteT(c, "b", b);
    bcastShape(sh[0], sh[1], os);
    if (numelOf(os) > 20000) c.discard();
    Arr want(os, 0.0);
    forIndex(os, [&](const Shape& idx, int64_t i) {
      bool x = va[bcastOffset(idx, sh[0])] != 0, y = vb[bcastOffset(idx, sh[1])] != 0;
      want.v[i] = which == 1 ? x && y : x || y;
    });
    Tensor r;
    if (form == 0) r = which == 1 ? op::logicAnd(a.t, b.t) : op::logicOr(a.t, b.t);
    else if (form == 1) {
      r = makeOut(c, os, DType::Bool).t;
      if (which == 1) op::logicAndOut(r, a.t, b.t);
      else op::logicOrOut(r, a.t, b.t);
    } else if (form == 2) {
      if (which == 1) op::logicAndInplace(a.t, b.t);
      else op::logicOrInplace(a.t, b.t);
      r = a.t;
    } else r = which == 1 ? (a.t & b.t) : (a.t | b.t);
    expectExact(c, r, want, DType::Bool, which == 1 ? "logicAnd" : "logicOr");
    if (form != 2) expectUnchanged(c, a, "logic");
    else expectSurround(c, a, "logic");
    expectUnchanged(c, b, "logic");
    c.cls(which == 1 ? "and" : "or");
  }
  if (va.size() > 1) c.nontrivial();
}

void ternary(Case& c) {
  bool clamp = c.coin();
  DType dt = pickFloat(c);
  int form = static_cast<int>(c.draw(3));
  auto sh = genBroadcast(c, 3, form == 2);
  Data kind = clamp ? c.oneOf({Data::Small, Data::Ints, Data::Wide, Data::Special}) : c.oneOf({Data::Small, Data::Ints, Data::Unit});
  auto va = genData(c, numelOf(sh[0]), dt, kind), vb = genData(c, numelOf(sh[1]), dt, kind),
       vc = genData(c, numelOf(sh[2]), dt, kind);
  if (clamp) {
    scrub(va);
    // ordered bounds: every lower bound below every upper bound
    for (auto& x : vb) x = std::isnan(x) ? -1 : -std::fabs(x);
    for (auto& x : vc) x = std::isnan(x) ? 1 : std::fabs(x);
  }
  double value = clamp ? 0 : c.oneOf({1.0, -2.0, 0.5, 0.0, 3.0});
  Made a = makeTensor(c, sh[0], dt, va), b = makeTensor(c, sh[1], dt, vb), d = makeTensor(c, sh[2], dt, vc);
  c.note("%s form %d value %g ", clamp ? "clamp" : "addcmul", form, value);
  noteT(c, "a", a);
  noteT(c, "b", b);
  noteT(c, "c", d);
  Shape t, os;
  bcastShape(sh[0], sh[1], t);
  bcastShape(t, sh[2], os);
  if (numelOf(os) > 20000) c.discard();
  Arr want(os, 0.0);
  std::vector<double> scale(want.v.size());
  forIndex(os, [&](const Shape& idx, int64_t i) {
    double x = va[bcastOffset(idx, sh[0])], y = vb[bcastOffset(idx, sh[1])], z = vc[bcastOffset(idx, sh[2])];
    if (clamp) want.v[i] = x < y ? y : x > z ? z : x;
    else {
      want.v[i] = x + value * y * z;
      scale[i] = std::fabs(x) + 3 * std::fabs(value * y * z);
    }
  });
  auto tol = [&](size_t i) { return clamp ? 0.0 : 4 * epsOf(dt) * scale[i] + 4 * tinyOf(dt); };
  Scalar sv(static_cast<float>(value));
  const char* nm = clamp ? "clamp" : "addcmul";
  if (form == 0) {
    Tensor r = clamp ? op::clamp(a.t, b.t, d.t) : op::addcmul(a.t, b.t, d.t, sv);
    expectNear(c, r, want, dt, tol, nm);
    expectUnchanged(c, a, nm);
  } else if (form == 1) {
    OutT out = makeOut(c, os, dt);
    if (clamp) op::clampOut(out.t, a.t, b.t, d.t);
    else op::addcmulOut(out.t, a.t, b.t, d.t, sv);
    expectNear(c, out.t, want, dt, tol, nm);
    expectUnchanged(c, a, nm);
  } else {
    if (clamp) op::clampInplace(a.t, b.t, d.t);
    else op::addcmulInplace(a.t, b.t, d.t, sv);
    expectNear(c, a.t, want, dt, tol, nm);
    expectSurround(c, a, nm);
  }
  expectUnchanged(c, b, nm);
  expectUnchanged(c, d, nm);
  c.cls(nm);
  if (sh[0] != os || sh[1] != os || sh[2] != os) c.nontrivial();
}

// Operators and methods of the tensor class, with tensors and with scalars on either side.
void operators(Case& c) {
  DType dt = pickFloat(c);
  int which = static_cast<int>(c.draw(4));
  int form = static_cast<int>(c.draw(6));
  auto sh = genBroadcast(c, 2, form == 3);
  auto va = genData(c, numelOf(sh[0]), dt, Data::Small), vb = genData(c, numelOf(sh[1]), dt, Data::Small);
  Made a = makeTensor(c, sh[0], dt, va), b = makeTensor(c, sh[1], dt, vb);
  double s = c.oneOf({2.0, -3.0, 0.5, 1.0, -0.125});
  Scalar sc = c.coin() ? Scalar(static_cast<float>(s))
                       : (s == 0.5 || s == -0.125 ? Scalar(static_cast<float>(s)) : Scalar(static_cast<int32_t>(s)));
  c.note("operator %c form %d scalar %g ", "+-*/"[which], form, s);
  noteT(c, "a", a);
  noteT(c, "b", b);
  auto ap = [&](double x, double y) { return which == 0 ? x + y : which == 1 ? x - y : which == 2 ? x * y : x / y; };
  auto tolOf = [&](const Arr& w) {
    return [&w, dt](size_t i) { return std::isfinite(w.v[i]) ? 4 * epsOf(dt) * (std::fabs(w.v[i]) + 16) : 0.0; };
  };
  Tensor r;
  Arr want;
  Tensor alias = a.t;
  switch (form) {
    case 0:
    case 3: {
      Shape os;
      bcastShape(sh[0], sh[1], os);
      if (numelOf(os) > 20000) c.discard();
      want = Arr(os, 0.0);
      forIndex(os, [&](const Shape& idx, int64_t i) {
        want.v[i] = ap(va[bcastOffset(idx, sh[0])], vb[bcastOffset(idx, sh[1])]);
      });
      if (form == 0) {
        r = which == 0 ? a.t + b.t : which == 1 ? a.t - b.t : which == 2 ? a.t * b.t : a.t / b.t;
      } else {
        if (which == 0) a.t += b.t;
        else if (which == 1) a.t -= b.t;
        else if (which == 2) a.t *= b.t;
        else a.t /= b.t;
        r = a.t;
      }
      expectUnchanged(c, b, "operator");
      break;
    }
    case 1:
    case 4: {
      want = Arr(sh[0], 0.0);
      for (size_t i = 0; i < va.size(); i++) want.v[i] = ap(va[i], s);
      if (form == 1) {
        r = which == 0 ? a.t + sc : which == 1 ? a.t - sc : which == 2 ? a.t * sc : a.t / sc;
      } else {
        if (which == 0) a.t += sc;
        else if (which == 1) a.t -= sc;
        else if (which == 2) a.t *= sc;
        else a.t /= sc;
        r = a.t;
      }
      break;
    }
    case 2: {
      want = Arr(sh[0], 0.0);
      for (size_t i = 0; i < va.size(); i++) want.v[i] = ap(s, va[i]);
      r = which == 0 ? sc + a.t : which == 1 ? sc - a.t : which == 2 ? sc * a.t : sc / a.t;
      break;
    }
    case 5: {
      int m = static_cast<int>(c.draw(6));
      want = Arr(sh[0], 0.0);
      for (size_t i = 0; i < va.size(); i++)
        want.v[i] = m == 0 ? std::sin(va[i]) : m == 1 ? std::cos(va[i]) : m == 2 ? std::sqrt(va[i]) : m == 3 ? va[i] * va[i]
                    : m == 4 ? rRelu(va[i]) : rSilu(va[i]);
      r = m == 0 ? a.t.sin() : m == 1 ? a.t.cos() : m == 2 ? a.t.sqrt() : m == 3 ? a.t.pow(Scalar(2.0f))
          : m == 4 ? fn::relu(a.t) : fn::silu(a.t);
      break;
    }
  }
  expectNear(c, r, want, dt, tolOf(want), "operator");
  if (form != 3 && form != 4) expectUnchanged(c, a, "operator");
  c.cls(form == 5 ? "method" : form == 0 || form == 3 ? "tensor-tensor" : "tensor-scalar");
  if (va.size() > 1) c.nontrivial();
}

void defaults(Case& c) {
  Tensor a = someTensor(c, 1, 3), b = rawTensor(toShape(a.shape()), DType::Float32, genData(c, a.numel(), DType::Float32, Data::Small));
  switch (c.draw(2)) {
    case 0: VP_SAME(fn::add(a, b), fn::add(a, b, Scalar(1))); break;
    default: VP_SAME(fn::sub(a, b), fn::sub(a, b, Scalar(1))); break;
  }
}

}  // namespace

int main(int argc, char** argv) {
  Suite s;
  s.property = "C01";
  s.rule =
      "A case is one element-wise operation (unary, binary with or without alpha, comparison, boolean, clamp, addcmul, "
      "class operator) in one form (returning, write-into, in-place) on generated operands: rank 0-8, size-one and zero "
      "axes, operands that broadcast in either direction, three float types, Int64 and Bool, special values, operands "
      "that are views at an offset into a poisoned buffer. Non-trivial: more than one element, and for binary and "
      "ternary operations operands whose shapes differ.";
  s.assumptions = {"NaN operands of min/max/clamp are excluded (order of NaN is unspecified)",
                   "GELU is the tanh form, as the library's kernel documents"};
  s.init = noCache;
  gLargeOdds = 15000;
  s.props = {{"unary", unary, 500000, 12000000},     {"binary", binary, 700000, 16000000},
             {"compare", compare, 300000, 6000000}, {"logic", logic, 200000, 3000000},
             {"ternary", ternary, 400000, 8000000}, {"operators", operators, 400000, 8000000},
             {"defaults", defaults, 20000, 200000}};
  s.findings = {{"compare-write-into",
                 "the write-into form of every comparison (eqOut, neOut, ltOut, leOut, gtOut, geOut) aborts: it is "
                 "dispatched on the boolean result tensor but implemented only for the operand types",
                 [] {
                   Tensor a = rawTensor({2}, DType::Float32, {1, 2}), b = rawTensor({2}, DType::Float32, {1, 3});
                   Tensor o = rawTensor({2}, DType::Bool, {0, 0});
                   op::eqOut(o, a, b);
                   return readVec(o) != std::vector<double>{1, 0};
                 }}};
  return runSuite(s, argc, argv);
}
