// C03: matrix products, dot product, patch unfolding and folding against their definitions.
#include "ref.h"
#include "defaults.h"
#include "Operations.h"
#include "Functions.h"

using namespace vp;
namespace op = tinytorch::op;
namespace fn = tinytorch::function;

namespace {

DType pickFloat(Case& c) {
  static const DType d[] = {DType::Float32, DType::Float16, DType::BFloat16};
  return d[c.weighted({3, 1, 1})];
}
Data pickKind(Case& c) {
  static const Data d[] = {Data::Ints, Data::Small, Data::Unit};
  return d[c.weighted({3, 2, 1})];
}
void noteT(Case& c, const char* n, const Made& m) {
  c.note("%s %s %s%s %s; ", n, dtName(m.dt), str(m.ref.shape).c_str(), m.view ? " view" : "", str(m.ref.v, 8).c_str());
}

int64_t genSize(Case& c, bool big) {
  if (big && c.chance(1, 30)) return c.range(90, 300);
  if (big) return c.oneOf<int64_t>({7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65});
  size_t k = c.weighted({4, 3, 1});
  return k == 0 ? c.range(1, 4) : k == 1 ? c.range(1, 9) : 1;
}

// Infinities, NaNs and zeros among integers: their products and sums follow the same definition.
void sprinkle(Case& c, std::vector<double>& v) {
  static const double w[] = {0, INFINITY, -INFINITY, NAN, -0.0};
  if (v.empty()) return;
  for (uint64_t k = 1 + c.draw(4); k > 0; k--) v[c.draw(v.size())] = w[c.draw(5)];
}

void matmul(Case& c) {
  DType dt = pickFloat(c);
  Data kind = pickKind(c);
  bool big = c.chance(1, 40);
  bool zero = !big && c.chance(1, 15);
  int64_t m = genSize(c, big), k = genSize(c, big), n = genSize(c, big);
  if (zero) {
    size_t w = c.draw(3);
    (w == 0 ? m : w == 1 ? k : n) = 0;
  }
  bool longAxis = !big && !zero && c.chance(1, 400);
  if (longAxis) {
    // one long axis, up to what does not fit any block of a blocked product
    int64_t& d = *c.oneOf<int64_t*>({&k, &k, &m, &n});
    d = c.oneOf<int64_t>({c.range(260, 1100), c.range(1000, 5000)});
    if (&d == &k) kind = Data::Ints;
    c.cls("long axis");
  }
  // batch part
  Shape full;
  int64_t rank = c.weighted({4, 3, 2, 1, 1, 1, 1});
  if (big || longAxis) rank = std::min<int64_t>(rank, 1);
  int64_t budget = big || longAxis ? 2 : 24;
  if (!big && !longAxis && c.chance(1, 800)) {  // many matrices
    full.push_back(c.range(100, 600));
    rank = 0;
    m = std::min<int64_t>(m, 4), k = std::min<int64_t>(k, 4), n = std::min<int64_t>(n, 4);
    c.cls("many matrices");
  }
  for (int64_t i = 0; i < rank; i++) {
    int64_t d = c.range(1, std::max<int64_t>(1, std::min<int64_t>(4, budget)));
    budget /= d;
    full.push_back(d);
  }
  if (zero && rank > 0 && c.chance(1, 3)) full[c.draw(rank)] = 0;
  auto operandBatch = [&]() {
    Shape s = full;
    size_t mode = c.weighted({4, 3, 3});
    if (mode >= 1)
      for (auto& d : s)
        if (c.chance(1, 3)) d = 1;
    if (mode == 2) s.erase(s.begin(), s.begin() + c.draw(s.size() + 1));
    return s;
  };
  bool vecA = c.chance(1, 6), vecB = c.chance(1, 6);
  bool ta = !vecA && c.chance(1, 3), tb = !vecB && c.chance(1, 3);
  Shape ba = vecA ? Shape{} : operandBatch(), bb = vecB ? Shape{} : operandBatch();
  Shape sa = ba, sb = bb;
  if (vecA) sa.push_back(k);
  else {
    sa.push_back(ta ? k : m);
    sa.push_back(ta ? m : k);
  }
  if (vecB) sb.push_back(k);
  else {
    sb.push_back(tb ? n : k);
    sb.push_back(tb ? k : n);
  }
  if (vecA) m = 1;
  if (vecB) n = 1;
  // a flag given for a vector operand has no effect
  bool fa = vecA ? c.chance(1, 4) : ta, fb = vecB ? c.chance(1, 4) : tb;
  auto va = genData(c, numelOf(sa), dt, kind), vb = genData(c, numelOf(sb), dt, kind);
  if (kind == Data::Ints && c.chance(1, 6)) {
    sprinkle(c, va);
    sprinkle(c, vb);
    c.cls("special values");
  }
  Made a = makeTensor(c, sa, dt, va), b = makeTensor(c, sb, dt, vb);
  int api = static_cast<int>(c.draw(3));
  c.note("matmul transA %d transB %d api %d ", fa, fb, api);
  noteT(c, "a", a);
  noteT(c, "b", b);
  Shape batch;
  if (!bcastShape(ba, bb, batch)) c.discard();
  Shape out = batch;
  if (!vecA) out.push_back(m);
  if (!vecB) out.push_back(n);
  Arr want(out, 0.0);
  std::vector<double> tol(want.v.size(), 0.0);
  double e = epsOf(dt);
  forIndex(batch, [&](const Shape& idx, int64_t q) {
    int64_t oa = bcastOffset(idx, ba) * (vecA ? k : m * k), ob = bcastOffset(idx, bb) * (vecB ? k : k * n);
    for (int64_t i = 0; i < m; i++)
      for (int64_t j = 0; j < n; j++) {
        double s = 0, mag = 0;
        for (int64_t p = 0; p < k; p++) {
          double x = va[oa + (ta ? p * m + i : i * k + p)], y = vb[ob + (tb ? j * k + p : p * n + j)];
          s += x * y;
          mag += std::fabs(x * y);
        }
        int64_t o = q * m * n + i * n + j;
        want.v[o] = s;
        tol[o] = kind == Data::Ints && mag <= 1 / e ? 0 : e * (k + 2) * mag + (k + 2) * tinyOf(dt);
      }
  });
  Tensor r = api == 0 ? op::matmul(a.t, b.t, fa, fb) : api == 1 ? a.t.matmul(b.t, fa, fb) : fn::matmul(a.t, b.t, fa, fb);
  expectNear(c, r, want, dt, [&](size_t i) { return tol[i]; }, "matmul");
  expectUnchanged(c, a, "matmul");
  expectUnchanged(c, b, "matmul");
  expectSurround(c, a, "matmul");
  c.cls(rank == 0 ? (vecA || vecB ? "vector" : "2-D") : (ba == bb ? "batched" : "broadcast batch"));
  if (ba.size() != bb.size() && !vecA && !vecB) c.cls("batches of different rank");
  if ((vecA || vecB) && rank > 0) c.cls("vector with batch");
  if (ta || tb) c.cls("transposed");
  if (big) c.cls("large");
  if (zero) c.cls("zero-size");
  if (numelOf(out) > 1 && k > 1) c.nontrivial();
}

void dot(Case& c) {
  DType dt = pickFloat(c);
  Data kind = pickKind(c);
  Shape s = genShape(c, 0, 5, c.chance(1, 20) ? 2000 : 60, true);
  auto va = genData(c, numelOf(s), dt, kind), vb = genData(c, numelOf(s), dt, kind);
  if (kind == Data::Ints && c.chance(1, 6)) {
    sprinkle(c, va);
    sprinkle(c, vb);
  }
  Made a = makeTensor(c, s, dt, va), b = makeTensor(c, s, dt, vb);
  noteT(c, "dot a", a);
  noteT(c, "b", b);
  double w = 0, mag = 0;
  for (size_t i = 0; i < va.size(); i++) {
    w += va[i] * vb[i];
    mag += std::fabs(va[i] * vb[i]);
  }
  double e = epsOf(dt);
  double tol = kind == Data::Ints && mag <= 1 / e ? 0 : e * (va.size() + 2) * mag + (va.size() + 2) * tinyOf(dt);
  Tensor r = op::dot(a.t, b.t);
  expectNear(c, r, Arr({}, {w}), dt, [&](size_t) { return tol; }, "dot");
  expectUnchanged(c, a, "dot");
  expectUnchanged(c, b, "dot");
  c.cls("dot");
  if (va.size() > 1) c.nontrivial();
}

struct Patch {
  Shape shape;
  int64_t B, C, H, W, kh, kw, sh, sw, ph, pw, oh, ow;
};
Patch genPatch(Case& c) {
  Patch p;
  bool batched = c.chance(2, 3);
  p.B = batched ? c.range(1, 3) : 1;
  p.C = c.range(1, 4);
  p.kh = c.range(1, 4);
  p.kw = c.range(1, 4);
  p.sh = c.range(1, 3);
  p.sw = c.range(1, 3);
  p.ph = c.chance(1, 2) ? c.range(0, 3) : 0;
  p.pw = c.chance(1, 2) ? c.range(0, 3) : 0;
  p.H = std::max<int64_t>(1, c.range(std::max<int64_t>(1, p.kh - 2 * p.ph), 9));
  p.W = std::max<int64_t>(1, c.range(std::max<int64_t>(1, p.kw - 2 * p.pw), 9));
  if (c.chance(1, 500)) {  // an image larger than usual in one respect
    switch (c.draw(4)) {
      case 0: p.C = c.range(9, 80); break;
      case 1: p.W = c.range(40, 300); break;
      case 2: p.H = c.range(40, 300); break;
      default:
        if (batched) p.B = c.range(10, 70);
    }
    c.cls("large image");
  } else if (c.chance(1, 500)) {  // or a larger kernel
    (c.coin() ? p.kh : p.kw) = c.range(5, 20);
    p.H = c.range(p.kh, p.kh + 12);
    p.W = c.range(p.kw, p.kw + 12);
    c.cls("large kernel");
  }
  p.oh = (p.H + 2 * p.ph - p.kh) / p.sh + 1;
  p.ow = (p.W + 2 * p.pw - p.kw) / p.sw + 1;
  if (batched) p.shape = {p.B, p.C, p.H, p.W};
  else p.shape = {p.C, p.H, p.W};
  c.note("image %s kernel %lldx%lld stride %lldx%lld padding %lldx%lld; ", str(p.shape).c_str(), (long long)p.kh,
         (long long)p.kw, (long long)p.sh, (long long)p.sw, (long long)p.ph, (long long)p.pw);
  return p;
}
// (column row, column col) -> image offset or -1 for padding
template <typename F>
void forPatch(const Patch& p, F f) {
  for (int64_t b = 0; b < p.B; b++)
    for (int64_t y = 0; y < p.oh; y++)
      for (int64_t x = 0; x < p.ow; x++)
        for (int64_t ch = 0; ch < p.C; ch++)
          for (int64_t i = 0; i < p.kh; i++)
            for (int64_t j = 0; j < p.kw; j++) {
              int64_t h = y * p.sh - p.ph + i, w = x * p.sw - p.pw + j;
              int64_t row = (b * p.oh + y) * p.ow + x, col = (ch * p.kh + i) * p.kw + j;
              bool in = h >= 0 && h < p.H && w >= 0 && w < p.W;
              f(row, col, in ? ((b * p.C + ch) * p.H + h) * p.W + w : -1);
            }
}

void unfold(Case& c) {
  Patch p = genPatch(c);
  DType dt = pickFloat(c);
  auto v = genData(c, numelOf(p.shape), dt, pickKind(c));
  if (c.chance(1, 8)) sprinkle(c, v);
  Made a = makeTensor(c, p.shape, dt, v);
  noteT(c, "im2col", a);
  int64_t rows = p.B * p.oh * p.ow, cols = p.C * p.kh * p.kw;
  Arr want({rows, cols}, 0.0);
  int64_t inside = 0;
  forPatch(p, [&](int64_t r, int64_t q, int64_t src) {
    want.v[r * cols + q] = src < 0 ? 0 : v[src];
    inside += src >= 0;
  });
  Tensor r = op::im2col(a.t, tt::Dim2D(p.kh, p.kw), tt::Dim2D(p.sh, p.sw), tt::Dim2D(p.ph, p.pw));
  expectExact(c, r, want, dt, "im2col");
  expectUnchanged(c, a, "im2col");
  c.cls("unfold");
  if (inside < rows * cols) c.cls("unfold with padding");
  if (rows > 1) c.nontrivial();
}

void fold(Case& c) {
  Patch p = genPatch(c);
  DType dt = pickFloat(c);
  int64_t rows = p.B * p.oh * p.ow, cols = p.C * p.kh * p.kw;
  Data kind = pickKind(c);
  auto v = genData(c, rows * cols, dt, kind);
  if (kind == Data::Ints && c.chance(1, 8)) sprinkle(c, v);
  Made a = makeTensor(c, {rows, cols}, dt, v);
  noteT(c, "col2im", a);
  Arr want(p.shape, 0.0);
  std::vector<double> mag(want.v.size(), 0.0), cnt(want.v.size(), 0.0);
  bool overlap = false;
  forPatch(p, [&](int64_t r, int64_t q, int64_t dst) {
    if (dst < 0) return;
    want.v[dst] += v[r * cols + q];
    mag[dst] += std::fabs(v[r * cols + q]);
    cnt[dst]++;
    overlap |= cnt[dst] > 1;
  });
  double e = epsOf(dt);
  Tensor r = op::col2im(a.t, tt::IntArrayView(p.shape), tt::Dim2D(p.kh, p.kw), tt::Dim2D(p.sh, p.sw), tt::Dim2D(p.ph, p.pw));
  expectNear(c, r, want, dt, [&](size_t i) { return kind == Data::Ints && mag[i] <= 1 / e ? 0 : e * (cnt[i] + 1) * mag[i]; },
             "col2im");
  expectUnchanged(c, a, "col2im");
  c.cls("fold");
  if (overlap) c.cls("fold with overlap");
  if (rows > 1) c.nontrivial();
}

// <unfold(x), y> == <x, fold(y)> for every x, y: exact on small integers.
void adjoint(Case& c) {
  Patch p = genPatch(c);
  int64_t rows = p.B * p.oh * p.ow, cols = p.C * p.kh * p.kw;
  auto x = genData(c, numelOf(p.shape), DType::Float32, Data::Ints);
  auto y = genData(c, rows * cols, DType::Float32, Data::Ints);
  Tensor tx = rawTensor(p.shape, DType::Float32, x), ty = rawTensor({rows, cols}, DType::Float32, y);
  Tensor u = op::im2col(tx, tt::Dim2D(p.kh, p.kw), tt::Dim2D(p.sh, p.sw), tt::Dim2D(p.ph, p.pw));
  Tensor f = op::col2im(ty, tx.shape(), tt::Dim2D(p.kh, p.kw), tt::Dim2D(p.sh, p.sw), tt::Dim2D(p.ph, p.pw));
  auto vu = readVec(u), vf = readVec(f);
  VP_CHECK(c, vu.size() == y.size() && vf.size() == x.size(), "sizes of unfold/fold do not correspond");
  double l = 0, r = 0;
  for (size_t i = 0; i < y.size(); i++) l += vu[i] * y[i];
  for (size_t i = 0; i < x.size(); i++) r += vf[i] * x[i];
  VP_CHECK(c, l == r, "<im2col(x), y> = %.17g but <x, col2im(y)> = %.17g", l, r);
  c.cls("adjoint");
  if (rows > 1) c.nontrivial();
}

void defaults(Case& c) {
  int64_t n = c.range(1, 5);
  Tensor a = rawTensor({n, n}, DType::Float32, genData(c, n * n, DType::Float32, Data::Small));
  Tensor b = rawTensor({n, n}, DType::Float32, genData(c, n * n, DType::Float32, Data::Small));
  bool t = c.coin();
  switch (c.draw(4)) {
    case 0: VP_SAME(a.matmul(b), a.matmul(b, false, false)); break;
    case 1: VP_SAME(a.matmul(b, t), a.matmul(b, t, false)); break;
    case 2: VP_SAME(fn::matmul(a, b), fn::matmul(a, b, false, false)); break;
    default: VP_SAME(fn::matmul(a, b, t), fn::matmul(a, b, t, false)); break;
  }
}

}  // namespace

int main(int argc, char** argv) {
  Suite s;
  s.property = "C03";
  s.rule = "a case is non-trivial when the result has more than one element (and, for products, an inner size above one)";
  s.assumptions = {"operands have compatible shapes; the unfolded output has at least one position",
                   "products of small integers must be exact; other products may differ by the rounding error of sequential summation"};
  s.init = noCache;
  gLargeOdds = 6000;
  s.props = {{"matmul", matmul, 700000, 20000000},
             {"dot", dot, 150000, 3000000},
             {"unfold", unfold, 250000, 6000000},
             {"fold", fold, 250000, 6000000},
             {"adjoint", adjoint, 120000, 3000000},
             {"defaults", defaults, 20000, 200000}};
  return runSuite(s, argc, argv);
}
