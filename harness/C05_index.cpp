// C05: indexing, gathering, scattering, masking, sorting, top-k and scans against direct definitions.
#include "ref.h"
#include "defaults.h"
#include "Operations.h"
#include "Functions.h"

using namespace vp;
namespace op = tinytorch::op;
namespace fn = tinytorch::function;
using tt::IntArrayView;
using tt::Scalar;

namespace {

DType pickType(Case& c) {
  static const DType d[] = {DType::Float32, DType::Int64, DType::Float16, DType::BFloat16, DType::Int32, DType::Bool};
  return d[c.weighted({4, 2, 1, 1, 1, 1})];
}
std::vector<double> ids(Case& c, int64_t n, DType dt, double start = 0) {
  std::vector<double> v(n);
  double mod = dt == DType::BFloat16 ? 251 : dt == DType::Float16 ? 2039 : 1e6;
  if (dt == DType::Bool) {
    Rng r = c.sub();
    for (auto& x : v) x = r.below(2);
    return v;
  }
  double base = static_cast<double>(c.draw(20)) + start;
  for (int64_t i = 0; i < n; i++) v[i] = std::fmod(base + i, mod) + 1;
  return v;
}
int64_t neg(Case& c, int64_t d, int64_t rank) { return c.chance(1, 3) ? d - rank : d; }
void noteT(Case& c, const char* n, const Made& m) {
  c.note("%s %s %s%s %s; ", n, dtName(m.dt), str(m.ref.shape).c_str(), m.view ? " view" : "", str(m.ref.v, 10).c_str());
}
Tensor idxTensor(Case& c, const Shape& s, const std::vector<double>& v) {
  return makeTensor(c, s, DType::Int64, v).t;
}
// Something that shares the buffer with the tensor about to be written.
struct Shadow {
  Tensor t;
  std::vector<double> v;
};
Shadow maybeShadow(Case& c, const Made& m) {
  Shadow s;
  if (m.ref.shape.empty() || !c.chance(1, 3)) return s;
  int k = static_cast<int>(c.draw(3));
  if (k == 0) s.t = m.t.clone();
  else if (k == 1 && m.ref.shape[0] > 0) s.t = m.t.narrow(0, 0, m.ref.shape[0]);
  else s.t = m.t.flatten();
  s.v = readVec(s.t);
  return s;
}
void checkShadow(Case& c, const Shadow& s, const char* what) {
  if (!s.t.defined()) return;
  auto now = readVec(s.t);
  for (size_t i = 0; i < now.size(); i++)
    VP_CHECK(c, sameValue(now[i], s.v[i]), "%s: element %zu of a separate tensor changed from %.9g to %.9g", what, i, s.v[i], now[i]);
}

Shape nonEmptyShape(Case& c, int64_t minRank, int64_t maxRank, int64_t n) { return genShape(c, minRank, maxRank, n); }

void indexOne(Case& c) {
  DType dt = pickType(c);
  Shape s = nonEmptyShape(c, 1, 6, 120);
  int64_t rank = s.size();
  Made m = makeTensor(c, s, dt, ids(c, numelOf(s), dt));
  int64_t k = c.range(1, rank);
  Shape at(k), arg(k), rest(s.begin() + k, s.end());
  for (int64_t i = 0; i < k; i++) {
    at[i] = c.draw(s[i]);
    arg[i] = neg(c, at[i], s[i]);
  }
  Shape st = stridesOf(s);
  int64_t o = 0;
  for (int64_t i = 0; i < k; i++) o += at[i] * st[i];
  int64_t n = numelOf(rest);
  bool put = c.coin();
  noteT(c, "a", m);
  c.note("%s%s ", put ? "indexPut" : "index", str(arg).c_str());
  if (!put) {
    Tensor r = op::index(m.t, IntArrayView(arg));
    Arr want(rest, std::vector<double>(m.ref.v.begin() + o, m.ref.v.begin() + o + n));
    expectExact(c, r, want, dt, "index");
    // indexing the result again, as t[i][j] does
    if (!rest.empty() && n > 0 && c.coin()) {
      Shape a2 = {static_cast<int64_t>(c.draw(rest[0]))};
      Shape r2(rest.begin() + 1, rest.end());
      int64_t o2 = o + a2[0] * numelOf(r2);
      Arr w2(r2, std::vector<double>(m.ref.v.begin() + o2, m.ref.v.begin() + o2 + numelOf(r2)));
      expectExact(c, op::index(r, IntArrayView(a2)), w2, dt, "index of an indexed tensor");
      c.cls("index of index");
    }
    expectUnchanged(c, m, "index");
    c.cls("index");
  } else {
    Shadow sh = maybeShadow(c, m);
    bool scalar = c.chance(1, 3);
    std::vector<double> val = scalar ? std::vector<double>{dt == DType::Bool ? 1.0 : 99.0} : ids(c, n, dt, 100);
    if (dt == DType::BFloat16 || dt == DType::Float16)
      for (auto& x : val) x = roundDt(x, dt);
    Made v = makeTensor(c, scalar ? Shape{} : rest, dt, val);
    op::indexPut(m.t, IntArrayView(arg), v.t);
    Arr want = m.ref;
    for (int64_t i = 0; i < n; i++) want.v[o + i] = scalar ? val[0] : val[i];
    expectExact(c, m.t, want, dt, "indexPut");
    checkShadow(c, sh, "indexPut");
    expectUnchanged(c, v, "indexPut value");
    expectSurround(c, m, "indexPut");
    c.cls("indexPut");
  }
  if (m.view) c.cls("index on a view");
  if (numelOf(s) > 1) c.nontrivial();
}

void indexAdvance(Case& c) {
  DType dt = pickType(c);
  Shape s = nonEmptyShape(c, 1, 6, 120);
  int64_t rank = s.size();
  Made m = makeTensor(c, s, dt, ids(c, numelOf(s), dt));
  int64_t k = c.range(1, rank);
  Shape is = genShape(c, 0, 3, c.chance(1, 200) ? 600 : 12, true);
  if (is.size() + rank - k > 8) c.discard();
  int64_t q = numelOf(is);
  Shape st = stridesOf(s);
  std::vector<int64_t> base(q, 0);
  std::vector<Tensor> idx;
  Rng r = c.sub();
  noteT(c, "a", m);
  for (int64_t i = 0; i < k; i++) {
    std::vector<double> v(q);
    for (int64_t j = 0; j < q; j++) {
      int64_t x = q <= 12 ? c.draw(s[i]) : r.below(s[i]);
      base[j] += x * st[i];
      v[j] = static_cast<double>(q <= 12 ? neg(c, x, s[i]) : r.below(3) ? x : x - s[i]);
    }
    idx.push_back(idxTensor(c, is, v));
    c.note("index %s %s; ", str(is).c_str(), str(v, 12).c_str());
  }
  Shape rest(s.begin() + k, s.end());
  int64_t n = numelOf(rest);
  Shape os = is;
  os.insert(os.end(), rest.begin(), rest.end());
  tt::ArrayView<Tensor> av(idx);
  if (c.coin()) {
    Arr want(os, 0.0);
    for (int64_t j = 0; j < q; j++)
      for (int64_t i = 0; i < n; i++) want.v[j * n + i] = m.ref.v[base[j] + i];
    expectExact(c, op::indexAdvance(m.t, av), want, dt, "index by tensors");
    expectUnchanged(c, m, "index by tensors");
    c.cls("indexAdvance");
  } else {
    Shadow sh = maybeShadow(c, m);
    bool scalar = c.chance(1, 3);
    std::vector<double> val = scalar ? std::vector<double>{dt == DType::Bool ? 1.0 : 99.0} : ids(c, q * n, dt, 100);
    for (auto& x : val) x = roundDt(x, dt);
    Made v = makeTensor(c, scalar ? Shape{} : os, dt, val);
    op::indexPutAdvance(m.t, av, v.t);
    // positions written several times hold one of the values written
    std::vector<std::set<double>> ok(m.ref.v.size());
    for (int64_t j = 0; j < q; j++)
      for (int64_t i = 0; i < n; i++) ok[base[j] + i].insert(scalar ? val[0] : val[j * n + i]);
    expectShape(c, m.t, s, dt, "indexPut by tensors");
    auto got = readVec(m.t);
    for (size_t i = 0; i < got.size(); i++) {
      if (ok[i].empty())
        VP_CHECK(c, got[i] == m.ref.v[i], "indexPut by tensors changed element %zu, which no index names", i);
      else
        VP_CHECK(c, ok[i].count(got[i]), "indexPut by tensors: element %zu is %.9g, not a value written there", i, got[i]);
    }
    checkShadow(c, sh, "indexPut by tensors");
    expectUnchanged(c, v, "indexPut value");
    expectSurround(c, m, "indexPut by tensors");
    c.cls("indexPutAdvance");
  }
  if (q > 0 && numelOf(s) > 1) c.nontrivial();
}

void gatherScatter(Case& c) {
  DType dt = pickType(c);
  Shape s = nonEmptyShape(c, 1, 6, 120);
  int64_t rank = s.size();
  Made m = makeTensor(c, s, dt, ids(c, numelOf(s), dt));
  int64_t d = c.draw(rank);
  int64_t ad = neg(c, d, rank);
  Shape is = s;
  for (int64_t i = 0; i < rank; i++) {
    if (i == d) is[i] = c.range(c.chance(1, 15) ? 0 : 1, c.chance(1, 60) ? 40 : 5);
    else if (c.chance(1, 3)) is[i] = c.range(1, s[i]);
  }
  int64_t q = numelOf(is);
  std::vector<double> iv(q);
  std::vector<int64_t> pos(q);
  Shape st = stridesOf(s);
  Rng r = c.sub();
  forIndex(is, [&](const Shape& idx, int64_t i) {
    int64_t x = q <= 8 ? c.draw(s[d]) : r.below(s[d]);
    bool n = q <= 8 ? c.chance(1, 3) : r.below(3) == 0;
    Shape at = idx;
    at[d] = x;
    pos[i] = offsetOf(at, st);
    iv[i] = static_cast<double>(n ? x - s[d] : x);
  });
  Tensor index = idxTensor(c, is, iv);
  noteT(c, "a", m);
  c.note("dim %lld index %s %s; ", (long long)ad, str(is).c_str(), str(iv, 12).c_str());
  int k = static_cast<int>(c.draw(3));
  if (k == 0) {
    Arr want(is, 0.0);
    for (int64_t i = 0; i < q; i++) want.v[i] = m.ref.v[pos[i]];
    Tensor g = c.coin() ? op::gather(m.t, ad, index) : fn::gather(m.t, ad, index);
    expectExact(c, g, want, dt, "gather");
    expectUnchanged(c, m, "gather");
    c.cls("gather");
  } else {
    Shadow sh = maybeShadow(c, m);
    std::vector<double> sv = ids(c, q, dt, 60);
    for (auto& x : sv) x = roundDt(x, dt);
    Made src = makeTensor(c, is, dt, sv);
    std::vector<std::set<double>> ok(m.ref.v.size());
    for (int64_t i = 0; i < q; i++) ok[pos[i]].insert(sv[i]);
    Tensor out;
    if (k == 1) {
      out = c.coin() ? op::scatter(m.t, ad, index, src.t) : fn::scatter(m.t, ad, index, src.t);
      expectUnchanged(c, m, "scatter");
    } else {
      if (c.coin()) m.t.scatter_(ad, index, src.t);
      else op::scatterInplace(m.t, ad, index, src.t);
      out = m.t;
      expectSurround(c, m, "in-place scatter");
    }
    expectShape(c, out, s, dt, "scatter");
    auto got = readVec(out);
    for (size_t i = 0; i < got.size(); i++) {
      if (ok[i].empty())
        VP_CHECK(c, got[i] == m.ref.v[i], "scatter changed element %zu, which no index names, from %.9g to %.9g", i, m.ref.v[i], got[i]);
      else
        VP_CHECK(c, ok[i].count(got[i]), "scatter: element %zu is %.9g, not a value sent there", i, got[i]);
    }
    expectUnchanged(c, src, "scatter source");
    checkShadow(c, sh, "scatter");
    c.cls(k == 1 ? "scatter" : "scatter in place");
  }
  if (q > 1) c.nontrivial();
}

void selectRows(Case& c) {
  DType dt = pickType(c);
  Shape s = nonEmptyShape(c, 1, 7, 120);
  int64_t rank = s.size();
  Made m = makeTensor(c, s, dt, ids(c, numelOf(s), dt));
  int64_t d = c.draw(rank), ad = neg(c, d, rank);
  int64_t q = c.range(c.chance(1, 12) ? 0 : 1, c.chance(1, 40) ? 300 : 6);
  std::vector<double> iv(q);
  Rng r = c.sub();
  for (auto& x : iv) x = static_cast<double>(q <= 6 ? c.draw(s[d]) : r.below(s[d]));
  Tensor index = idxTensor(c, {q}, iv);
  noteT(c, "a", m);
  c.note("indexSelect dim %lld %s", (long long)ad, str(iv).c_str());
  Shape os = s;
  os[d] = q;
  Shape st = stridesOf(s);
  Arr want(os, 0.0);
  forIndex(os, [&](const Shape& idx, int64_t i) {
    Shape at = idx;
    at[d] = static_cast<int64_t>(iv[idx[d]]);
    want.v[i] = m.ref.v[offsetOf(at, st)];
  });
  Tensor got = c.coin() ? op::indexSelect(m.t, ad, index) : fn::indexSelect(m.t, ad, index);
  expectExact(c, got, want, dt, "indexSelect");
  expectUnchanged(c, m, "indexSelect");
  c.cls("indexSelect");
  if (numelOf(os) > 1) c.nontrivial();
}

void masked(Case& c) {
  DType dt = pickType(c);
  Shape s = genShape(c, 0, 6, 100, true);
  int64_t n = numelOf(s);
  Made m = makeTensor(c, s, dt, ids(c, n, dt));
  Made mask = makeTensor(c, s, DType::Bool, genData(c, n, DType::Bool, Data::Small));
  double val = static_cast<double>(c.around(-60, 60));
  if (dt == DType::Bool) val = val != 0;
  if (isFloatT(dt) && c.chance(1, 4)) val = -INFINITY;
  Scalar sv = isFloatT(dt) ? Scalar(static_cast<float>(val)) : Scalar(static_cast<int64_t>(val));
  noteT(c, "a", m);
  noteT(c, "mask", mask);
  Arr want = m.ref;
  for (int64_t i = 0; i < n; i++)
    if (mask.ref.v[i] != 0) want.v[i] = val;
  int form = static_cast<int>(c.draw(4));
  c.note("fillMasked form %d value %g ", form, val);
  if (form == 0) {
    expectExact(c, op::fillMasked(m.t, mask.t, sv), want, dt, "fillMasked");
    expectUnchanged(c, m, "fillMasked");
  } else if (form == 1) {
    Tensor out = rawTensor(s, dt, std::vector<double>(n, 1));
    Tensor keep = out.clone();
    op::fillMaskedOut(out, m.t, mask.t, sv);
    expectExact(c, out, want, dt, "fillMaskedOut");
    expectUnchanged(c, m, "fillMaskedOut");
    for (double x : readVec(keep)) VP_CHECK(c, x == 1, "fillMaskedOut changed a clone of the result");
  } else {
    Shadow sh = maybeShadow(c, m);
    if (form == 2) op::fillMaskedInplace(m.t, mask.t, sv);
    else m.t.fillMasked_(mask.t, sv);
    expectExact(c, m.t, want, dt, "fillMasked in place");
    checkShadow(c, sh, "fillMasked in place");
    expectSurround(c, m, "fillMasked in place");
  }
  expectUnchanged(c, mask, "fillMasked mask");
  c.cls("masked fill");
  if (n > 1) c.nontrivial();
}

std::vector<double> sortData(Case& c, int64_t n, DType dt) {
  Data kinds[] = {Data::Ints, Data::Small, Data::Wide};
  auto v = genData(c, n, dt, kinds[c.weighted({3, 2, 1})]);
  if (isFloatT(dt) && c.chance(1, 8)) {
    Rng r = c.sub();
    for (auto& x : v)
      if (r.below(4) == 0) x = r.below(2) ? INFINITY : -INFINITY;
  }
  return v;
}

void sorting(Case& c) {
  DType dt = pickType(c);
  Shape s = c.chance(1, 12) ? Shape{c.range(1, 3), c.range(17, 70), c.range(1, 3)} : nonEmptyShape(c, 1, 6, 120);
  int64_t rank = s.size();
  Made m = makeTensor(c, s, dt, sortData(c, numelOf(s), dt));
  int64_t d = c.draw(rank), ad = neg(c, d, rank);
  bool desc = c.coin();
  bool topk = c.coin();
  bool sorted = !topk || c.chance(2, 3);
  int64_t k = topk ? c.range(1, s[d]) : s[d];
  noteT(c, "a", m);
  c.note("%s dim %lld desc/largest %d k %lld sorted %d", topk ? "topk" : "sort", (long long)ad, desc, (long long)k, sorted);
  tt::TensorPair r;
  bool viaFn = c.coin();
  if (topk) r = viaFn ? fn::topk(m.t, k, ad, desc, sorted) : op::topk(m.t, k, ad, desc, sorted);
  else r = viaFn ? fn::sort(m.t, ad, desc) : op::sort(m.t, ad, desc);
  Shape os = s;
  os[d] = k;
  expectShape(c, r.first, os, dt, "values");
  expectShape(c, r.second, os, DType::Int64, "positions");
  auto val = readVec(r.first), pos = readVec(r.second);
  Shape st = stridesOf(s), ot = stridesOf(os);
  Shape lines = s;
  lines[d] = 1;
  forIndex(lines, [&](const Shape& idx, int64_t) {
    int64_t in0 = offsetOf(idx, st), out0 = offsetOf(idx, ot);
    std::vector<double> all;
    for (int64_t i = 0; i < s[d]; i++) all.push_back(m.ref.v[in0 + i * st[d]]);
    std::set<int64_t> used;
    std::vector<double> got;
    for (int64_t i = 0; i < k; i++) {
      double v = val[out0 + i * ot[d]];
      int64_t p = static_cast<int64_t>(pos[out0 + i * ot[d]]);
      VP_CHECK(c, p >= 0 && p < s[d], "position %lld outside the axis of size %lld", (long long)p, (long long)s[d]);
      VP_CHECK(c, used.insert(p).second, "position %lld returned twice", (long long)p);
      VP_CHECK(c, all[p] == v, "value %.9g returned with position %lld, which holds %.9g", v, (long long)p, all[p]);
      got.push_back(v);
    }
    std::sort(all.begin(), all.end());
    if (desc) std::reverse(all.begin(), all.end());
    all.resize(k);
    if (sorted)
      for (int64_t i = 0; i < k; i++)
        VP_CHECK(c, got[i] == all[i], "entry %lld in order is %.9g, expected %.9g", (long long)i, got[i], all[i]);
    std::sort(got.begin(), got.end());
    if (desc) std::reverse(got.begin(), got.end());
    for (int64_t i = 0; i < k; i++)
      VP_CHECK(c, got[i] == all[i], "the %lld selected values are not the extreme ones (%.9g against %.9g)", (long long)k, got[i], all[i]);
  });
  expectUnchanged(c, m, "sort/topk");
  c.cls(topk ? "topk" : "sort");
  if (s[d] > 1) c.nontrivial();
}

void cumsum(Case& c) {
  static const DType ds[] = {DType::Float32, DType::Int64, DType::Float16, DType::BFloat16, DType::Int32};
  DType dt = ds[c.weighted({3, 1, 1, 1, 1})];
  Shape s = genShape(c, 1, 7, 120, true);
  int64_t rank = s.size();
  Data kind = c.coin() || !isFloatT(dt) ? Data::Ints : Data::Small;
  auto v = genData(c, numelOf(s), dt, kind);
  Made m = makeTensor(c, s, dt, v);
  int64_t d = c.draw(rank), ad = neg(c, d, rank);
  noteT(c, "cumsum", m);
  c.note("dim %lld", (long long)ad);
  Shape st = stridesOf(s);
  Arr want(s, 0.0);
  std::vector<double> tol(want.v.size(), 0.0), mags(want.v.size(), 0.0);
  double e = epsOf(dt);
  forIndex(s, [&](const Shape& idx, int64_t i) {
    double sum = v[i], mag = std::fabs(v[i]);
    if (idx[d] > 0) {
      sum += want.v[i - st[d]];
      mag += mags[i - st[d]];
    }
    want.v[i] = sum;
    mags[i] = mag;
    tol[i] = kind == Data::Ints && (e == 0 || mag <= 1 / e) ? 0 : e * (idx[d] + 2) * mag;
  });
  Tensor r = c.coin() ? op::cumsum(m.t, ad) : fn::cumsum(m.t, ad);
  expectNear(c, r, want, dt, [&](size_t i) { return tol[i]; }, "cumsum");
  expectUnchanged(c, m, "cumsum");
  c.cls("cumsum");
  if (numelOf(s) > 1) c.nontrivial();
}

void defaults(Case& c) {
  Tensor a = someTensor(c, 1, 3);
  int64_t d = c.around(-a.dim(), a.dim() - 1), n = a.shape(d < 0 ? d + a.dim() : d), k = c.range(1, n);
  bool up = c.coin();
  switch (c.draw(5)) {
    case 0: VP_SAME(fn::sort(a), fn::sort(a, -1, false)); break;
    case 1: VP_SAME(fn::sort(a, d), fn::sort(a, d, false)); break;
    case 2: VP_SAME(fn::topk(a, k, d), fn::topk(a, k, d, true, true)); break;
    default: VP_SAME(fn::topk(a, k, d, up), fn::topk(a, k, d, up, true)); break;
  }
}

}  // namespace

int main(int argc, char** argv) {
  Suite s;
  s.property = "C05";
  s.rule = "a case is non-trivial when the tensor indexed, sorted or scanned has more than one element";
  s.assumptions = {"indices are within range (negative ones counting from the end where the operation accepts them) and values are not NaN",
                   "a position named several times in one write may hold any of the values written to it",
                   "the scatter source has the index's shape"};
  s.init = noCache;
  gLargeOdds = 6000;
  s.props = {{"index", indexOne, 350000, 9000000},          {"index by tensors", indexAdvance, 350000, 9000000},
             {"gather and scatter", gatherScatter, 350000, 9000000}, {"index select", selectRows, 200000, 5000000},
             {"masked fill", masked, 250000, 6000000},    {"sort and topk", sorting, 350000, 9000000},
             {"cumsum", cumsum, 250000, 6000000},
             {"defaults", defaults, 30000, 300000}};
  return runSuite(s, argc, argv);
}
