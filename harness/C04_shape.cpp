// C04: shape operations against a model that names, for every output position, the source element.
#include "ref.h"
#include "defaults.h"
#include "Operations.h"
#include "Functions.h"

using namespace vp;
namespace op = tinytorch::op;
namespace fn = tinytorch::function;
using tt::IntArrayView;

namespace {

constexpr size_t kMaxRank = 8;
constexpr int64_t kMaxNumel = 600;

DType pickType(Case& c) {
  static const DType d[] = {DType::Float32, DType::Int64, DType::Float16, DType::BFloat16, DType::Int32, DType::Bool};
  return d[c.weighted({4, 2, 1, 1, 1, 1})];
}

// Every element gets its own value (within what the type can tell apart).
std::vector<double> ids(Case& c, int64_t n, DType dt) {
  std::vector<double> v(n);
  double mod = dt == DType::BFloat16 ? 251 : dt == DType::Float16 ? 2039 : 1e6;
  if (dt == DType::Bool) {
    Rng r = c.sub();
    for (auto& x : v) x = r.below(2);
    return v;
  }
  double base = static_cast<double>(c.draw(50));
  for (int64_t i = 0; i < n; i++) v[i] = std::fmod(base + i, mod) + 1;
  return v;
}

struct Val {
  Tensor t;
  Arr a;
};

int64_t neg(Case& c, int64_t d, int64_t rank) { return c.chance(1, 3) ? d - rank : d; }

// A random factorisation of n into rank sizes.
Shape factor(Case& c, int64_t n, int64_t rank) {
  Shape s(rank, 1);
  if (n == 0) {
    for (auto& d : s) d = c.range(0, 3);
    if (rank > 0 && numelOf(s) != 0) s[c.draw(rank)] = 0;
    return s;
  }
  for (int64_t p = 2; n > 1; p++) {
    if (p * p > n) p = n;
    while (n % p == 0) {
      s[c.draw(rank)] *= p;
      n /= p;
    }
  }
  return s;
}

template <typename F>
Arr gather(const Shape& out, const Arr& in, F src) {
  Arr r(out, 0.0);
  forIndex(out, [&](const Shape& idx, int64_t i) { r.v[i] = in.v[src(idx)]; });
  return r;
}

const char* kOps[] = {"reshape", "view",   "flatten", "unflatten", "squeeze",   "unsqueeze", "permute", "permute all",
                      "transpose", "t",    "split",   "sections",  "chunk",     "narrow",    "concat",  "stack",
                      "hstack",  "vstack", "expand",  "repeat",    "tril",      "triu"};
constexpr size_t kNumOps = sizeof(kOps) / sizeof(kOps[0]);

bool step(Case& c, Val& x, DType dt, Val& out) {
  size_t k = c.draw(kNumOps);
  const Shape& s = x.a.shape;
  int64_t rank = static_cast<int64_t>(s.size());
  int64_t n = numelOf(s);
  std::string name = kOps[k];
  Shape os;
  // form: 0 method, 1 op::, 2 in-place (on a separate handle, where there is one)
  int form = static_cast<int>(c.draw(3));
  Tensor t = x.t, r;
  auto inplace = [&]() { return t.clone(); };
  auto check = [&](const Tensor& got, const Arr& want) {
    std::string what = name + " form " + std::to_string(form);
    expectExact(c, got, want, dt, what.c_str());
  };
  switch (k) {
    case 0:
    case 1: {
      if (n == 1 && c.chance(1, 4)) os = {};
      else os = factor(c, n, c.range(1, kMaxRank));
      if (n == 0 && os.empty()) return false;
      Shape arg = os;
      if (!arg.empty() && n > 0 && c.chance(1, 2)) arg[c.draw(arg.size())] = -1;
      c.note("%s%s ", name.c_str(), str(arg).c_str());
      if (k == 1) r = form == 0 ? t.view(arg) : form == 1 ? op::view(t, IntArrayView(arg)) : fn::view(t, arg);
      else if (form == 0) r = t.reshape(arg);
      else if (form == 1) r = op::reshape(t, IntArrayView(arg));
      else {
        r = inplace();
        if (c.coin()) r.reshape_(arg);
        else op::reshapeInplace(r, IntArrayView(arg));
      }
      out.a = Arr(os, x.a.v);
      break;
    }
    case 2: {
      int64_t b = rank ? c.draw(rank) : 0, e = rank ? c.range(b, rank - 1) : 0;
      int64_t ab = rank ? neg(c, b, rank) : 0, ae = rank ? neg(c, e, rank) : (c.coin() ? -1 : 0);
      if (!rank) ae = -1;
      c.note("flatten(%lld,%lld) ", (long long)ab, (long long)ae);
      for (int64_t i = 0; i < b; i++) os.push_back(s[i]);
      int64_t f = 1;
      for (int64_t i = b; rank && i <= e; i++) f *= s[i];
      os.push_back(f);
      for (int64_t i = e + 1; i < rank; i++) os.push_back(s[i]);
      if (form == 0) r = t.flatten(ab, ae);
      else if (form == 1) r = op::flatten(t, ab, ae);
      else {
        r = inplace();
        r.flatten_(ab, ae);
      }
      out.a = Arr(os, x.a.v);
      break;
    }
    case 3: {
      if (rank == 0 || rank >= static_cast<int64_t>(kMaxRank)) return false;
      int64_t d = c.draw(rank);
      if (s[d] == 0) return false;
      Shape sub = factor(c, s[d], c.range(1, kMaxRank - rank + 1));
      os = s;
      os.erase(os.begin() + d);
      os.insert(os.begin() + d, sub.begin(), sub.end());
      Shape arg = sub;
      if (c.coin()) arg[c.draw(arg.size())] = -1;
      int64_t ad = neg(c, d, rank);
      c.note("unflatten(%lld,%s) ", (long long)ad, str(arg).c_str());
      if (form == 0) r = t.unflatten(ad, arg);
      else if (form == 1) r = op::unflatten(t, ad, IntArrayView(arg));
      else {
        r = inplace();
        r.unflatten_(ad, arg);
      }
      out.a = Arr(os, x.a.v);
      break;
    }
    case 4: {
      int mode = static_cast<int>(c.draw(3));  // one, several, all
      std::vector<bool> drop(rank, false);
      Shape arg;
      if (mode == 0) {
        if (rank == 0) return false;
        int64_t d = c.draw(rank);
        drop[d] = s[d] == 1;
        arg = {neg(c, d, rank)};
      } else if (mode == 1) {
        if (rank == 0) return false;
        for (int64_t d = 0; d < rank; d++)
          if (c.coin()) {
            arg.push_back(neg(c, d, rank));
            drop[d] = s[d] == 1;
          }
        if (arg.empty()) return false;
        if (c.coin()) std::reverse(arg.begin(), arg.end());
      } else {
        for (int64_t d = 0; d < rank; d++) drop[d] = s[d] == 1;
      }
      for (int64_t d = 0; d < rank; d++)
        if (!drop[d]) os.push_back(s[d]);
      c.note("squeeze%s ", str(arg).c_str());
      if (form == 0) r = mode == 0 ? t.squeeze(arg[0]) : t.squeeze(IntArrayView(arg));
      else if (form == 1) r = op::squeeze(t, IntArrayView(arg));
      else {
        r = inplace();
        if (mode == 0) r.squeeze_(arg[0]);
        else r.squeeze_(IntArrayView(arg));
      }
      out.a = Arr(os, x.a.v);
      break;
    }
    case 5: {
      if (rank >= static_cast<int64_t>(kMaxRank)) return false;
      int64_t d = c.range(0, rank);
      os = s;
      os.insert(os.begin() + d, 1);
      int64_t ad = neg(c, d, rank + 1);
      c.note("unsqueeze(%lld) ", (long long)ad);
      if (form == 0) r = t.unsqueeze(ad);
      else if (form == 1) r = op::unsqueeze(t, ad);
      else {
        r = inplace();
        r.unsqueeze_(ad);
      }
      out.a = Arr(os, x.a.v);
      break;
    }
    case 6:
    case 7:
    case 8:
    case 9: {
      Shape perm(rank);
      for (int64_t i = 0; i < rank; i++) perm[i] = i;
      Shape arg;
      int64_t d0 = 0, d1 = 0;
      if (k == 6) {
        for (int64_t i = rank - 1; i > 0; i--) std::swap(perm[i], perm[c.draw(i + 1)]);
        for (auto d : perm) arg.push_back(neg(c, d, rank));
        c.note("permute%s ", str(arg).c_str());
      } else if (k == 7) {
        std::reverse(perm.begin(), perm.end());
        c.note("permute() ");
      } else if (k == 8) {
        if (rank == 0) return false;
        int64_t i = c.draw(rank), j = c.draw(rank);
        std::swap(perm[i], perm[j]);
        d0 = neg(c, i, rank);
        d1 = neg(c, j, rank);
        c.note("transpose(%lld,%lld) ", (long long)d0, (long long)d1);
      } else {
        if (rank < 2) return false;
        std::swap(perm[0], perm[1]);
        c.note("t() ");
      }
      for (auto d : perm) os.push_back(s[d]);
      Shape st = stridesOf(s);
      out.a = gather(os, x.a, [&](const Shape& idx) {
        int64_t o = 0;
        for (size_t i = 0; i < idx.size(); i++) o += idx[i] * st[perm[i]];
        return o;
      });
      if (form == 2) {
        r = inplace();
        if (k == 6) r.permute_(arg);
        else if (k == 7) r.permute_();
        else if (k == 8) r.transpose_(d0, d1);
        else r.t_();
      } else if (form == 1) {
        if (k == 6) r = op::permute(t, IntArrayView(arg));
        else if (k == 7) r = op::permuteAll(t);
        else if (k == 8) r = op::transpose(t, d0, d1);
        else r = rank == 2 ? op::transpose2d(t) : t.t();
      } else {
        if (k == 6) r = t.permute(arg);
        else if (k == 7) r = t.permute();
        else if (k == 8) r = t.transpose(d0, d1);
        else r = t.t();
      }
      break;
    }
    case 10:
    case 11:
    case 12: {
      if (rank == 0) return false;
      int64_t d = c.draw(rank);
      if (s[d] == 0 && k != 12) return false;
      int64_t ad = neg(c, d, rank);
      Shape sizes;
      std::vector<Tensor> parts;
      if (k == 10) {
        std::vector<int64_t> div;
        for (int64_t q = 1; q <= s[d]; q++)
          if (s[d] % q == 0) div.push_back(q);
        int64_t q = c.pick(div);
        sizes.assign(s[d] / q, q);
        c.note("split(%lld,%lld) ", (long long)q, (long long)ad);
        parts = form == 0 ? t.split(q, ad) : form == 1 ? op::split(t, q, ad) : fn::split(t, q, ad);
      } else if (k == 11) {
        int64_t left = s[d];
        while (left > 0) {
          int64_t q = c.range(c.chance(1, 8) ? 0 : 1, left);
          sizes.push_back(q);
          left -= q;
        }
        c.note("split(%s,%lld) ", str(sizes).c_str(), (long long)ad);
        IntArrayView sv(sizes);
        parts = form == 0 ? t.split(sv, ad) : form == 1 ? op::splitSections(t, sv, ad) : fn::split(t, sv, ad);
      } else {
        int64_t q = c.range(1, s[d] + 2);
        int64_t eff = std::max<int64_t>(1, std::min(q, s[d]));
        int64_t sz = (s[d] + eff - 1) / eff;
        for (int64_t b = 0; b < s[d]; b += sz) sizes.push_back(std::min(sz, s[d] - b));
        if (s[d] == 0) sizes = {0};
        c.note("chunk(%lld,%lld) ", (long long)q, (long long)ad);
        parts = form == 0 ? t.chunk(q, ad) : form == 1 ? op::chunk(t, q, ad) : fn::chunk(t, q, ad);
      }
      VP_CHECK(c, parts.size() == sizes.size(), "%s: %zu pieces, expected %zu", name.c_str(), parts.size(), sizes.size());
      Shape st = stridesOf(s);
      size_t keep = c.draw(parts.size());
      int64_t at = 0;
      for (size_t i = 0; i < parts.size(); i++) {
        Shape ps = s;
        ps[d] = sizes[i];
        Arr want = gather(ps, x.a, [&](const Shape& idx) { return offsetOf(idx, st) + at * st[d]; });
        check(parts[i], want);
        if (i == keep) {
          out.a = want;
          r = parts[i];
        }
        at += sizes[i];
      }
      // putting the pieces back together gives the original
      check(fn::concat(tt::ArrayView<Tensor>(parts), ad), x.a);
      break;
    }
    case 13: {
      if (rank == 0) return false;
      int64_t d = c.draw(rank);
      if (s[d] == 0) return false;
      int64_t b = c.draw(s[d]), len = c.range(c.chance(1, 10) ? 0 : 1, s[d] - b);
      int64_t ad = neg(c, d, rank), ab = neg(c, b, s[d]);
      c.note("narrow(%lld,%lld,%lld) ", (long long)ad, (long long)ab, (long long)len);
      os = s;
      os[d] = len;
      Shape st = stridesOf(s);
      out.a = gather(os, x.a, [&](const Shape& idx) { return offsetOf(idx, st) + b * st[d]; });
      r = form == 0 ? t.narrow(ad, ab, len) : form == 1 ? op::narrow(t, ad, ab, len) : fn::narrow(t, ad, ab, len);
      break;
    }
    case 14:
    case 15:
    case 16:
    case 17: {
      bool stack = k == 15 || (k == 17 && rank == 1);
      if (k == 16 && rank == 0) return false;
      if (k == 17 && rank == 0) return false;
      int64_t d;
      if (k == 14) {
        if (rank == 0) return false;
        d = c.draw(rank);
      } else if (k == 15) {
        if (rank >= static_cast<int64_t>(kMaxRank)) return false;
        d = c.range(0, rank);
      } else if (k == 16) {
        d = rank == 1 ? 0 : 1;
      } else {
        d = 0;
      }
      int64_t m = c.range(1, 4);
      if (n * m > kMaxNumel) return false;
      std::vector<Tensor> ts;
      std::vector<Arr> as;
      int64_t self = c.draw(m);
      int64_t total = 0;
      std::string shapes;
      for (int64_t i = 0; i < m; i++) {
        if (i == self) {
          ts.push_back(t);
          as.push_back(x.a);
        } else {
          Shape sh = s;
          if (!stack && sh[d] > 0 && c.coin()) sh[d] = c.range(c.chance(1, 8) ? 0 : 1, 4);
          Made mk = makeTensor(c, sh, dt, ids(c, numelOf(sh), dt));
          ts.push_back(mk.t);
          as.push_back(mk.ref);
        }
        total += stack ? 1 : as.back().shape[d];
        shapes += str(as.back().shape);
      }
      int64_t ad = k == 14 ? neg(c, d, rank) : k == 15 ? neg(c, d, rank + 1) : 0;
      c.note("%s(%s,%lld) ", name.c_str(), shapes.c_str(), (long long)ad);
      os = s;
      if (stack) os.insert(os.begin() + d, m);
      else os[d] = total;
      out.a = Arr(os, 0.0);
      forIndex(os, [&](const Shape& idx, int64_t i) {
        if (stack) {
          Shape in = idx;
          in.erase(in.begin() + d);
          out.a.v[i] = as[idx[d]].v[offsetOf(in, stridesOf(s))];
        } else {
          Shape in = idx;
          size_t w = 0;
          while (in[d] >= as[w].shape[d]) in[d] -= as[w++].shape[d];
          out.a.v[i] = as[w].v[offsetOf(in, stridesOf(as[w].shape))];
        }
      });
      tt::ArrayView<Tensor> av(ts);
      if (k == 14) r = form == 0 ? fn::concat(av, ad) : op::concat(av, ad);
      else if (k == 15) r = form == 0 ? fn::stack(av, ad) : op::stack(av, ad);
      else if (k == 16) r = form == 0 ? fn::hstack(av) : op::hstack(av);
      else r = form == 0 ? fn::vstack(av) : op::vstack(av);
      // taking the pieces out again
      if (stack && numelOf(os) > 0 && d == 0) {
        int64_t w = c.draw(m);
        Shape first = {w};
        check(op::index(r, IntArrayView(first)), as[w]);
      }
      break;
    }
    case 18: {
      int64_t extra = c.chance(1, 2) ? c.range(0, std::min<int64_t>(2, kMaxRank - rank)) : 0;
      os.assign(extra, 1);
      os.insert(os.end(), s.begin(), s.end());
      Shape arg = os;
      for (size_t i = 0; i < os.size(); i++) {
        if (os[i] == 1 && c.coin()) {
          os[i] = c.range(1, 4);
          arg[i] = os[i];
        } else if (static_cast<int64_t>(i) >= extra && (os[i] == 0 || c.chance(1, 3))) {
          arg[i] = -1;
        }
      }
      if (numelOf(os) > kMaxNumel) return false;
      c.note("expand%s ", str(arg).c_str());
      out.a = gather(os, x.a, [&](const Shape& idx) { return bcastOffset(idx, s); });
      r = form == 1 ? op::expand(t, IntArrayView(arg)) : fn::expand(t, arg);
      break;
    }
    case 19: {
      if (rank == 0) return false;
      int64_t d = c.draw(rank), q = c.range(1, 4);
      if (n * q > kMaxNumel) return false;
      int64_t ad = neg(c, d, rank);
      c.note("repeatInterleave(%lld,%lld) ", (long long)q, (long long)ad);
      os = s;
      os[d] *= q;
      Shape st = stridesOf(s);
      out.a = gather(os, x.a, [&](const Shape& idx) {
        Shape in = idx;
        in[d] /= q;
        return offsetOf(in, st);
      });
      r = form == 1 ? op::repeatInterleave(t, q, ad) : fn::repeatInterleave(t, q, ad);
      break;
    }
    default: {
      if (rank < 2) return false;
      int64_t diag = c.around(-6, 6);
      bool lower = k == 20;
      c.note("%s(%lld) ", name.c_str(), (long long)diag);
      out.a = x.a;
      forIndex(s, [&](const Shape& idx, int64_t i) {
        int64_t row = idx[rank - 2], col = idx[rank - 1];
        if (lower ? col > row + diag : col < row + diag) out.a.v[i] = 0;
      });
      if (form == 0) r = lower ? t.tril(diag) : t.triu(diag);
      else if (form == 1) r = lower ? op::tril(t, diag) : op::triu(t, diag);
      else r = lower ? fn::tril(t, diag) : fn::triu(t, diag);
      break;
    }
  }
  check(r, out.a);
  out.t = r;
  expectExact(c, x.t, x.a, dt, (name + ": operand").c_str());
  c.cls(name.c_str());
  return true;
}

void chain(Case& c) {
  DType dt = pickType(c);
  Shape s = genShape(c, 0, 7, c.chance(1, 20) ? 500 : 80, true);
  Made m = makeTensor(c, s, dt, ids(c, numelOf(s), dt));
  c.note("%s %s%s: ", dtName(dt), str(s).c_str(), m.view ? " view" : "");
  int64_t steps = c.range(1, c.thorough ? 14 : 8);
  Val x{m.t, m.ref};
  std::vector<Val> seen{x};
  int done = 0;
  for (int64_t i = 0; i < steps; i++) {
    Val y;
    if (!step(c, x, dt, y)) continue;
    done++;
    seen.push_back(y);
    // continue from the result, or go back to an earlier value of the chain
    x = c.chance(1, 6) ? c.pick(seen) : y;
  }
  for (auto& v : seen) expectExact(c, v.t, v.a, dt, "an earlier value of the chain");
  expectSurround(c, m, "chain");
  if (done >= 1 && numelOf(s) > 1) c.nontrivial();
  if (done >= 4) c.cls("4 or more operations");
}

void inverses(Case& c) {
  DType dt = pickType(c);
  Shape s = genShape(c, 1, 7, 80, true);
  int64_t rank = s.size();
  Made m = makeTensor(c, s, dt, ids(c, numelOf(s), dt));
  c.note("%s %s%s: ", dtName(dt), str(s).c_str(), m.view ? " view" : "");
  const Tensor& t = m.t;
  switch (c.draw(6)) {
    case 0: {
      Shape p(rank), inv(rank);
      for (int64_t i = 0; i < rank; i++) p[i] = i;
      for (int64_t i = rank - 1; i > 0; i--) std::swap(p[i], p[c.draw(i + 1)]);
      for (int64_t i = 0; i < rank; i++) inv[p[i]] = i;
      c.note("permute%s and back", str(p).c_str());
      expectExact(c, t.permute(p).permute(inv), m.ref, dt, "permute then inverse permute");
      break;
    }
    case 1: {
      int64_t b = c.draw(rank), e = c.range(b, rank - 1);
      Shape mid(s.begin() + b, s.begin() + e + 1);
      c.note("flatten(%lld,%lld) and back", (long long)b, (long long)e);
      expectExact(c, t.flatten(b, e).unflatten(b, mid), m.ref, dt, "flatten then unflatten");
      break;
    }
    case 2: {
      if (rank >= static_cast<int64_t>(kMaxRank)) c.discard();
      int64_t d = c.range(0, rank);
      expectExact(c, t.unsqueeze(d).squeeze(d), m.ref, dt, "unsqueeze then squeeze");
      break;
    }
    case 3: {
      int64_t i = c.draw(rank), j = c.draw(rank);
      expectExact(c, t.transpose(i, j).transpose(j, i), m.ref, dt, "transpose twice");
      break;
    }
    case 4: {
      if (rank < 2) c.discard();
      int64_t k = c.around(-5, 5);
      // lower part up to k plus upper part from k+1 is the whole
      if (!isFloatT(dt)) c.discard();
      expectExact(c, t.tril(k) + t.triu(k + 1), m.ref, dt, "tril plus triu");
      break;
    }
    default: {
      if (numelOf(s) == 0) c.discard();
      expectExact(c, t.flatten().reshape(s), m.ref, dt, "flatten all then reshape");
      Shape bad = {numelOf(s) + 1};
      break;
    }
  }
  c.cls("inverse pair");
  if (numelOf(s) > 1) c.nontrivial();
}

void defaults(Case& c) {
  Tensor a = someTensor(c, 2, 4);
  int64_t last = a.shape(a.dim() - 1);
  int64_t n0 = a.shape(0), k = c.range(1, n0);
  std::vector<int64_t> parts{k};
  if (n0 - k > 0) parts.push_back(n0 - k);
  IntArrayView pv(parts);
  while (n0 % k != 0) k--;  // an equal split divides the axis
  switch (c.draw(15)) {
    case 0: VP_SAME(a.tril(), a.tril(0)); break;
    case 1: VP_SAME(a.triu(), a.triu(0)); break;
    case 2: VP_SAME(a.flatten(), a.flatten(0, -1)); break;
    case 3: VP_SAME(a.flatten(1), a.flatten(1, -1)); break;
    case 4: if (last == 1) VP_SAME(a.squeeze(), a.squeeze(-1)); break;
    case 5: VP_SAME(a.split(k), a.split(k, 0)); break;
    case 6: VP_SAME(a.split(pv), a.split(pv, 0)); break;
    case 7: VP_SAME(a.chunk(k), a.chunk(k, 0)); break;
    case 8: VP_SAME(fn::flatten(a), fn::flatten(a, 0, -1)); break;
    case 9: VP_SAME(fn::split(a, k), fn::split(a, k, 0)); break;
    case 10: VP_SAME(fn::split(a, pv), fn::split(a, pv, 0)); break;
    case 11: VP_SAME(fn::chunk(a, k), fn::chunk(a, k, 0)); break;
    case 12: {
      Tensor x = a.clone(), y = a.clone();
      x.flatten_();
      y.flatten_(0, -1);
      VP_SAME(x, y);
      break;
    }
    case 13: {
      Tensor x = a.clone(), y = a.clone();
      if (last != 1) break;
      x.squeeze_();
      y.squeeze_(-1);
      VP_SAME(x, y);
      break;
    }
    default: VP_SAME(fn::flatten(a, 1), fn::flatten(a, 1, -1)); break;
  }
}

}  // namespace

int main(int argc, char** argv) {
  Suite s;
  s.property = "C04";
  s.rule = "a case is non-trivial when at least one operation ran on a tensor with more than one element";
  s.assumptions = {"arguments are valid for the shape; ranks stay within the documented maximum of eight",
                   "split sizes divide the dimension and chunk counts are capped at its size, as the library defines"};
  s.init = noCache;
  gLargeOdds = 15000;
  s.props = {{"chain", chain, 900000, 25000000}, {"inverses", inverses, 300000, 8000000},
             {"defaults", defaults, 40000, 500000}};
  return runSuite(s, argc, argv);
}
