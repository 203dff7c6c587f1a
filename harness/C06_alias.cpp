// C06: histories of derivations, in-place writes and releases against a value-semantics model.
//
// The model keeps one value per tensor object.  Copies of a handle share the object; every derivation makes a new
// one.  After every step every live handle must read exactly as its object.
#include "ref.h"
#include "Operations.h"
#include "Functions.h"

using namespace vp;
namespace op = tinytorch::op;
namespace fn = tinytorch::function;
using tt::IntArrayView;
using tt::Scalar;

namespace {

struct Obj {
  Arr a;
  DType dt;
  int family;  // objects that may share a buffer: derived from one root
};
struct Slot {
  Tensor t;
  std::shared_ptr<Obj> o;
};

struct World {
  Case& c;
  std::vector<Slot> pool;
  int families = 0;
  int64_t maxNumel = 24;
  int writes = 0, derived = 0, copies = 0, sharedWrites = 0;
  explicit World(Case& cc) : c(cc) {}

  void verify(const char* after) {
    for (size_t i = 0; i < pool.size(); i++) {
      Slot& s = pool[i];
      if (toShape(s.t.shape()) != s.o->a.shape)
        c.fail("after %s: tensor %zu has shape %s, expected %s", after, i, str(toShape(s.t.shape())).c_str(), str(s.o->a.shape).c_str());
      if (s.t.dtype() != s.o->dt) c.fail("after %s: tensor %zu has type %s", after, i, dtName(s.t.dtype()));
      auto got = readVec(s.t);
      for (size_t k = 0; k < got.size(); k++)
        if (!sameValue(got[k], s.o->a.v[k]))
          c.fail("after %s: element %zu of tensor %zu is %.9g, expected %.9g", after, k, i, got[k], s.o->a.v[k]);
    }
  }
  void add(Tensor t, Arr a, DType dt, int family) {
    Slot s;
    s.t = std::move(t);
    s.o = std::make_shared<Obj>(Obj{std::move(a), dt, family});
    if (pool.size() < 8) pool.push_back(std::move(s));
    else pool[c.draw(pool.size())] = std::move(s);
  }
  size_t any() { return static_cast<size_t>(c.draw(pool.size())); }
  // Number of other live objects that may share the buffer.
  bool hasFamily(const Obj* o) {
    for (auto& s : pool)
      if (s.o.get() != o && s.o->family == o->family) return true;
    return false;
  }

  void create() {
    DType dt = c.weighted({5, 1}) == 0 ? DType::Float32 : DType::Int64;
    Shape s = genShape(c, 0, 4, maxNumel);
    if (maxNumel > 1000 && c.coin()) s = genLargeShape(c, 1, 4);
    std::vector<double> v(numelOf(s));
    double base = static_cast<double>(c.draw(50));
    for (size_t i = 0; i < v.size(); i++) v[i] = base + static_cast<double>(i);
    bool rg = dt == DType::Float32 && c.chance(1, 10);
    c.note("new %s%s%s; ", dtName(dt), str(s).c_str(), rg ? " grad" : "");
    add(rawTensor(s, dt, v, rg), Arr(s, v), dt, families++);
  }

  void derive() {
    size_t i = any();
    Tensor t = pool[i].t;
    std::shared_ptr<Obj> o = pool[i].o;
    const Arr& a = o->a;
    const Shape& s = a.shape;
    int64_t n = a.numel(), rank = a.dim();
    Shape st = stridesOf(s);
    auto from = [&](const Shape& os, const std::vector<int64_t>& map) {
      std::vector<double> v(map.size());
      for (size_t k = 0; k < map.size(); k++) v[k] = a.v[map[k]];
      return Arr(os, v);
    };
    auto narrowMap = [&](int64_t d, int64_t start, int64_t len, Shape& os) {
      os = s;
      os[d] = len;
      std::vector<int64_t> m(numelOf(os));
      forIndex(os, [&](const Shape& idx, int64_t lin) {
        Shape at = idx;
        at[d] += start;
        m[lin] = offsetOf(at, st);
      });
      return m;
    };
    auto factor = [&]() {
      Shape os;
      int64_t rest = n;
      while (rest > 1 && os.size() < 4) {
        std::vector<int64_t> divs;
        for (int64_t k = 1; k <= rest; k++)
          if (rest % k == 0) divs.push_back(k);
        int64_t d = divs[c.draw(divs.size())];
        os.push_back(d);
        rest /= d;
      }
      os.push_back(rest);
      return os;
    };
    size_t kind = c.weighted({4, 4, 2, 2, 4, 3, 3, 1, 1, 1, 1, 2, 2, 2, 1, 1, 1, 1});
    Tensor r;
    Arr w;
    const char* what = "";
    std::vector<Tensor> parts;
    std::vector<Arr> wparts;
    auto needRank = [&](int64_t k) {
      if (rank < k) kind = 0;
    };
    if (kind == 1 || kind == 2 || kind == 3 || kind == 4 || kind == 12 || kind == 13) needRank(1);
    switch (kind) {
      case 0:
        what = "clone";
        r = t.clone();
        w = a;
        break;
      case 1: {
        what = "narrow";
        int64_t d = c.chance(2, 3) ? 0 : c.draw(rank);
        int64_t start = c.draw(s[d] + (s[d] == 0)), len = s[d] == 0 ? 0 : c.range(1, s[d] - start);
        if (c.chance(1, 5)) start = 0, len = s[d];
        r = c.coin() ? t.narrow(d, start, len) : op::narrow(t, d, start, len);
        Shape os;
        auto m = narrowMap(d, start, len, os);
        w = from(os, m);
        break;
      }
      case 2:
      case 3: {
        what = kind == 2 ? "split" : "chunk";
        int64_t d = c.chance(2, 3) ? 0 : c.draw(rank);
        int64_t k = c.range(1, std::max<int64_t>(1, s[d]));
        if (kind == 2)
          while (s[d] % k != 0) k--;  // split sizes must divide the dimension
        int64_t size = kind == 2 ? k : (s[d] + k - 1) / k;
        if (s[d] == 0) return;
        parts = kind == 2 ? t.split(k, d) : t.chunk(k, d);
        for (int64_t p = 0; p * size < s[d]; p++) {
          Shape os;
          auto m = narrowMap(d, p * size, std::min(size, s[d] - p * size), os);
          wparts.push_back(from(os, m));
        }
        VP_CHECK(c, parts.size() == wparts.size(), "%s gives %zu parts, expected %zu", what, parts.size(), wparts.size());
        break;
      }
      case 4: {
        what = "index";
        int64_t k = c.range(1, rank);
        Shape at(k), os(s.begin() + k, s.end());
        int64_t off = 0;
        for (int64_t j = 0; j < k; j++) {
          at[j] = c.draw(s[j]);
          off += at[j] * st[j];
        }
        int64_t q = numelOf(os);
        r = op::index(t, IntArrayView(at));
        w = Arr(os, std::vector<double>(a.v.begin() + off, a.v.begin() + off + q));
        break;
      }
      case 5: {
        what = "reshape";
        Shape os = c.chance(1, 6) ? s : factor();
        r = c.coin() ? t.reshape(IntArrayView(os)) : op::reshape(t, IntArrayView(os));
        w = Arr(os, a.v);
        break;
      }
      case 6: {
        what = "view";
        Shape os = c.chance(1, 6) ? s : factor();
        r = c.coin() ? t.view(IntArrayView(os)) : op::view(t, IntArrayView(os));
        w = Arr(os, a.v);
        break;
      }
      case 7:
        what = "flatten";
        if (rank == 0) return;
        r = t.flatten();
        w = Arr({n}, a.v);
        break;
      case 8: {
        what = "squeeze";
        if (rank == 0) return;
        r = op::squeeze(t, IntArrayView());
        Shape os;
        for (auto d : s)
          if (d != 1) os.push_back(d);
        w = Arr(os, a.v);
        break;
      }
      case 9: {
        what = "unsqueeze";
        if (rank >= 6) return;
        int64_t d = c.draw(rank + 1);
        r = t.unsqueeze(d);
        Shape os = s;
        os.insert(os.begin() + d, 1);
        w = Arr(os, a.v);
        break;
      }
      case 10: {
        what = "unflatten";
        if (rank == 0 || rank >= 6) return;
        int64_t d = c.draw(rank);
        Shape sub = s[d] % 2 == 0 && s[d] > 0 ? Shape{2, s[d] / 2} : Shape{1, s[d]};
        r = t.unflatten(d, IntArrayView(sub));
        Shape os(s.begin(), s.begin() + d);
        os.insert(os.end(), sub.begin(), sub.end());
        os.insert(os.end(), s.begin() + d + 1, s.end());
        w = Arr(os, a.v);
        break;
      }
      case 11: {
        what = "permute";
        if (rank == 0) return;
        Shape p(rank);
        for (int64_t j = 0; j < rank; j++) p[j] = j;
        if (!c.chance(1, 5))
          for (int64_t j = rank - 1; j > 0; j--) std::swap(p[j], p[c.draw(j + 1)]);
        Shape os(rank);
        for (int64_t j = 0; j < rank; j++) os[j] = s[p[j]];
        std::vector<int64_t> m(n);
        forIndex(os, [&](const Shape& idx, int64_t lin) {
          Shape at(rank);
          for (int64_t j = 0; j < rank; j++) at[p[j]] = idx[j];
          m[lin] = offsetOf(at, st);
        });
        r = t.permute(IntArrayView(p));
        w = from(os, m);
        break;
      }
      case 12: {
        what = "transpose";
        int64_t x = c.draw(rank), y = c.draw(rank);
        Shape os = s;
        std::swap(os[x], os[y]);
        std::vector<int64_t> m(n);
        forIndex(os, [&](const Shape& idx, int64_t lin) {
          Shape at = idx;
          std::swap(at[x], at[y]);
          m[lin] = offsetOf(at, st);
        });
        r = t.transpose(x, y);
        w = from(os, m);
        break;
      }
      case 13: {
        what = "index by tensors";
        if (s[0] == 0) return;
        int64_t q = c.range(1, 3);
        std::vector<double> iv(q);
        for (auto& x : iv) x = static_cast<double>(c.draw(s[0]));
        std::vector<Tensor> it = {rawTensor({q}, DType::Int64, iv)};
        Shape os = s;
        os[0] = q;
        std::vector<int64_t> m;
        for (double x : iv)
          for (int64_t k = 0; k < st[0]; k++) m.push_back(static_cast<int64_t>(x) * st[0] + k);
        r = op::indexAdvance(t, tt::ArrayView<Tensor>(it));
        w = from(os, m);
        break;
      }
      case 14: {
        what = "expand";
        if (n == 0) return;
        Shape os = s;
        for (auto& d : os)
          if (d == 1 && n <= 12 && c.coin()) d = 2;
        std::vector<int64_t> m(numelOf(os));
        forIndex(os, [&](const Shape& idx, int64_t lin) { m[lin] = bcastOffset(idx, s); });
        r = op::expand(t, IntArrayView(os));
        w = from(os, m);
        break;
      }
      case 15: {
        what = "concat of one";
        if (rank == 0) return;
        std::vector<Tensor> l = {t};
        r = op::concat(tt::ArrayView<Tensor>(l), 0);
        w = a;
        break;
      }
      case 16: {
        what = "tril";
        if (rank != 2 || o->dt != DType::Float32) return;
        r = t.tril(s[1]);
        w = a;
        break;
      }
      default: {
        what = "sum over no effect";
        if (rank != 0 || o->dt != DType::Float32) return;
        r = c.coin() ? t.sum() : t.max();
        w = a;
        break;
      }
    }
    derived++;
    c.cls(what);
    c.note("%s of #%zu; ", what, i);
    if (!parts.empty()) {
      std::vector<Tensor> keep = parts;
      for (size_t p = 0; p < parts.size() && p < 3; p++) add(parts[p], wparts[p], o->dt, o->family);
    } else {
      add(r, w, o->dt, o->family);
    }
    verify(what);
  }

  void handle() {
    size_t i = any();
    Slot s = pool[i];
    if (c.coin() || pool.size() < 2) {
      c.note("copy handle #%zu; ", i);
      if (pool.size() < 8) pool.push_back(s);
      else pool[c.draw(pool.size())] = s;
      copies++;
      verify("a handle copy");
    } else {
      size_t j = any();
      c.note("#%zu = #%zu; ", j, i);
      pool[j].t = pool[i].t;
      pool[j].o = pool[i].o;
      copies++;
      verify("a handle assignment");
    }
  }

  void release() {
    if (pool.size() < 2) return;
    size_t i = any();
    c.note("drop #%zu; ", i);
    pool.erase(pool.begin() + i);
    verify("a release");
  }

  // The compound assignments and in-place shape changes replace the tensor this handle refers to.
  void rebind() {
    size_t i = any();
    Slot& s = pool[i];
    Arr a = s.o->a;
    DType dt = s.o->dt;
    int fam = s.o->family;
    const char* what;
    int k = static_cast<int>(c.draw(4));
    if (k == 0 && dt == DType::Float32) {
      what = "+= scalar";
      s.t += 1;
      for (auto& x : a.v) x = roundDt(x + 1, dt);
      fam = families++;
    } else if (k == 1 && dt == DType::Float32) {
      what = "*= itself";
      for (auto& x : a.v) x = roundDt(x * x, dt);
      s.t *= s.t;
      fam = families++;
    } else if (k == 2 && !a.shape.empty()) {
      what = "flatten_";
      s.t.flatten_();
      a.shape = {a.numel()};
    } else {
      what = "unsqueeze_";
      if (a.dim() >= 6) return;
      s.t.unsqueeze_(0);
      a.shape.insert(a.shape.begin(), 1);
    }
    s.o = std::make_shared<Obj>(Obj{a, dt, fam});
    c.note("#%zu %s; ", i, what);
    c.cls(what);
    verify(what);
  }

  void rawCopy() {
    size_t i = any();
    Slot s = pool[i];
    std::vector<double> v(s.o->a.v.size());
    double base = static_cast<double>(200 + c.draw(50));
    for (size_t k = 0; k < v.size(); k++) v[k] = base + static_cast<double>(k);
    Tensor src = rawTensor(s.o->a.shape, s.o->dt, v);
    c.note("#%zu copy_; ", i);
    s.t.copy_(src);
    auto got = readVec(s.t);
    for (size_t k = 0; k < v.size(); k++) VP_CHECK(c, got[k] == v[k], "copy_: element %zu is %.9g, expected %.9g", k, got[k], v[k]);
    // tensors that may share the buffer may see it, all others must not
    for (auto& p : pool)
      if (p.o == s.o || p.o->family == s.o->family) p.o->a.v = readVec(p.t);
    c.cls("copy_");
    verify("copy_");
  }

  void write() {
    size_t i = any();
    Slot s = pool[i];  // a copy of the handle: the write must reach every copy
    Tensor& t = pool[i].t;
    Arr& a = s.o->a;
    DType dt = s.o->dt;
    const Shape& sh = a.shape;
    int64_t n = a.numel(), rank = a.dim();
    bool shared = hasFamily(s.o.get());
    size_t j = any();
    Slot other = pool[j];
    bool fits = other.o->dt == dt;  // operand for binary writes
    if (fits) {
      Shape out;
      fits = bcastShape(sh, other.o->a.shape, out) && out == sh && n > 0;
    }
    Tensor operand;
    Arr oa;
    if (fits && !c.chance(1, 4)) {
      operand = other.t;
      oa = other.o->a;
      c.cls("operand from the pool");
    } else {
      std::vector<double> v(n);
      for (int64_t k = 0; k < n; k++) v[k] = static_cast<double>(k % 5) - 2;
      operand = rawTensor(sh, dt, v);
      oa = Arr(sh, v);
      j = 99;
    }
    auto each = [&](auto f) {
      std::vector<double> nv(n);
      forIndex(sh, [&](const Shape& idx, int64_t lin) { nv[lin] = roundDt(f(a.v[lin], oa.v[bcastOffset(idx, oa.shape)]), dt); });
      a.v = nv;
    };
    bool flt = dt == DType::Float32;
    size_t kind = c.weighted({3, 1, 1, 3, 2, 4, 3, 3, 3, 3, 2, 2, 2, 1, 1, 1, 1, 1, 1, 1, 2});
    if (!flt && kind >= 8 && kind != 13 && kind != 19) kind = kind % 7;
    const char* what = "";
    switch (kind) {
      case 0: {
        double x = static_cast<double>(c.draw(9)) - 4;
        what = "fill_";
        t.fill_(static_cast<float>(x));
        for (auto& y : a.v) y = x;
        break;
      }
      case 1:
        what = "fillZero_";
        t.fillZero_();
        for (auto& y : a.v) y = 0;
        break;
      case 2:
        what = "fillOne_";
        t.fillOne_();
        for (auto& y : a.v) y = 1;
        break;
      case 3: {
        what = "fillMasked_";
        std::vector<double> m(n);
        Rng r = c.sub();
        for (auto& x : m) x = static_cast<double>(r.below(2));
        t.fillMasked_(rawTensor(sh, DType::Bool, m), -9);
        for (int64_t k = 0; k < n; k++)
          if (m[k] != 0) a.v[k] = -9;
        break;
      }
      case 4: {
        what = "fillOffset";
        if (n == 0) return;
        int64_t off = c.draw(n), cnt = c.range(0, n - off);
        op::fillOffset(t, Tensor::scalar(-7, tt::options::dtype(dt)), off, cnt);
        for (int64_t k = off; k < off + cnt; k++) a.v[k] = -7;
        break;
      }
      case 5: {
        what = "indexPut";
        if (rank == 0 || n == 0) return;
        int64_t k = c.range(1, rank);
        Shape at(k), st = stridesOf(sh), rest(sh.begin() + k, sh.end());
        int64_t off = 0, q = numelOf(rest);
        for (int64_t d = 0; d < k; d++) {
          at[d] = c.draw(sh[d]);
          off += at[d] * st[d];
        }
        Tensor val;
        std::vector<double> vv(q);
        // the value is sometimes a slice of the target itself
        if (c.coin()) {
          Shape at2(k);
          int64_t off2 = 0;
          for (int64_t d = 0; d < k; d++) {
            at2[d] = c.draw(sh[d]);
            off2 += at2[d] * st[d];
          }
          val = op::index(t, IntArrayView(at2));
          for (int64_t e = 0; e < q; e++) vv[e] = a.v[off2 + e];
        } else {
          for (int64_t e = 0; e < q; e++) vv[e] = 100 + static_cast<double>(e);
          val = rawTensor(rest, dt, vv);
        }
        op::indexPut(t, IntArrayView(at), val);
        for (int64_t e = 0; e < q; e++) a.v[off + e] = vv[e];
        break;
      }
      case 6: {
        what = "indexPut by tensors";
        if (rank == 0 || n == 0) return;
        int64_t q = c.range(1, 2), row = numelOf(sh) / sh[0];
        std::vector<double> iv(q);
        iv[0] = static_cast<double>(c.draw(sh[0]));
        if (q == 2) iv[1] = sh[0] > 1 ? std::fmod(iv[0] + 1, static_cast<double>(sh[0])) : iv[0];
        std::vector<Tensor> it = {rawTensor({q}, DType::Int64, iv)};
        Tensor val = Tensor::scalar(55, tt::options::dtype(dt));
        op::indexPutAdvance(t, tt::ArrayView<Tensor>(it), val);
        for (double x : iv)
          for (int64_t e = 0; e < row; e++) a.v[static_cast<int64_t>(x) * row + e] = 55;
        break;
      }
      case 7: {
        what = "scatter_";
        if (rank == 0 || n == 0) return;
        int64_t d = c.draw(rank);
        Shape is = sh;
        is[d] = 1;
        std::vector<double> iv(numelOf(is)), sv(numelOf(is));
        Rng r = c.sub();
        Shape st = stridesOf(sh);
        std::vector<std::pair<int64_t, double>> put;
        forIndex(is, [&](const Shape& idx, int64_t lin) {
          int64_t x = r.below(sh[d]);
          iv[lin] = static_cast<double>(x);
          sv[lin] = 300 + static_cast<double>(lin);
          Shape at = idx;
          at[d] = x;
          put.push_back({offsetOf(at, st), sv[lin]});
        });
        t.scatter_(d, rawTensor(is, DType::Int64, iv), rawTensor(is, dt, sv));
        for (auto& p : put) a.v[p.first] = p.second;
        break;
      }
      case 8:
        what = "addInplace";
        op::addInplace(t, operand, Scalar(2));
        each([](double x, double y) { return x + 2 * y; });
        break;
      case 9:
        what = "mulInplace";
        op::mulInplace(t, operand);
        each([](double x, double y) { return x * y; });
        break;
      case 10:
        what = "subInplace";
        op::subInplace(t, operand, Scalar(1));
        each([](double x, double y) { return x - y; });
        break;
      case 11:
        what = "negInplace";
        op::negInplace(t);
        for (auto& x : a.v) x = -x;
        break;
      case 12:
        what = "reluInplace";
        op::reluInplace(t);
        for (auto& x : a.v) x = x > 0 ? x : std::isnan(x) ? x : 0;
        for (auto& x : a.v)
          if (std::isnan(x)) return;  // NaN handling is not the point here
        break;
      case 13:
        what = "maximumOut";
        if (operand.shape() != t.shape()) return;
        op::maximumOut(t, s.t, operand);
        each([](double x, double y) { return std::isnan(x) || std::isnan(y) ? NAN : std::max(x, y); });
        break;
      case 14: {
        what = "clampMinInplace";
        Tensor lo = Tensor::scalar(1, tt::options::dtype(dt));
        op::clampMinInplace(t, lo);
        for (auto& x : a.v) x = x < 1 ? 1 : x;
        break;
      }
      case 15:
        what = "addOut";
        if (operand.shape() != t.shape()) return;
        op::addOut(t, operand, operand, Scalar(1));
        each([](double, double y) { return y + y; });
        break;
      case 16:
        what = "negOut";
        if (operand.shape() != t.shape()) return;
        op::negOut(t, operand);
        each([](double, double y) { return -y; });
        break;
      case 18: {
        what = "softmaxOut";
        if (operand.shape() != t.shape() || rank == 0 || n == 0) return;
        bool lg = c.coin();
        for (auto x : oa.v)
          if (!std::isfinite(x)) return;
        if (lg) op::logSoftmaxOut(t, operand, rank - 1);
        else op::softmaxOut(t, operand, rank - 1);
        int64_t w = sh[rank - 1];
        for (int64_t b = 0; b < n; b += w) {
          double mx = -INFINITY, sum = 0;
          for (int64_t k = 0; k < w; k++) mx = std::max(mx, oa.v[b + k]);
          for (int64_t k = 0; k < w; k++) sum += std::exp(oa.v[b + k] - mx);
          for (int64_t k = 0; k < w; k++) {
            double l = oa.v[b + k] - mx - std::log(sum);
            a.v[b + k] = lg ? l : std::exp(l);
          }
        }
        break;
      }
      case 19: {
        what = "fillMaskedOut";
        if (operand.shape() != t.shape()) return;
        std::vector<double> m(n);
        Rng r = c.sub();
        for (auto& x : m) x = static_cast<double>(r.below(2));
        op::fillMaskedOut(t, operand, rawTensor(sh, DType::Bool, m), Scalar(6));
        for (int64_t k = 0; k < n; k++) a.v[k] = m[k] != 0 ? 6 : oa.v[k];
        break;
      }
      case 17: {
        what = "addcmulInplace";
        if (operand.shape() != t.shape()) return;
        op::addcmulInplace(t, operand, operand, Scalar(1));
        each([](double x, double y) { return x + y * y; });
        break;
      }
      default: {
        what = "random fill";
        int w = static_cast<int>(c.draw(4));
        if (w == 0) t.fillUniform_(2, 3);
        else if (w == 1) t.fillNormal_(0, 1);
        else if (w == 2) t.fillBernoulli_(0.5f);
        else t.fillLinSpace_(Scalar(5), Scalar(1), n);
        std::vector<double> got = readVec(t);
        if (w == 3)
          for (int64_t k = 0; k < n; k++) VP_CHECK(c, got[k] == 5 + k, "linear fill: element %lld is %.9g", (long long)k, got[k]);
        if (w == 0)
          for (double x : got) VP_CHECK(c, x >= 2 && x <= 3, "uniform fill gave %.9g", x);
        a.v = got;
        break;
      }
    }
    bool wild = false;
    for (auto& x : a.v) wild |= !std::isfinite(x) || std::fabs(x) > 1e30;
    c.note("#%zu %s%s; ", i, what, j == 99 ? "" : (" with #" + std::to_string(j)).c_str());
    writes++;
    if (shared) {
      sharedWrites++;
      c.cls("write to a tensor with relatives");
    }
    c.cls(what);
    // rounding of the written values is C01's business: take them over once they are close
    auto got = readVec(t);
    for (size_t k = 0; k < got.size() && k < a.v.size(); k++)
      if (near(got[k], a.v[k], 1e-5 * (1 + std::fabs(a.v[k])))) a.v[k] = got[k];
    verify(what);
    if (wild) {
      t.fillOne_();
      for (auto& x : a.v) x = 1;
      verify("fillOne_");
    }
  }
};

void history(Case& c) {
  std::unique_ptr<tt::NoGradGuard> guard;
  if (c.coin()) guard = std::make_unique<tt::NoGradGuard>();
  World w(c);
  int64_t steps = c.range(3, c.thorough ? 60 : 30);
  if (c.chance(1, 6000)) {
    w.maxNumel = 40000;
    steps = std::min<int64_t>(steps, 12);
    c.cls("large tensors");
  }
  w.create();
  for (int64_t k = 0; k < steps; k++) {
    switch (c.weighted({6, 7, 2, 1, 1, 1, 1})) {
      case 0: w.write(); break;
      case 1: w.derive(); break;
      case 2: w.handle(); break;
      case 3: w.release(); break;
      case 4: w.rebind(); break;
      case 5: w.create(); break;
      default: w.rawCopy(); break;
    }
  }
  if (w.sharedWrites >= 1 && w.derived >= 1) c.nontrivial();
}

// copy_ into a view writes through to the buffer it shares.
void writeThrough(Case& c) {
  Shape s = genShape(c, 1, 4, 60);
  DType dt = c.coin() ? DType::Float32 : DType::Int64;
  std::vector<double> v(numelOf(s));
  for (size_t i = 0; i < v.size(); i++) v[i] = static_cast<double>(i);
  Tensor base = rawTensor(s, dt, v);
  int64_t row = numelOf(s) / s[0];
  int64_t start = c.draw(s[0]), len = c.range(1, s[0] - start);
  Tensor view;
  int k = static_cast<int>(c.draw(4));
  if (k == 0) {
    view = base.narrow(0, start, len);
  } else if (k == 1) {
    len = 1;
    Shape at = {start};
    view = op::index(base, IntArrayView(at));
  } else if (k == 2) {
    start = 0;
    len = s[0];
    view = base.flatten();
  } else {
    Shape flat = {numelOf(s)};
    view = base.narrow(0, start, len).flatten();
  }
  if (view.numel() == 0) c.discard();
  std::vector<double> nv(view.numel());
  for (size_t i = 0; i < nv.size(); i++) nv[i] = 1000 + static_cast<double>(i);
  view.copy_(rawTensor(toShape(view.shape()), dt, nv));
  std::vector<double> want = v;
  for (int64_t i = 0; i < len * row; i++) want[start * row + i] = nv[i];
  c.note("%s %s rows %lld..%lld", k == 0 ? "narrow" : k == 1 ? "index" : k == 2 ? "flatten" : "narrow+flatten", str(s).c_str(), (long long)start, (long long)(start + len));
  expectExact(c, base, Arr(s, want), dt, "buffer after copy_ into its view");
  // and the source of the copy is not tied to the view
  c.cls("write through");
  if (numelOf(s) > 1) c.nontrivial();
}

}  // namespace

int main(int argc, char** argv) {
  Suite s;
  s.property = "C06";
  s.rule = "a history with at least one derivation and at least one element write to a tensor that has a live relative (same root buffer)";
  s.assumptions = {"copy_ is the documented write-through: after it the tensors derived from one root are re-read, all others are checked",
                   "compound assignments (+= and the like) and in-place shape changes replace the tensor of the one handle they are called on"};
  s.init = noCache;
  s.props = {{"history", history, 900000, 6000000}, {"copy_ writes through", writeThrough, 400000, 2000000}};
  return runSuite(s, argc, argv);
}
