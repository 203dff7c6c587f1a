// C07: random computation graphs against a reference differentiator in double precision.
//
// Every node records the sparse Jacobian of its operation at the library's own forward values (which are checked
// against the operation's definition on the way), so the reference gradient is an exact chain rule through the
// same graph, and a second pass with absolute values gives the rounding scale of each gradient element.
#include "ref.h"
#include "Operations.h"
#include "Functions.h"

using namespace vp;
namespace op = tinytorch::op;
namespace fn = tinytorch::function;
using tt::IntArrayView;
using tt::Scalar;

namespace {

struct Entry {
  int k;       // which input
  int64_t i, o;  // element of the input, element of the output
  double d;          // derivative
  double mag = 0;    // size of the terms it is computed from, where larger
};
struct Node {
  Tensor t;
  Arr v;
  bool rg = false, leaf = false, consume = false;
  std::vector<int> in;
  std::vector<Entry> jac;
  std::string name;
};

struct Graph {
  Case& c;
  std::vector<Node> n;
  int layers = 0, views = 0, bcast = 0, compound = 0;
  int64_t big = 1;  // how far sizes go beyond the usual
  explicit Graph(Case& cc) : c(cc) {}

  bool usable(int i, double cap = 60, bool empty = false) const {
    if (n[i].v.numel() == 0 && !empty) return false;
    for (double x : n[i].v.v)
      if (!(std::fabs(x) <= cap)) return false;
    return true;
  }
  int leaf(const Shape& s, const std::vector<double>& v, bool rg, const char* name = "leaf") {
    Node k;
    // sometimes a leaf is a view into a larger buffer
    Made m = makeTensor(c, s, DType::Float32, v, true, rg);
    k.t = m.t;
    k.v = Arr(s, v);
    k.rg = rg;
    k.leaf = true;
    k.name = name;
    n.push_back(std::move(k));
    c.note("#%zu=%s%s%s%s; ", n.size() - 1, name, str(s).c_str(), rg ? "*" : "", m.view ? "v" : "");
    return static_cast<int>(n.size()) - 1;
  }
  int leafLike(const Shape& s, Data kind = Data::Small) {
    return leaf(s, genData(c, numelOf(s), DType::Float32, kind), c.chance(3, 4));
  }
  size_t recent = 0;  // when set, operands are mostly the latest values, which makes one deep expression
  int any() {
    if (recent && c.chance(4, 5)) return static_cast<int>(n.size() - 1 - c.draw(std::min(recent, n.size())));
    return static_cast<int>(c.draw(n.size()));
  }

  // Adds the node computed by the library, checking its value against the definition.
  int add(Tensor t, Arr want, std::vector<int> in, std::vector<Entry> jac, const std::string& name, double tol = 2e-5) {
    bool rg = false;
    for (int i : in) rg |= n[i].rg;
    if (!tt::NoGradGuard::isGradEnabled()) rg = false;
    std::vector<double> scale(want.v.size(), 0.0);
    for (auto& e : jac) scale[e.o] += std::fabs(e.d * n[in[e.k]].v.v[e.i]);
    expectNear(c, t, want, DType::Float32, [&](size_t i) { return tol * (1 + std::fabs(want.v[i]) + scale[i]) * (big > 1 ? 4 : 1); }, (name + " forward").c_str());
    VP_CHECK(c, t.requiresGrad() == rg, "%s: requiresGrad is %d, expected %d", name.c_str(), t.requiresGrad(), rg);
    Node k;
    k.v = Arr(want.shape, readVec(t));
    k.t = std::move(t);
    k.rg = rg;
    k.in = std::move(in);
    k.jac = std::move(jac);
    k.name = name;
    n.push_back(std::move(k));
    std::string args;
    for (int i : n.back().in) args += " #" + std::to_string(i);
    c.note("#%zu=%s%s %s; ", n.size() - 1, name.c_str(), args.c_str(), str(want.shape).c_str());
    c.cls(name.c_str());
    return static_cast<int>(n.size()) - 1;
  }

  // ---- operations ------------------------------------------------------------------------------

  void unary() {
    int a = any();
    if (!usable(a, 20, true)) return;
    const Arr v = n[a].v;
    Arr w = v;
    std::vector<Entry> j;
    int k = static_cast<int>(c.draw(6));
    Tensor t;
    const char* name = "";
    auto each = [&](auto f, auto df) {
      for (int64_t i = 0; i < v.numel(); i++) {
        w.v[i] = f(v.v[i]);
        j.push_back({0, i, i, df(v.v[i])});
      }
    };
    if (k == 0) {
      name = "sin";
      t = n[a].t.sin();
      each([](double x) { return std::sin(x); }, [](double x) { return std::cos(x); });
    } else if (k == 1) {
      name = "cos";
      t = n[a].t.cos();
      each([](double x) { return std::cos(x); }, [](double x) { return -std::sin(x); });
    } else if (k == 2) {
      name = "relu";
      for (double x : v.v)
        if (x == 0) return;  // no derivative there
      t = fn::relu(n[a].t);
      each([](double x) { return x > 0 ? x : 0; }, [](double x) { return x > 0 ? 1.0 : 0.0; });
    } else if (k == 3) {
      static const float es[] = {2, 3, 1, 0};
      float e = es[c.draw(4)];
      for (double x : v.v)
        if (std::fabs(x) > 5) return;
      name = "pow scalar";
      t = n[a].t.pow(e);
      each([&](double x) { return std::pow(x, e); }, [&](double x) { return e == 0 ? 0.0 : e * std::pow(x, e - 1); });
    } else if (k == 4) {
      for (double x : v.v)
        if (!(x > 0.05 && x < 6)) return;
      static const float es[] = {0.5f, -1, 1.5f, -0.5f};
      float e = es[c.draw(4)];
      name = "pow scalar fraction";
      t = n[a].t.pow(e);
      each([&](double x) { return std::pow(x, e); }, [&](double x) { return e * std::pow(x, e - 1); });
    } else {
      float s = static_cast<float>(static_cast<int>(c.draw(9)) - 4) / 2;
      int f = static_cast<int>(c.draw(8));
      if (f >= 6)
        for (double x : v.v)
          if (std::fabs(x) < 0.3) return;
      if (f == 3 && s == 0) s = 1;
      name = "scalar operand";
      const Tensor& x = n[a].t;
      switch (f) {
        case 0: t = x + s; each([&](double q) { return q + s; }, [](double) { return 1.0; }); break;
        case 1: t = x - s; each([&](double q) { return q - s; }, [](double) { return 1.0; }); break;
        case 2: t = x * s; each([&](double q) { return q * s; }, [&](double) { return s; }); break;
        case 3: t = x / s; each([&](double q) { return q / s; }, [&](double) { return 1.0 / s; }); break;
        case 4: t = s - x; each([&](double q) { return s - q; }, [](double) { return -1.0; }); break;
        case 5: t = s * x; each([&](double q) { return q * s; }, [&](double) { return s; }); break;
        default: t = s / x; each([&](double q) { return s / q; }, [&](double q) { return -s / (q * q); }); break;
      }
    }
    add(t, w, {a}, j, name);
  }

  // A shape broadcastable against s.
  Shape mateShape(const Shape& s) {
    Shape b = s;
    for (auto& d : b)
      if (c.chance(1, 4)) d = 1;
      else if (d == 1 && c.chance(1, 4)) d = c.chance(1, 6) ? 0 : 2;
    if (!b.empty() && c.chance(1, 4)) b.erase(b.begin());
    else if (b.size() < 4 && c.chance(1, 6)) b.insert(b.begin(), c.range(1, 2));
    return b;
  }
  void binary() {
    int a = any(), b;
    if (!usable(a, 60, true)) return;
    Shape out;
    size_t how = c.weighted({3, 1, 3});
    if (how == 0) {
      b = any();
      if (!bcastShape(n[a].v.shape, n[b].v.shape, out)) how = 2;
    } else if (how == 1) {
      b = a;
    }
    if (how == 2) b = leafLike(mateShape(n[a].v.shape), c.coin() ? Data::Pos : Data::Small);
    if (c.coin()) std::swap(a, b);
    if (!usable(a, 60, true) || !usable(b, 60, true) || !bcastShape(n[a].v.shape, n[b].v.shape, out) || numelOf(out) > 400 * big * big) return;
    const Arr x = n[a].v, y = n[b].v;
    int k = static_cast<int>(c.draw(5));
    if (k == 3)
      for (double q : y.v)
        if (std::fabs(q) < 0.3) k = 2;
    if (k == 4) {
      for (double q : x.v)
        if (!(q > 0.05 && q < 5)) k = 0;
      for (double q : y.v)
        if (std::fabs(q) > 4) k = 0;
    }
    Arr w(out, 0.0);
    std::vector<Entry> j;
    forIndex(out, [&](const Shape& idx, int64_t o) {
      int64_t i0 = bcastOffset(idx, x.shape), i1 = bcastOffset(idx, y.shape);
      double p = x.v[i0], q = y.v[i1], d0, d1;
      switch (k) {
        case 0: w.v[o] = p + q; d0 = d1 = 1; break;
        case 1: w.v[o] = p - q; d0 = 1; d1 = -1; break;
        case 2: w.v[o] = p * q; d0 = q; d1 = p; break;
        case 3: w.v[o] = p / q; d0 = 1 / q; d1 = -p / (q * q); break;
        default: w.v[o] = std::pow(p, q); d0 = q * std::pow(p, q - 1); d1 = w.v[o] * std::log(p); break;
      }
      j.push_back({0, i0, o, d0});
      j.push_back({1, i1, o, d1});
    });
    static const char* names[] = {"add", "sub", "mul", "div", "pow"};
    std::string name = names[k];
    if (x.shape != y.shape) {
      name += " broadcast";
      bcast++;
    }
    Tensor t;
    // compound assignment on a tensor in the middle of the computation
    if (k < 4 && out == x.shape && !n[a].leaf && n[a].rg && c.chance(1, 3)) {
      Tensor z = n[a].t;
      const Tensor& r = n[b].t;
      if (k == 0) z += r;
      else if (k == 1) z -= r;
      else if (k == 2) z *= r;
      else z /= r;
      t = z;
      name += " compound";
      compound++;
    } else {
      const Tensor &p = n[a].t, &q = n[b].t;
      bool op1 = c.coin();
      switch (k) {
        case 0: t = op1 ? p + q : fn::add(p, q); break;
        case 1: t = op1 ? p - q : fn::sub(p, q); break;
        case 2: t = op1 ? p * q : fn::mul(p, q); break;
        case 3: t = op1 ? p / q : fn::div(p, q); break;
        default: t = op1 ? p.pow(q) : fn::pow(p, q); break;
      }
    }
    add(t, w, {a, b}, j, name);
  }

  void shapeOp() {
    int a = any();
    if (!usable(a, 1e6, true)) return;
    const Arr v = n[a].v;
    int64_t rank = v.dim(), num = v.numel();
    Shape os;
    std::vector<int64_t> map(num);
    for (int64_t i = 0; i < num; i++) map[i] = i;
    Tensor t;
    const Tensor& x = n[a].t;
    std::string name;
    auto factor = [&]() {
      Shape r;
      int64_t rest = num;
      while (rest > 1 && r.size() < 3) {
        std::vector<int64_t> divs;
        for (int64_t k = 1; k <= rest; k++)
          if (rest % k == 0) divs.push_back(k);
        int64_t d = divs[c.draw(divs.size())];
        r.push_back(d);
        rest /= d;
      }
      r.push_back(rest);
      return r;
    };
    auto permuted = [&](const Shape& p) {
      Shape st = stridesOf(v.shape);
      os.assign(rank, 0);
      for (int64_t k = 0; k < rank; k++) os[k] = v.shape[p[k]];
      forIndex(os, [&](const Shape& idx, int64_t o) {
        int64_t i = 0;
        for (int64_t k = 0; k < rank; k++) i += idx[k] * st[p[k]];
        map[o] = i;
      });
    };
    switch (c.weighted({2, 2, 4, 1, 1, 1, 1, 1, 1})) {
      case 0: {
        name = "reshape";
        os = factor();
        Shape arg = os;
        if (num > 0 && c.chance(1, 3)) arg[c.draw(arg.size())] = -1;
        t = x.reshape(IntArrayView(arg));
        break;
      }
      case 1:
        name = "view";
        os = factor();
        t = x.view(IntArrayView(os));
        break;
      case 2: {
        if (rank == 0) return;
        name = "permute";
        Shape p(rank);
        for (int64_t k = 0; k < rank; k++) p[k] = k;
        for (int64_t k = rank - 1; k > 0; k--) std::swap(p[k], p[c.draw(k + 1)]);
        permuted(p);
        t = x.permute(IntArrayView(p));
        break;
      }
      case 3: {
        if (rank == 0) return;
        name = "permute all";
        Shape p(rank);
        for (int64_t k = 0; k < rank; k++) p[k] = rank - 1 - k;
        permuted(p);
        t = x.permute();
        break;
      }
      case 4: {
        if (rank == 0) return;
        name = "flatten";
        int64_t s = c.draw(rank), e = c.range(s, rank - 1);
        os.assign(v.shape.begin(), v.shape.begin() + s);
        int64_t m = 1;
        for (int64_t k = s; k <= e; k++) m *= v.shape[k];
        os.push_back(m);
        os.insert(os.end(), v.shape.begin() + e + 1, v.shape.end());
        t = x.flatten(c.coin() ? s : s - rank, c.coin() ? e : e - rank);
        break;
      }
      case 5: {
        if (rank == 0 || rank >= 6) return;
        name = "unflatten";
        int64_t d = c.draw(rank);
        Shape sub = v.shape[d] % 2 == 0 ? Shape{v.shape[d] / 2, 2} : Shape{1, v.shape[d]};
        os.assign(v.shape.begin(), v.shape.begin() + d);
        os.insert(os.end(), sub.begin(), sub.end());
        os.insert(os.end(), v.shape.begin() + d + 1, v.shape.end());
        t = x.unflatten(c.coin() ? d : d - rank, IntArrayView(sub));
        break;
      }
      case 6: {
        if (rank == 0) return;
        name = "squeeze";
        int64_t d = c.draw(rank);
        os = v.shape;
        if (os[d] == 1) os.erase(os.begin() + d);
        t = x.squeeze(d);
        break;
      }
      case 7: {
        if (rank >= 6) return;
        name = "unsqueeze";
        int64_t d = c.draw(rank + 1);
        os = v.shape;
        os.insert(os.begin() + d, 1);
        t = x.unsqueeze(d);
        break;
      }
      default: {
        name = "in-place shape change";
        if (n[a].leaf || rank >= 6) return;
        Tensor y = x;
        if (c.coin()) {
          os = {num};
          y.reshape_(IntArrayView(os));
        } else {
          if (rank == 0) return;
          Shape p(rank);
          for (int64_t k = 0; k < rank; k++) p[k] = rank - 1 - k;
          permuted(p);
          y.permute_();
        }
        t = y;
        break;
      }
    }
    views++;
    Arr w(os, 0.0);
    std::vector<Entry> j;
    for (int64_t o = 0; o < num; o++) {
      w.v[o] = v.v[map[o]];
      j.push_back({0, map[o], o, 1});
    }
    add(t, w, {a}, j, name, 0);
  }

  void sum() {
    int a = any();
    if (!usable(a, 60, true)) return;
    Arr w(Shape{}, 0.0);
    std::vector<Entry> j;
    for (int64_t i = 0; i < n[a].v.numel(); i++) {
      w.v[0] += n[a].v.v[i];
      j.push_back({0, i, 0, 1});
    }
    add(c.coin() ? n[a].t.sum() : fn::sum(n[a].t), w, {a}, j, "sum", 1e-4);
  }

  void softmax() {
    int a = any();
    const Arr v = n[a].v;
    if (!usable(a) || v.dim() == 0) return;
    int64_t d = c.draw(v.dim());
    bool lg = c.coin();
    int64_t len = v.shape[d], inner = 1;
    for (int64_t k = d + 1; k < v.dim(); k++) inner *= v.shape[k];
    int64_t outer = v.numel() / (len * inner);
    if (len > 24 * big || v.numel() * len > 300000) return;
    Arr w = v;
    std::vector<Entry> j;
    for (int64_t o = 0; o < outer; o++)
      for (int64_t q = 0; q < inner; q++) {
        int64_t b = o * len * inner + q;
        double mx = -INFINITY, s = 0;
        for (int64_t k = 0; k < len; k++) mx = std::max(mx, v.v[b + k * inner]);
        for (int64_t k = 0; k < len; k++) s += std::exp(v.v[b + k * inner] - mx);
        std::vector<double> p(len);
        for (int64_t k = 0; k < len; k++) {
          double l = v.v[b + k * inner] - mx - std::log(s);
          p[k] = std::exp(l);
          w.v[b + k * inner] = lg ? l : p[k];
        }
        for (int64_t k = 0; k < len; k++)
          for (int64_t m = 0; m < len; m++) {
            double own = k == m ? 1.0 : 0.0;
            // the difference cancels: its rounding error goes with the terms, not with the result
            j.push_back({0, b + m * inner, b + k * inner, (lg ? 1.0 : p[k]) * (own - p[m]), (lg ? 1.0 : p[k]) * (own + p[m])});
          }
      }
    int64_t arg = c.coin() ? d : d - v.dim();
    Tensor t = lg ? fn::logSoftmax(n[a].t, arg) : fn::softmax(n[a].t, arg);
    int id = add(t, w, {a}, j, lg ? "logSoftmax" : "softmax");
    n[id].consume = true;
    layers++;
  }

  void linear() {
    int a = any();
    const Arr v = n[a].v;
    if (!usable(a, 20) || v.dim() == 0 || v.shape.back() > 12 * big) return;
    int64_t in = v.shape.back(), rows = v.numel() / in, out = c.range(1, big > 1 && c.coin() ? 40 : 4);
    if (rows > 60 * big || rows * in * out > 200000) return;
    int w = leafLike({out, in});
    bool hasBias = c.coin();
    int b = hasBias ? leafLike({out}) : -1;
    Shape os = v.shape;
    os.back() = out;
    Arr r(os, 0.0);
    std::vector<Entry> j;
    for (int64_t i = 0; i < rows; i++)
      for (int64_t o = 0; o < out; o++) {
        double acc = hasBias ? n[b].v.v[o] : 0;
        for (int64_t k = 0; k < in; k++) {
          acc += v.v[i * in + k] * n[w].v.v[o * in + k];
          j.push_back({0, i * in + k, i * out + o, n[w].v.v[o * in + k]});
          j.push_back({1, o * in + k, i * out + o, v.v[i * in + k]});
        }
        if (hasBias) j.push_back({2, o, i * out + o, 1});
        r.v[i * out + o] = acc;
      }
    Tensor t = hasBias ? fn::linear(n[a].t, n[w].t, n[b].t) : fn::linear(n[a].t, n[w].t);
    std::vector<int> ins = {a, w};
    if (hasBias) ins.push_back(b);
    add(t, r, ins, j, v.dim() == 2 ? "linear" : "linear n-d", 1e-4);
    layers++;
  }

  void dropout() {
    int a = any();
    if (!usable(a, 1e4)) return;
    const Arr v = n[a].v;
    bool train = c.chance(2, 3);
    static const float ps[] = {0.5f, 0.25f, 0.8f, 0.0f};
    float p = ps[c.draw(4)];
    if (train)
      for (double x : v.v)
        if (x == 0) return;
    Tensor t = fn::dropout(n[a].t, p, train);
    auto got = readVec(t);
    if (got.size() != v.v.size()) c.fail("dropout changes the element count");
    Arr w = v;
    std::vector<Entry> j;
    for (int64_t i = 0; i < v.numel(); i++) {
      double s = !train ? 1 : got[i] == 0 ? 0 : 1 / (1 - static_cast<double>(p));
      w.v[i] *= s;
      j.push_back({0, i, i, s});
    }
    int id = add(t, w, {a}, j, train ? "dropout" : "dropout eval");
    n[id].consume = true;
    layers++;
  }

  int imageNode(int64_t& B, int64_t& C, int64_t& H, int64_t& W, bool need4) {
    // an existing 4-d (or 3-d) node, or a fresh image
    for (int tries = 0; tries < 2; tries++) {
      int a = any();
      const Shape& s = n[a].v.shape;
      if (!usable(a, 20)) continue;
      if (s.size() == 4 || (!need4 && s.size() == 3)) {
        B = s.size() == 4 ? s[0] : 1;
        C = s[s.size() - 3];
        H = s[s.size() - 2];
        W = s[s.size() - 1];
        if (B * C * H * W <= 160 * big) return a;
      }
    }
    B = c.range(1, 3);
    C = c.range(1, 3);
    H = c.range(1, 5);
    W = c.range(1, 5);
    if (big > 1) {
      int64_t* which[] = {&B, &C, &H, &W};
      *which[c.draw(4)] *= c.range(2, 20);
    }
    if (!need4 && c.chance(1, 3)) {
      B = 1;
      return leafLike({C, H, W}, Data::Distinct);
    }
    return leafLike({B, C, H, W}, need4 ? Data::Small : Data::Distinct);
  }
  void window(int64_t H, int64_t W, bool pool, int64_t k[2], int64_t s[2], int64_t p[2]) {
    int64_t dim[2] = {H, W};
    for (int d = 0; d < 2; d++) {
      k[d] = c.range(1, std::min<int64_t>(big > 1 ? 6 : 3, dim[d]));
      s[d] = c.range(1, 3);
      p[d] = c.chance(1, 2) ? 0 : c.range(0, pool ? k[d] / 2 : 2);
    }
  }

  void conv() {
    int64_t B, C, H, W, k[2], s[2], p[2];
    int a = imageNode(B, C, H, W, true);
    if (n[a].v.dim() != 4) return;
    window(H, W, false, k, s, p);
    int64_t O = c.range(1, big > 1 && c.coin() ? 30 : 3);
    if (O * B * C * H * W * k[0] * k[1] > 300000) return;
    int w = leafLike({O, C, k[0], k[1]});
    bool hasBias = c.coin();
    int b = hasBias ? leafLike({O}) : -1;
    int64_t oh = (H + 2 * p[0] - k[0]) / s[0] + 1, ow = (W + 2 * p[1] - k[1]) / s[1] + 1;
    const Arr x = n[a].v, wt = n[w].v;
    Arr r(Shape{B, O, oh, ow}, 0.0);
    std::vector<Entry> j;
    int64_t o = 0;
    for (int64_t bi = 0; bi < B; bi++)
      for (int64_t oc = 0; oc < O; oc++)
        for (int64_t y = 0; y < oh; y++)
          for (int64_t z = 0; z < ow; z++, o++) {
            double acc = hasBias ? n[b].v.v[oc] : 0;
            for (int64_t ci = 0; ci < C; ci++)
              for (int64_t u = 0; u < k[0]; u++)
                for (int64_t t = 0; t < k[1]; t++) {
                  int64_t ih = y * s[0] - p[0] + u, iw = z * s[1] - p[1] + t;
                  if (ih < 0 || ih >= H || iw < 0 || iw >= W) continue;
                  int64_t xi = ((bi * C + ci) * H + ih) * W + iw, wi = ((oc * C + ci) * k[0] + u) * k[1] + t;
                  acc += x.v[xi] * wt.v[wi];
                  j.push_back({0, xi, o, wt.v[wi]});
                  j.push_back({1, wi, o, x.v[xi]});
                }
            if (hasBias) j.push_back({2, oc, o, 1});
            r.v[o] = acc;
          }
    Tensor t = fn::conv2d(n[a].t, n[w].t, hasBias ? n[b].t : Tensor(), tt::Dim2D(s[0], s[1]), tt::Dim2D(p[0], p[1]));
    std::vector<int> ins = {a, w};
    if (hasBias) ins.push_back(b);
    int id = add(t, r, ins, j, O > 1 ? "conv2d several outputs" : "conv2d", 1e-4);
    n[id].consume = true;
    layers++;
  }

  void pool() {
    int64_t B, C, H, W, k[2], s[2], p[2];
    int a = imageNode(B, C, H, W, false);
    window(H, W, true, k, s, p);
    int64_t oh = (H + 2 * p[0] - k[0]) / s[0] + 1, ow = (W + 2 * p[1] - k[1]) / s[1] + 1;
    const Arr x = n[a].v;
    Shape os = x.dim() == 4 ? Shape{B, C, oh, ow} : Shape{C, oh, ow};
    Arr r(os, 0.0);
    std::vector<Entry> j;
    int64_t o = 0;
    for (int64_t bc = 0; bc < B * C; bc++)
      for (int64_t y = 0; y < oh; y++)
        for (int64_t z = 0; z < ow; z++, o++) {
          int64_t best = -1;
          bool tie = false;
          for (int64_t u = 0; u < k[0]; u++)
            for (int64_t t = 0; t < k[1]; t++) {
              int64_t ih = y * s[0] - p[0] + u, iw = z * s[1] - p[1] + t;
              if (ih < 0 || ih >= H || iw < 0 || iw >= W) continue;
              int64_t i = (bc * H + ih) * W + iw;
              if (best < 0 || x.v[i] > x.v[best]) {
                best = i;
                tie = false;
              } else if (x.v[i] == x.v[best]) {
                tie = true;
              }
            }
          if (best < 0 || tie) return;
          r.v[o] = x.v[best];
          j.push_back({0, best, o, 1});
        }
    Tensor t = fn::maxPool2d(n[a].t, tt::Dim2D(k[0], k[1]), tt::Dim2D(s[0], s[1]), tt::Dim2D(p[0], p[1]));
    int id = add(t, r, {a}, j, C > 1 ? "maxPool2d several channels" : "maxPool2d");
    n[id].consume = true;
    layers++;
  }

  void loss() {
    int a = any();
    const Arr v = n[a].v;
    if (!usable(a, 20)) return;
    int red = static_cast<int>(c.draw(3));
    tt::LossReduction lr = red == 0 ? tt::LossReduction::MEAN : red == 1 ? tt::LossReduction::SUM : tt::LossReduction::NONE;
    std::vector<Entry> j;
    int64_t num = v.numel();
    if (c.coin() || v.dim() != 2) {
      std::vector<double> tv = genData(c, num, DType::Float32, Data::Small);
      int tg = leaf(v.shape, tv, false, "target");
      double f = red == 0 ? 1.0 / num : 1.0;
      Arr w(red == 2 ? v.shape : Shape{}, 0.0);
      for (int64_t i = 0; i < num; i++) {
        double e = v.v[i] - tv[i];
        w.v[red == 2 ? i : 0] += f * e * e;
        j.push_back({0, i, red == 2 ? i : 0, f * 2 * e});
      }
      int id = add(fn::mseLoss(n[a].t, n[tg].t, lr), w, {a, tg}, j, "mseLoss", 1e-4);
      n[id].consume = true;
    } else {
      int64_t N = v.shape[0], K = v.shape[1];
      std::vector<double> tv(N);
      for (auto& x : tv) x = static_cast<double>(c.draw(K));
      Tensor tg = rawTensor({N}, DType::Int64, tv);
      double f = red == 0 ? 1.0 / N : 1.0;
      Arr w(red == 2 ? Shape{N} : Shape{}, 0.0);
      for (int64_t i = 0; i < N; i++) {
        int64_t at = i * K + static_cast<int64_t>(tv[i]);
        w.v[red == 2 ? i : 0] -= f * v.v[at];
        j.push_back({0, at, red == 2 ? i : 0, -f});
      }
      int id = add(fn::nllLoss(n[a].t, tg, lr), w, {a}, j, "nllLoss", 1e-4);
      n[id].consume = true;
    }
    layers++;
  }

  void detached() {
    int a = any();
    if (!usable(a, 60, true)) return;
    const Arr v = n[a].v;
    tt::NoGradGuard guard;
    Arr w = v;
    std::vector<Entry> j;
    Tensor t;
    if (c.coin()) {
      t = n[a].t.flatten();
      w.shape = {v.numel()};
      for (int64_t i = 0; i < v.numel(); i++) j.push_back({0, i, i, 1});
    } else {
      t = n[a].t * 2;
      for (int64_t i = 0; i < v.numel(); i++) {
        w.v[i] *= 2;
        j.push_back({0, i, i, 2});
      }
    }
    add(t, w, {a}, j, "computed without recording");
  }
};

void judge(Case& c, Graph& g);

void graphs(Case& c) {
  Graph g(c);
  Shape s = genShape(c, 0, 4, 40);
  g.leaf(s, genData(c, numelOf(s), DType::Float32, c.coin() ? Data::Pos : Data::Small), true);
  int64_t steps = c.chance(1, 60) ? c.range(20, 90) : c.range(2, c.thorough ? 16 : 10);
  if (steps > 16 && c.chance(3, 4)) g.recent = 3;
  for (int64_t k = 0; k < steps; k++) {
    switch (c.weighted({5, 8, 5, 1, 2, 3, 1, 2, 2, 2, 1, 1})) {
      case 0: g.unary(); break;
      case 1: g.binary(); break;
      case 2: g.shapeOp(); break;
      case 3: g.sum(); break;
      case 4: g.softmax(); break;
      case 5: g.linear(); break;
      case 6: g.dropout(); break;
      case 7: g.conv(); break;
      case 8: g.pool(); break;
      case 9: g.loss(); break;
      case 10: g.detached(); break;
      default: g.leafLike(genShape(c, 0, 4, 30), c.coin() ? Data::Pos : Data::Small); break;
    }
  }
  judge(c, g);
}

// The same operations on sizes past those a kernel may treat as one block.
void large(Case& c) {
  Graph g(c);
  g.big = 20;
  Shape s = c.coin() ? Shape{c.range(100, 6000)} : c.coin() ? Shape{c.range(20, 400), c.range(2, 15)} : c.coin() ? Shape{c.range(2, 15), c.range(20, 400)} : Shape{c.range(2, 20), c.range(2, 20), c.range(2, 20)};
  g.leaf(s, genData(c, numelOf(s), DType::Float32, c.coin() ? Data::Pos : Data::Small), true);
  int64_t steps = c.range(1, 3);
  for (int64_t k = 0; k < steps; k++) {
    switch (c.weighted({3, 5, 4, 1, 3, 4, 1, 3, 3, 3})) {
      case 0: g.unary(); break;
      case 1: g.binary(); break;
      case 2: g.shapeOp(); break;
      case 3: g.sum(); break;
      case 4: g.softmax(); break;
      case 5: g.linear(); break;
      case 6: g.dropout(); break;
      case 7: g.conv(); break;
      case 8: g.pool(); break;
      default: g.loss(); break;
    }
  }
  judge(c, g);
}

void judge(Case& c, Graph& g) {
  size_t N = g.n.size();
  std::vector<std::vector<double>> want(N), mag(N);
  std::vector<bool> reached(N, false), consumed(N, false);
  for (size_t i = 0; i < N; i++) {
    want[i].assign(g.n[i].v.numel(), 0.0);
    mag[i] = want[i];
  }
  bool keepHandles = c.coin();
  int passes = 0;
  std::vector<bool> usedRoot(N, false);
  std::vector<Tensor> roots(N);
  for (size_t i = 0; i < N; i++)
    if (g.n[i].rg) roots[i] = g.n[i].t;
  int maxPass = c.chance(1, 3) ? 3 : 1;
  size_t last = N;
  for (int pass = 0; pass < maxPass; pass++) {
    // the last recorded node first, then any other
    std::vector<size_t> cand;
    for (size_t i = 0; i < N; i++)
      if (g.n[i].rg && !g.n[i].leaf) cand.push_back(i);
    if (cand.empty()) c.discard();
    size_t root = pass == 0 ? cand.back() : c.chance(1, 3) ? last : cand[c.draw(cand.size())];
    last = root;
    // layers keep data for one backward pass only
    std::vector<bool> need(N, false);
    need[root] = true;
    bool ok = true;
    for (size_t i = root + 1; i-- > 0;) {
      if (!need[i]) continue;
      if (g.n[i].consume && consumed[i]) ok = false;
      for (int k : g.n[i].in)
        if (g.n[k].rg && g.n[i].rg) need[k] = true;
    }
    if (!ok) continue;
    for (size_t i = 0; i < N; i++)
      if (need[i] && g.n[i].consume) consumed[i] = true;
    Node& R = g.n[root];
    bool plain = R.v.shape.empty() && c.coin();
    std::vector<double> up = plain ? std::vector<double>{1.0} : genData(c, R.v.numel(), DType::Float32, Data::Unit);
    Made upT = makeTensor(c, R.v.shape, DType::Float32, up);
    c.note("backward from #%zu%s; ", root, plain ? "" : (" with " + str(up, 8)).c_str());
    // reference
    std::vector<std::vector<double>> gr(N), gm(N);
    std::vector<bool> has(N, false);
    has[root] = true;
    gr[root] = up;
    gm[root].assign(up.size(), 0.0);
    for (size_t i = 0; i < up.size(); i++) gm[root][i] = std::fabs(up[i]);
    for (size_t i = root + 1; i-- > 0;) {
      if (!need[i] || !has[i]) continue;
      const Node& nd = g.n[i];
      for (int k : nd.in)
        if (g.n[k].rg && !has[k]) {
          has[k] = true;
          gr[k].assign(g.n[k].v.numel(), 0.0);
          gm[k] = gr[k];
        }
      for (auto& e : nd.jac) {
        int k = nd.in[e.k];
        if (!g.n[k].rg) continue;
        gr[k][e.i] += e.d * gr[i][e.o];
        gm[k][e.i] += std::max(std::fabs(e.d), e.mag) * gm[i][e.o];
      }
      if (nd.leaf) continue;
    }
    for (size_t i = 0; i < N; i++)
      if (g.n[i].leaf && g.n[i].rg && has[i]) {
        reached[i] = true;
        for (size_t e = 0; e < gr[i].size(); e++) {
          want[i][e] += gr[i][e];
          mag[i][e] += gm[i][e];
        }
      }
    if (!keepHandles) {
      // nothing but the root and the leaves stays alive in the caller's hands
      for (size_t i = 0; i < N; i++)
        if (!g.n[i].leaf) {
          g.n[i].t = Tensor();
          if (i != root) roots[i] = Tensor();
        }
      maxPass = pass + 1;
    }
    if (plain) roots[root].backward();
    else roots[root].backward(upT.t);
    passes++;
    expectUnchanged(c, upT, "upstream gradient");
    for (size_t i = 0; i < N; i++) {
      Node& nd = g.n[i];
      if (!nd.leaf) continue;
      auto now = readVec(nd.t);
      for (size_t e = 0; e < now.size(); e++)
        VP_CHECK(c, sameValue(now[e], nd.v.v[e]), "backward changed element %zu of #%zu", e, i);
      if (!nd.rg) continue;
      const Tensor& gt = nd.t.grad();
      if (!reached[i]) {
        VP_CHECK(c, !gt.defined(), "#%zu has a gradient but the root does not depend on it", i);
        continue;
      }
      VP_CHECK(c, gt.defined(), "#%zu has no gradient", i);
      Arr w(nd.v.shape, want[i]);
      expectNear(c, gt, w, DType::Float32, [&](size_t e) { return (g.big > 1 ? 3e-4 : 3e-5) * mag[i][e] + 1e-6; }, ("gradient of #" + std::to_string(i)).c_str());
    }
  }
  int grads = 0;
  for (size_t i = 0; i < N; i++) grads += reached[i];
  if (passes > 1) c.cls("several passes");
  if (g.bcast) c.cls("broadcasting");
  for (auto& x : g.n)
    if (x.v.numel() == 0) {
      c.cls("without elements");
      break;
    }
  if (grads > 1) c.cls("several inputs");
  int nonleaf = 0;
  for (auto& x : g.n) nonleaf += !x.leaf;
  if (passes > 0 && nonleaf >= (g.big > 1 ? 1 : 2)) c.nontrivial();
}

}  // namespace

int main(int argc, char** argv) {
  Suite s;
  s.property = "C07";
  s.rule = "at least two recorded operations and one backward pass";
  s.assumptions = {"values are kept away from points without a derivative (relu at 0, ties in a pooling window, zero divisors)",
                   "a layer that saves data for its backward pass (softmax, dropout, pooling, convolution, losses) is differentiated once",
                   "add and sub are used with their default factor: the gradient ignores another one, see the known finding alpha-gradient",
                   "32-bit floats; the reference takes the library's forward values, which are checked node by node"};
  s.init = noCache;
  s.props = {{"graphs", graphs, 300000, 8000000}, {"large", large, 10000, 200000}};
  s.findings = {{"alpha-gradient",
                 "the gradient of add(a, b, alpha) and sub(a, b, alpha) with respect to b ignores alpha (an existing test expects so)",
                 [] {
                   Tensor a = rawTensor({2}, DType::Float32, {1, 2}, true), b = rawTensor({2}, DType::Float32, {3, 4}, true);
                   fn::add(a, b, Scalar(0.5f)).sum().backward();
                   return b.grad().defined() && readVec(b.grad())[0] == 1.0;
                 }}};
  return runSuite(s, argc, argv);
}
