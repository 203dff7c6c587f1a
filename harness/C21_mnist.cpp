// C21: digit-image files are decoded faithfully or refused, transforms are applied element by element and in order.
#include "ref.h"
#include "modules.h"
#include "Operations.h"
#include "Functions.h"
#include "Data/DatasetMNIST.h"
#include "Data/DataLoader.h"
#include "Data/Transform.h"

using namespace vp;
namespace dd = tinytorch::data;
namespace tf = tinytorch::data::transforms;
using tt::IntArrayView;

namespace {

// A custom stage that depends on the order it is applied in, in three flavours.
class Scale : public tf::Transform {
 public:
  explicit Scale(float k) : k_(k) {}
  Tensor process(Tensor& input) const override { return input * k_; }

 private:
  float k_;
};
class Reverse : public tf::Transform {
 public:
  Tensor process(Tensor& input) const override {
    Tensor out(input.shape(), input.options());
    auto v = readVec(input);
    std::reverse(v.begin(), v.end());
    if (!v.empty()) encode(v, input.dtype(), out.dataPtr<>());
    return out;
  }
};
class AddInPlace : public tf::Transform {  // writes to the tensor it is given
 public:
  explicit AddInPlace(float k) : k_(k) {}
  Tensor process(Tensor& input) const override {
    tt::op::addInplace(input, Tensor::scalar(k_, input.options()), 1);
    return input;
  }

 private:
  float k_;
};

struct Stage {
  int kind;
  float a, b;
};
Stage genStage(Case& c, bool exactOnly) {
  Stage s;
  s.kind = static_cast<int>(c.weighted({3, 1, 1, 1}));
  s.a = static_cast<float>(c.around(0, 16)) / 8;
  static const float sd[] = {1.f, 0.5f, 2.f, 0.3081f, -1.f, 3.f};
  s.b = sd[c.draw(exactOnly ? 3 : 6)];
  return s;
}
std::shared_ptr<tf::Transform> build(const Stage& s) {
  switch (s.kind) {
    case 0: return std::make_shared<tf::Normalize>(s.a, s.b);
    case 1: return std::make_shared<Reverse>();
    case 2: return std::make_shared<Scale>(s.b);
    default: return std::make_shared<AddInPlace>(s.a);
  }
}
// float arithmetic of one stage
void applyRef(const Stage& s, std::vector<float>& v) {
  switch (s.kind) {
    case 0:
      for (auto& x : v) x = (x - s.a) / s.b;
      break;
    case 1: std::reverse(v.begin(), v.end()); break;
    case 2:
      for (auto& x : v) x = x * s.b;
      break;
    default:
      for (auto& x : v) x = x + s.a;
  }
}
void noteStage(Case& c, const Stage& s) {
  static const char* n[] = {"normalize", "reverse", "scale", "add in place"};
  c.note("%s(%g,%g) ", n[s.kind], s.a, s.b);
}

void be32(Bytes& b, uint32_t v) {
  for (int s = 24; s >= 0; s -= 8) b.push_back(static_cast<unsigned char>(v >> s));
}
uint32_t rd32(const Bytes& b, size_t at) {
  return static_cast<uint32_t>(b[at]) << 24 | static_cast<uint32_t>(b[at + 1]) << 16 | static_cast<uint32_t>(b[at + 2]) << 8 | b[at + 3];
}
void wr32(Bytes& b, size_t at, uint32_t v) {
  for (int i = 0; i < 4; i++) b[at + i] = static_cast<unsigned char>(v >> (24 - 8 * i));
}

struct Files {
  Bytes images, labels;
  int64_t n, h, w, nl;
};
Files genFiles(Case& c, bool sameCount) {
  Files f;
  f.n = c.chance(1, 12) ? 0 : c.range(1, 24);
  f.h = c.chance(1, 8) ? 28 : c.range(1, 9);
  f.w = c.chance(1, 8) ? 28 : c.range(1, 9);
  f.nl = sameCount || c.chance(2, 3) ? f.n : c.range(0, 24);
  be32(f.images, 0x803);
  be32(f.images, static_cast<uint32_t>(f.n));
  be32(f.images, static_cast<uint32_t>(f.h));
  be32(f.images, static_cast<uint32_t>(f.w));
  Rng r = c.sub();
  for (int64_t i = 0; i < f.n * f.h * f.w; i++) f.images.push_back(static_cast<unsigned char>(r.below(256)));
  be32(f.labels, 0x801);
  be32(f.labels, static_cast<uint32_t>(f.nl));
  for (int64_t i = 0; i < f.nl; i++) f.labels.push_back(static_cast<unsigned char>(r.below(4) ? r.below(10) : r.below(256)));
  return f;
}
void writeDir(const std::string& dir, bool train, const Files& f) {
  writeFile(dir + (train ? "train-images-idx3-ubyte" : "t10k-images-idx3-ubyte"), f.images);
  writeFile(dir + (train ? "train-labels-idx1-ubyte" : "t10k-labels-idx1-ubyte"), f.labels);
}
std::string freshDir() {
  std::string d = scratchPath("mnist") + "/";
  removeTree(d);
  mkdir(d.c_str(), 0755);
  return d;
}

// What a reader may deliver from these bytes: images wholly inside the file.
struct Avail {
  int64_t full = 0;      // as many as the header promises and the file holds
  bool intact = false;   // the header is valid and nothing is missing
  int64_t h = 0, w = 0;
};
Avail imagesIn(const Bytes& b) {
  Avail a;
  if (b.size() < 16 || rd32(b, 0) != 0x803) return a;
  auto n = static_cast<int32_t>(rd32(b, 4));
  auto h = static_cast<int32_t>(rd32(b, 8));
  auto w = static_cast<int32_t>(rd32(b, 12));
  if (n < 0 || h <= 0 || w <= 0) return a;
  int64_t px = static_cast<int64_t>(h) * w;
  a.full = std::min<int64_t>(n, static_cast<int64_t>(b.size() - 16) / px);
  a.intact = a.full == n;
  a.h = h;
  a.w = w;
  return a;
}
Avail labelsIn(const Bytes& b) {
  Avail a;
  if (b.size() < 8 || rd32(b, 0) != 0x801) return a;
  auto n = static_cast<int32_t>(rd32(b, 4));
  if (n < 0) return a;
  a.full = std::min<int64_t>(n, static_cast<int64_t>(b.size() - 8));
  a.intact = a.full == n;
  return a;
}

void checkSample(Case& c, dd::DatasetMNIST& ds, int64_t i, const Bytes& im, const Bytes& lb, int64_t h, int64_t w) {
  auto item = ds.getItem(static_cast<size_t>(i));
  VP_CHECK(c, item.size() == 2, "a sample of %zu fields", item.size());
  auto v = readVec(item[0]);
  expectShape(c, item[0], {1, h, w}, DType::Float32, "image");
  for (int64_t k = 0; k < h * w; k++) {
    auto want = static_cast<double>(static_cast<float>(im[16 + i * h * w + k]) / 255.f);
    VP_CHECK(c, std::fabs(v[k] - want) <= 1e-7, "pixel %lld of image %lld is %.9g instead of %.9g", static_cast<long long>(k),
             static_cast<long long>(i), v[k], want);
  }
  expectShape(c, item[1], {}, DType::Int64, "label");
  VP_CHECK(c, readVec(item[1])[0] == lb[8 + i], "label %lld is %g instead of %d", static_cast<long long>(i), readVec(item[1])[0], lb[8 + i]);
}

// Counts and sizes that take more than one byte of the header.
void largeFiles(Case& c) {
  Files f;
  int64_t big = c.coin() ? c.range(100, 700) : c.coin() ? (int64_t{1} << c.range(7, 16)) + c.range(-2, 2) : c.range(1000, 70000);
  f.n = c.range(1, 3);
  f.h = c.range(1, 3);
  f.w = c.range(1, 3);
  size_t which = c.draw(3);
  (which == 0 ? f.n : which == 1 ? f.h : f.w) = big;
  f.nl = f.n;
  be32(f.images, 0x803);
  be32(f.images, static_cast<uint32_t>(f.n));
  be32(f.images, static_cast<uint32_t>(f.h));
  be32(f.images, static_cast<uint32_t>(f.w));
  Rng r = c.sub();
  for (int64_t i = 0; i < f.n * f.h * f.w; i++) f.images.push_back(static_cast<unsigned char>(r.below(256)));
  be32(f.labels, 0x801);
  be32(f.labels, static_cast<uint32_t>(f.nl));
  for (int64_t i = 0; i < f.nl; i++) f.labels.push_back(static_cast<unsigned char>(r.below(256)));
  bool train = c.coin();
  std::string dir = freshDir();
  writeDir(dir, train, f);
  c.note("%lld images of %lldx%lld; ", static_cast<long long>(f.n), static_cast<long long>(f.h), static_cast<long long>(f.w));
  dd::DatasetMNIST ds(dir, train ? dd::DatasetMNIST::TRAIN : dd::DatasetMNIST::TEST, nullptr);
  removeTree(dir);
  VP_CHECK(c, static_cast<int64_t>(ds.size()) == f.n, "%zu samples instead of %lld", ds.size(), static_cast<long long>(f.n));
  for (int k = 0; k < 6; k++) {
    int64_t i = k == 0 ? 0 : k == 1 ? f.n - 1 : static_cast<int64_t>(r.below(f.n));
    checkSample(c, ds, i, f.images, f.labels, f.h, f.w);
  }
  c.cls(which == 0 ? "many images" : "large images");
  c.nontrivial();
}

// ---- intact files -----------------------------------------------------------------------------

void decodeFiles(Case& c) {
  Files f = genFiles(c, true), other = genFiles(c, true);
  bool train = c.coin();
  if (c.chance(1, 4)) f.images.resize(f.images.size() + c.range(1, 5), 9);  // bytes behind the last image are none of it
  if (c.chance(1, 4)) f.labels.resize(f.labels.size() + c.range(1, 5), 9);
  std::string dir = freshDir();
  writeDir(dir, train, f);
  if (c.coin()) writeDir(dir, !train, other);
  std::vector<Stage> stages(c.draw(4));
  for (auto& s : stages) s = genStage(c, false);
  c.note("%lld images of %lldx%lld, %s; ", static_cast<long long>(f.n), static_cast<long long>(f.h), static_cast<long long>(f.w), train ? "train" : "test");
  for (auto& s : stages) noteStage(c, s);
  std::shared_ptr<tf::Transform> t;
  if (stages.size() == 1 && c.coin()) {
    t = build(stages[0]);
  } else if (!stages.empty()) {
    auto comp = std::make_shared<tf::Compose>();
    for (auto& s : stages) {
      const auto p = build(s);
      comp->pushBack(p);
    }
    t = comp;
  }
  dd::DatasetMNIST ds(dir, train ? dd::DatasetMNIST::TRAIN : dd::DatasetMNIST::TEST, t);
  removeTree(dir);  // the samples are in memory
  VP_CHECK(c, static_cast<int64_t>(ds.size()) == f.n, "%zu samples instead of %lld", ds.size(), static_cast<long long>(f.n));
  // any order, some twice, changed by the caller in between
  std::vector<int64_t> order;
  for (int64_t i = 0; i < f.n; i++) order.push_back(i);
  Rng r = c.sub();
  for (int64_t i = 0; i < f.n; i++) order.push_back(static_cast<int64_t>(r.below(f.n)));
  if (c.coin()) std::shuffle(order.begin(), order.end(), std::mt19937(static_cast<unsigned>(r.next())));
  for (int64_t i : order) {
    if (!t) {
      checkSample(c, ds, i, f.images, f.labels, f.h, f.w);
    } else {
      auto item = ds.getItem(static_cast<size_t>(i));
      std::vector<float> ref(f.h * f.w);
      for (size_t k = 0; k < ref.size(); k++) ref[k] = static_cast<float>(f.images[16 + i * f.h * f.w + k]) / 255.f;
      for (auto& s : stages) applyRef(s, ref);
      expectShape(c, item[0], {1, f.h, f.w}, DType::Float32, "transformed image");
      auto v = readVec(item[0]);
      for (size_t k = 0; k < ref.size(); k++) {
        VP_CHECK(c, std::fabs(v[k] - ref[k]) <= 1e-5 * (1 + std::fabs(ref[k])), "element %zu of image %lld is %.9g instead of %.9g", k, static_cast<long long>(i), v[k], ref[k]);
      }
      VP_CHECK(c, readVec(item[1])[0] == f.labels[8 + i], "label %lld differs", static_cast<long long>(i));
    }
    if (r.below(3) == 0) {
      auto item = ds.getItem(static_cast<size_t>(i));
      item[0].fill_(7);
      item[1].fill_(7);
    }
  }
  if (f.n > 0 && !t && c.chance(1, 3)) {
    auto sp = std::make_shared<dd::DatasetMNIST>(ds);
    size_t bs = static_cast<size_t>(c.range(1, 9));
    dd::DataLoader loader(sp, bs, nullptr, false);
    int64_t at = 0;
    for (auto [idx, batch] : loader) {
      int64_t k = std::min<int64_t>(bs, f.n - at);
      expectShape(c, batch[0], {k, 1, f.h, f.w}, DType::Float32, "batch of images");
      auto v = readVec(batch[0]);
      auto l = readVec(batch[1]);
      for (int64_t j = 0; j < k; j++) {
        VP_CHECK(c, l[j] == f.labels[8 + at + j], "label %lld of the batch differs", static_cast<long long>(j));
        for (int64_t q = 0; q < f.h * f.w; q++)
          VP_CHECK(c, std::fabs(v[j * f.h * f.w + q] - f.images[16 + (at + j) * f.h * f.w + q] / 255.0) < 1e-6, "batch pixel differs");
      }
      at += k;
    }
    VP_CHECK(c, at == f.n, "batches hold %lld samples", static_cast<long long>(at));
    c.cls("batches");
  }
  c.cls(t ? "transformed" : "plain");
  if (f.n > 0) c.nontrivial();
}

// ---- damaged files ----------------------------------------------------------------------------

void damaged(Case& c) {
  Files f = genFiles(c, false);
  int edits = static_cast<int>(c.range(1, 3));
  bool missingI = false, missingL = false;
  c.note("%lld images of %lldx%lld, %lld labels; ", static_cast<long long>(f.n), static_cast<long long>(f.h), static_cast<long long>(f.w), static_cast<long long>(f.nl));
  for (int e = 0; e < edits; e++) {
    bool im = c.chance(2, 3);
    Bytes& b = im ? f.images : f.labels;
    size_t head = im ? 16 : 8;
    switch (c.weighted({4, 2, 4, 2, 1, 1, 1})) {
      case 0: {  // cut anywhere, mostly in the header or at the end
        size_t to = c.coin() ? c.draw(std::min(b.size(), head + 2) + 1) : b.size() - c.draw(std::min<size_t>(b.size(), 8) + 1);
        b.resize(std::min(to, b.size()));
        c.note("%s cut to %zu; ", im ? "images" : "labels", b.size());
        break;
      }
      case 1:
        if (b.size() >= 4) {
          static const uint32_t m[] = {0x801, 0x803, 0, 0x30800, 0x03080000, 0x10803, 0x800};
          wr32(b, 0, m[c.draw(7)]);
          c.note("%s magic %x; ", im ? "images" : "labels", rd32(b, 0));
        }
        break;
      case 2: {
        size_t at = im ? 4 + 4 * c.draw(3) : 4;
        if (b.size() < at + 4) break;
        static const uint32_t big[] = {0xffffffffu, 0x80000000u, 0x7fffffffu, 0x10000u, 0x8000u, 0u, 0x01000000u, 0xb505u, 0x20000000u};
        uint32_t v = c.coin() ? big[c.draw(9)] : rd32(b, at) + static_cast<uint32_t>(c.around(0, 3));
        wr32(b, at, v);
        c.note("%s word %zu = %x; ", im ? "images" : "labels", at / 4, v);
        break;
      }
      case 3:
        if (!b.empty()) {
          size_t at = c.coin() ? c.draw(std::min(b.size(), head)) : c.draw(b.size());
          b[at] ^= static_cast<unsigned char>(1u << c.draw(8));
          c.note("%s byte %zu flipped; ", im ? "images" : "labels", at);
        }
        break;
      case 4: (im ? missingI : missingL) = true; break;
      case 5: b.clear(); break;
      default: {
        Rng r = c.sub();
        b.resize(c.draw(40));
        for (auto& x : b) x = static_cast<unsigned char>(r.below(256));
        if (b.size() >= 4 && c.coin()) wr32(b, 0, im ? 0x803 : 0x801);
      }
    }
  }
  if (missingI) f.images.clear();
  if (missingL) f.labels.clear();
  Avail a = imagesIn(f.images), l = labelsIn(f.labels);
  // an image without pixels is refused or delivered, but its header alone must not cost memory: see assumptions
  bool train = c.coin();
  std::string dir = freshDir();
  writeDir(dir, train, f);
  if (missingI) unlink((dir + (train ? "train-images-idx3-ubyte" : "t10k-images-idx3-ubyte")).c_str());
  if (missingL) unlink((dir + (train ? "train-labels-idx1-ubyte" : "t10k-labels-idx1-ubyte")).c_str());
  {
    dd::DatasetMNIST ds(dir, train ? dd::DatasetMNIST::TRAIN : dd::DatasetMNIST::TEST, nullptr);
    auto n = static_cast<int64_t>(ds.size());
    VP_CHECK(c, n <= std::min(a.full, l.full), "%lld samples of files that hold %lld images and %lld labels", static_cast<long long>(n),
             static_cast<long long>(a.full), static_cast<long long>(l.full));
    if (a.intact && l.intact && a.full == l.full) {
      VP_CHECK(c, n == a.full, "%lld of %lld samples of intact files", static_cast<long long>(n), static_cast<long long>(a.full));
      c.cls("still intact");
    } else {
      c.cls(n == 0 ? "refused" : "partly used");
    }
    for (int64_t i = 0; i < n; i++) checkSample(c, ds, i, f.images, f.labels, a.h, a.w);
  }
  removeTree(dir);
  if (!(a.intact && l.intact && a.full == l.full)) c.nontrivial();
}

// ---- transforms -------------------------------------------------------------------------------

void normalize(Case& c) {
  static const DType types[] = {DType::Float32, DType::Float16, DType::BFloat16};
  DType dt = types[c.weighted({3, 1, 1})];
  Shape s = genShape(c, 0, 6, 300, true);
  Made m = makeTensor(c, s, dt, genData(c, numelOf(s), dt, c.chance(1, 4) ? Data::Special : Data::Small), true, c.chance(1, 5));
  float mean = static_cast<float>(c.around(0, 40)) / 7, sd = static_cast<float>(c.range(1, 40)) / 9 * (c.chance(1, 8) ? -1 : 1);
  c.note("%s %s%s mean %g deviation %g %s", dtName(dt), str(s).c_str(), m.view ? " view" : "", mean, sd, str(m.ref.v, 8).c_str());
  tf::Normalize norm(mean, sd);
  Tensor in = m.t;
  Tensor out = norm.process(in);
  Arr want(s);
  double mn = roundDt(mean, dt), dv = roundDt(sd, dt), e = epsOf(dt);
  for (size_t i = 0; i < want.v.size(); i++) want.v[i] = (m.ref.v[i] - mn) / dv;
  double big = dt == DType::Float16 ? 65504.0 : 3.3e38;
  for (size_t i = 0; i < want.v.size(); i++) {
    if (std::fabs(want.v[i]) > big * 0.9 || std::fabs(m.ref.v[i]) > big * 0.9) {
      // the difference or the quotient may overflow in one rounding
      if (!std::isinf(m.ref.v[i])) c.discard();
    }
  }
  expectNear(c, out, want, dt, [&](size_t i) {
    return 3 * e * std::fabs(want.v[i]) + 2 * e * (std::fabs(m.ref.v[i]) + std::fabs(mn)) / std::fabs(dv) + 2 * tinyOf(dt) / std::min(1.0, std::fabs(dv));
  }, "normalize");
  expectUnchanged(c, m, "normalize");
  expectSurround(c, m, "normalize");
  c.cls(dtName(dt));
  if (numelOf(s) > 0) c.nontrivial();
}

void compose(Case& c) {
  Shape s = genShape(c, 1, 4, 60, false);
  std::vector<double> v = genData(c, numelOf(s), DType::Float32, Data::Small);
  std::vector<Stage> stages(c.draw(6));
  for (auto& x : stages) x = genStage(c, false);
  for (auto& x : stages) noteStage(c, x);
  std::vector<float> ref(v.begin(), v.end());
  for (auto& x : stages) applyRef(x, ref);
  Tensor in = rawTensor(s, DType::Float32, v);
  Tensor out;
  size_t how = c.draw(4);
  c.note("built by %zu", how);
  if (how == 0) {
    tf::Compose k;
    for (auto& x : stages) {
      const auto p = build(x);
      k.pushBack(p);
    }
    out = k.process(in);
  } else if (how == 1) {
    // nested: the first part is a composition itself
    size_t cut = stages.empty() ? 0 : c.draw(stages.size() + 1);
    auto inner = std::make_shared<tf::Compose>();
    for (size_t i = 0; i < cut; i++) {
      const auto p = build(stages[i]);
      inner->pushBack(p);
    }
    tf::Compose k;
    const std::shared_ptr<tf::Transform> innerBase = inner;
    k.pushBack(innerBase);
    for (size_t i = cut; i < stages.size(); i++) {
      const auto p = build(stages[i]);
      k.pushBack(p);
    }
    out = k.process(in);
  } else if (how == 2) {
    stages.resize(3, Stage{0, 0.5f, 2.f});
    ref.assign(v.begin(), v.end());
    for (auto& x : stages) applyRef(x, ref);
    tf::Compose k{build(stages[0]), build(stages[1]), build(stages[2])};
    out = k.process(in);
  } else {
    stages.resize(3, Stage{0, 0.5f, 2.f});
    stages[0].kind = 0, stages[1].kind = 2, stages[2].kind = 0;
    ref.assign(v.begin(), v.end());
    for (auto& x : stages) applyRef(x, ref);
    tf::Compose k(tf::Normalize(stages[0].a, stages[0].b), Scale(stages[1].b), tf::Normalize(stages[2].a, stages[2].b));
    out = k.process(in);
    Tensor again = rawTensor(s, DType::Float32, v);
    again = k.process(again);  // a transform keeps no state
    VP_CHECK(c, readVec(again) == readVec(out), "the second application differs from the first");
  }
  Arr want(s, std::vector<double>(ref.begin(), ref.end()));
  expectNear(c, out, want, DType::Float32, [&](size_t i) { return 1e-4 * (1 + std::fabs(want.v[i])); }, "composition");
  bool writes = false;
  for (auto& x : stages) writes |= x.kind == 3;
  if (!writes) {
    auto now = readVec(in);
    for (size_t i = 0; i < v.size(); i++) VP_CHECK(c, sameValue(now[i], v[i]), "the input changed at %zu", i);
  }
  c.cls(how == 0 ? "appended" : how == 1 ? "nested" : how == 2 ? "list" : "variadic");
  if (stages.size() > 1) c.nontrivial();
}

}  // namespace

int main(int argc, char** argv) {
  makeScratchRoot();
  Suite s;
  s.property = "C21";
  s.rule = "a case is non-trivial when the files hold a sample (intact files), when the damage leaves them invalid or inconsistent (damaged files), "
           "when a tensor has an element (normalisation) and when at least two stages are composed";
  s.assumptions = {"a sample is accessed by an index below the size",
                   "files that are damaged but still hold whole samples may deliver those samples or none",
                   "the directory is given with its trailing separator"};
  s.init = noCache;
  s.props = {{"intact files", decodeFiles, 6000, 250000}, {"large files", largeFiles, 1200, 40000}, {"damaged files", damaged, 30000, 1200000}, {"normalize", normalize, 150000, 5000000}, {"compose", compose, 100000, 4000000}};
  int rc = runSuite(s, argc, argv);
  removeTree(scratchRoot());
  return rc;
}
