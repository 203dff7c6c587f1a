// C13: the caching allocator under allocation histories, with an accounting base allocator and content patterns.
#include <sys/mman.h>

#include <map>
#include <memory>

#include "Functions.h"
#include "Operations.h"
#include "Tensor/CachedAllocator.h"
#include "Tensor/Options.h"
#include "Tensor/Storage.h"
#include "ref.h"
using namespace vp;
using tt::CachedAllocator;
namespace op = tt::op;

namespace {

// Regions are recycled between cases: mapping is expensive, and stale contents are what a real system hands out.
std::multimap<size_t, char*>& pool() {
  static std::multimap<size_t, char*> p;
  return p;
}

size_t& pooled() {
  static size_t n = 0;
  return n;
}

struct Accounts {
  std::map<char*, size_t> live;  // what the system gave and has not got back
  size_t held = 0, peak = 0, calls = 0;
  int failNext = 0;
  size_t refuseAbove = SIZE_MAX;  // a memory limit
  std::string error;
};

class Base : public tt::Allocator {
 public:
  explicit Base(Accounts& a, size_t skew) : a_(a), skew_(skew) {}
  void* allocate(int64_t nbytes) override {
    a_.calls++;
    if (nbytes < 0) {
      a_.error = "a negative size was requested from the system";
      return nullptr;
    }
    size_t n = static_cast<size_t>(nbytes);
    if (a_.failNext > 0) {
      a_.failNext--;
      return nullptr;
    }
    if (a_.held + n > a_.refuseAbove) return nullptr;
    size_t want = (n + skew_ + 4095) / 4096 * 4096 + 4096;
    auto it = pool().find(want);
    char* p;
    if (it != pool().end()) {
      p = it->second;
      pool().erase(it);
      pooled() -= want;
    } else {
      p = static_cast<char*>(mmap(nullptr, want, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
      if (p == MAP_FAILED) abort();
    }
    p += skew_;
    a_.live[p] = n;
    a_.held += n;
    a_.peak = std::max(a_.peak, a_.held);
    return p;
  }
  void deallocate(void* ptr) override {
    auto it = a_.live.find(static_cast<char*>(ptr));
    if (it == a_.live.end()) {
      a_.error = "the system got back a pointer it had not given";
      return;
    }
    size_t n = it->second, want = (n + skew_ + 4095) / 4096 * 4096 + 4096;
    a_.held -= n;
    a_.live.erase(it);
    if (pooled() + want > 512 * 1024 * 1024 || pool().count(want) > 40) {
      munmap(static_cast<char*>(ptr) - skew_, want);
      return;
    }
    pooled() += want;
    pool().emplace(want, static_cast<char*>(ptr) - skew_);
  }

 private:
  Accounts& a_;
  size_t skew_;
};

struct Block {
  size_t n;
  uint64_t tag;
};
size_t stride(size_t n) { return std::max<size_t>(4093, n / 24); }
void paint(char* p, const Block& b) {
  size_t head = std::min<size_t>(b.n, 256);
  for (size_t i = 0; i < head; i++) p[i] = static_cast<char>(mix64(b.tag + i / 8) >> (i % 8 * 8));
  size_t tail = b.n - std::min<size_t>(b.n, 256);
  for (size_t i = tail; i < b.n; i++) p[i] = static_cast<char>(mix64(b.tag + i / 8) >> (i % 8 * 8));
  for (size_t i = 256; i + 256 < b.n; i += stride(b.n)) p[i] = static_cast<char>(b.tag);
}
bool intact(const char* p, const Block& b) {
  size_t head = std::min<size_t>(b.n, 256);
  for (size_t i = 0; i < head; i++)
    if (p[i] != static_cast<char>(mix64(b.tag + i / 8) >> (i % 8 * 8))) return false;
  size_t tail = b.n - std::min<size_t>(b.n, 256);
  for (size_t i = tail; i < b.n; i++)
    if (p[i] != static_cast<char>(mix64(b.tag + i / 8) >> (i % 8 * 8))) return false;
  for (size_t i = 256; i + 256 < b.n; i += stride(b.n))
    if (i < tail && p[i] != static_cast<char>(b.tag)) return false;
  return true;
}

constexpr size_t KiB = 1024, MiB = 1024 * 1024;

// mode 0: small, 1: around the size classes, 2: anything
size_t genSize(Case& c, int mode) {
  switch (c.weighted(mode == 0 ? std::vector<int>{6, 4, 1, 0, 0, 0} : mode == 1 ? std::vector<int>{1, 2, 3, 3, 3, 1} : std::vector<int>{4, 3, 2, 2, 1, 1})) {
    case 0: return static_cast<size_t>(c.range(0, 1200));
    case 1: return static_cast<size_t>(512 * c.range(1, 40) + c.range(-1, 1));
    case 2: return static_cast<size_t>(MiB + c.range(-3, 3) * (c.coin() ? 1 : 512));
    case 3: return static_cast<size_t>(c.range(1, 19) * static_cast<int64_t>(MiB / 2) + c.range(-1, 1));
    case 4: return static_cast<size_t>(10 * MiB + c.range(-2, 2) * (c.coin() ? 1 : 512));
    default: return static_cast<size_t>(c.range(5, 24) * static_cast<int64_t>(2 * MiB) + c.range(-1, 1));
  }
}

struct World {
  Case& c;
  Accounts acc;
  std::unique_ptr<CachedAllocator> a;
  std::map<char*, Block> live;
  std::vector<char*> order;
  size_t liveBytes = 0, livePeak = 0;  // in multiples of 512
  uint64_t serial = 0;

  World(Case& c, size_t skew) : c(c) {
    CachedAllocator::setCacheEnabled(true);
    a = std::make_unique<CachedAllocator>(std::make_unique<Base>(acc, skew));
  }
  ~World() { (void)a.release(); }  // after a failure the blocks are still live
  static size_t rounded(size_t n) { return std::max<size_t>(512, (n + 511) / 512 * 512); }

  char* alloc(size_t n, bool mayFail = false) {
    size_t callsBefore = acc.calls;
    char* p = static_cast<char*>(a->allocate(static_cast<int64_t>(n)));
    if (!p && mayFail) return nullptr;
    VP_CHECK(c, p != nullptr, "allocating %zu bytes gives no memory", n);
    VP_CHECK(c, reinterpret_cast<uintptr_t>(p) % tt::defaultAlignment == 0, "block %p of %zu bytes is not aligned to %zu", (void*)p, n, tt::defaultAlignment);
    auto r = acc.live.upper_bound(p);
    bool inside = r != acc.live.begin() && (--r, p >= r->first && p + n <= r->first + r->second);
    VP_CHECK(c, inside, "a block of %zu bytes reaches outside the memory obtained from the system", n);
    auto it = live.upper_bound(p);
    if (it != live.end()) VP_CHECK(c, p + std::max<size_t>(n, 1) <= it->first, "a block of %zu bytes overlaps the live block %zu bytes behind its start", n, static_cast<size_t>(it->first - p));
    if (it != live.begin()) {
      --it;
      VP_CHECK(c, it->first + std::max<size_t>(it->second.n, 1) <= p, "a block of %zu bytes starts %zu bytes into a live block of %zu", n, static_cast<size_t>(p - it->first), it->second.n);
    }
    Block b{n, mix64(++serial)};
    paint(p, b);
    live[p] = b;
    order.push_back(p);
    liveBytes += rounded(n);
    livePeak = std::max(livePeak, liveBytes);
    (void)callsBefore;
    check();
    return p;
  }
  void release(size_t i) {
    char* p = order[i];
    Block b = live[p];
    VP_CHECK(c, intact(p, b), "the contents of a live block of %zu bytes changed", b.n);
    order.erase(order.begin() + static_cast<long>(i));
    live.erase(p);
    liveBytes -= rounded(b.n);
    a->deallocate(p);
    check();
  }
  void check() { VP_CHECK(c, acc.error.empty(), "%s", acc.error.c_str()); }
  void verify() {
    for (auto& [p, b] : live) VP_CHECK(c, intact(p, b), "the contents of a live block of %zu bytes changed", b.n);
  }
  void releaseAll(int how) {
    while (!order.empty()) release(how == 0 ? 0 : how == 1 ? order.size() - 1 : c.draw(order.size()));
  }
  void end() {
    releaseAll(static_cast<int>(c.draw(3)));
    a.reset();
    check();
    VP_CHECK(c, acc.live.empty(), "%zu bytes were not returned to the system after everything was released", acc.held);
  }
};

size_t genSkew(Case& c) { return c.pick(std::vector<size_t>{0, 32, 96}); }

void histories(Case& c) {
  World w(c, genSkew(c));
  int mode = static_cast<int>(c.draw(3));
  int64_t ops = c.range(2, c.thorough ? 200 : 80), freed = 0, reused = 0;
  bool toggles = c.chance(1, 4), faults = c.chance(1, 4);
  bool on = true;
  if (toggles) c.cls("toggling");
  if (faults) c.cls("system failures");
  for (int64_t k = 0; k < ops; k++) {
    size_t held = w.acc.held;
    switch (c.weighted({10, 7, 1, toggles ? 1 : 0, faults ? 2 : 0})) {
      case 0: {
        size_t n = genSize(c, mode);
        c.note("+%zu ", n);
        w.alloc(n);
        if (w.acc.held == held && freed) reused++;
        break;
      }
      case 1:
        if (!w.order.empty()) {
          size_t i = c.draw(w.order.size());
          c.note("-%zu ", w.live[w.order[i]].n);
          w.release(i);
          freed++;
        }
        break;
      case 2: w.verify(); break;
      case 3:
        on = !on;
        CachedAllocator::setCacheEnabled(on);
        c.note("cache %s ", on ? "on" : "off");
        break;
      default: {  // the system refuses once, or for good
        bool twice = c.coin();
        size_t n = genSize(c, mode);
        w.acc.failNext = twice ? 2 : 1;
        c.note("fail%s +%zu ", twice ? "" : " once", n);
        char* p = w.alloc(n, twice || !on);
        if (p && w.acc.failNext == 0 && on) c.cls("released cached memory and went on");
        w.acc.failNext = 0;
        break;
      }
    }
  }
  w.verify();
  // Held memory is explained by what was live at the same time, with room for fragmentation.
  if (freed > 2 && reused) c.nontrivial();
  CachedAllocator::setCacheEnabled(true);
  w.end();
}

// After everything was released, the memory held serves new requests of other sizes.
void reuse(Case& c) {
  World w(c, genSkew(c));
  int cls = static_cast<int>(c.draw(3));
  auto size = [&]() -> size_t {
    switch (cls) {
      case 0: return static_cast<size_t>(c.coin() ? c.range(1, 4096) : c.range(1, static_cast<int64_t>(MiB)));
      case 1: return static_cast<size_t>(c.range(static_cast<int64_t>(MiB) + 1, static_cast<int64_t>(10 * MiB) - 1));
      default: return static_cast<size_t>(c.range(5, 20) * static_cast<int64_t>(2 * MiB));
    }
  };
  int64_t ops = c.range(1, cls == 0 ? 120 : 30);
  for (int64_t k = 0; k < ops; k++) {
    if (!w.order.empty() && c.chance(2, 5)) {
      w.release(c.draw(w.order.size()));
      c.note("- ");
    } else {
      size_t n = size();
      c.note("+%zu ", n);
      w.alloc(n);
    }
  }
  w.releaseAll(static_cast<int>(c.draw(3)));
  c.note("| ");
  size_t held = w.acc.held, calls = w.acc.calls;
  auto segments = w.acc.live;
  if (cls == 2) {
    // every segment is whole again: it serves one request of its own size
    std::vector<size_t> sizes;
    for (auto& s : segments) sizes.push_back(s.second);
    std::sort(sizes.begin(), sizes.end());
    while (!sizes.empty()) {
      w.alloc(sizes.back());
      sizes.pop_back();
    }
    c.note("one block per segment (%zu)", segments.size());
  } else {
    // half of the memory held, in blocks of one size
    size_t n = cls == 0 ? (static_cast<size_t>(512) << c.draw(12)) : static_cast<size_t>(c.range(static_cast<int64_t>(MiB) + 1, static_cast<int64_t>(10 * MiB) - 1));
    size_t count = std::min<size_t>(held / 2 / n, 400);
    c.note("%zu x %zu", count, n);
    for (size_t i = 0; i < count; i++) w.alloc(n);
    if (count > 1) c.nontrivial();
  }
  if (cls == 2) c.nontrivial();
  VP_CHECK(c, w.acc.calls == calls, "%zu bytes were free and whole, but new requests needed more from the system (%zu bytes now)", held, w.acc.held);
  w.end();
}

// A history whose live size is bounded does not grow for ever.
void steady(Case& c) {
  World w(c, 0);
  int mode = static_cast<int>(c.draw(3));
  size_t limit = mode == 0 ? 3 * MiB : 60 * MiB;
  int64_t ops = c.thorough ? 4000 : 1200;
  int pattern = static_cast<int>(c.draw(3));
  c.note("mode %d pattern %d", mode, pattern);
  Rng r = c.sub();
  std::vector<size_t> sizes;
  for (int i = 0; i < 6; i++) sizes.push_back(std::max<size_t>(1, genSize(c, mode)));
  for (int64_t k = 0; k < ops; k++) {
    size_t n = pattern == 0 ? sizes[r.below(6)] : pattern == 1 ? sizes[static_cast<size_t>(k / 50 % 6)] : std::max<size_t>(1, static_cast<size_t>(sizes[r.below(6)] * r.unit()));
    while (!w.order.empty() && w.liveBytes + World::rounded(n) > limit) w.release(r.below(w.order.size()));
    if (w.order.size() > 300) w.release(r.below(w.order.size()));
    w.alloc(n);
  }
  size_t allowed = 16 * w.livePeak + 64 * MiB;
  VP_CHECK(c, w.acc.peak <= allowed, "%zu bytes were obtained from the system for at most %zu live at a time", w.acc.peak, w.livePeak);
  c.nontrivial();
  w.end();
}

// Thousands of blocks live at a time.
void crowds(Case& c) {
  World w(c, genSkew(c));
  int64_t n = c.range(1000, 9000);
  auto most = static_cast<uint64_t>(c.pick(std::vector<int64_t>{16, 600, 2000}));
  bool newest = c.coin();
  c.note("%lld blocks of up to %lu bytes, %s", (long long)n, most, newest ? "the newest released first" : "released in any order");
  Rng r = c.sub();
  for (int64_t i = 0; i < n; i++) {
    w.alloc(1 + r.below(most));
    if (r.below(5) == 0 && !w.order.empty()) w.release(newest ? w.order.size() - 1 : r.below(w.order.size()));
  }
  if (w.order.size() >= 1000) c.nontrivial();
  w.verify();
  w.end();
}

// Under a memory limit, cached memory is given back before a request fails.
void pressure(Case& c) {
  World w(c, 0);
  int64_t n = c.range(1, 12);
  for (int64_t i = 0; i < n; i++) {
    size_t s = genSize(c, 2);
    c.note("+%zu ", s);
    w.alloc(s);
  }
  w.releaseAll(static_cast<int>(c.draw(3)));
  size_t held = w.acc.held;
  // the limit leaves room for one large block only if everything cached is returned
  size_t big = static_cast<size_t>(c.range(30, 60)) * 2 * MiB;
  w.acc.refuseAbove = std::max(big, held);
  if (held + big > w.acc.refuseAbove) c.nontrivial();
  c.note("| limit %zu, +%zu ", w.acc.refuseAbove, big);
  char* p = w.alloc(big, true);
  VP_CHECK(c, p != nullptr, "%zu bytes of cached memory were free, yet %zu bytes could not be had under a limit of %zu", held, big, w.acc.refuseAbove);
  w.releaseAll(0);
  w.acc.refuseAbove = 0;
  size_t huge = 200 * MiB;
  VP_CHECK(c, w.a->allocate(static_cast<int64_t>(huge)) == nullptr, "memory came from nowhere");
  VP_CHECK(c, w.acc.held == 0, "clearing the cache left %zu bytes with the allocator after everything was released", w.acc.held);
  w.acc.refuseAbove = SIZE_MAX;
  w.alloc(static_cast<size_t>(c.range(1, 5000)));
  w.end();
}

// ---- tensors ----------------------------------------------------------------------------------

// One program over tensors; its outcome must not depend on where the memory comes from.
std::vector<std::vector<uint8_t>> program(uint64_t seed, int steps, std::string* text, bool toggle) {
  Rng r(seed), switches(seed + 1);
  std::vector<Tensor> ts;
  auto bytes = [](Tensor& t) {
    std::vector<uint8_t> b(static_cast<size_t>(t.numel()) * tt::dtypeSize(t.dtype()));
    if (!b.empty()) memcpy(b.data(), t.dataPtr<>(), b.size());
    return b;
  };
  auto shape2 = [&] { return Shape{static_cast<int64_t>(1 + r.below(6)), static_cast<int64_t>(1 + r.below(6))}; };
  auto values = [&](const Shape& s) {
    std::vector<float> v(static_cast<size_t>(numelOf(s)));
    for (auto& x : v) x = static_cast<float>((r.unit() - 0.5) * 4);
    return v;
  };
  auto fresh = [&](Shape s) {
    if (r.below(4) == 0) s = {static_cast<int64_t>(200 + r.below(900)), static_cast<int64_t>(1 + r.below(4))};
    Tensor t = Tensor::empty(tt::IntArrayView(s));
    auto v = values(s);
    memcpy(t.dataPtr<>(), v.data(), v.size() * 4);
    return t;
  };
  std::vector<std::vector<uint8_t>> out;
  bool on = true;
  for (int k = 0; k < steps; k++) {
    if (toggle && switches.below(4) == 0) {
      on = !on;
      CachedAllocator::setCacheEnabled(on);
    }
    Tensor x = ts.empty() || r.below(3) == 0 ? fresh(shape2()) : ts[r.below(ts.size())];
    Tensor y;
    int64_t rows = x.shape(0), cols = x.numel() / std::max<int64_t>(rows, 1);
    uint64_t what = r.below(20);
    if (text) *text += std::to_string(what) + " ";
    switch (what) {
      case 0: y = Tensor::zeros(x.shape()); break;
      case 1: y = Tensor::ones(x.shape()); break;
      case 2: y = Tensor::full(x.shape(), 2.5f); break;
      case 3: y = x + x * 0.5f; break;
      case 4: y = op::matmul(x, x, false, true); break;
      case 5: y = op::sumOnDim(x, 0, true); break;
      case 6: y = op::softmax(x, -1); break;
      case 7: y = op::transpose2d(x); break;
      case 8: y = op::relu(x); break;
      case 9: y = x.clone(); y.fill_(1.5f); break;
      case 10: y = x.to(DType::Float16).to(DType::Float32); break;
      case 11: y = op::cumsum(x, 1); break;
      case 12: y = op::concat(tt::ArrayView<Tensor>(std::vector<Tensor>{x, x}), 0); break;
      case 13: y = op::topk(x, std::min<int64_t>(cols, 2), 1, true, true).first; break;
      case 14: y = op::meanOnDims(x, tt::IntArrayView(std::vector<int64_t>{1}), true); break;
      case 15: y = op::tril(x, 0); break;
      case 16: y = x.clone(); y += 1.f; break;
      case 17: {
        Tensor im = fresh({1, 1});
        im = Tensor::full(tt::IntArrayView(std::vector<int64_t>{1, 1, 5, 5}), 0.5f);
        Tensor w = Tensor::full(tt::IntArrayView(std::vector<int64_t>{2, 1, 3, 3}), 0.25f);
        y = tt::function::conv2d(im, w, Tensor(), tt::Dim2D(1, 1), tt::Dim2D(1, 1)).reshape({10, 5});
        break;
      }
      case 18: {
        Tensor p = x.clone();
        p.setRequiresGrad(true);
        (p * p).sum().backward();
        y = p.grad();
        break;
      }
      default: y = op::maxOnDim(x, 1, true).first; break;
    }
    if (y.numel() > 20000 || y.numel() == 0) y = fresh(shape2());
    out.push_back(bytes(y));
    if (y.dim() != 2) y = y.reshape({y.numel(), 1});
    ts.push_back(y);
    if (ts.size() > 6) ts.erase(ts.begin() + static_cast<long>(r.below(ts.size())));
  }
  for (auto& t : ts) out.push_back(bytes(t));
  return out;
}

void tensors(Case& c) {
  uint64_t seed = c.draw(1u << 30);
  int steps = static_cast<int>(c.range(1, 40));
  std::string text;
  CachedAllocator::setCacheEnabled(false);
  auto plain = program(seed, steps, &text, false);
  c.note("%s", text.c_str());
  bool toggle = c.chance(1, 3);
  CachedAllocator::setCacheEnabled(true);
  {
    // leave recognisable garbage behind in the memory that will be handed out next
    std::vector<Tensor> junk;
    int64_t n = c.range(0, 12);
    for (int64_t i = 0; i < n; i++) {
      Tensor t = Tensor::empty(tt::IntArrayView(std::vector<int64_t>{c.range(1, 600)}));
      memset(t.dataPtr<>(), 0xff, static_cast<size_t>(t.numel()) * 4);
      junk.push_back(t);
    }
  }
  auto cached = program(seed, steps, nullptr, toggle);
  CachedAllocator::setCacheEnabled(true);
  VP_CHECK(c, plain.size() == cached.size(), "the program gives %zu results, %zu with caching", plain.size(), cached.size());
  for (size_t i = 0; i < plain.size(); i++) VP_CHECK(c, plain[i] == cached[i], "result %zu of %zu depends on caching", i, plain.size());
  if (toggle) c.cls("switched while tensors were alive");
  if (steps > 2) c.nontrivial();
}

// Storage objects over an allocator of their own.
void storages(Case& c) {
  World w(c, 0);
  std::vector<std::shared_ptr<tt::Storage>> s;
  std::vector<Block> b;
  int64_t ops = c.range(1, 25);
  tt::Device cpu = tt::DeviceType::CPU;
  for (int64_t k = 0; k < ops; k++) {
    switch (c.weighted({4, 3, 3, 2})) {
      case 0: {
        size_t n = static_cast<size_t>(c.range(0, 3000));
        s.push_back(std::make_shared<tt::Storage>(static_cast<int64_t>(n), cpu, w.a.get()));
        b.push_back({n, mix64(static_cast<uint64_t>(k) + 77)});
        paint(s.back()->dataPtr<char>(), b.back());
        c.note("new %zu ", n);
        break;
      }
      case 1:
        if (!s.empty()) {
          size_t i = c.draw(s.size());
          s.push_back(s[i]->clone());
          b.push_back(b[i]);
          VP_CHECK(c, intact(s.back()->dataPtr<char>(), b.back()), "a cloned storage differs from its source");
          b.back().tag = mix64(static_cast<uint64_t>(k) + 99);
          paint(s.back()->dataPtr<char>(), b.back());
          c.note("clone %zu ", i);
        }
        break;
      case 2:
        if (!s.empty()) {
          size_t i = c.draw(s.size());
          s.erase(s.begin() + static_cast<long>(i));
          b.erase(b.begin() + static_cast<long>(i));
          c.note("drop %zu ", i);
        }
        break;
      default:
        if (!s.empty()) {
          size_t i = c.draw(s.size());
          auto moved = std::make_shared<tt::Storage>(std::move(*s[i]));
          s[i] = moved;
          c.note("move %zu ", i);
          c.cls("moved");
        }
        break;
    }
    for (size_t i = 0; i < s.size(); i++) {
      VP_CHECK(c, s[i]->size() == static_cast<int64_t>(b[i].n), "storage %zu has size %lld, expected %zu", i, (long long)s[i]->size(), b[i].n);
      VP_CHECK(c, intact(s[i]->dataPtr<char>(), b[i]), "the contents of storage %zu changed", i);
    }
  }
  if (ops > 4) c.nontrivial();
  s.clear();
  w.end();
}

}  // namespace

int main(int argc, char** argv) {
  Suite s;
  s.property = "C13";
  s.rule = "histories: more than two releases and memory reused afterwards; reuse, pressure: the second phase asks for something; tensors and storages: several steps";
  s.assumptions = {"one thread", "usable bytes are those requested; alignment as promised by the default CPU allocator",
                   "bounded growth is checked as at most sixteen times the largest live size plus 64 MiB"};
  s.props = {{"histories", histories, 150000, 3000000}, {"reuse", reuse, 30000, 600000}, {"steady", steady, 1000, 10000},
             {"crowds", crowds, 300, 6000}, {"pressure", pressure, 30000, 500000}, {"tensors", tensors, 20000, 600000}, {"storages", storages, 60000, 1000000}};
  return runSuite(s, argc, argv);
}
