// C22: operation histories over small vectors and views, against std::vector; element lifetimes are tracked.
#include <memory>
#include <set>
#include <string>
#include <vector>

#include "engine.h"
#include "Utils/Macros.h"
#include "Utils/VectorUtils.h"
using namespace vp;
namespace tt = tinytorch;

namespace {

// ---- element types ----------------------------------------------------------------------------------------
// Every live object is registered under its address; a construction on a live one, a use or destruction of a dead
// one is an error.
struct Registry {
  std::set<const void*> live;
  std::string error;
  void born(const void* p) {
    if (!live.insert(p).second && error.empty()) error = "an element was constructed over a live one";
  }
  void used(const void* p, const char* what) {
    if (!live.count(p) && error.empty()) error = std::string("an element was ") + what + " that does not exist";
  }
  void died(const void* p) {
    if (!live.erase(p) && error.empty()) error = "an element was destroyed that does not exist";
  }
};
Registry& reg() {
  static Registry r;
  return r;
}

struct Tracked {
  int64_t* v;  // on the heap, so that the address sanitizer sees stale copies as well
  Tracked() : v(new int64_t(0)) { reg().born(this); }
  explicit Tracked(int64_t x) : v(new int64_t(x)) { reg().born(this); }
  Tracked(int64_t a, int64_t b) : v(new int64_t(a * 1000 + b)) { reg().born(this); }
  Tracked(const Tracked& o) : v(nullptr) {
    reg().used(&o, "copied");
    v = new int64_t(*o.v);
    reg().born(this);
  }
  Tracked(Tracked&& o) noexcept : v(nullptr) {
    reg().used(&o, "moved");
    v = o.v;
    o.v = new int64_t(-999);
    reg().born(this);
  }
  Tracked& operator=(const Tracked& o) {
    reg().used(&o, "assigned");
    reg().used(this, "assigned to");
    int64_t x = *o.v;
    *v = x;
    return *this;
  }
  Tracked& operator=(Tracked&& o) noexcept {
    reg().used(&o, "move-assigned");
    reg().used(this, "move-assigned to");
    if (this != &o) {
      std::swap(v, o.v);
      *o.v = -999;
    }
    return *this;
  }
  ~Tracked() {
    reg().died(this);
    delete v;
    v = nullptr;
  }
  bool operator==(const Tracked& o) const { return *v == *o.v; }
};
struct alignas(64) Wide {
  int64_t x = 0;
  char pad[40] = {};
  Wide() = default;
  explicit Wide(int64_t v) : x(v) {}
  bool operator==(const Wide& o) const { return x == o.x; }
};

template <typename T>
struct Conv;
template <>
struct Conv<int64_t> {
  static int64_t make(int64_t v) { return v; }
  static int64_t get(const int64_t& t) { return t; }
  static constexpr bool tracked = false;
  static int64_t trim(int64_t v) { return v; }
};
template <>
struct Conv<uint8_t> {
  static uint8_t make(int64_t v) { return static_cast<uint8_t>(v & 0xff); }
  static int64_t get(const uint8_t& t) { return t; }
  static constexpr bool tracked = false;
  static int64_t trim(int64_t v) { return v & 0xff; }
};
template <>
struct Conv<bool> {
  static bool make(int64_t v) { return v & 1; }
  static int64_t get(const bool& t) { return t; }
  static constexpr bool tracked = false;
  static int64_t trim(int64_t v) { return v & 1; }
};
template <>
struct Conv<std::string> {
  static std::string make(int64_t v) { return v == 0 ? std::string() : "a string too long to be stored in place " + std::to_string(v); }
  static int64_t get(const std::string& t) { return t.empty() ? 0 : t.size() < 41 ? -1 : std::stoll(t.substr(40)); }
  static constexpr bool tracked = false;
  static int64_t trim(int64_t v) { return v; }
};
template <>
struct Conv<Wide> {
  static Wide make(int64_t v) { return Wide(v); }
  static int64_t get(const Wide& t) { return t.x; }
  static constexpr bool tracked = false;
  static int64_t trim(int64_t v) { return v; }
};
template <>
struct Conv<Tracked> {
  static Tracked make(int64_t v) { return Tracked(v); }
  static int64_t get(const Tracked& t) {
    reg().used(&t, "read");
    return *t.v;
  }
  static constexpr bool tracked = true;
  static int64_t trim(int64_t v) { return v; }
};
using Inner = tt::SmallVector<int64_t>;
template <>
struct Conv<Inner> {  // vectors of vectors, as the tensor iterator uses them
  static Inner make(int64_t v) { return Inner(static_cast<size_t>(v < 0 ? 0 : v % 9), v); }
  static int64_t get(const Inner& t) {
    int64_t n = t.empty() ? 0 : t[0];
    for (int64_t x : t)
      if (x != n) return -7;
    return n;
  }
  static constexpr bool tracked = false;
  static int64_t trim(int64_t v) { return v % 9 == 0 ? 0 : v; }
};

// ---- the vector under test, with guards around it ---------------------------------------------------------
template <typename T, size_t N>
struct Box {
  uint64_t before[2] = {0x1111111111111111, 0x2222222222222222};
  tt::SmallVector<T, N> v;
  uint64_t after[2] = {0x3333333333333333, 0x4444444444444444};
  template <typename... A>
  explicit Box(A&&... a) : v(std::forward<A>(a)...) {}
  bool intact() const { return before[0] == 0x1111111111111111 && before[1] == 0x2222222222222222 && after[0] == 0x3333333333333333 && after[1] == 0x4444444444444444; }
};

template <typename T, size_t N>
struct Run {
  using SV = tt::SmallVector<T, N>;
  using C = Conv<T>;
  using B = Box<T, N>;
  Case& c;
  struct Slot {
    std::unique_ptr<B> box;
    std::vector<int64_t> ref;
  };
  std::vector<Slot> slots;
  bool crossedUp = false, wasHeap = false;

  explicit Run(Case& k) : c(k) {}
  int64_t value() { return C::trim(1 + static_cast<int64_t>(c.draw(200))); }
  size_t large = 0;
  size_t count() { return large && c.chance(1, 3) ? large / 2 + c.draw(large) : c.chance(1, 8) ? c.draw(40) : c.draw(2 * N + 3); }

  void check(const char* after) {
    size_t total = 0;
    for (size_t i = 0; i < slots.size(); i++) {
      auto& s = slots[i];
      SV& v = s.box->v;
      const SV& cv = v;
      VP_CHECK(c, reg().error.empty(), "after %s: %s", after, reg().error.c_str());
      VP_CHECK(c, s.box->intact(), "after %s: memory next to vector %zu was overwritten", after, i);
      VP_CHECK(c, v.size() == s.ref.size() && cv.empty() == s.ref.empty(), "after %s: vector %zu has %zu elements instead of %zu", after, i, v.size(), s.ref.size());
      VP_CHECK(c, v.capacity() >= v.size() && v.capacity() >= N, "after %s: vector %zu of %zu elements has capacity %zu", after, i, v.size(), v.capacity());
      VP_CHECK(c, reinterpret_cast<uintptr_t>(v.data()) % alignof(T) == 0, "after %s: vector %zu holds misaligned elements", after, i);
      VP_CHECK(c, v.begin() == v.data() && v.end() == v.data() + v.size() && cv.begin() == cv.data() && cv.end() == cv.data() + cv.size() && cv.data() == v.data(),
               "after %s: the iterators of vector %zu do not span it", after, i);
      for (size_t k = 0; k < s.ref.size(); k++)
        VP_CHECK(c, C::get(cv[k]) == s.ref[k], "after %s: element %zu of vector %zu is %lld instead of %lld", after, k, i, (long long)C::get(cv[k]), (long long)s.ref[k]);
      if (!s.ref.empty()) VP_CHECK(c, &v.front() == v.data() && &v.back() == v.data() + v.size() - 1 && &cv.front() == v.data() && &cv.back() == &v.back(), "after %s: front or back of vector %zu", after, i);
      auto view = cv.view();
      VP_CHECK(c, view.data() == v.data() && view.size() == v.size(), "after %s: the view of vector %zu is another range", after, i);
      if (v.capacity() > N) wasHeap = true;
      total += v.size();
    }
    if (C::tracked) VP_CHECK(c, reg().live.size() == total, "after %s: %zu elements exist, the vectors hold %zu", after, reg().live.size(), total);
  }

  // A new vector in a slot, by one of the constructors.
  void construct(Slot& s) {
    s.ref.clear();
    switch (c.draw(8)) {
      case 0: s.box = std::make_unique<B>(); c.note("SV()"); break;
      case 1: {
        size_t n = count();
        s.box = std::make_unique<B>(n);
        s.ref.assign(n, C::get(T()));
        c.note("SV(%zu)", n);
        break;
      }
      case 2: {
        size_t n = count();
        int64_t x = value();
        T t = C::make(x);
        s.box = std::make_unique<B>(n, t);
        s.ref.assign(n, x);
        c.note("SV(%zu, %lld)", n, (long long)x);
        break;
      }
      case 3: {
        int64_t a = value(), b = value(), d = value();
        size_t n = c.draw(4);
        c.note("SV{%zu values}", n);
        using L = std::initializer_list<T>;
        if (n == 0) s.box = std::make_unique<B>(L{});
        else if (n == 1) s.box = std::make_unique<B>(L{C::make(a)});
        else if (n == 2) s.box = std::make_unique<B>(L{C::make(a), C::make(b)});
        else s.box = std::make_unique<B>(L{C::make(a), C::make(b), C::make(d), C::make(a), C::make(b), C::make(d), C::make(a)});
        if (n >= 1) s.ref.push_back(a);
        if (n >= 2) s.ref.push_back(b);
        if (n >= 3) s.ref = {a, b, d, a, b, d, a};
        break;
      }
      case 4:
        if constexpr (!std::is_same_v<T, bool>) {
          size_t n = count();
          std::vector<T> from;
          for (size_t i = 0; i < n; i++) {
            int64_t x = value();
            from.push_back(C::make(x));
            s.ref.push_back(x);
          }
          c.note("SV(std::vector of %zu)", n);
          s.box = std::make_unique<B>(static_cast<const std::vector<T>&>(from));
        } else s.box = std::make_unique<B>();
        break;
      case 5: {
        size_t o = c.draw(slots.size());
        if (&slots[o] == &s || !slots[o].box) {
          s.box = std::make_unique<B>();
          break;
        }
        auto view = slots[o].box->v.view();
        c.note("SV(view of %zu)", o);
        s.box = std::make_unique<B>(static_cast<const tt::ArrayView<T>&>(view));
        s.ref = slots[o].ref;
        break;
      }
      case 6: {
        size_t o = c.draw(slots.size());
        if (&slots[o] == &s || !slots[o].box) {
          s.box = std::make_unique<B>();
          break;
        }
        c.note("SV(copy of %zu)", o);
        s.box = std::make_unique<B>(static_cast<const SV&>(slots[o].box->v));
        s.ref = slots[o].ref;
        break;
      }
      default: {
        size_t o = c.draw(slots.size());
        if (&slots[o] == &s || !slots[o].box) {
          s.box = std::make_unique<B>();
          break;
        }
        c.note("SV(moved from %zu)", o);
        s.box = std::make_unique<B>(std::move(slots[o].box->v));
        s.ref = slots[o].ref;
        slots[o].ref.clear();
        c.cls("move construction");
      }
    }
    c.note("; ");
  }

  void run() {
    reg().live.clear();
    reg().error.clear();
    slots.resize(3);
    size_t steps = 4 + c.draw(c.thorough ? 80 : 40);
    if (c.chance(1, 300)) {
      large = c.chance(1, 12) && !C::tracked && sizeof(T) <= 8 ? 66000 : 500;
      if (large > 1000) steps = std::min<size_t>(steps, 16);
      c.cls(large > 1000 ? "beyond 65 536 elements" : "hundreds of elements");
    }
    for (auto& s : slots) construct(s);
    check("construction");
    for (size_t k = 0; k < steps; k++) {
      size_t i = c.draw(slots.size()), j = c.draw(slots.size());
      Slot &s = slots[i], &o = slots[j];
      SV& v = s.box->v;
      std::string op;
      switch (c.draw(15)) {
        case 0: case 1: {  // push a value
          int64_t x = value();
          const T* data = v.data();
          bool room = v.size() < v.capacity();
          if (c.coin()) v.pushBack(C::make(x));
          else {
            T t = C::make(x);
            v.pushBack(t);
            VP_CHECK(c, C::get(t) == x, "pushBack changed its argument");
          }
          s.ref.push_back(x);
          if (room) VP_CHECK(c, v.data() == data, "pushBack within the capacity moved the elements");
          op = "push";
          break;
        }
        case 2:  // push an element of its own
          if (!s.ref.empty()) {
            size_t q = c.draw(s.ref.size());
            if (v.size() == v.capacity()) c.cls("own element while growing");
            v.pushBack(v[q]);
            int64_t x = s.ref[q];
            s.ref.push_back(x);
            op = "push own " + std::to_string(q);
          }
          break;
        case 3: {  // insert
          size_t at = c.draw(s.ref.size() + 1);
          int64_t x = value();
          T t = C::make(x);
          T* r = v.insert(v.data() + at, t);
          s.ref.insert(s.ref.begin() + static_cast<long>(at), x);
          VP_CHECK(c, r == v.data() + at, "insert returns another position");
          op = "insert at " + std::to_string(at);
          break;
        }
        case 4:  // insert an element of its own
          if (!s.ref.empty()) {
            size_t at = c.draw(s.ref.size() + 1), q = c.draw(s.ref.size());
            T* r = v.insert(v.begin() + at, v[q]);
            int64_t x = s.ref[q];
            s.ref.insert(s.ref.begin() + static_cast<long>(at), x);
            VP_CHECK(c, r == v.data() + at, "insert returns another position");
            op = "insert own " + std::to_string(q) + " at " + std::to_string(at);
            c.cls("own element inserted");
          }
          break;
        case 5: {
          size_t n = count();
          v.resize(n);
          s.ref.resize(n, C::get(T()));
          op = "resize " + std::to_string(n);
          break;
        }
        case 6: {
          size_t n = count();
          if (!s.ref.empty() && c.chance(1, 3)) {
            size_t q = c.draw(s.ref.size());
            int64_t x = s.ref[q];
            v.resize(n, v[q]);
            s.ref.resize(n, x);
            op = "resize with own element";
            c.cls("own element fills");
          } else {
            int64_t x = value();
            T t = C::make(x);
            v.resize(n, t);
            s.ref.resize(n, x);
            op = "resize " + std::to_string(n) + " with a value";
          }
          break;
        }
        case 7: {
          size_t n = count() * (1 + c.draw(2)), cap = v.capacity();
          v.reserve(n);
          VP_CHECK(c, v.capacity() >= n && v.capacity() >= cap, "reserve(%zu) leaves a capacity of %zu, before %zu", n, v.capacity(), cap);
          op = "reserve " + std::to_string(n);
          break;
        }
        case 8:
          v.clear();
          s.ref.clear();
          op = "clear";
          break;
        case 9: {
          SV& r = (v = static_cast<const SV&>(o.box->v));
          VP_CHECK(c, &r == &v, "assignment returns another object");
          s.ref = std::vector<int64_t>(o.ref);
          op = i == j ? "self-assignment" : "copy from " + std::to_string(j);
          if (i == j) c.cls("self-assignment");
          break;
        }
        case 10: {
          SV& r = (v = std::move(o.box->v));
          VP_CHECK(c, &r == &v, "assignment returns another object");
          if (i != j) {
            s.ref = o.ref;
            o.ref.clear();
            op = "move from " + std::to_string(j);
          } else {  // either keeps its elements or is empty, as with a standard vector
            if (v.size() == 0) s.ref.clear();
            op = "self-move";
            c.cls("self-move");
          }
          break;
        }
        case 11:
          std::swap(v, o.box->v);
          if (i != j) std::swap(s.ref, o.ref);
          else if (v.size() == 0) s.ref.clear();
          op = "swap with " + std::to_string(j);
          break;
        case 12:
          if (!s.ref.empty()) {  // writes through every access path
            size_t q = c.draw(s.ref.size());
            int64_t x = value();
            switch (c.draw(4)) {
              case 0: v[q] = C::make(x); break;
              case 1: *(v.begin() + q) = C::make(x); break;
              case 2: v.data()[q] = C::make(x); break;
              default: *(v.end() - static_cast<long>(s.ref.size() - q)) = C::make(x); break;
            }
            s.ref[q] = x;
            op = "write";
          }
          break;
        case 13:
          switch (c.draw(3)) {  // assignment from other forms
            case 0: {
              int64_t a = value(), b = value();
              v = {C::make(a), C::make(b)};
              s.ref = {a, b};
              op = "= {a, b}";
              break;
            }
            case 1: {  // its own view, or another's
              tt::ArrayView<T> view = o.box->v.view();
              size_t from = view.empty() ? 0 : c.draw(view.size()), n = view.empty() ? 0 : c.draw(view.size() - from + 1);
              v = SV(tt::ArrayView<T>(view.data() + from, n));
              std::vector<int64_t> part(o.ref.begin() + static_cast<long>(from), o.ref.begin() + static_cast<long>(from + n));
              s.ref = part;
              op = "= part of " + std::to_string(j);
              break;
            }
            default: {
              auto make = [&] {
                SV t;
                for (int64_t x : o.ref) t.pushBack(C::make(x));
                return t;
              };
              v = make();
              s.ref = std::vector<int64_t>(o.ref);
              op = "= returned vector";
            }
          }
          break;
        default:
          construct(s);
          op = "construction";
      }
      if (op.empty()) continue;
      c.note("%zu: %s; ", i, op.c_str());
      check(op.c_str());
      if constexpr (N == 5) {
        bool same = slots[0].ref == slots[1].ref;
        VP_CHECK(c, (slots[0].box->v == slots[1].box->v) == same && (slots[0].box->v != slots[1].box->v) == !same, "equality of vectors");
        if (same && !slots[0].ref.empty()) c.cls("equal vectors");
      }
    }
    if (wasHeap) c.nontrivial();
    slots.clear();
    VP_CHECK(c, reg().error.empty(), "at the end: %s", reg().error.c_str());
    if (C::tracked) VP_CHECK(c, reg().live.empty(), "%zu elements are never destroyed", reg().live.size());
  }
};

template <typename T>
void some(Case& c) {
  if (c.coin()) Run<T, 5>(c).run();
  else Run<T, 2>(c).run();
}
template <typename T>
void any(Case& c) {
  switch (c.draw(5)) {
    case 0: Run<T, 5>(c).run(); break;
    case 1: Run<T, 1>(c).run(); break;
    case 2: Run<T, 2>(c).run(); break;
    case 3: Run<T, 8>(c).run(); break;
    default: Run<T, 5>(c).run(); break;
  }
}

// Elements that can only be moved.
void moveOnly(Case& c) {
  using P = std::unique_ptr<int64_t>;
  std::vector<tt::SmallVector<P, 3>> v(2);
  std::vector<std::vector<int64_t>> ref(2);
  size_t steps = 3 + c.draw(40);
  for (size_t k = 0; k < steps; k++) {
    size_t i = c.draw(2), j = 1 - i;
    switch (c.draw(7)) {
      case 0: case 1: case 2: {
        auto x = static_cast<int64_t>(1 + c.draw(99));
        if (c.coin()) v[i].pushBack(new int64_t(x));
        else v[i].pushBack(std::make_unique<int64_t>(x));
        ref[i].push_back(x);
        c.note("push %lld; ", (long long)x);
        break;
      }
      case 3: v[i] = std::move(v[j]); ref[i] = ref[j]; ref[j].clear(); c.note("move; "); break;
      case 4: {
        size_t n = c.draw(9);
        v[i].resize(n);
        ref[i].resize(n, 0);
        c.note("resize %zu; ", n);
        break;
      }
      case 5: {
        tt::SmallVector<P, 3> t(std::move(v[i]));
        VP_CHECK(c, v[i].empty(), "a moved-from vector holds %zu elements", v[i].size());
        v[i] = std::move(t);
        c.note("there and back; ");
        break;
      }
      default: v[i].clear(); ref[i].clear(); c.note("clear; ");
    }
    for (size_t q = 0; q < 2; q++) {
      VP_CHECK(c, v[q].size() == ref[q].size(), "%zu elements instead of %zu", v[q].size(), ref[q].size());
      for (size_t e = 0; e < ref[q].size(); e++) {
        int64_t x = v[q][e] ? *v[q][e] : 0;
        VP_CHECK(c, x == ref[q][e], "element %zu is %lld instead of %lld", e, (long long)x, (long long)ref[q][e]);
      }
      if (v[q].size() > 3) c.nontrivial();
    }
  }
}

// Views: every way to make one, element access, comparison.
std::vector<int64_t> listed(tt::ArrayView<int64_t> v) {
  std::vector<int64_t> r;
  for (auto x : v) r.push_back(x);
  return r;
}
void views(Case& c) {
  auto gen = [&] {
    std::vector<int64_t> v(c.draw(9));
    for (auto& x : v) x = c.range(-2, 2);
    return v;
  };
  std::vector<int64_t> a = gen(), b = c.chance(1, 2) ? a : gen();
  if (!b.empty() && c.chance(1, 4)) b[c.draw(b.size())] += 1;
  if (c.chance(1, 6) && !b.empty()) b.pop_back();
  tt::SmallVector<int64_t> sa(a), sb(b);
  if (a.size() > 5) c.nontrivial();
  c.note("%zu and %zu elements", a.size(), b.size());
  tt::ArrayView<int64_t> va(a), vb(sb), none, part(a.data(), a.size());
  VP_CHECK(c, none.empty() && none.size() == 0 && none.begin() == none.end(), "an empty view is not empty");
  VP_CHECK(c, va.data() == a.data() && vb.data() == sb.data(), "a view has other elements than its vector");
  VP_CHECK(c, listed(a) == a && listed(sb) == b && listed(part) == a, "a view lists other elements");
  if (a.size() >= 2) VP_CHECK(c, listed({a[0], a[1]}) == std::vector<int64_t>({a[0], a[1]}), "a view of a list");
  VP_CHECK(c, listed({}).empty(), "a view of an empty list");
  VP_CHECK(c, (va == vb) == (a == b) && (va != vb) == (a != b), "views of %zu and %zu elements compare %s", a.size(), b.size(), va == vb ? "equal" : "unequal");
  VP_CHECK(c, (sa == vb) == (a == b) && (sa != vb) == (a != b), "a vector and a view compare wrongly");
  VP_CHECK(c, (va == none) == a.empty(), "comparison with an empty view");
  VP_CHECK(c, va.empty() == a.empty() && va.size() == a.size() && static_cast<size_t>(va.end() - va.begin()) == a.size(), "size of a view");
  for (size_t i = 0; i < a.size(); i++) VP_CHECK(c, va[i] == a[i] && &va[i] == &a[i], "element %zu of a view", i);
  if (!a.empty()) VP_CHECK(c, va.front() == a.front() && va.back() == a.back(), "front or back of a view");
  tt::ArrayView<int64_t> copy = va;
  copy = vb;
  VP_CHECK(c, copy.data() == vb.data() && copy.size() == vb.size() && va.data() == a.data(), "assignment of views");
}

}  // namespace

int main(int argc, char** argv) {
  Suite s;
  s.property = "C22";
  s.rule = "some vector of the history has left its inline storage";
  s.assumptions = {"inline capacity at least 1", "element operations do not throw"};
  s.props = {{"integers", any<int64_t>, 250000, 4000000},
             {"bytes", some<uint8_t>, 80000, 1500000},
             {"booleans", some<bool>, 80000, 1500000},
             {"tracked elements", any<Tracked>, 250000, 4000000},
             {"strings", some<std::string>, 120000, 2000000},
             {"aligned elements", some<Wide>, 80000, 1500000},
             {"vectors of vectors", some<Inner>, 120000, 2000000},
             {"move-only elements", moveOnly, 120000, 2000000},
             {"views", views, 60000, 800000}};
  return runSuite(s, argc, argv);
}
