// C14: save and load over generated module trees, mismatches and reuse of the file.
#include <map>

#include "Functions.h"
#include "Serializer.h"
#include "Utils/RandomGenerator.h"
#include "modules.h"
using namespace vp;

namespace {

const std::vector<DType> kTypes = {DType::Float32, DType::Float16, DType::BFloat16, DType::Int32, DType::Int64, DType::Bool};

void randomize(Case& c, Spec& s) {
  eachItem(s, [&](Spec& x) {
    for (auto& it : x.items) {
      Rng r = c.sub();
      it.data = genBytes(r, numelOf(it.shape), it.dt);
    }
  });
}

void describe(Case& c, const std::vector<Entry>& es) {
  for (auto& e : es) c.note("%s%s:%s%s ", e.name.size() > 20 ? (e.name.substr(0, 20) + "..").c_str() : e.name.c_str(), e.param ? "" : "(buffer)", dtName(e.dt), str(e.shape).c_str());
}

void checkLive(Case& c, const Tensor& t, const Entry& e, const Bytes& want, bool grad, const char* when) {
  VP_CHECK(c, toShape(t.shape()) == e.shape && t.dtype() == e.dt, "'%s' is %s%s %s, it was %s%s", e.name.c_str(), dtName(t.dtype()),
           str(toShape(t.shape())).c_str(), when, dtName(e.dt), str(e.shape).c_str());
  VP_CHECK(c, t.requiresGrad() == grad, "'%s' changed whether it requires gradients %s", e.name.c_str(), when);
  VP_CHECK(c, rawBytes(t) == want, "'%s' %s%s has other contents %s", e.name.c_str(), dtName(e.dt), str(e.shape).c_str(), when);
}

void shuffleKids(Case& c, Spec& s) {
  for (size_t i = s.kids.size(); i > 1; i--) std::swap(s.kids[i - 1], s.kids[c.draw(i)]);
  for (size_t i = s.items.size(); i > 1; i--) std::swap(s.items[i - 1], s.items[c.draw(i)]);
  for (auto& k : s.kids) shuffleKids(c, k.second);
}

// Models larger than usual in one respect: many tensors, deep nesting, one huge tensor, many axes.
Spec genLargeSpec(Case& c) {
  Spec s;
  auto item = [&](const std::string& name, const Shape& shape) {
    Spec::Item it{name, shape, c.pick(kTypes), {}, c.chance(1, 4)};
    Rng r = c.sub();
    it.data = genBytes(r, numelOf(shape), it.dt);
    return it;
  };
  switch (c.draw(4)) {
    case 0: {
      int64_t n = c.range(40, 400);
      for (int64_t i = 0; i < n; i++) s.items.push_back(item("t" + std::to_string(i), genShape(c, 0, 3, 6)));
      c.cls("many tensors");
      break;
    }
    case 1: {
      int64_t n = c.range(20, 150);
      for (int64_t i = 0; i < n; i++) {
        Spec k;
        k.items = {item("weight", genShape(c, 0, 2, 6)), item("bias", genShape(c, 0, 1, 6))};
        s.kids.emplace_back(std::to_string(i), k);
      }
      c.cls("many modules");
      break;
    }
    case 2: {
      int64_t n = c.range(6, 60);
      for (int64_t i = 0; i < n; i++) {
        Spec up;
        if (c.chance(1, 3)) up.items.push_back(item("own", genShape(c, 0, 2, 6)));
        up.kids.emplace_back(c.oneOf({"m", "inner", "block"}), i == 0 ? Spec{{item("x", {2, 3})}, {}} : s);
        s = up;
      }
      c.cls("deep nesting");
      break;
    }
    default:
      s.items = {item("a", {3}), item("huge", genLargeShape(c, 1, 4)), item("b", {2, 2})};
      if (c.chance(1, 4)) s.items[1] = item("huge", {c.range(250000, 400000)});
      c.cls("huge tensor");
  }
  return s;
}

void roundTrip(Case& c) {
  Spec a = c.chance(1, 400) ? genLargeSpec(c) : genSpec(c, static_cast<int>(c.draw(4)), 4, c.chance(1, 10) ? 4000 : 60, kTypes);
  auto ea = listSpec(a);
  if (!uniqueNames(ea)) c.discard();
  describe(c, ea);
  std::vector<Tensor> keepA, keepB;
  auto ma = buildNode(c, a, &keepA);
  std::string path = scratchPath("model.bin");
  if (c.chance(1, 3)) writeFile(path, Bytes(static_cast<size_t>(c.range(0, 20000)), 0xAB));  // an older, longer file
  VP_CHECK(c, tt::save(*ma, path), "saving failed");
  std::vector<Tensor*> la;
  listNode(*ma, la);
  for (size_t i = 0; i < la.size(); i++) checkLive(c, *la[i], ea[i], ea[i].data, ea[i].param && isFloatT(ea[i].dt), "after saving");
  Bytes file;
  VP_CHECK(c, readFile(path, file), "the file cannot be read");

  Spec b = a;
  randomize(c, b);
  bool reorder = c.chance(1, 3);
  if (reorder) shuffleKids(c, b);
  auto eb = listSpec(b);
  auto mb = buildNode(c, b, &keepB);
  std::vector<Tensor*> lb;
  listNode(*mb, lb);
  // other tensors sharing storage with the parameters
  std::vector<Tensor> clones;
  std::vector<Bytes> cloneData;
  for (size_t i = 0; i < lb.size(); i++)
    if (c.chance(1, 3)) {
      clones.push_back(lb[i]->clone());
      cloneData.push_back(eb[i].data);
    }
  std::vector<Bytes> surround;
  for (auto& k : keepB) surround.push_back(rawBytes(k));
  bool strict = !c.chance(1, 4);
  c.note("| load %s%s", strict ? "strict" : "loosely", reorder ? ", other order" : "");
  VP_CHECK(c, tt::load(*mb, path, strict), "loading into a model of the same structure failed");
  std::map<std::string, Bytes> want;
  for (auto& e : ea) want[e.name] = e.data;
  auto check = [&](const char* when) {
    for (size_t i = 0; i < lb.size(); i++) checkLive(c, *lb[i], eb[i], want[eb[i].name], eb[i].param && isFloatT(eb[i].dt), when);
  };
  check("after loading");
  for (size_t i = 0; i < clones.size(); i++) VP_CHECK(c, rawBytes(clones[i]) == cloneData[i], "a clone of a parameter changed when the model was loaded");
  for (size_t i = 0; i < la.size(); i++) checkLive(c, *la[i], ea[i], ea[i].data, ea[i].param && isFloatT(ea[i].dt), "after loading another model");
  Bytes again;
  VP_CHECK(c, readFile(path, again) && again == file, "loading changed the file");
  // the tensors do not depend on the file any more
  int after = static_cast<int>(c.draw(3));
  if (after == 0) unlink(path.c_str());
  else if (after == 1) writeFile(path, Bytes(file.size() / 2, 0xEE));
  else VP_CHECK(c, tt::save(*mb, path), "saving over the file failed");
  check("after the file was overwritten or deleted");
  if (after == 2 && !reorder) {
    VP_CHECK(c, readFile(path, again) && again == file, "saving the loaded model gives another file");
  }
  int64_t bytes = 0;
  for (auto& e : ea) bytes += static_cast<int64_t>(e.data.size());
  if (ea.size() >= 2 && bytes > 0) c.nontrivial();
}

void mismatch(Case& c) {
  Spec a = genSpec(c, static_cast<int>(c.draw(3)), 4, 30, kTypes);
  Spec b = a;
  randomize(c, b);
  int64_t edits = c.range(0, 3);
  for (int64_t k = 0; k < edits; k++) {
    std::vector<std::pair<Spec*, size_t>> at;
    std::vector<Spec*> nodes;
    eachItem(b, [&](Spec& s) {
      nodes.push_back(&s);
      for (size_t i = 0; i < s.items.size(); i++) at.emplace_back(&s, i);
    });
    Rng r = c.sub();
    if (at.empty() || c.chance(1, 4)) {
      Spec::Item it{"extra" + std::to_string(k), genShape(c, 0, 3, 10), kTypes[c.draw(6)], {}, c.coin()};
      it.data = genBytes(r, numelOf(it.shape), it.dt);
      nodes[c.draw(nodes.size())]->items.push_back(it);
      c.note("add; ");
      continue;
    }
    auto [s, i] = at[c.draw(at.size())];
    Spec::Item& it = s->items[i];
    switch (c.draw(6)) {
      case 0:
        c.note("drop %s; ", it.name.c_str());
        s->items.erase(s->items.begin() + static_cast<long>(i));
        break;
      case 1:
        it.name += c.oneOf({"_", "x", ".", "2"});
        c.note("rename to %s; ", it.name.c_str());
        break;
      case 2:  // same number of elements, other shape
        if (it.shape.empty() || it.shape.size() >= 7) it.shape = {numelOf(it.shape)};
        else if (c.coin()) it.shape.insert(it.shape.begin() + static_cast<long>(c.draw(it.shape.size() + 1)), 1);
        else if (it.shape.size() > 1) std::swap(it.shape.front(), it.shape.back());
        else it.shape = {1, it.shape[0]};
        c.note("reshape %s; ", it.name.c_str());
        break;
      case 3: {  // other size
        if (it.shape.empty()) it.shape = {2};
        else it.shape[c.draw(it.shape.size())] += 1;
        it.data = genBytes(r, numelOf(it.shape), it.dt);
        c.note("resize %s; ", it.name.c_str());
        break;
      }
      case 4: {  // other type, mostly of the same width
        DType old = it.dt;
        it.dt = old == DType::Float32 ? DType::Int32 : old == DType::Int32 ? DType::Float32 : old == DType::Float16 ? DType::BFloat16 : old == DType::BFloat16 ? DType::Float16 : DType::Float32;
        if (tt::dtypeSize(old) != tt::dtypeSize(it.dt)) it.data = genBytes(r, numelOf(it.shape), it.dt);
        c.note("retype %s; ", it.name.c_str());
        break;
      }
      default:
        it.buffer = !it.buffer;  // changes nothing in the file but the order
        c.note("buffer %s; ", it.name.c_str());
        break;
    }
  }
  auto ea = listSpec(a), eb = listSpec(b);
  if (!uniqueNames(ea) || !uniqueNames(eb)) c.discard();
  auto ma = buildNode(c, a), mb = buildNode(c, b);
  std::string path = scratchPath("model.bin");
  VP_CHECK(c, tt::save(*ma, path), "saving failed");
  std::map<std::string, const Entry*> fa, fb;
  for (auto& e : ea) fa[e.name] = &e;
  for (auto& e : eb) fb[e.name] = &e;
  bool sameNames = fa.size() == fb.size(), agree = true;
  for (auto& e : eb) {
    auto it = fa.find(e.name);
    if (it == fa.end()) sameNames = false;
    else if (it->second->shape != e.shape || it->second->dt != e.dt) agree = false;
  }
  for (auto& e : ea) sameNames &= fb.count(e.name) > 0;
  bool strict = c.coin();
  c.note("| %s", strict ? "strict" : "loosely");
  describe(c, ea);
  bool ok = tt::load(*mb, path, strict);
  if (strict) VP_CHECK(c, ok == (sameNames && agree), "a strict load %s, names %s, shapes and types %s", ok ? "succeeded" : "failed", sameNames ? "agree" : "differ", agree ? "agree" : "differ");
  else if (agree) VP_CHECK(c, ok, "a non-strict load failed although every common entry agrees");
  std::vector<Tensor*> lb;
  listNode(*mb, lb);
  bool partial = false;
  for (size_t i = 0; i < lb.size(); i++) {
    const Entry& e = eb[i];
    auto it = fa.find(e.name);
    bool match = it != fa.end() && it->second->shape == e.shape && it->second->dt == e.dt;
    bool grad = e.param && isFloatT(e.dt);
    if (!match) {
      checkLive(c, *lb[i], e, e.data, grad, "after a load in which it does not match");
      partial = true;
    } else if (strict && !ok) {
      Bytes now = rawBytes(*lb[i]);
      checkLive(c, *lb[i], e, now == e.data ? e.data : it->second->data, grad, "after a failed strict load");
    } else {
      checkLive(c, *lb[i], e, it->second->data, grad, "after the load");
    }
  }
  if ((!sameNames || !agree) && ea.size() > 1) c.nontrivial();
  if (partial) c.cls("some entries do not match");
  if (sameNames && agree) c.cls("matches after all");
}

// The layers of the library, in a chain.
std::shared_ptr<nn::Sequential> chain(uint64_t seed, bool half) {
  Rng r(seed);
  tt::Options o = tt::options::dtype(half ? DType::Float16 : DType::Float32);
  auto seq = std::make_shared<nn::Sequential>(std::initializer_list<std::shared_ptr<nn::Module>>{});
  int64_t width = static_cast<int64_t>(2 * (1 + r.below(4)));
  for (int i = 0, n = static_cast<int>(1 + r.below(6)); i < n; i++) {
    switch (r.below(5)) {
      case 0: {
        int64_t w = static_cast<int64_t>(2 * (1 + r.below(4)));
        seq->emplaceBack<nn::Linear>(width, w, r.below(2) == 0, o);
        width = w;
        break;
      }
      case 1: seq->emplaceBack<nn::LayerNorm>(tt::IntArrayView(Shape{width}), 1e-5f, r.below(2) == 0, o); break;
      case 2: seq->emplaceBack<nn::RMSNorm>(tt::IntArrayView(Shape{width}), 1e-5f, o); break;
      case 3: seq->emplaceBack<nn::Relu>(); break;
      default: {
        auto inner = std::make_shared<nn::Sequential>(std::initializer_list<std::shared_ptr<nn::Module>>{});
        inner->emplaceBack<nn::Linear>(width, width, true, o);
        inner->emplaceBack<nn::Silu>();
        seq->pushBack(inner);
        break;
      }
    }
  }
  return seq;
}

void layers(Case& c) {
  uint64_t seed = c.draw(1u << 20);
  bool half = c.chance(1, 4);
  auto a = chain(seed, half), b = chain(seed, half);
  tt::manualSeed(c.draw(1000));
  a->initParameters();
  b->initParameters();
  auto sa = a->namedStates(), sb = b->namedStates();
  c.note("%zu tensors", sa.size());
  std::string path = scratchPath("layers.bin");
  VP_CHECK(c, tt::save(*a, path), "saving failed");
  VP_CHECK(c, tt::load(*b, path), "loading into the same layers failed");
  VP_CHECK(c, sa.size() == sb.size(), "the models differ");
  for (size_t i = 0; i < sa.size(); i++) VP_CHECK(c, rawBytes(*sa[i].second) == rawBytes(*sb[i].second), "'%s' differs after loading", sa[i].first.c_str());
  // both compute the same now
  Rng r(seed);
  int64_t width = static_cast<int64_t>(2 * (1 + r.below(4)));
  Tensor x = rawTensor({3, width}, half ? DType::Float16 : DType::Float32, genData(c, 3 * width, half ? DType::Float16 : DType::Float32, Data::Small));
  VP_CHECK(c, rawBytes((*a)(x)) == rawBytes((*b)(x)), "the loaded model computes something else");
  // a model with one layer more does not load strictly
  if (!sa.empty()) {
    auto more = chain(seed, half);
    more->emplaceBack<nn::Linear>(2, 2);
    VP_CHECK(c, !tt::load(*more, path, true), "a strict load into a larger model succeeded");
    VP_CHECK(c, tt::load(*more, path, false), "a non-strict load into a larger model failed");
    auto sm = more->namedStates();
    for (size_t i = 0; i < sa.size(); i++) VP_CHECK(c, rawBytes(*sa[i].second) == rawBytes(*sm[i].second), "'%s' differs after a non-strict load", sa[i].first.c_str());
    c.nontrivial();
  }
}

void failures(Case& c) {
  Spec a = genSpec(c, 1, 4, 60, kTypes);
  auto ea = listSpec(a);
  if (!uniqueNames(ea)) c.discard();
  auto m = buildNode(c, a);
  int how = static_cast<int>(c.draw(4));
  std::string missing = scratchPath("no-such-directory") + "/model.bin", absent = scratchPath("absent.bin");
  unlink(absent.c_str());
  switch (how) {
    case 0: VP_CHECK(c, !tt::save(*m, missing), "saving into a missing directory succeeded"); break;
    case 1: VP_CHECK(c, !tt::save(*m, scratchRoot()), "saving over a directory succeeded"); break;
    case 2: VP_CHECK(c, access("/dev/full", W_OK) != 0 || !tt::save(*m, "/dev/full"), "saving to a full device succeeded"); break;
    default: {
      bool strict = c.coin();
      VP_CHECK(c, !tt::load(*m, absent, strict), "loading a missing file succeeded");
      VP_CHECK(c, !tt::load(*m, scratchRoot(), strict), "loading a directory succeeded");
      break;
    }
  }
  c.note("%s", how == 0 ? "missing directory" : how == 1 ? "directory" : how == 2 ? "full device" : "load");
  std::vector<Tensor*> l;
  listNode(*m, l);
  for (size_t i = 0; i < l.size(); i++) checkLive(c, *l[i], ea[i], ea[i].data, ea[i].param && isFloatT(ea[i].dt), "after a failure");
  c.nontrivial();
}

}  // namespace

int main(int argc, char** argv) {
  makeScratchRoot();
  Suite s;
  s.property = "C14";
  s.rule = "round trips: at least two entries with data; mismatches: names, shapes or types differ and there is more than one entry";
  s.assumptions = {"full names are unique (a tree whose names collide after joining is skipped)",
                   "a failed strict load may already have loaded matching entries",
                   "what a non-strict load returns when a common entry has another shape or type is not judged"};
  s.init = noCache;
  s.props = {{"round-trip", roundTrip, 150000, 1500000}, {"mismatch", mismatch, 150000, 1500000}, {"layers", layers, 40000, 400000}, {"failures", failures, 5000, 50000}};
  int r = runSuite(s, argc, argv);
  removeTree(scratchRoot());
  return r;
}
