// C16: data loaders and samplers over generated data sets, against the index list they must follow.
#include <map>

#include "Data/DataLoader.h"
#include "ref.h"
using namespace vp;
namespace data = tt::data;

namespace {

const std::vector<DType> kTypes = {DType::Float32, DType::Float16, DType::BFloat16, DType::Int32, DType::Int64, DType::Bool};

double valueOf(uint64_t salt, size_t i, size_t f, int64_t k, DType t) {
  uint64_t h = (salt + i * 0x9E3779B97F4A7C15ull) ^ (f * 0xBF58476D1CE4E5B9ull) ^ (static_cast<uint64_t>(k) * 0x94D049BB133111EBull);
  h ^= h >> 29;
  h *= 0xBF58476D1CE4E5B9ull;
  h ^= h >> 32;
  if (t == DType::Bool) return static_cast<double>(h & 1);
  return static_cast<double>(static_cast<int64_t>(h % 251) - 125);
}

struct Field {
  Shape shape;
  DType dt;
};

// A data set whose contents are a function of the index; field 0 holds the index itself.
class Numbers : public data::Dataset {
 public:
  Numbers(size_t n, std::vector<Field> fields, uint64_t salt, int store) : n_(n), fields_(std::move(fields)), salt_(salt), store_(store) {
    if (store_ == 1) {  // every item is a slice of one tensor per field
      for (size_t f = 0; f < fields_.size(); f++) whole_.push_back(wholeField(f));
    } else if (store_ == 2) {  // items are kept and the same handles are returned every time
      for (size_t i = 0; i < n_; i++) {
        std::vector<Tensor> item;
        for (size_t f = 0; f < fields_.size(); f++) item.push_back(rawTensor(fields_[f].shape, fields_[f].dt, want(i, f)));
        kept_.push_back(item);
      }
    }
  }
  size_t size() const override { return n_; }
  std::vector<Tensor> getItem(size_t idx) override {
    calls.push_back(idx);
    if (idx >= n_) {
      bad = true;
      idx = 0;
    }
    std::vector<Tensor> item;
    for (size_t f = 0; f < fields_.size(); f++) {
      if (store_ == 1) item.push_back(tt::op::index(whole_[f], tt::ArrayView<int64_t>(std::vector<int64_t>{static_cast<int64_t>(idx)})));
      else if (store_ == 2) item.push_back(kept_[idx][f]);
      else item.push_back(rawTensor(fields_[f].shape, fields_[f].dt, want(idx, f)));
    }
    return item;
  }
  std::vector<double> want(size_t i, size_t f) const {
    std::vector<double> v(static_cast<size_t>(numelOf(fields_[f].shape)));
    for (size_t k = 0; k < v.size(); k++) v[k] = f == 0 ? static_cast<double>(i) : valueOf(salt_, i, f, static_cast<int64_t>(k), fields_[f].dt);
    return v;
  }
  void expectIntact(Case& c, const char* when) {
    for (size_t f = 0; f < whole_.size(); f++) {
      auto now = readVec(whole_[f]);
      size_t per = static_cast<size_t>(numelOf(fields_[f].shape));
      for (size_t i = 0; i < n_; i++) {
        auto w = want(i, f);
        for (size_t k = 0; k < per; k++) VP_CHECK(c, sameValue(now[i * per + k], w[k]), "%s the data set itself changed: sample %zu field %zu", when, i, f);
      }
    }
    for (size_t i = 0; i < kept_.size(); i++)
      for (size_t f = 0; f < fields_.size(); f++) {
        expectShape(c, kept_[i][f], fields_[f].shape, fields_[f].dt, "stored sample");
        auto now = readVec(kept_[i][f]), w = want(i, f);
        for (size_t k = 0; k < w.size(); k++) VP_CHECK(c, sameValue(now[k], w[k]), "%s the data set itself changed: sample %zu field %zu", when, i, f);
      }
  }
  const std::vector<Field>& fields() const { return fields_; }
  std::vector<size_t> calls;
  bool bad = false;

 private:
  Tensor wholeField(size_t f) {
    Shape s = fields_[f].shape;
    s.insert(s.begin(), static_cast<int64_t>(n_));
    std::vector<double> v;
    for (size_t i = 0; i < n_; i++) {
      auto w = want(i, f);
      v.insert(v.end(), w.begin(), w.end());
    }
    return rawTensor(s, fields_[f].dt, v);
  }
  size_t n_;
  std::vector<Field> fields_;
  uint64_t salt_;
  int store_;
  std::vector<Tensor> whole_;
  std::vector<std::vector<Tensor>> kept_;
};

class ListSampler : public data::Sampler {
 public:
  explicit ListSampler(std::vector<size_t> v) : v_(std::move(v)) {}
  std::vector<size_t> indices() const override { return v_; }
  size_t size() const override { return v_.size(); }
  std::vector<size_t> v_;
};

bool isPermutation(const std::vector<size_t>& v, size_t n) {
  if (v.size() != n) return false;
  std::vector<bool> seen(n);
  for (auto i : v) {
    if (i >= n || seen[i]) return false;
    seen[i] = true;
  }
  return true;
}
bool isIdentity(const std::vector<size_t>& v) {
  for (size_t i = 0; i < v.size(); i++)
    if (v[i] != i) return false;
  return true;
}

size_t genCount(Case& c, size_t cap) {
  switch (c.weighted({3, 6, 2, 1})) {
    case 0: return c.draw(4);
    case 1: return c.draw(40);
    case 2: return c.draw(cap + 1);
    default: return size_t(1) << c.draw(7);
  }
}
size_t genBatch(Case& c, size_t n) {
  switch (c.weighted({4, 3, 2, 1, 1})) {
    case 0: return 1 + c.draw(8);
    case 1: return 1 + c.draw(n + 3);
    case 2: return std::max<size_t>(1, n / (1 + c.draw(5)));
    case 3: return std::max<size_t>(1, n + c.draw(3) - (n ? 1 : 0));
    default: return c.oneOf<size_t>({1000, size_t(1) << 40, ~size_t(0), (~size_t(0)) >> 1, size_t(1) << 24});
  }
}

struct Setup {
  std::shared_ptr<Numbers> ds;
  std::unique_ptr<data::DataLoader> loader;
  size_t n, batch;
  int kind;  // 0 in order, 1 shuffled, 2 sequential sampler, 3 random sampler, 4 list sampler
  bool dropLast;
  std::vector<size_t> order;  // what must come out (empty when only a permutation is known)
  size_t total() const { return kind == 4 ? order.size() : n; }
  size_t batches() const {
    size_t full = total() / batch;
    return dropLast ? full : full + (total() % batch ? 1 : 0);
  }
};

Setup genSetup(Case& c, size_t cap) {
  Setup s;
  s.n = genCount(c, cap);
  std::vector<Field> fields = {{{}, DType::Int64}};
  if (c.chance(1, 3)) fields[0].shape = {1 + c.range(0, 2)};
  size_t extra = c.draw(4);
  for (size_t f = 0; f < extra; f++) fields.push_back({genShape(c, 0, 3, 12, c.chance(1, 10)), c.pick(kTypes)});
  s.ds = std::make_shared<Numbers>(s.n, fields, c.bits(), s.n ? static_cast<int>(c.draw(3)) : 0);
  s.batch = genBatch(c, s.n);
  s.kind = static_cast<int>(c.draw(5));
  s.dropLast = c.coin();
  bool shuffleFlag = c.coin();  // ignored when a sampler is given
  std::shared_ptr<data::Sampler> sampler;
  if (s.kind == 2) sampler = std::make_shared<data::SequentialSampler>(s.n);
  if (s.kind == 3) {
    auto r = std::make_shared<data::RandomSampler>(s.n, c.draw(1000));
    if (c.coin()) r->setEpoch(c.draw(50));
    sampler = r;
  }
  if (s.kind == 4) {
    std::vector<size_t> list;
    if (s.n) {
      size_t k = c.draw(2 * s.n + 1);
      Rng r = c.sub();
      for (size_t i = 0; i < k; i++) list.push_back(r.below(s.n));
    }
    sampler = std::make_shared<ListSampler>(list);
  }
  if (sampler) s.order = sampler->indices();
  else if (s.kind == 0) {
    s.order.resize(s.n);
    std::iota(s.order.begin(), s.order.end(), 0);
  }
  c.note("%zu samples of %zu fields, batches of %zu, %s, %s", s.n, fields.size(), s.batch,
         s.kind == 0   ? "in order"
         : s.kind == 1 ? "shuffled"
         : s.kind == 2 ? "sequential sampler"
         : s.kind == 3 ? "random sampler"
                       : "list sampler",
         s.dropLast ? "dropping the last" : "keeping the last");
  if (s.kind < 2) s.loader = std::make_unique<data::DataLoader>(s.ds, s.batch, nullptr, s.kind == 1, s.dropLast);
  else s.loader = std::make_unique<data::DataLoader>(s.ds, s.batch, sampler, shuffleFlag, s.dropLast);
  VP_CHECK(c, s.loader->size() == s.batches(), "the loader reports %zu batches, %zu samples in batches of %zu make %zu", s.loader->size(), s.total(), s.batch, s.batches());
  VP_CHECK(c, s.loader->batchSize() == s.batch, "batchSize() is %zu, not %zu", s.loader->batchSize(), s.batch);
  VP_CHECK(c, &s.loader->dataset() == s.ds.get(), "dataset() is another data set");
  if (s.batches() > 1) c.nontrivial();
  if (s.total() % s.batch) c.cls("short last batch");
  if (s.total() && s.total() % s.batch == 0) c.cls("even batches");
  if (s.n == 0) c.cls("empty data set");
  return s;
}

// Checks one delivered batch and returns the indices it holds.
std::vector<size_t> checkBatch(Case& c, Setup& s, size_t at, const std::tuple<size_t, std::vector<Tensor>>& got) {
  size_t first = at * s.batch, count = std::min(s.batch, s.total() - first);
  VP_CHECK(c, std::get<0>(got) == at, "batch %zu is numbered %zu", at, std::get<0>(got));
  auto& t = std::get<1>(got);
  VP_CHECK(c, t.size() == s.ds->fields().size(), "batch %zu has %zu fields, a sample has %zu", at, t.size(), s.ds->fields().size());
  VP_CHECK(c, !s.ds->bad, "the loader asked for a sample outside the data set");
  for (size_t f = 0; f < t.size(); f++) {
    Shape w = s.ds->fields()[f].shape;
    w.insert(w.begin(), static_cast<int64_t>(count));
    std::string what = "batch " + std::to_string(at) + " field " + std::to_string(f);
    expectShape(c, t[f], w, s.ds->fields()[f].dt, what.c_str());
  }
  auto idx = readVec(t[0]);
  size_t per0 = static_cast<size_t>(numelOf(s.ds->fields()[0].shape));
  std::vector<size_t> out;
  for (size_t k = 0; k < count; k++) {
    auto i = static_cast<size_t>(idx[k * per0]);
    VP_CHECK(c, i < s.n, "batch %zu row %zu holds no sample", at, k);
    if (!s.order.empty()) VP_CHECK(c, i == s.order[first + k], "batch %zu row %zu holds sample %zu, expected %zu", at, k, i, s.order[first + k]);
    out.push_back(i);
  }
  for (size_t f = 0; f < t.size(); f++) {
    auto v = readVec(t[f]);
    size_t per = static_cast<size_t>(numelOf(s.ds->fields()[f].shape));
    for (size_t k = 0; k < count; k++) {
      auto w = s.ds->want(out[k], f);
      for (size_t e = 0; e < per; e++)
        VP_CHECK(c, sameValue(v[k * per + e], w[e]), "batch %zu row %zu field %zu element %zu is %g, sample %zu has %g", at, k, f, e, v[k * per + e], out[k], w[e]);
    }
  }
  return out;
}

void expectEpoch(Case& c, Setup& s, const std::vector<size_t>& seen, const char* what) {
  size_t full = s.dropLast ? s.batches() * s.batch : s.total();
  if (s.batches() == 0) full = 0;
  VP_CHECK(c, seen.size() == full, "%s delivered %zu samples instead of %zu", what, seen.size(), full);
  if (s.kind == 4) return;  // the list was compared entry by entry
  std::vector<bool> had(s.n);
  for (auto i : seen) {
    VP_CHECK(c, !had[i], "%s delivered sample %zu twice", what, i);
    had[i] = true;
  }
}

void damage(Case& c, std::vector<Tensor>& batch) {  // what a training loop may do to its batch
  for (auto& t : batch) {
    if (t.numel() == 0 || c.coin()) continue;
    if (t.dtype() == DType::Bool) t.fill_(1);
    else if (isFloatT(t.dtype()) && c.coin()) {
      Tensor v = t;
      v.reshape_({t.numel()});
      v.fill_(-7);
    } else t.fill_(99);
  }
}

void epochs(Case& c) {
  Setup s = genSetup(c, c.thorough ? 1200 : 300);
  size_t rounds = 1 + c.draw(3);
  bool harm = c.coin();
  for (size_t r = 0; r < rounds; r++) {
    std::vector<size_t> seen;
    size_t at = 0;
    if (rounds > 1 && c.chance(1, 4)) {  // an iteration that is abandoned half way
      size_t stop = c.draw(s.batches() + 1);
      for (auto b : *s.loader) {
        if (at == stop) break;
        checkBatch(c, s, at, b);
        at++;
      }
      c.cls("abandoned");
      continue;
    }
    s.ds->calls.clear();
    for (auto b : *s.loader) {
      VP_CHECK(c, at < s.batches(), "more than %zu batches are delivered", s.batches());
      auto got = checkBatch(c, s, at, b);
      seen.insert(seen.end(), got.begin(), got.end());
      if (harm) damage(c, std::get<1>(b));
      at++;
    }
    VP_CHECK(c, at == s.batches(), "%zu batches were delivered, %zu announced", at, s.batches());
    expectEpoch(c, s, seen, r ? "a later epoch" : "the first epoch");
    VP_CHECK(c, s.ds->calls == seen, "%zu samples were read to deliver %zu", s.ds->calls.size(), seen.size());
  }
  if (s.kind == 1 && s.n >= 32 && s.batches() * s.batch >= s.n) {
    std::vector<size_t> seen;
    size_t at = 0;
    for (auto b : *s.loader) {
      auto got = checkBatch(c, s, at++, b);
      seen.insert(seen.end(), got.begin(), got.end());
    }
    VP_CHECK(c, !isIdentity(seen), "shuffling left %zu samples in their order", s.n);
    c.cls("order looked at");
  }
  if (harm) c.cls("batches overwritten");
  s.ds->expectIntact(c, "after iterating");
}

// Several iterations of one loader interleaved: each is an epoch of its own.
void iterators(Case& c) {
  Setup s = genSetup(c, 60);
  struct Walk {
    data::DataLoader::Iterator it;
    size_t at;
    std::vector<size_t> seen;
  };
  std::vector<std::unique_ptr<Walk>> walks;
  size_t steps = 4 + c.draw(60), finished = 0;
  for (size_t k = 0; k < steps; k++) {
    if (walks.empty() || (walks.size() < 4 && c.chance(1, 6))) {
      walks.push_back(std::unique_ptr<Walk>(new Walk{s.loader->begin(), 0, {}}));
      continue;
    }
    auto& slot = walks[c.draw(walks.size())];
    auto& w = *slot;
    bool more = w.it != s.loader->end();
    VP_CHECK(c, more == (w.at < s.batches()), "after %zu of %zu batches the iteration %s", w.at, s.batches(), more ? "goes on" : "is over");
    if (!more) {
      expectEpoch(c, s, w.seen, "an interleaved epoch");
      finished++;
      slot.reset(new Walk{s.loader->begin(), 0, {}});
      continue;
    }
    auto b = *w.it;
    auto got = checkBatch(c, s, w.at, b);
    if (c.chance(1, 4)) {  // reading the same position again
      damage(c, std::get<1>(b));
      auto again = checkBatch(c, s, w.at, *w.it);
      VP_CHECK(c, again == got, "reading batch %zu twice gives different samples", w.at);
    }
    w.seen.insert(w.seen.end(), got.begin(), got.end());
    auto& same = ++w.it;
    VP_CHECK(c, &same == &w.it, "++ returns another iterator");
    w.at++;
  }
  if (walks.size() > 1 && finished) c.cls("interleaved epochs finished");
  s.ds->expectIntact(c, "after interleaved iterations");
}

void samplers(Case& c) {
  size_t n = genCount(c, c.chance(1, 40) ? 100000 : c.thorough ? 20000 : 2000);
  if (n > 1) c.nontrivial();
  if (c.chance(1, 4)) {
    data::SequentialSampler q(n);
    VP_CHECK(c, q.size() == n && q.indices().size() == n && isIdentity(q.indices()), "a sequential sampler over %zu is not 0…%zu", n, n);
    q.setEpoch(c.draw(9));
    VP_CHECK(c, q.size() == n && isIdentity(q.indices()), "a sequential sampler over %zu changed with the epoch", n);
    c.cls("sequential");
    return;
  }
  unsigned long seed = c.coin() ? c.draw(5) : c.draw(1ull << 31);
  c.note("random sampler over %zu seed %lu", n, seed);
  data::RandomSampler a(n, seed);
  std::map<size_t, std::vector<size_t>> orders;
  size_t epoch = 0, steps = 1 + c.draw(8);
  std::shared_ptr<data::Sampler> holder;
  for (size_t k = 0; k < steps; k++) {
    auto v = a.indices();
    VP_CHECK(c, a.size() == n, "size() is %zu, not %zu", a.size(), n);
    VP_CHECK(c, isPermutation(v, n), "epoch %zu: the random sampler over %zu is no permutation", epoch, n);
    if (n >= 32) VP_CHECK(c, !isIdentity(v), "epoch %zu: the random sampler over %zu did not shuffle", epoch, n);
    VP_CHECK(c, a.indices() == v, "reading the order twice gives different orders");
    auto it = orders.find(epoch);
    if (it != orders.end()) {
      VP_CHECK(c, it->second == v, "epoch %zu has another order when it is visited again", epoch);
      c.cls("epoch revisited");
    }
    orders[epoch] = v;
    switch (c.draw(4)) {
      case 0: {  // somebody else draws
        Tensor t = Tensor::rand(tt::IntArrayView(Shape{3}));
        data::RandomSampler other(n, seed);
        other.setEpoch(epoch);
        VP_CHECK(c, other.indices() == v, "two random samplers with seed %lu disagree about epoch %zu", seed, epoch);
        c.cls("second sampler");
        break;
      }
      default:
        epoch = c.draw(6) + (c.chance(1, 5) ? 1000 : 0);
        a.setEpoch(epoch);
    }
  }
  if (n >= 32) {  // epochs far apart must not all share one order
    size_t e = c.coin() ? 2 : 2 + c.draw(2000);
    a.setEpoch(e);
    auto x = a.indices();
    a.setEpoch(e + 1);
    // the generator has the same state for seeds 0 and 1 modulo 2^31-1
    if ((seed + e) % 2147483647ul != 0) VP_CHECK(c, a.indices() != x, "seed %lu: the order of %zu samples is the same in epochs %zu and %zu", seed, n, e, e + 1);
  }
}

// Sizes at which a count kept in single precision is off.
void large(Case& c) {
  size_t n = (size_t(1) << 24) - 3 + c.draw(c.thorough ? 3000000 : 9);
  size_t batch = c.oneOf<size_t>({1, 1, 2, 3, 5, 7, n / 2, n / 3, n - 1, 16777216});
  bool drop = c.coin();
  c.note("%zu samples, batches of %zu, %s", n, batch, drop ? "dropping the last" : "keeping the last");
  c.nontrivial();
  auto ds = std::make_shared<Numbers>(n, std::vector<Field>{{{}, DType::Int64}}, 0, 0);
  data::DataLoader loader(ds, batch, nullptr, false, drop);
  size_t want = drop ? n / batch : n / batch + (n % batch ? 1 : 0);
  VP_CHECK(c, loader.size() == want, "%zu samples in batches of %zu: %zu batches reported, %zu needed", n, batch, loader.size(), want);
  data::DataLoader::Iterator it(loader, want - 1);
  VP_CHECK(c, it != loader.end(), "batch %zu of %zu is past the end", want - 1, want);
  if (batch < 100) {
    auto b = *it;
    auto v = readVec(std::get<1>(b).at(0));
    VP_CHECK(c, v.size() == std::min(batch, n - (want - 1) * batch) && v[0] == static_cast<double>((want - 1) * batch), "the last batch holds %zu samples from %g on", v.size(), v[0]);
  }
  ++it;
  VP_CHECK(c, !(it != loader.end()), "the iteration does not end after %zu batches", want);
}

}  // namespace

int main(int argc, char** argv) {
  Suite s;
  s.property = "C16";
  s.rule = "the epoch has more than one batch, or the sampler orders more than one index";
  s.assumptions = {"batch size at least 1; all samples of a data set have the same field shapes and types"};
  s.init = noCache;
  s.props = {{"epochs", epochs, 20000, 600000},
             {"iterators", iterators, 8000, 240000},
             {"samplers", samplers, 10000, 200000},
             {"large", large, 32, 300, 120, 4}};
  return runSuite(s, argc, argv);
}
