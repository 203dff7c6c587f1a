// C15: damaged checkpoint files, built from valid ones by structure-aware mutation.
#include <map>

#include "Serializer.h"
#include "modules.h"
using namespace vp;

namespace {

const std::vector<DType> kTypes = {DType::Float32, DType::Float16, DType::BFloat16, DType::Int32, DType::Int64, DType::Bool};

// The file format, written down independently.
struct Rec {
  uint64_t nameLength, ndim, dtype, dataOffset, dataSize;
  std::string name;
  std::vector<uint64_t> dims;
};
struct File {
  uint64_t magic = 0x54494E59, version = 1, count = 0;
  std::vector<Rec> recs;
  Bytes data;
  size_t headerSize() const {
    size_t n = 24;
    for (auto& r : recs) n += 40 + r.name.size() + 8 * r.dims.size();
    return n;
  }
  Bytes encode(std::vector<size_t>* fields = nullptr) const {
    Bytes b;
    auto u64 = [&](uint64_t v) {
      if (fields) fields->push_back(b.size());
      for (int i = 0; i < 8; i++) b.push_back(static_cast<uint8_t>(v >> (8 * i)));
    };
    u64(magic);
    u64(version);
    u64(count);
    for (auto& r : recs) {
      u64(r.nameLength);
      u64(r.ndim);
      u64(r.dtype);
      u64(r.dataOffset);
      u64(r.dataSize);
      b.insert(b.end(), r.name.begin(), r.name.end());
      for (auto d : r.dims) u64(d);
    }
    b.insert(b.end(), data.begin(), data.end());
    return b;
  }
};
uint64_t get64(const Bytes& b, size_t at) {
  uint64_t v = 0;
  for (int i = 7; i >= 0; i--) v = v << 8 | b[at + static_cast<size_t>(i)];
  return v;
}

// What a correct reader finds in a file: for every name the places its values may come from.
struct Parsed {
  bool header = false;      // signature, version and count are fine
  bool whole = false;       // every record lies inside the file
  struct Source {
    uint64_t offset, size;
    bool ok;                // shape, type and size agree and the data lie inside the file
  };
  std::map<std::string, std::vector<Source>> sources;
};
Parsed parse(const Bytes& b, const std::vector<Entry>& model) {
  Parsed p;
  if (b.size() < 24 || get64(b, 0) != 0x54494E59 || get64(b, 8) != 1) return p;
  p.header = true;
  uint64_t count = get64(b, 16), at = 24, size = b.size();
  for (uint64_t i = 0; i < count; i++) {
    if (size - at < 40) return p;
    uint64_t nl = get64(b, at), nd = get64(b, at + 8), dt = get64(b, at + 16), off = get64(b, at + 24), sz = get64(b, at + 32);
    at += 40;
    if (nl > size - at) return p;
    std::string name(b.begin() + static_cast<long>(at), b.begin() + static_cast<long>(at + nl));
    at += nl;
    if (nd > (size - at) / 8) return p;
    std::vector<int64_t> dims;
    for (uint64_t k = 0; k < nd; k++) dims.push_back(static_cast<int64_t>(get64(b, at + 8 * k)));
    at += 8 * nd;
    bool ok = false;
    for (auto& e : model)
      if (e.name == name) ok = dims == e.shape && dt == static_cast<uint64_t>(e.dt) && sz == e.data.size() && sz <= size && off <= size - sz;
    p.sources[name].push_back({off, sz, ok});
  }
  p.whole = true;
  return p;
}

int openFiles() {
  int n = 0;
  if (DIR* d = opendir("/proc/self/fd")) {
    while (readdir(d)) n++;
    closedir(d);
  }
  return n;
}
bool mapped(const char* name) {
  FILE* f = fopen("/proc/self/maps", "r");
  if (!f) return false;
  char line[600];
  bool hit = false;
  while (fgets(line, sizeof line, f)) hit |= strstr(line, name) != nullptr;
  fclose(f);
  return hit;
}

uint64_t oddValue(Case& c, uint64_t old, uint64_t fileSize) {
  switch (c.draw(12)) {
    case 0: return 0;
    case 1: return old + 1;
    case 2: return old - 1;
    case 3: return old ^ (1ull << c.draw(64));
    case 4: return UINT64_MAX - c.draw(3);
    case 5: return (1ull << 63) - c.draw(2);
    case 6: return fileSize + static_cast<uint64_t>(c.range(-2, 2));
    case 7: return old + (1ull << 32);
    case 8: return old + 256;
    case 9: return UINT64_MAX - old + 1;  // wraps around when added to itself
    case 10: return c.draw(200);
    default: return UINT64_MAX - fileSize + c.draw(40);
  }
}

void damage(Case& c) {
  Spec spec = genSpec(c, static_cast<int>(c.draw(2)), c.chance(1, 8) ? 30 : 4, c.chance(1, 8) ? 2000 : 24, kTypes);
  auto es = listSpec(spec);
  if (!uniqueNames(es)) c.discard();
  std::string path = scratchPath("damaged.bin");
  unlink(path.c_str());
  auto source = buildNode(c, spec);
  VP_CHECK(c, tt::save(*source, path), "saving failed");
  Bytes file;
  VP_CHECK(c, readFile(path, file), "the file cannot be read");

  // the same file through the format's description
  File f;
  f.count = es.size();
  uint64_t off = 24;
  for (auto& e : es) off += 40 + e.name.size() + 8 * e.shape.size();
  for (auto& e : es) {
    Rec r{e.name.size(), e.shape.size(), static_cast<uint64_t>(e.dt), off, e.data.size(), e.name, {}};
    for (auto d : e.shape) r.dims.push_back(static_cast<uint64_t>(d));
    off += e.data.size();
    f.recs.push_back(r);
    f.data.insert(f.data.end(), e.data.begin(), e.data.end());
  }
  std::vector<size_t> fields;
  Bytes mine = f.encode(&fields);
  VP_CHECK(c, mine == file, "the saved file differs from the format's description");

  int how = static_cast<int>(c.draw(9));
  static const char* kHow[] = {"truncate", "page cut", "field", "fields", "bytes", "records", "tail", "noise", "insert"};
  c.cls(kHow[how]);
  size_t size = file.size();
  switch (how) {
    case 0: {
      size_t n = c.coin() ? c.draw(size + 1) : std::min(size, c.draw(200));
      file.resize(n);
      c.note("cut to %zu of %zu", n, size);
      break;
    }
    case 1: {  // the end of the file is the end of the mapping
      size_t n = c.draw(size / 4096 + 1) * 4096;
      file.resize(n);
      c.note("cut to %zu of %zu", n, size);
      break;
    }
    case 2:
    case 3: {
      int64_t k = how == 2 ? 1 : c.range(2, 6);
      for (int64_t i = 0; i < k; i++) {
        size_t at = fields[c.draw(fields.size())];
        uint64_t old = get64(file, at), v = oddValue(c, old, size);
        for (int j = 0; j < 8; j++) file[at + static_cast<size_t>(j)] = static_cast<uint8_t>(v >> (8 * j));
        c.note("field at %zu: %llu -> %llu; ", at, (unsigned long long)old, (unsigned long long)v);
      }
      break;
    }
    case 4: {
      int64_t k = c.range(1, 5);
      for (int64_t i = 0; i < k; i++) {
        size_t at = c.coin() ? c.draw(size) : c.draw(std::min<size_t>(size, off));
        file[at] ^= static_cast<uint8_t>(1 + c.draw(255));
        c.note("byte %zu; ", at);
      }
      break;
    }
    case 5: {  // records repeated, exchanged, dropped, pointing at each other's data
      int64_t k = c.range(1, 4);
      for (int64_t i = 0; i < k && !f.recs.empty(); i++) {
        size_t x = c.draw(f.recs.size()), y = c.draw(f.recs.size());
        switch (c.draw(6)) {
          case 0: f.recs.push_back(f.recs[x]); f.count++; c.note("repeat; "); break;
          case 1: std::swap(f.recs[x], f.recs[y]); c.note("exchange; "); break;
          case 2: f.recs.erase(f.recs.begin() + static_cast<long>(x)); f.count--; c.note("drop; "); break;
          case 3: f.recs[x].dataOffset = f.recs[y].dataOffset; c.note("share data; "); break;
          case 4: std::swap(f.recs[x].name, f.recs[y].name); std::swap(f.recs[x].nameLength, f.recs[y].nameLength); c.note("exchange names; "); break;
          default: f.count = oddValue(c, f.count, size); c.note("count %llu; ", (unsigned long long)f.count); break;
        }
      }
      file = f.encode();
      break;
    }
    case 6: {
      Rng r = c.sub();
      int64_t k = c.range(1, 5000);
      for (int64_t i = 0; i < k; i++) file.push_back(static_cast<uint8_t>(r.below(256)));
      c.note("%lld bytes appended", (long long)k);
      break;
    }
    case 7: {
      Rng r = c.sub();
      file.resize(c.draw(300));
      for (auto& x : file) x = static_cast<uint8_t>(r.below(256));
      if (c.coin() && file.size() >= 16) {
        uint64_t head[2] = {0x54494E59, 1};
        memcpy(file.data(), head, 16);
      }
      c.note("%zu bytes of noise", file.size());
      break;
    }
    default: {
      size_t at = c.draw(size), k = static_cast<size_t>(c.range(1, 16));
      if (c.coin()) file.insert(file.begin() + static_cast<long>(at), k, static_cast<uint8_t>(c.draw(256)));
      else file.erase(file.begin() + static_cast<long>(at), file.begin() + static_cast<long>(std::min(size, at + k)));
      c.note("%zu bytes at %zu", k, at);
      break;
    }
  }
  writeFile(path, file);

  Spec target = spec;
  eachItem(target, [&](Spec& x) {
    for (auto& it : x.items) {
      Rng r = c.sub();
      it.data = genBytes(r, numelOf(it.shape), it.dt);
    }
  });
  auto model = buildNode(c, target);
  auto et = listSpec(target);
  std::vector<Tensor*> live;
  listNode(*model, live);
  bool strict = c.coin();
  c.note(" | %s ", strict ? "strict" : "loosely");
  int fds = openFiles();
  bool ok = tt::load(*model, path, strict);
  VP_CHECK(c, openFiles() == fds, "loading left a file open");
  if (c.chance(1, 30)) VP_CHECK(c, !mapped("damaged.bin"), "loading left the file mapped");

  Parsed p = parse(file, et);
  if (!p.header || !p.whole) VP_CHECK(c, !ok, "a file with a damaged %s was accepted", p.header ? "table" : "header");
  bool allGood = p.header && p.whole;
  for (size_t i = 0; i < live.size(); i++) {
    const Entry& e = et[i];
    VP_CHECK(c, toShape(live[i]->shape()) == e.shape && live[i]->dtype() == e.dt, "'%s' became %s%s", e.name.c_str(), dtName(live[i]->dtype()), str(toShape(live[i]->shape())).c_str());
    Bytes now = rawBytes(*live[i]);
    bool old = now == e.data, fromFile = false, mustFail = false;
    auto it = p.sources.find(e.name);
    if (it == p.sources.end()) {
      mustFail = strict;
    } else {
      for (auto& s : it->second) {
        if (!s.ok) mustFail = true;
        else fromFile |= std::equal(now.begin(), now.end(), file.begin() + static_cast<long>(s.offset));
      }
    }
    VP_CHECK(c, old || fromFile, "'%s' got contents that the file does not hold for it", e.name.c_str());
    if (mustFail && strict) VP_CHECK(c, !ok, "the strict load succeeded although '%s' is missing or damaged", e.name.c_str());
    if (ok && it != p.sources.end() && !mustFail) VP_CHECK(c, fromFile, "the load succeeded but '%s' keeps its old contents", e.name.c_str());
    if (mustFail || (it != p.sources.end() && it->second.size() != 1)) allGood = false;
    if (it == p.sources.end()) allGood = false;
  }
  if (allGood && p.sources.size() == et.size()) VP_CHECK(c, ok, "a file with all entries in order was rejected");
  Bytes after;
  VP_CHECK(c, readFile(path, after) && after == file, "loading changed the file");
  // the model is still usable
  writeFile(path, mine);
  VP_CHECK(c, tt::load(*model, path, true), "the undamaged file does not load afterwards");
  for (size_t i = 0; i < live.size(); i++) VP_CHECK(c, rawBytes(*live[i]) == es[i].data, "'%s' differs after loading the undamaged file", es[i].name.c_str());
  if (file != mine && !es.empty()) c.nontrivial();
  c.cls(ok ? "accepted" : "rejected");
}

// Every truncation point of one small file.
void everyCut(Case& c) {
  Spec spec = genSpec(c, 1, 2, 6, kTypes);
  auto es = listSpec(spec);
  if (!uniqueNames(es)) c.discard();
  auto m = buildNode(c, spec);
  std::string path = scratchPath("cut.bin");
  VP_CHECK(c, tt::save(*m, path), "saving failed");
  Bytes file;
  readFile(path, file);
  size_t last = file.size();
  if (last > 700) c.discard();
  std::vector<Tensor*> live;
  listNode(*m, live);
  for (size_t n = 0; n < last; n++) {
    writeFile(path, Bytes(file.begin(), file.begin() + static_cast<long>(n)));
    bool strict = n % 2;
    bool ok = tt::load(*m, path, strict);
    VP_CHECK(c, !ok, "a file cut to %zu of %zu bytes was accepted", n, last);
  }
  for (size_t i = 0; i < live.size(); i++) VP_CHECK(c, rawBytes(*live[i]) == es[i].data, "'%s' changed", es[i].name.c_str());
  c.note("%zu cuts", last);
  if (last > 24) c.nontrivial();
}

}  // namespace

int main(int argc, char** argv) {
  makeScratchRoot();
  Suite s;
  s.property = "C15";
  s.rule = "the file differs from the valid one and the model has entries";
  s.assumptions = {"bytes of tensor data may be altered undetected: there is no checksum",
                   "a record may point at any bytes inside the file", "entries loaded before damage is found may stay loaded"};
  s.init = noCache;
  s.props = {{"damage", damage, 150000, 5000000}, {"every-cut", everyCut, 1500, 30000}};
  int r = runSuite(s, argc, argv);
  removeTree(scratchRoot());
  return r;
}
