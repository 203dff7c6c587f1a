// Calls that leave arguments out mean what the interface documents.
#pragma once
#include "ref.h"

namespace vp {

// Both tensors have the same shape, type and bytes.
inline void same(Case& c, const Tensor& got, const Tensor& want, const char* what) {
  VP_CHECK(c, got.defined() == want.defined(), "%s: one result is undefined", what);
  if (!got.defined()) return;
  VP_CHECK(c, got.dtype() == want.dtype(), "%s: type %s instead of %s", what, dtName(got.dtype()), dtName(want.dtype()));
  VP_CHECK(c, toShape(got.shape()) == toShape(want.shape()), "%s: shape %s instead of %s", what, str(toShape(got.shape())).c_str(),
           str(toShape(want.shape())).c_str());
  auto a = readVec(got), b = readVec(want);
  for (size_t i = 0; i < a.size(); i++) VP_CHECK(c, sameValue(a[i], b[i]), "%s: element %zu is %.9g instead of %.9g", what, i, a[i], b[i]);
  if (!a.empty()) c.nontrivial();
}
inline void same(Case& c, const tt::TensorPair& got, const tt::TensorPair& want, const char* what) {
  same(c, got.first, want.first, what);
  same(c, got.second, want.second, what);
}
inline void same(Case& c, const std::vector<Tensor>& got, const std::vector<Tensor>& want, const char* what) {
  VP_CHECK(c, got.size() == want.size(), "%s: %zu parts instead of %zu", what, got.size(), want.size());
  for (size_t i = 0; i < got.size(); i++) same(c, got[i], want[i], what);
}
// A small tensor of rank `lo` to `hi` without empty axes.
inline Tensor someTensor(Case& c, int lo, int hi, DType dt = DType::Float32, int64_t cap = 60) {
  Shape s = genShape(c, lo, hi, cap);
  if (numelOf(s) == 0) c.discard();
  return makeTensor(c, s, dt, genData(c, numelOf(s), dt, Data::Small)).t;
}
#define VP_SAME(expr, full)     \
  do {                          \
    c.note("%s\n", #expr);      \
    same(c, (expr), (full), #expr); \
  } while (0)

}  // namespace vp
