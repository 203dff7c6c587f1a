// Forced into every translation unit of the instrumented build.
// AddressSanitizer rejects aligned_alloc with a size that is not a multiple of the alignment (glibc accepts
// it, and the library relies on that), so the call goes to posix_memalign, which has no such rule and puts
// the red zone right behind the requested size.
#pragma once
#include <cstdlib>
#include <stdlib.h>
inline void* vp_aligned_alloc(size_t a, size_t n) {
  void* p = nullptr;
  if (a < sizeof(void*)) a = sizeof(void*);
  return posix_memalign(&p, a, n) == 0 ? p : nullptr;
}
namespace std {
using ::vp_aligned_alloc;
}
#define aligned_alloc vp_aligned_alloc
