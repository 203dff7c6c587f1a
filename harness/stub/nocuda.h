// Force-included when the distributed sources are compiled without the CUDA toolkit: the guard that switches
// the current CUDA device does nothing for tensors in host memory.
#pragma once
#ifndef USE_CUDA
namespace tinytorch::cuda {
class CudaDeviceGuard {
 public:
  explicit CudaDeviceGuard(int) {}
  ~CudaDeviceGuard() {}
};
}  // namespace tinytorch::cuda
#endif
