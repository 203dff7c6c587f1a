// Force-included when the process group sources are compiled for C27: stand-ins for CUDA streams and events over a
// simulator (C27_groups.cpp) in which work is executed late and in stream order.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <utility>

namespace sim {
struct Stream;
struct Event;
Stream* streamCreate();
void streamDestroy(Stream*);
void streamSync(Stream*);
void streamWait(Stream*, Event*);
void launch(Stream*, std::function<void()>);
Event* eventCreate();
void eventDestroy(Event*);
void eventRecord(Event*, Stream*);
bool eventQuery(Event*);
}  // namespace sim
using cudaStream_t = sim::Stream*;
using cudaEvent_t = sim::Event*;

namespace tinytorch::cuda {

class CudaDeviceGuard {
 public:
  explicit CudaDeviceGuard(int) {}
  ~CudaDeviceGuard() {}
};

struct CUDAEvent;

struct CUDAStream {
  CUDAStream() = default;
  explicit CUDAStream(int device) : stream_(sim::streamCreate()), device_(device) {}
  CUDAStream(const CUDAStream&) = delete;
  CUDAStream& operator=(const CUDAStream&) = delete;
  CUDAStream(CUDAStream&& o) noexcept : stream_(std::exchange(o.stream_, nullptr)), device_(std::exchange(o.device_, -1)) {}
  CUDAStream& operator=(CUDAStream&& o) noexcept {
    if (this != &o) {
      if (stream_) sim::streamDestroy(stream_);
      stream_ = std::exchange(o.stream_, nullptr);
      device_ = std::exchange(o.device_, -1);
    }
    return *this;
  }
  ~CUDAStream() {
    if (stream_) sim::streamDestroy(stream_);
  }
  void synchronize() const {
    if (stream_) sim::streamSync(stream_);
  }
  void waitStream(const CUDAStream& other) const {
    if (!stream_ || !other.stream_) return;
    sim::Event* e = sim::eventCreate();
    sim::eventRecord(e, other.stream_);
    sim::streamWait(stream_, e);
    sim::eventDestroy(e);
  }
  cudaStream_t stream() const { return stream_; }
  int deviceIdx() const { return device_; }
  bool valid() const { return stream_ != nullptr; }

 private:
  cudaStream_t stream_ = nullptr;
  int device_ = -1;
};

struct CUDAEvent {
  CUDAEvent() = default;
  explicit CUDAEvent(int device, unsigned = 2) : event_(sim::eventCreate()), device_(device) {}
  CUDAEvent(const CUDAEvent&) = delete;
  CUDAEvent& operator=(const CUDAEvent&) = delete;
  CUDAEvent(CUDAEvent&& o) noexcept : event_(std::exchange(o.event_, nullptr)), device_(std::exchange(o.device_, -1)) {}
  CUDAEvent& operator=(CUDAEvent&& o) noexcept {
    if (this != &o) {
      if (event_) sim::eventDestroy(event_);
      event_ = std::exchange(o.event_, nullptr);
      device_ = std::exchange(o.device_, -1);
    }
    return *this;
  }
  ~CUDAEvent() {
    if (event_) sim::eventDestroy(event_);
  }
  void record(const CUDAStream& s) const {
    if (event_ && s.stream()) sim::eventRecord(event_, s.stream());
  }
  void block(const CUDAStream& s) const {
    if (event_ && s.stream()) sim::streamWait(s.stream(), event_);
  }
  bool query() const { return event_ && sim::eventQuery(event_); }
  cudaEvent_t event() const { return event_; }
  int deviceIdx() const { return device_; }
  bool valid() const { return event_ != nullptr; }

 private:
  cudaEvent_t event_ = nullptr;
  int device_ = -1;
};

CUDAStream createCUDAStream(int device);
CUDAEvent createCUDAEvent(int device, unsigned int flags = 2);
CUDAStream& getCurrentCUDAStream(int device);

}  // namespace tinytorch::cuda
