// A stream whose every call transfers, stops short, is interrupted or fails as its script says.
#pragma once
#include "rtsim/cxx/content.h"
#include "rtsim/cxx/sim.h"
#include "rust/cxx.h"
#include <memory>
#include <vector>
namespace rt {
class Stream {
public:
  std::vector<uint8_t> data;
  size_t pos = 0;
  uint64_t rng, hist = 0;
  uint32_t faults; // percent
  uint64_t calls = 0;
  Stream(uint64_t seed, uint32_t faults);
  // >= 0: count; < 0: -1 - the index of an error
  int64_t io_read(rust::Slice<uint8_t> buf);
  int64_t io_write(rust::Slice<const uint8_t> buf);
  int64_t io_seek(uint8_t whence, int64_t off);
  int64_t io_flush();
  int64_t io_plan(uint32_t call); // a fault for a call that the Rust side implements by itself
  void io_note(uint64_t what);
  uint64_t io_state() const;
  size_t io_pos() const { return pos; }
  size_t io_len() const { return data.size(); }
  uint64_t io_calls() const { return calls; }

private:
  uint64_t next(uint64_t n);
  int64_t fault(uint32_t call);
};
class Full : public Stream {
public:
  using Stream::Stream;
};
std::unique_ptr<Stream> io_stream(uint64_t seed, uint32_t faults);
std::unique_ptr<Full> io_full(uint64_t seed, uint32_t faults);
} // namespace rt
