#include "rtsim/cxx/io.h"
#include <cstring>
namespace rt {
Stream::Stream(uint64_t seed, uint32_t f) : rng(seed), faults(f) {
  for (size_t n = next(4) ? next(200) : next(12000); n; n--) {
    uint64_t k = next(16);
    data.push_back((uint8_t)(k ? 'a' + next(26) : next(256)));
  }
}
uint64_t Stream::next(uint64_t n) {
  rng = h_mix(rng + 0x9e3779b97f4a7c15ull);
  return (rng >> 8) % n;
}
void Stream::io_note(uint64_t w) { hist = h_mix(hist ^ w) + 1; }
int64_t Stream::fault(uint32_t call) {
  calls++;
  io_note(call);
  if (next(100) >= faults) return 0;
  switch (next(8)) {
  case 0: case 1: case 2: sim_probe(7); return -1;       // interrupted
  case 3: sim_probe(8); return -2 - (int64_t)next(6);    // an error
  case 4: sim_probe(9); return call < 3 ? 2 : 0;         // nothing is transferred
  case 5: case 6: return call < 3 ? 1 : 0;               // short
  default: if (next(12) == 0) { sim_probe(10); return -100; } return call < 3 ? 1 : 0; // panic
  }
}
int64_t Stream::io_plan(uint32_t call) {
  int64_t f = fault(call);
  return f < 0 ? f : 0;
}
int64_t Stream::io_read(rust::Slice<uint8_t> buf) {
  int64_t f = fault(1);
  io_note(buf.size());
  if (f < 0) return f;
  if (f == 2) return 0;
  size_t n = pos < data.size() ? data.size() - pos : 0;
  if (n > buf.size()) n = buf.size();
  if (f == 1 && n > 1) {
    sim_probe(5);
    n = 1 + next(n);
  }
  if (n) std::memcpy(buf.data(), data.data() + pos, n);
  pos += n;
  return (int64_t)n;
}
int64_t Stream::io_write(rust::Slice<const uint8_t> buf) {
  int64_t f = fault(2);
  io_note(buf.size());
  if (f < 0) return f;
  if (f == 2) return 0;
  size_t n = buf.size();
  if (f == 1 && n > 1) {
    sim_probe(6);
    n = 1 + next(n);
  }
  if (n == 0) return 0;
  if (pos + n > data.size()) data.resize(pos + n);
  std::memcpy(data.data() + pos, buf.data(), n);
  pos += n;
  return (int64_t)n;
}
int64_t Stream::io_seek(uint8_t whence, int64_t off) {
  int64_t f = fault(3);
  io_note(whence);
  io_note((uint64_t)off);
  if (f < 0) return f;
  int64_t base = whence == 0 ? 0 : whence == 1 ? (int64_t)pos : (int64_t)data.size();
  int64_t to;
  if (__builtin_add_overflow(base, off, &to) || to < 0 || to > 20000) return -3;
  pos = (size_t)to;
  return to;
}
int64_t Stream::io_flush() { return fault(4); }
uint64_t Stream::io_state() const {
  uint64_t h = hist ^ h_mix(pos);
  for (uint8_t c : data) h = (h ^ c) * 0x100000001b3ull;
  return h_mix(h) ^ calls;
}
std::unique_ptr<Stream> io_stream(uint64_t seed, uint32_t faults) { return std::make_unique<Stream>(seed, faults); }
std::unique_ptr<Full> io_full(uint64_t seed, uint32_t faults) { return std::make_unique<Full>(seed, faults); }
} // namespace rt
