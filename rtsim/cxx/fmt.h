#pragma once
#include "rtsim/cxx/sim.h"
#include "rust/cxx.h"
#include <memory>
#include <string>
#include <vector>
namespace rt {
struct FObj {
  uint64_t id;
  uint64_t f_id() const { return id; }
};
std::unique_ptr<std::string> f_str(rust::Slice<const uint8_t> b);
std::shared_ptr<std::string> f_shared(rust::Slice<const uint8_t> b);
std::unique_ptr<std::vector<std::string>> f_vstr(rust::Slice<const uint8_t> b, size_t n);
std::unique_ptr<FObj> f_obj(uint64_t id);
std::shared_ptr<FObj> f_sobj(uint64_t id);
std::unique_ptr<std::vector<FObj>> f_vobj(uint64_t id, size_t n);
std::shared_ptr<uint32_t> f_su32(uint32_t v);
void f_throw(rust::Slice<const uint8_t> b);
} // namespace rt
