#include "rtsim/cxx/fmt.h"
#include <stdexcept>
namespace rt {
static std::string str(rust::Slice<const uint8_t> b) { return std::string(b.begin(), b.end()); }
std::unique_ptr<std::string> f_str(rust::Slice<const uint8_t> b) { return std::make_unique<std::string>(str(b)); }
std::shared_ptr<std::string> f_shared(rust::Slice<const uint8_t> b) { return std::make_shared<std::string>(str(b)); }
std::unique_ptr<std::vector<std::string>> f_vstr(rust::Slice<const uint8_t> b, size_t n) {
  auto v = std::make_unique<std::vector<std::string>>();
  std::string s = str(b);
  for (size_t i = 0; i < n; i++) v->push_back(s.substr(s.size() * i / n, s.size() * (i + 1) / n - s.size() * i / n));
  return v;
}
std::unique_ptr<FObj> f_obj(uint64_t id) { return std::unique_ptr<FObj>(new FObj{id}); }
std::shared_ptr<FObj> f_sobj(uint64_t id) { return std::shared_ptr<FObj>(new FObj{id}); }
std::unique_ptr<std::vector<FObj>> f_vobj(uint64_t id, size_t n) {
  auto v = std::make_unique<std::vector<FObj>>();
  for (size_t i = 0; i < n; i++) v->push_back(FObj{id + i});
  return v;
}
std::shared_ptr<uint32_t> f_su32(uint32_t v) { return std::make_shared<uint32_t>(v); }
void f_throw(rust::Slice<const uint8_t> b) { throw std::runtime_error(str(b)); }
} // namespace rt
