#include "rtsim/cxx/uv.h"
namespace rt {
uint64_t us_digest(const std::string &s) { return El<std::string>::dig(s); }
void us_append(std::string &s, uint64_t id) { s += text(id); }
void us_resize(std::string &s, size_t n) { s.resize(n, 'r'); }
void us_erase(std::string &s, size_t at, size_t n) { s.erase(at, n); }
void us_swap(std::string &s, std::string &t) { s.swap(t); }
std::unique_ptr<std::string> us_pass(std::unique_ptr<std::string> s) { return s; }
std::shared_ptr<std::string> us_shared(const std::string &s) { return std::make_shared<std::string>(s); }
uint64_t us_eat(std::unique_ptr<std::string> s) { return s ? us_digest(*s) : 1; }
size_t us_capacity(const std::string &s) { return s.capacity(); }
void us_fail(std::string &s, uint64_t id) {
  s += text(id);
  throw std::runtime_error("stopped");
}
} // namespace rt
