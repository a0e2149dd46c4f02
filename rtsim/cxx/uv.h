// C++ side of the string/vector workload.
#pragma once
#include "rtsim/cxx/elem.h"
#include "rtsim/cxx/gen_uv.h"
namespace rt {
template <class T> uint64_t uv_digest(const std::vector<T> &v) {
  uint64_t h = 5;
  for (auto &e : v) h = mixd(h, El<T>::dig(e));
  return h;
}
template <class T> void uv_push(std::vector<T> &v, uint64_t id) { v.push_back(El<T>::make(id)); }
template <class T> void uv_insert(std::vector<T> &v, size_t at, uint64_t id) { v.insert(v.begin() + (ptrdiff_t)at, El<T>::make(id)); }
template <class T> void uv_erase(std::vector<T> &v, size_t at) { v.erase(v.begin() + (ptrdiff_t)at); }
// appends n elements; fails before the given one
template <class T> void uv_fill(std::vector<T> &v, uint64_t id, size_t n, size_t fail) {
  for (size_t i = 0; i < n; i++) {
    if (i == fail) throw std::runtime_error("stopped");
    v.push_back(El<T>::make(id + i));
  }
}
template <class T> void uv_clear(std::vector<T> &v) { v.clear(); }
template <class T> void uv_shrink(std::vector<T> &v) { v.shrink_to_fit(); }
template <class T> void uv_swap(std::vector<T> &v, std::vector<T> &w) { v.swap(w); }
template <class T> std::unique_ptr<std::vector<T>> uv_make(uint64_t id, size_t n) {
  auto v = std::make_unique<std::vector<T>>();
  uv_fill(*v, id, n, n);
  return v;
}
template <class T> std::unique_ptr<std::vector<T>> uv_pass(std::unique_ptr<std::vector<T>> v) { return v; }
template <class T> uint64_t uv_eat(std::unique_ptr<std::vector<T>> v) { return v ? uv_digest(*v) : 1; }
template <class T> uint64_t uv_edig(const T &e) { return El<T>::dig(e); }
template <class T> void uv_eset(T &e, uint64_t id) { e = El<T>::make(id); }
} // namespace rt
