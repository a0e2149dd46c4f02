// Replacement of the global allocation functions by the simulated allocator.
#include <cstddef>
#include <new>
extern "C" {
void *sim_cxx_new(std::size_t, std::size_t, int);
void sim_cxx_delete(void *, int, std::size_t, int);
}
static void *get(std::size_t n, std::size_t al, int arr) {
  void *p = sim_cxx_new(n, al, arr);
  if (!p) throw std::bad_alloc();
  return p;
}
void *operator new(std::size_t n) { return get(n, 16, 0); }
void *operator new[](std::size_t n) { return get(n, 16, 1); }
void *operator new(std::size_t n, std::align_val_t a) { return get(n, (std::size_t)a, 0); }
void *operator new[](std::size_t n, std::align_val_t a) { return get(n, (std::size_t)a, 1); }
void *operator new(std::size_t n, const std::nothrow_t &) noexcept { return sim_cxx_new(n, 16, 0); }
void *operator new[](std::size_t n, const std::nothrow_t &) noexcept { return sim_cxx_new(n, 16, 1); }
void operator delete(void *p) noexcept { sim_cxx_delete(p, 0, 0, 0); }
void operator delete[](void *p) noexcept { sim_cxx_delete(p, 1, 0, 0); }
void operator delete(void *p, std::size_t n) noexcept { sim_cxx_delete(p, 0, n, 1); }
void operator delete[](void *p, std::size_t) noexcept { sim_cxx_delete(p, 1, 0, 0); }
void operator delete(void *p, std::align_val_t) noexcept { sim_cxx_delete(p, 0, 0, 0); }
void operator delete[](void *p, std::align_val_t) noexcept { sim_cxx_delete(p, 1, 0, 0); }
void operator delete(void *p, std::size_t n, std::align_val_t) noexcept { sim_cxx_delete(p, 0, n, 1); }
void operator delete[](void *p, std::size_t, std::align_val_t) noexcept { sim_cxx_delete(p, 1, 0, 0); }
