#pragma once
#include "rtsim/cxx/content.h"
#include "rtsim/cxx/sim.h"
#include "rtsim/cxx/gen_methods.h"
#include "rust/cxx.h"
#include <cstdint>
#include <memory>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <vector>

namespace rt {
struct Pod;
enum class Color : std::uint8_t;
struct Txt;
struct Rec;
struct RObj;
struct Tok;

enum { KIND_OBJ = 1, KIND_ROBJ = 2, KIND_TOK = 3, KIND_LOCAL = 4 };

struct ElemFault : std::runtime_error {
  ElemFault() : std::runtime_error("element fault") {}
};
// counts down on element constructions of the current thread; throws at zero
extern thread_local int64_t t_elem_fault;
extern thread_local uint64_t t_elem_ctor;
inline void elem_point() {
  t_elem_ctor++;
  if (t_elem_fault > 0 && --t_elem_fault == 0) throw ElemFault();
}

// opaque C++ type with identity
class Obj {
public:
  explicit Obj(uint64_t id);
  Obj(const Obj &o);
  Obj(Obj &&o) noexcept;
  Obj &operator=(const Obj &o);
  ~Obj();
  uint64_t id() const { return *payload; }
  void set(uint64_t id) { *payload = id; }
  void self_check(uint64_t tag) const;
  OBJ_METHODS
private:
  std::unique_ptr<uint64_t> payload;
  std::string text;
};

// C++ type that Rust holds by value: relocatable, owns a heap block
struct Tok {
  uint64_t *p;
  explicit Tok(uint64_t id);
  Tok(const Tok &o);
  Tok(Tok &&o) noexcept : p(o.p) { o.p = nullptr; }
  Tok &operator=(const Tok &o);
  Tok &operator=(Tok &&o) noexcept {
    std::swap(p, o.p);
    return *this;
  }
  ~Tok();
  using IsRelocatable = std::true_type;
};

// fields whose comparison is a Rust callee
struct Cmp {
  uint64_t tag, v;
};
struct CmpP {
  uint64_t tag, v;
};
// the specialization of std::hash exists only in the bridge's own .cc, where taking this template's address instantiates it
template <class T> __attribute__((noinline, used)) size_t hash_of(const T &t) { return std::hash<T>()(t); }

uint64_t obj_id(const Obj &o);
std::unique_ptr<Obj> obj_new(uint64_t id);
std::shared_ptr<Obj> obj_new_shared(uint64_t id);
void obj_set(Obj &o, uint64_t id);
std::shared_ptr<Obj> keeper();
void c_raise(uint64_t tag);
std::unique_ptr<std::string> mk_str(uint64_t id);
std::shared_ptr<std::string> mk_sp_str(uint64_t id);
std::unique_ptr<std::vector<std::string>> mk_vstr(uint64_t id);
std::unique_ptr<std::vector<Obj>> mk_vobj(uint64_t id);
void set_cvstr(std::vector<std::string> &v, uint64_t id);
void set_cvobj(std::vector<Obj> &v, uint64_t id);
void set_cvu8(std::vector<uint8_t> &v, uint64_t id);
size_t sp_use_count(const std::shared_ptr<Obj> &p);
size_t wp_use_count(const std::weak_ptr<Obj> &p);
} // namespace rt
