// Elements of the simulated containers: how they are made from an id and how their contents are told.
#pragma once
#include "rtsim/cxx/calls.h"
namespace rt {
namespace {
const uint64_t DEAD = ~0ull;
// ------------------------------------------------------------------ elements
inline uint64_t fnv(const void *p, size_t n) {
  uint64_t h = 0xcbf29ce484222325ull;
  for (size_t i = 0; i < n; i++) h = (h ^ ((const unsigned char *)p)[i]) * 0x100000001b3ull;
  return h;
}
inline uint64_t mixd(uint64_t h, uint64_t d) { return (h ^ d) * 0x100000001b3ull + 1; }
inline uint64_t tok_id(const Tok &t) { return t.p && sim_obj_live(t.p, KIND_TOK) ? *t.p : DEAD; }
// dig: content of an element; of: the id it was made from (for types whose construction can fail)
template <class T> struct El;
#define NUMEL(T)                                                                                                       \
  template <> struct El<T> {                                                                                           \
    enum { throws = 0, toks = 0 };                                                                                     \
    static T make(uint64_t id) { return rt::make<T>(id); }                                                             \
    static uint64_t dig(const T &v) { return fnv(&v, sizeof v); }                                                      \
    static uint64_t of(const T &) { return DEAD; }                                                                     \
  };
NUMEL(uint8_t)
NUMEL(double)
NUMEL(bool)
NUMEL(int32_t)
NUMEL(size_t)
NUMEL(int8_t)
NUMEL(uint16_t)
NUMEL(int16_t)
NUMEL(uint32_t)
NUMEL(int64_t)
NUMEL(float)
NUMEL(char)
// a view into a text that both sides have
const char LONG[] = "the quick brown fox jumps over the lazy dog and runs away from the simulator";
template <> struct El<rust::Str> {
  enum { throws = 0, toks = 0 };
  static rust::Str make(uint64_t id) { return rust::Str(LONG + id % 32, (size_t)(id / 32 % 40)); }
  static uint64_t dig(const rust::Str &v) { return fnv(v.data(), v.size()); }
  static uint64_t of(const rust::Str &) { return DEAD; }
};
template <> struct El<rust::String> {
  enum { throws = 0, toks = 0 };
  static rust::String make(uint64_t id) { return rt::make<rust::String>(id); }
  static uint64_t dig(const rust::String &v) { return fnv(v.data(), v.size()); }
  static uint64_t of(const rust::String &) { return DEAD; }
};
template <> struct El<Tok> {
  enum { throws = 1, toks = 1 };
  static Tok make(uint64_t id) { return Tok(id); }
  static uint64_t dig(const Tok &v) { return tok_id(v); }
  static uint64_t of(const Tok &v) { return tok_id(v); }
};
template <> struct El<Txt> {
  enum { throws = 0, toks = 0 };
  static Txt make(uint64_t id) { return rt::make<Txt>(id); }
  static uint64_t dig(const Txt &v) { return mixd(mixd(fnv(v.s.data(), v.s.size()), v.n), v.v.size() ? fnv(v.v.data(), v.v.size()) : 7); }
  static uint64_t of(const Txt &) { return DEAD; }
};
template <> struct El<Pod> {
  enum { throws = 0, toks = 0 };
  static Pod make(uint64_t id) { return rt::make<Pod>(id); }
  static uint64_t dig(const Pod &v) { return mixd(mixd(mixd((uint64_t)(int64_t)v.a, v.b), (uint64_t)v.c), v.d[0] + v.d[1] * 65536ull + ((uint64_t)v.d[2] << 32)); }
  static uint64_t of(const Pod &) { return DEAD; }
};
template <> struct El<std::string> {
  static std::string make(uint64_t id) { return text(id); }
  static uint64_t dig(const std::string &v) { return fnv(v.data(), v.size()); }
};
template <> struct El<Obj> {
  static Obj make(uint64_t id) { return Obj(id); }
  static uint64_t dig(const Obj &v) { return sim_obj_live(&v, KIND_OBJ) ? v.id() : DEAD; }
};
} // namespace
} // namespace rt
