#pragma once
#include "rtsim/cxx/trycatch.h"
#include "rtsim/cxx/types.h"
#include "rtsim/src/gen_bridge.rs.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>

namespace rt {
inline uint64_t opid(uint64_t tag) { return h_ops[tag].id; }
inline uint64_t opx(uint64_t tag) { return h_ops[tag].id ^ 0x5555; }
void bad(int cls, uint64_t tag, const char *what);

inline std::string text(uint64_t id) {
  char b[32768];
  return std::string(b, h_text(id, b));
}
inline std::string msg(uint64_t id) {
  char b[32768];
  return std::string(b, h_msg(id, b));
}

// ------------------------------------------------------------------ make
template <class T> struct Mk;
template <class T> T make(uint64_t id) { return Mk<T>::make(id); }
template <class T> void check_at(const T &v, uint64_t id, uint64_t tag, const char *what) {
  int q = sim_quiet();
  bool ok = Mk<T>::eq(v, id);
  sim_resume(q);
  if (!ok) bad(V_VAL, tag, what);
}
#define INTMK(T, EXPR)                                                                                                 \
  template <> struct Mk<T> {                                                                                           \
    static T make(uint64_t id) { return (EXPR); }                                                                      \
    static bool eq(const T &v, uint64_t id) { return v == make(id); }                                                  \
    static void set(T &v, uint64_t id) { v = make(id); }                                                               \
  };
INTMK(uint8_t, (uint8_t)h_mix(id))
INTMK(int8_t, (int8_t)h_mix(id))
INTMK(uint16_t, (uint16_t)h_mix(id))
INTMK(int16_t, (int16_t)h_mix(id))
INTMK(uint32_t, (uint32_t)h_mix(id))
INTMK(int32_t, (int32_t)h_mix(id))
INTMK(uint64_t, (uint64_t)h_mix(id))
INTMK(int64_t, (int64_t)h_mix(id))
INTMK(float, (float)(h_mix(id) & 0xffff) * 0.25f)
INTMK(double, (double)(h_mix(id) & 0xffffffff) * 0.125)
INTMK(bool, (bool)(h_mix(id) & 1))
INTMK(char, (char)h_mix(id))
INTMK(Color, (h_mix(id) & 3) == 0 ? Color::Red : (h_mix(id) & 3) == 1 ? Color::Green : (h_mix(id) & 3) == 2 ? Color::Blue : Color::Last)
template <> struct Mk<Pod> {
  static Pod make(uint64_t id) {
    Pod p;
    p.a = (int32_t)h_mix(id);
    p.b = h_mix(id + 1);
    p.c = (double)(h_mix(id) & 0xffff);
    p.d = {{(uint16_t)id, (uint16_t)(id >> 8), (uint16_t)h_mix(id)}};
    return p;
  }
  static bool eq(const Pod &v, uint64_t id) {
    Pod e = make(id);
    return v.a == e.a && v.b == e.b && v.c == e.c && v.d == e.d;
  }
  static void set(Pod &v, uint64_t id) { v = make(id); }
};
template <> struct Mk<rust::String> {
  static rust::String make(uint64_t id) { return rust::String(text(id)); }
  static bool eq(const rust::String &v, uint64_t id) { return std::string(v.data(), v.size()) == text(id); }
  static void set(rust::String &v, uint64_t id) { v = make(id); }
};
template <> struct Mk<std::string> {
  static std::string make(uint64_t id) { return text(id); }
  static bool eq(const std::string &v, uint64_t id) { return v == text(id); }
  static void set(std::string &v, uint64_t id) { v = text(id); }
};
inline uint64_t elem(uint64_t id, size_t i) { return id * 31 + i + 1; }
template <class T> struct Mk<rust::Vec<T>> {
  static rust::Vec<T> make(uint64_t id) {
    rust::Vec<T> v;
    size_t n = h_len(id);
    for (size_t i = 0; i < n; i++) v.push_back(rt::make<T>(elem(id, i)));
    return v;
  }
  static bool eq(const rust::Vec<T> &v, uint64_t id) {
    size_t n = h_len(id);
    if (v.size() != n) return false;
    for (size_t i = 0; i < n; i++)
      if (!Mk<T>::eq(v[i], elem(id, i))) return false;
    return true;
  }
  static void set(rust::Vec<T> &v, uint64_t id) { v = make(id); }
};
template <> struct Mk<RObj> {
  static bool eq(const RObj &v, uint64_t id) { return v.robj_id() == id; }
  static void set(RObj &v, uint64_t id) { v.robj_set(id); }
};
template <> struct Mk<rust::Vec<RObj>> {
  static rust::Vec<RObj> make(uint64_t id) { return vec_robj_new(id); }
  static bool eq(const rust::Vec<RObj> &v, uint64_t id) {
    size_t n = h_len(id);
    if (v.size() != n) return false;
    for (size_t i = 0; i < n; i++)
      if (v[i].robj_id() != elem(id, i)) return false;
    return true;
  }
};
template <class T> struct Mk<std::vector<T>> {
  static std::vector<T> make(uint64_t id) {
    std::vector<T> v;
    size_t n = h_len(id);
    for (size_t i = 0; i < n; i++) v.push_back(rt::make<T>(elem(id, i)));
    return v;
  }
  static bool eq(const std::vector<T> &v, uint64_t id) {
    size_t n = h_len(id);
    if (v.size() != n) return false;
    for (size_t i = 0; i < n; i++)
      if (!Mk<T>::eq(v[i], elem(id, i))) return false;
    return true;
  }
  static void set(std::vector<T> &v, uint64_t id) { v = make(id); }
};
template <> struct Mk<Obj> {
  static Obj make(uint64_t id) { return Obj(id); }
  static bool eq(const Obj &v, uint64_t id) { return v.id() == id; }
  static void set(Obj &v, uint64_t id) { v.set(id); }
};
template <> struct Mk<Tok> {
  static Tok make(uint64_t id) { return Tok(id); }
  static bool eq(const Tok &v, uint64_t id) { return v.p && *v.p == id; }
  static void set(Tok &v, uint64_t id) { v = Tok(id); }
};
template <> struct Mk<Txt> {
  static Txt make(uint64_t id) {
    Txt t;
    t.s = rt::make<rust::String>(id);
    t.n = rt::make<uint32_t>(id);
    t.v = rt::make<rust::Vec<uint8_t>>(id);
    return t;
  }
  static bool eq(const Txt &v, uint64_t id) {
    return Mk<rust::String>::eq(v.s, id) && v.n == rt::make<uint32_t>(id) && Mk<rust::Vec<uint8_t>>::eq(v.v, id);
  }
  static void set(Txt &v, uint64_t id) { v = make(id); }
};
template <> struct Mk<rust::Box<RObj>> {
  static rust::Box<RObj> make(uint64_t id) { return robj_new(id); }
  static bool eq(const rust::Box<RObj> &v, uint64_t id) { return v->robj_id() == id; }
  static void set(rust::Box<RObj> &v, uint64_t id) { v = make(id); }
};
template <> struct Mk<rust::Box<Txt>> {
  static rust::Box<Txt> make(uint64_t id) { return rust::Box<Txt>(rt::make<Txt>(id)); }
  static bool eq(const rust::Box<Txt> &v, uint64_t id) { return Mk<Txt>::eq(*v, id); }
};
template <class T> struct Mk<std::unique_ptr<T>> {
  static std::unique_ptr<T> make(uint64_t id) {
    if (id % 7 == 3) return nullptr;
    return std::unique_ptr<T>(new T(rt::make<T>(id)));
  }
  static bool eq(const std::unique_ptr<T> &v, uint64_t id) {
    if (id % 7 == 3) return v == nullptr;
    return v && Mk<T>::eq(*v, id);
  }
  static void set(std::unique_ptr<T> &v, uint64_t id) { v = make(id); }
};
template <class T> struct Mk<std::shared_ptr<T>> {
  static std::shared_ptr<T> make(uint64_t id) {
    if (id % 7 == 3) return nullptr;
    if (id & 1) return std::shared_ptr<T>(new T(rt::make<T>(id)));
    return std::make_shared<T>(rt::make<T>(id));
  }
  static bool eq(const std::shared_ptr<T> &v, uint64_t id) {
    if (id % 7 == 3) return v == nullptr;
    return v && Mk<T>::eq(*v, id);
  }
  static void set(std::shared_ptr<T> &v, uint64_t id) { v = make(id); }
};
// a weak pointer to the thread's keeper object, to an expired one, or null
extern thread_local std::shared_ptr<Obj> *t_keeper;
template <> struct Mk<std::weak_ptr<Obj>> {
  static std::weak_ptr<Obj> make(uint64_t id) {
    if (id % 3 == 0) return std::weak_ptr<Obj>();
    if (id % 3 == 1) return std::weak_ptr<Obj>(std::make_shared<Obj>(id));
    return std::weak_ptr<Obj>(*t_keeper);
  }
  static bool eq(const std::weak_ptr<Obj> &v, uint64_t id) {
    auto s = v.lock();
    if (id % 3 == 2) return s == *t_keeper;
    return s == nullptr && v.use_count() == 0;
  }
};
template <> struct Mk<Rec> {
  static Rec make(uint64_t id) {
    return Rec{rt::make<rust::String>(id), rt::make<Txt>(id + 1), rt::make<rust::Box<RObj>>(id + 2),
               rt::make<std::unique_ptr<Obj>>(id + 3), rt::make<std::shared_ptr<Obj>>(id + 4), rt::make<std::weak_ptr<Obj>>(id + 5),
               rt::make<Tok>(id + 6), rt::make<rust::Vec<Txt>>(id + 7), rt::make<std::unique_ptr<std::string>>(id + 8),
               rt::make<Pod>(id + 9), rt::make<Color>(id + 10)};
  }
  static bool eq(const Rec &v, uint64_t id) {
    return Mk<rust::String>::eq(v.s, id) && Mk<Txt>::eq(v.t, id + 1) && Mk<rust::Box<RObj>>::eq(v.b, id + 2) &&
           Mk<std::unique_ptr<Obj>>::eq(v.u, id + 3) && Mk<std::shared_ptr<Obj>>::eq(v.sp, id + 4) &&
           Mk<std::weak_ptr<Obj>>::eq(v.w, id + 5) && Mk<Tok>::eq(v.tok, id + 6) && Mk<rust::Vec<Txt>>::eq(v.vt, id + 7) &&
           Mk<std::unique_ptr<std::string>>::eq(v.cs, id + 8) && Mk<Pod>::eq(v.p, id + 9) && v.c == rt::make<Color>(id + 10);
  }
  static void set(Rec &v, uint64_t id) { v = make(id); }
};
template <class T> struct Mk<rust::Slice<T>> {};

// an owner whose smart pointer is never null, for passing the target by reference
inline uint64_t nonnull(uint64_t id) { return id % 7 == 3 ? id + 1 : id; }

template <class T> T qmake(uint64_t id) {
  int q = sim_quiet();
  struct R { int q; ~R() { sim_resume(q); } } r{q};
  return make<T>(id);
}

// ------------------------------------------------------------------ frames
// Lives in every user frame. Its destructor must never run once a fatal fault was raised deeper.
struct Frame {
  uint64_t tag;
  bool callee;
  explicit Frame(uint64_t tag, bool callee = true) : tag(tag), callee(callee) {
    sim_obj_new(this, KIND_LOCAL);
    if (callee) h_callee(tag, 0);
    else h_called(tag);
  }
  ~Frame() {
    h_frame_exit(tag, callee);
    sim_obj_del(this, KIND_LOCAL);
  }
};

struct MyEx : std::exception {
  std::string m;
  explicit MyEx(std::string s) : m(std::move(s)) {}
  const char *what() const noexcept override { return m.c_str(); }
};

enum Outcome : uint32_t {
  O_OK = 0, O_SAME = 1, O_FAIL = 2, O_FAIL2 = 3, O_RUSTERR = 4, O_ALLOC = 5,
  O_FATAL = 16, O_FATAL2 = 17, O_FATAL3 = 18, O_FATAL4 = 19,
};

// nested calls, then the planned fault. `fatal` outcomes announce themselves first.
void body(uint64_t tag, bool);

template <class T> T make_ret(uint64_t tag) {
  if (h_ops[tag].outcome == O_ALLOC) {
    // the h_ops[tag].a[0]-th allocation of the callee's own code fails
    sim_fail_alloc(1 + h_ops[tag].a[0]);
    struct Off { ~Off() { sim_fail_alloc(0); } } off;
    try {
      return make<T>(opid(tag) + 1000);
    } catch (const std::bad_alloc &) {
      h_ops[tag].state |= H_THREW | H_ALLOCFAIL;
      throw;
    }
  }
  return qmake<T>(opid(tag) + 1000);
}
template <class T> T callee_x(uint64_t tag, T x) {
  Frame fr(tag);
  check_at(x, opid(tag), tag, "argument");
  body(tag, false);
  if (h_ops[tag].outcome == O_SAME) return std::move(x);
  return make_ret<T>(tag);
}
template <class T> void callee_take(uint64_t tag, T x) {
  Frame fr(tag);
  check_at(x, opid(tag), tag, "argument");
  if (h_ops[tag].outcome == O_SAME) { T y(std::move(x)); check_at(y, opid(tag), tag, "moved argument"); }
  body(tag, false);
  if (h_ops[tag].outcome == O_ALLOC) make_ret<T>(tag);
}
template <class T> T callee_ret(uint64_t tag) {
  Frame fr(tag);
  body(tag, false);
  return make_ret<T>(tag);
}
template <class T, class F> T callee_cb(uint64_t tag, T x, F f) {
  Frame fr(tag);
  check_at(x, opid(tag), tag, "argument");
  uint64_t t2 = h_ops[tag].a[3]; // the operation executed by the callback
  T y = f(t2, qmake<T>(opid(t2)));
  check_at(y, h_ops[t2].outcome == O_SAME ? opid(t2) : opid(t2) + 1000, tag, "callback result");
  body(tag, false);
  if (h_ops[tag].outcome == O_SAME) return std::move(x);
  return make_ret<T>(tag);
}
template <class T, class F> void callee_cbr(uint64_t tag, const T &x, F f) {
  Frame fr(tag);
  check_at(x, opid(tag), tag, "argument");
  uint64_t t2 = h_ops[tag].a[3];
  T y = qmake<T>(opid(t2));
  f(t2, y);
  check_at(y, opid(t2), tag, "callback argument afterwards");
  body(tag, false);
}
template <class T> const T &callee_ref(uint64_t tag, const T &x) {
  Frame fr(tag);
  check_at(x, opid(tag), tag, "referenced argument");
  body(tag, false);
  return x;
}
template <class T> T &callee_mut(uint64_t tag, T &x) {
  Frame fr(tag);
  check_at(x, opid(tag), tag, "referenced argument");
  body(tag, false);
  int q = sim_quiet();
  Mk<T>::set(x, opid(tag) + 1000);
  sim_resume(q);
  return x;
}
template <class T> void check_slice(rust::Slice<const T> s, uint64_t id, uint64_t tag) {
  int q = sim_quiet();
  size_t n = h_len(id);
  bool ok = s.size() == n;
  for (size_t i = 0; ok && i < n; i++) ok = Mk<T>::eq(s[i], elem(id, i));
  sim_resume(q);
  if (!ok) bad(V_VAL, tag, "slice contents");
}
template <class T> rust::Slice<const T> callee_sl(uint64_t tag, rust::Slice<const T> s) {
  Frame fr(tag);
  check_slice<T>(s, opid(tag), tag);
  body(tag, false);
  return s;
}
template <class T> rust::Slice<T> callee_msl(uint64_t tag, rust::Slice<T> s) {
  Frame fr(tag);
  size_t n = s.size();
  if (n != h_len(opid(tag))) bad(V_VAL, tag, "slice length");
  int q = sim_quiet();
  bool ok = true;
  for (size_t i = 0; i < n; i++) ok = ok && Mk<T>::eq(s[i], elem(opid(tag), i));
  sim_resume(q);
  if (!ok) bad(V_VAL, tag, "slice contents");
  body(tag, false);
  q = sim_quiet();
  size_t i = 0;
  for (auto &e : s) Mk<T>::set(e, elem(opid(tag) + 1000, i++));
  sim_resume(q);
  return s;
}
inline void check_str(rust::Str s, uint64_t id, uint64_t tag) {
  int q = sim_quiet();
  bool ok = std::string(s.data(), s.size()) == text(id);
  sim_resume(q);
  if (!ok) bad(V_VAL, tag, "str contents");
}
inline rust::Str callee_str(uint64_t tag, rust::Str s) {
  Frame fr(tag);
  check_str(s, opid(tag), tag);
  body(tag, false);
  return s;
}

// ------------------------------------------------------------------ drivers (C++ calls Rust)
rust::Box<RObj> self_robj(uint64_t tag);
void caught(uint64_t tag, const std::exception &e);
void caught_rust(uint64_t tag, const rust::Error &e);
void returned(uint64_t tag);
inline uint64_t expect_id(uint64_t tag) { return h_ops[tag].outcome == O_SAME ? opid(tag) : opid(tag) + 1000; }
void arm_drop(uint64_t tag, const rust::Box<RObj> &b);
template <class T> void arm_drop(uint64_t, const T &) {}

template <class T, class F> void drive_x(uint64_t tag, F f) {
  Frame fr(tag, false);
  T x = qmake<T>(opid(tag));
  T y = f(tag, std::move(x));
  returned(tag);
  check_at(y, expect_id(tag), tag, "result");
  arm_drop(tag, y);
}
template <class T, class F> void drive_t(uint64_t tag, F f) {
  Frame fr(tag, false);
  try {
    T x = qmake<T>(opid(tag));
    T y = f(tag, std::move(x));
    returned(tag);
    check_at(y, expect_id(tag), tag, "result");
    arm_drop(tag, y);
  } catch (const rust::Error &e) {
    caught_rust(tag, e);
  } catch (const std::exception &e) {
    caught(tag, e);
  }
}
template <class T, class F> void drive_take(uint64_t tag, F f) {
  Frame fr(tag, false);
  T x = qmake<T>(opid(tag));
  f(tag, std::move(x));
  returned(tag);
}
template <class T, class F> void drive_ttake(uint64_t tag, F f) {
  Frame fr(tag, false);
  try {
    T x = qmake<T>(opid(tag));
    f(tag, std::move(x));
    returned(tag);
  } catch (const rust::Error &e) {
    caught_rust(tag, e);
  } catch (const std::exception &e) {
    caught(tag, e);
  }
}
template <class T, class F> void drive_ret(uint64_t tag, F f) {
  Frame fr(tag, false);
  T y = f(tag);
  returned(tag);
  check_at(y, opid(tag) + 1000, tag, "result");
  arm_drop(tag, y);
}
// operators that the bridge derives for C++ from the Rust implementation
template <class K> void drive_op(uint64_t tag, int how) {
  Frame fr(tag, false);
  uint64_t id = opid(tag), v = id % 8, w = id / 8 % 3 == 0 ? v : id / 24 % 8;
  uint32_t n = id / 200 % 3, m = id / 600 % 3;
  bool ordered = std::is_same<K, Key>::value || (v != 7 && w != 7);
  bool lt = ordered && (v < w || (v == w && n < m)), eq = ordered && v == w && n == m, gt = ordered && !lt && !eq;
  K a{{tag, v}, n}, b{{tag, w}, m};
  bool r, e;
  switch (how) {
  case 0: r = a == b, e = eq; break;
  case 1: r = a != b, e = !eq; break;
  case 2: r = a < b, e = lt; break;
  case 3: r = a <= b, e = lt || eq; break;
  case 4: r = a > b, e = gt; break;
  default: r = a >= b, e = gt || eq; break;
  }
  returned(tag);
  if (r != e) h_bad(V_VAL, tag, "result of the operator");
}
extern template size_t hash_of<Key>(const Key &);
inline void drive_hash(uint64_t tag) {
  Frame fr(tag, false);
  uint64_t id = opid(tag), v = id % 8;
  uint32_t n = id / 200 % 3;
  Key k{{tag, v}, n}, same{{~0ull, v}, n}, other{{~0ull, (v + 1) % 8}, n}, another{{~0ull, v}, n + 1};
  size_t r = hash_of(k);
  returned(tag);
  if (r != hash_of(same) || r == hash_of(other) || r == hash_of(another)) h_bad(V_VAL, tag, "std::hash");
}
template <class T, class F> void drive_tret(uint64_t tag, F f) {
  Frame fr(tag, false);
  try {
    T y = f(tag);
    returned(tag);
    check_at(y, opid(tag) + 1000, tag, "result");
    arm_drop(tag, y);
  } catch (const rust::Error &e) {
    caught_rust(tag, e);
  } catch (const std::exception &e) {
    caught(tag, e);
  }
}
template <class O, class T, class F, class D> void drive_ref(uint64_t tag, F f, D d) {
  Frame fr(tag, false);
  O o = qmake<O>(opid(tag));
  const T &r = f(tag, d(o));
  returned(tag);
  if (&r != &d(o)) bad(V_VAL, tag, "returned reference");
  check_at(d(o), opid(tag), tag, "referent afterwards");
}
template <class O, class T, class F, class D> void drive_tref(uint64_t tag, F f, D d) {
  Frame fr(tag, false);
  O o = qmake<O>(opid(tag));
  try {
    const T &r = f(tag, d(o));
    returned(tag);
    if (&r != &d(o)) bad(V_VAL, tag, "returned reference");
  } catch (const rust::Error &e) {
    caught_rust(tag, e);
  } catch (const std::exception &e) {
    caught(tag, e);
  }
  check_at(d(o), opid(tag), tag, "referent afterwards");
}
template <class O, class T, class F, class D> void drive_mut(uint64_t tag, F f, D d) {
  Frame fr(tag, false);
  O o = qmake<O>(opid(tag));
  T &r = f(tag, d(o));
  returned(tag);
  if (&r != &d(o)) bad(V_VAL, tag, "returned reference");
  check_at(d(o), opid(tag) + 1000, tag, "referent afterwards");
}
template <class O, class T, class F, class D> void drive_tmut(uint64_t tag, F f, D d) {
  Frame fr(tag, false);
  O o = qmake<O>(opid(tag));
  try {
    T &r = f(tag, d(o));
    returned(tag);
    if (&r != &d(o)) bad(V_VAL, tag, "returned reference");
    check_at(d(o), opid(tag) + 1000, tag, "referent afterwards");
  } catch (const rust::Error &e) {
    caught_rust(tag, e);
    check_at(d(o), opid(tag), tag, "referent afterwards");
  } catch (const std::exception &e) {
    caught(tag, e);
  }
}
template <class O, class T, class F> void drive_sl(uint64_t tag, F f) {
  Frame fr(tag, false);
  O o = qmake<O>(opid(tag));
  rust::Slice<const T> s(const_cast<const O &>(o));
  rust::Slice<const T> r = f(tag, s);
  returned(tag);
  if (r.data() != s.data() || r.size() != s.size()) bad(V_VAL, tag, "returned slice");
}
template <class O, class T, class F> void drive_tsl(uint64_t tag, F f) {
  Frame fr(tag, false);
  O o = qmake<O>(opid(tag));
  rust::Slice<const T> s(const_cast<const O &>(o));
  try {
    rust::Slice<const T> r = f(tag, s);
    returned(tag);
    if (r.data() != s.data() || r.size() != s.size()) bad(V_VAL, tag, "returned slice");
  } catch (const rust::Error &e) {
    caught_rust(tag, e);
  } catch (const std::exception &e) {
    caught(tag, e);
  }
}
template <class O, class T> void check_elems(O &o, uint64_t id, uint64_t tag, size_t n) {
  int q = sim_quiet();
  bool ok = o.size() == n;
  for (size_t i = 0; ok && i < n; i++) ok = Mk<T>::eq(o[i], elem(id, i));
  sim_resume(q);
  if (!ok) bad(V_VAL, tag, "elements afterwards");
}
template <class O, class T, class F> void drive_msl(uint64_t tag, F f) {
  Frame fr(tag, false);
  O o = qmake<O>(opid(tag));
  rust::Slice<T> s(o);
  rust::Slice<T> r = f(tag, s);
  returned(tag);
  if (r.data() != s.data() || r.size() != s.size()) bad(V_VAL, tag, "returned slice");
  check_elems<O, T>(o, opid(tag) + 1000, tag, h_len(opid(tag)));
}
template <class O, class T, class F> void drive_tmsl(uint64_t tag, F f) {
  Frame fr(tag, false);
  O o = qmake<O>(opid(tag));
  rust::Slice<T> s(o);
  try {
    rust::Slice<T> r = f(tag, s);
    returned(tag);
    if (r.data() != s.data() || r.size() != s.size()) bad(V_VAL, tag, "returned slice");
    check_elems<O, T>(o, opid(tag) + 1000, tag, h_len(opid(tag)));
  } catch (const rust::Error &e) {
    caught_rust(tag, e);
    check_elems<O, T>(o, opid(tag), tag, h_len(opid(tag)));
  } catch (const std::exception &e) {
    caught(tag, e);
  }
}
template <class F> void drive_str(uint64_t tag, F f) {
  Frame fr(tag, false);
  std::string o = text(opid(tag));
  rust::Str s(o);
  rust::Str r = f(tag, s);
  returned(tag);
  if (r.data() != s.data() || r.size() != s.size()) bad(V_VAL, tag, "returned str");
}
template <class F> void drive_tstr(uint64_t tag, F f) {
  Frame fr(tag, false);
  std::string o = text(opid(tag));
  rust::Str s(o);
  try {
    rust::Str r = f(tag, s);
    returned(tag);
    if (r.data() != s.data() || r.size() != s.size()) bad(V_VAL, tag, "returned str");
  } catch (const rust::Error &e) {
    caught_rust(tag, e);
  } catch (const std::exception &e) {
    caught(tag, e);
  }
}
} // namespace rt
