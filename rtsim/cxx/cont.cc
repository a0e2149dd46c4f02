// Workload "cont": the C++ views of Rust containers against plain sequences, with element
// constructors and allocations that fail in the middle of operations.
#include "rtsim/cxx/calls.h"
#include "rtsim/cxx/contfwd.h"
#include "rtsim/cxx/elem.h"
#include "rtsim/src/gen_cont.rs.h"
#include <algorithm>
#include <numeric>
namespace rt {
extern "C" uint64_t rt_vstr_digest(const void *v);
extern "C" void rt_vstr_push(void *v, uint64_t id);
extern "C" void rt_vstr_remove(void *v, size_t i);
extern "C" uint64_t rt_sstr_digest(const void *p, size_t n);
extern "C" void rt_sstr_rev(void *p, size_t n);
namespace {
template <> struct El<Rec2> {
  enum { throws = 1, toks = 2 };
  static Rec2 make(uint64_t id) { return Rec2{Tok(id), rt::make<rust::String>(id), Tok(id + 1), (uint32_t)id}; }
  static uint64_t dig(const Rec2 &v) {
    return mixd(mixd(mixd(tok_id(v.t), fnv(v.s.data(), v.s.size())), tok_id(v.u)), v.n);
  }
  static uint64_t of(const Rec2 &v) {
    uint64_t id = tok_id(v.t);
    if (id == DEAD || tok_id(v.u) != id + 1 || v.n != (uint32_t)id) return DEAD;
    return Mk<rust::String>::eq(v.s, id) ? id : DEAD;
  }
};
template <> struct El<Pod2> {
  enum { throws = 0, toks = 0 };
  static Pod2 make(uint64_t id) { return Pod2{h_mix(id), (uint8_t)id}; }
  static uint64_t dig(const Pod2 &v) { return mixd(v.a, v.b); }
  static uint64_t of(const Pod2 &) { return DEAD; }
};
// opaque Rust type: C++ can hold it only in containers and never knows its size
template <> struct El<OItem> {
  enum { throws = 0, toks = 0 };
  static uint64_t dig(const OItem &v) { return v.odig(); }
  static uint64_t of(const OItem &) { return DEAD; }
};
template <class T> uint64_t dig_of(uint64_t id) {
  T x = El<T>::make(id);
  return El<T>::dig(x);
}
template <> uint64_t dig_of<OItem>(uint64_t id) { return h_mix(id); }

// ------------------------------------------------------------------ the other side
template <class T> struct Other;
#define OTHER(T, K)                                                                                                    \
  template <> struct Other<T> {                                                                                        \
    static uint64_t digest(const rust::Vec<T> &v) { return v_digest_##K(v); }                                          \
    static rust::Vec<T> pass(rust::Vec<T> v) { return v_pass_##K(std::move(v)); }                                      \
    static uint64_t take(rust::Vec<T> v) { return v_take_##K(std::move(v)); }                                          \
    static void push(rust::Vec<T> &v, uint64_t id) { v_push_##K(v, id); }                                              \
    static void remove(rust::Vec<T> &v, size_t i) { v_remove_##K(v, i); }                                              \
    static rust::Vec<T> make(uint64_t id, size_t n) { return v_make_##K(id, n); }                                      \
    static uint64_t sdigest(rust::Slice<const T> v) { return s_digest_##K(v); }                                        \
    static void rev(rust::Slice<T> v) { s_rev_##K(v); }                                                                \
    static rust::Slice<const T> slice(const rust::Vec<T> &v, size_t a, size_t b) { return v_slice_##K(v, a, b); }      \
    static rust::Slice<T> mslice(rust::Vec<T> &v, size_t a, size_t b) { return v_mslice_##K(v, a, b); }                \
  };
OTHER(uint8_t, u8)
OTHER(Tok, tok)
OTHER(rust::String, string)
OTHER(Rec2, rec2)
OTHER(Txt, txt)
OTHER(double, f64)
OTHER(bool, bool)
OTHER(Pod, pod)
OTHER(OItem, oitem)
OTHER(int8_t, i8)
OTHER(uint16_t, u16)
OTHER(int16_t, i16)
OTHER(uint32_t, u32)
OTHER(int32_t, i32)
OTHER(uint64_t, u64)
OTHER(int64_t, i64)
OTHER(float, f32)
OTHER(char, char)
// no function can hand a Vec<&str> over yet; its symbols work on the memory of one all the same
template <> struct Other<rust::Str> {
  typedef rust::Vec<rust::Str> V;
  static uint64_t digest(const V &v) { return rt_vstr_digest(&v); }
  static V pass(V v) { return v; }
  static uint64_t take(V v) { return rt_vstr_digest(&v); }
  static void push(V &v, uint64_t id) { rt_vstr_push(&v, id); }
  static void remove(V &v, size_t i) { rt_vstr_remove(&v, i); }
  static V make(uint64_t id, size_t n) {
    V v;
    for (size_t i = 0; i < n; i++) rt_vstr_push(&v, id + i);
    return v;
  }
  static uint64_t sdigest(rust::Slice<const rust::Str> v) { return rt_sstr_digest(v.data(), v.size()); }
  static void rev(rust::Slice<rust::Str> v) { rt_sstr_rev(v.data(), v.size()); }
  static rust::Slice<const rust::Str> slice(const V &v, size_t a, size_t b) { return rust::Slice<const rust::Str>(v.data() + a, b - a); }
  static rust::Slice<rust::Str> mslice(V &v, size_t a, size_t b) { return rust::Slice<rust::Str>(v.data() + a, b - a); }
};

enum Ex { E_NONE, E_ELEM, E_ALLOC, E_RANGE, E_OTHER };
uint64_t cur;
void mismatch(const char *what, uint64_t a = 0, uint64_t b = 0) {
  int p = sim_pause();
  char m[300];
  snprintf(m, sizeof m, "%s (%llu, expected %llu)", what, (unsigned long long)a, (unsigned long long)b);
  h_bad(V_MODEL, cur, m);
  sim_resume(p);
}
typedef std::vector<uint64_t> M;
struct Pause {
  int p = sim_pause();
  ~Pause() { sim_resume(p); }
};

// runs one operation of the code under test with the planned fault armed
struct Fault {
  bool elem = false, alloc = false, fired = false;
};
template <class F> Ex attempt(const h_op &o, bool may_fault, Fault &ft, F f) {
  Ex r = E_NONE;
  if (may_fault && o.outcome == 6) {
    ft.elem = true;
    t_elem_fault = 1 + (int64_t)(o.msg % 5);
  }
  if (may_fault && o.outcome == 5) {
    ft.alloc = true;
    sim_fail_alloc(1 + (int64_t)(o.msg % 5));
  }
  try {
    f();
  } catch (const ElemFault &) {
    r = E_ELEM;
  } catch (const std::bad_alloc &) {
    r = E_ALLOC;
  } catch (const std::out_of_range &e) {
    r = E_RANGE;
    if (std::strncmp(e.what(), "rust::", 6) != 0) mismatch("wrong text of std::out_of_range");
  } catch (const std::exception &) {
    r = E_OTHER;
  }
  if (ft.elem) ft.fired = t_elem_fault == 0;
  if (ft.alloc) ft.fired = sim_fail_alloc_left() == 0;
  t_elem_fault = 0;
  sim_fail_alloc(0);
  if (ft.fired && r != (ft.elem ? E_ELEM : E_ALLOC)) mismatch("the exception did not reach the caller", r);
  if (!ft.fired && (r == E_ELEM || r == E_ALLOC || r == E_OTHER)) mismatch("unexpected exception", r);
  if (ft.fired) sim_probe(ft.elem ? 1 : 2);
  return r;
}

template <class T> uint64_t digest(const M &m) {
  uint64_t h = 5;
  for (uint64_t id : m) h = mixd(h, dig_of<T>(id));
  return h;
}

enum Op {
  NewEmpty, NewList, NewCopy, NewMove, AssignCopy, AssignMove, SwapM, SwapF, PushCopy, PushMove, PushSelf, Emplace,
  EmplaceSelf, Reserve, Truncate, Clear, At, Index, FrontBack, Set, Iter, Arith, Sort, SliceView, SliceAt, SliceAssign,
  Pass, RPush, RRemove, Take, RMake, RRev, RSlice, MoveOut, StdSwap, SelfSwap, BackInsert, NOPS
};
const char *names[] = {
  "NewEmpty", "NewList", "NewCopy", "NewMove", "AssignCopy", "AssignMove", "SwapM", "SwapF", "PushCopy", "PushMove", "PushSelf", "Emplace",
  "EmplaceSelf", "Reserve", "Truncate", "Clear", "At", "Index", "FrontBack", "Set", "Iter", "Arith", "Sort", "SliceView", "SliceAt", "SliceAssign",
  "Pass", "RPush", "RRemove", "Take", "RMake", "RRev", "RSlice", "MoveOut", "StdSwap", "SelfSwap", "BackInsert"};
const int NS = 3;

template <class T> struct Base {
  typedef rust::Vec<T> V;
  V *v[NS] = {};
  M m[NS];
  V &get(int s) {
    if (!v[s]) v[s] = new V();
    return *v[s];
  }
  void check(int s) {
    if (!v[s]) return;
    int q = sim_quiet();
    const V &x = *v[s];
    if (x.size() != m[s].size()) {
      mismatch("size", x.size(), m[s].size());
    } else {
      if (x.capacity() < x.size()) mismatch("capacity below size", x.capacity(), x.size());
      if (x.empty() != m[s].empty()) mismatch("empty()");
      for (size_t i = 0; i < x.size(); i++) {
        uint64_t d = El<T>::dig(x[i]), e = dig_of<T>(m[s][i]);
        if (d != e) {
          mismatch("element differs from the model", i, m[s][i]);
          break;
        }
      }
      uint64_t d = Other<T>::digest(x), e = digest<T>(m[s]);
      if (d != e) mismatch("Rust sees other contents", d, e);
    }
    sim_resume(q);
  }
  void check_all() {
    for (int s = 0; s < NS; s++) check(s);
  }
  int64_t tokens() const {
    int64_t n = 0;
    for (int s = 0; s < NS; s++) n += El<T>::toks * (int64_t)m[s].size();
    return n;
  }
  // after a failed operation: adopts what the container holds now, if all of it is alive and known
  void adopt(int s, const M &known) {
    if (!v[s]) return;
    Pause p;
    const V &x = *v[s];
    M now;
    if (x.size() > 10000) {
      mismatch("size after an exception", x.size());
      return;
    }
    for (size_t i = 0; i < x.size(); i++) {
      uint64_t id = El<T>::of(x[i]);
      bool ok = id != DEAD && std::find(known.begin(), known.end(), id) != known.end();
      if (!ok) {
        mismatch("after an exception the container holds a dead or unknown element", i, id);
        return;
      }
      now.push_back(id);
    }
    m[s] = now;
  }
  void destroy() {
    for (int s = 0; s < NS; s++) {
      delete v[s];
      v[s] = nullptr;
      Pause p;
      m[s] = M();
    }
  }
  bool common(const h_op &o, Op op, int a, int b) {
    Fault ft;
    switch (op) {
    case NewEmpty: {
      delete v[a];
      v[a] = new V();
      Pause p;
      m[a] = {};
      return true;
    }
    case NewMove: {
      if (a == b) return true;
      V *n = new V(std::move(get(b)));
      delete v[a];
      v[a] = n;
      Pause p;
      m[a] = m[b];
      m[b] = {};
      return true;
    }
    case AssignMove: {
      get(a) = std::move(get(b));
      Pause p;
      // what a self-move leaves behind is unspecified, but valid
      if (a == b) {
        if (v[a]->empty()) m[a] = {};
      } else {
        m[a] = m[b];
        m[b] = {};
      }
      return true;
    }
    case SwapM: case SwapF: case StdSwap: case SelfSwap: {
      if (op == SelfSwap) b = a;
      V &x = get(a), &y = get(b);
      if (op == SwapF) {
        using std::swap;
        swap(x, y);
      } else if (op == StdSwap) {
        std::swap(x, y);
        if (a == b) {
          Pause p;
          if (x.empty()) m[a] = {};
        }
      } else {
        x.swap(y);
      }
      Pause p;
      if (a != b) m[a].swap(m[b]);
      return true;
    }
    case Reserve: {
      size_t n = (size_t)o.a[3] % 70;
      get(a).reserve(n);
      if (get(a).capacity() < n) mismatch("capacity after reserve", get(a).capacity(), n);
      return true;
    }
    case Truncate: {
      size_t n = (size_t)o.a[3] % 8;
      V &x = get(a);
      size_t cap = x.capacity();
      x.truncate(n);
      if (x.capacity() != cap) mismatch("capacity after truncate", x.capacity(), cap);
      Pause p;
      if (m[a].size() > n) m[a].resize(n);
      return true;
    }
    case Clear: {
      V &x = get(a);
      size_t cap = x.capacity();
      x.clear();
      if (x.capacity() != cap) mismatch("capacity after clear", x.capacity(), cap);
      Pause p;
      m[a].clear();
      return true;
    }
    case At: {
      V &x = get(a);
      size_t n = m[a].size(), i = o.a[3] % 5 == 0 ? n : o.a[3] % 5 == 1 ? (size_t)-1 - (size_t)o.a[3] : (size_t)o.a[3] % (n + 1);
      uint64_t d = 0;
      Ex e = attempt(o, false, ft, [&] { d = El<T>::dig(o.id & 1 ? x.at(i) : static_cast<const V &>(x).at(i)); });
      if ((e == E_RANGE) != (i >= n)) mismatch("at() range check", i, n);
      if (e == E_NONE && i < n && d != dig_of<T>(m[a][i])) mismatch("at() element", i);
      return true;
    }
    case Index: case FrontBack: {
      V &x = get(a);
      const V &cx = x;
      size_t n = m[a].size();
      if (!n) return true;
      size_t i = (size_t)o.a[3] % n;
      if (op == FrontBack) {
        if (El<T>::dig(x.front()) != dig_of<T>(m[a][0]) || El<T>::dig(cx.front()) != dig_of<T>(m[a][0])) mismatch("front()");
        if (El<T>::dig(x.back()) != dig_of<T>(m[a][n - 1]) || El<T>::dig(cx.back()) != dig_of<T>(m[a][n - 1])) mismatch("back()");
      } else if (El<T>::dig(x[i]) != dig_of<T>(m[a][i]) || &x[i] != &cx[i] || x.data() != cx.data()) {
        mismatch("operator[]", i);
      }
      return true;
    }
    case Iter: {
      V &x = get(a);
      const V &cx = x;
      size_t n = m[a].size(), k = 0;
      for (auto &e : x) {
        if (k >= n || El<T>::dig(e) != dig_of<T>(m[a][k])) mismatch("iteration", k, n);
        if (++k > n) break;
      }
      if (k != n) mismatch("iteration length", k, n);
      k = 0;
      for (auto it = cx.begin(); it != cx.end(); it++) {
        if (k >= n || El<T>::dig(*it) != dig_of<T>(m[a][k])) mismatch("const iteration", k, n);
        if (++k > n) break;
      }
      if (k != n) mismatch("const iteration length", k, n);
      // backwards
      auto it = cx.cend();
      while (it != cx.cbegin()) {
        --it;
        if (k == 0) {
          mismatch("backward iteration");
          break;
        }
        k--;
        if (El<T>::dig(*it) != dig_of<T>(m[a][k])) mismatch("backward iteration", k);
      }
      if (k != 0) mismatch("backward iteration length", k);
      return true;
    }
    case Arith: {
      V &x = get(a);
      ptrdiff_t n = (ptrdiff_t)m[a].size();
      ptrdiff_t i = n ? (ptrdiff_t)(o.a[3] % (n + 1)) : 0, j = n ? (ptrdiff_t)(o.id % (uint64_t)(n + 1)) : 0;
      auto p = x.begin() + i, q = x.end() - (n - j);
      if (q - p != j - i || (p < q) != (i < j) || (p <= q) != (i <= j) || (p > q) != (i > j) || (p >= q) != (i >= j) || (p == q) != (i == j) || (p != q) != (i != j))
        mismatch("iterator arithmetic", (uint64_t)i, (uint64_t)j);
      auto r = p;
      r += j - i;
      if (!(r == q)) mismatch("iterator +=", (uint64_t)i, (uint64_t)j);
      r -= j - i;
      if (!(r == p)) mismatch("iterator -=", (uint64_t)i, (uint64_t)j);
      if (j < n && El<T>::dig(p[j - i]) != dig_of<T>(m[a][(size_t)j])) mismatch("iterator []", (uint64_t)i, (uint64_t)j);
      if (i < n) {
        if (El<T>::dig(*p.operator->()) != dig_of<T>(m[a][(size_t)i])) mismatch("iterator ->", (uint64_t)i);
        auto s = p++;
        if (!(s + 1 == p) || !(1 + s == p)) mismatch("iterator ++");
        s = p--;
        if (!(s - 1 == p)) mismatch("iterator --");
      }
      return true;
    }
    case SliceView: {
      V &x = get(a);
      rust::Slice<const T> s(x.data(), x.size());
      rust::Slice<T> w(x);
      size_t n = m[a].size();
      if (s.size() != n || w.length() != n || s.empty() != (n == 0)) mismatch("slice length", s.size(), n);
      rust::Slice<const T> c = s, e;
      e = c;
      rust::Slice<const T> z;
      if (!z.empty() || z.begin() != z.end() || z.data() == nullptr) mismatch("empty slice");
      e.swap(z);
      if (e.size() != 0 || z.size() != n) mismatch("slice swap", e.size(), z.size());
      size_t k = 0;
      for (const T &t : z) {
        if (k >= n || El<T>::dig(t) != dig_of<T>(m[a][k])) mismatch("slice iteration", k, n);
        k++;
      }
      if (k != n) mismatch("slice iteration length", k, n);
      if (n && (&s.front() != &x.front() || &s.back() != &x.back() || &w[n - 1] != &x[n - 1])) mismatch("slice elements");
      if (Other<T>::sdigest(s) != digest<T>(m[a])) mismatch("Rust sees another slice");
      if (Other<T>::sdigest(rust::Slice<const T>()) != 5) mismatch("Rust sees another empty slice");
      rust::Slice<const T> nul(static_cast<const T *>(nullptr), 0);
      rust::Slice<T> wnul(static_cast<T *>(nullptr), 0);
      if (!nul.empty() || nul.begin() != nul.end() || nul.data() == nullptr || wnul.data() == nullptr) mismatch("slice of a null pointer");
      if (Other<T>::sdigest(nul) != 5) mismatch("Rust sees another slice of a null pointer");
      Other<T>::rev(wnul);
      return true;
    }
    case SliceAt: {
      V &x = get(a);
      rust::Slice<T> w(x);
      size_t n = m[a].size(), i = (size_t)o.a[3] % (n + 2);
      uint64_t d = 0;
      Ex e = attempt(o, false, ft, [&] { d = El<T>::dig(w.at(i)); });
      if ((e == E_RANGE) != (i >= n)) mismatch("Slice::at() range check", i, n);
      if (e == E_NONE && i < n && d != dig_of<T>(m[a][i])) mismatch("Slice::at() element", i);
      return true;
    }
    case Pass: {
      V &x = get(a);
      V y = Other<T>::pass(std::move(x));
      if (!x.empty()) mismatch("passed vector is not empty");
      x = std::move(y);
      return true;
    }
    case RPush: {
      Other<T>::push(get(a), o.id);
      Pause p;
      m[a].push_back(o.id);
      return true;
    }
    case RRemove: {
      if (m[a].empty()) return true;
      size_t i = (size_t)o.a[3] % m[a].size();
      Other<T>::remove(get(a), i);
      Pause p;
      m[a].erase(m[a].begin() + (ptrdiff_t)i);
      return true;
    }
    case Take: {
      V &x = get(a);
      uint64_t d = Other<T>::take(std::move(x));
      if (d != digest<T>(m[a])) mismatch("taken vector differs");
      if (!x.empty()) mismatch("taken vector is not empty");
      Pause p;
      m[a] = {};
      return true;
    }
    case RMake: {
      size_t n = (size_t)o.a[3] % 6;
      get(a) = Other<T>::make(o.id, n);
      Pause p;
      m[a] = {};
      for (size_t i = 0; i < n; i++) m[a].push_back(o.id + i);
      return true;
    }
    case RRev: {
      V &x = get(a);
      Other<T>::rev(rust::Slice<T>(x));
      Pause p;
      std::reverse(m[a].begin(), m[a].end());
      return true;
    }
    case RSlice: {
      V &x = get(a);
      size_t n = m[a].size(), i = n ? (size_t)o.a[3] % (n + 1) : 0, j = i + (n - i ? o.id % (n - i + 1) : 0);
      rust::Slice<const T> s = Other<T>::slice(x, i, j);
      rust::Slice<T> w = Other<T>::mslice(x, i, j);
      if (s.size() != j - i || w.size() != j - i) mismatch("slice from Rust", s.size(), j - i);
      uint64_t d = 5, e = 5;
      for (size_t k = 0; k < s.size(); k++) d = mixd(d, El<T>::dig(s[k])), e = mixd(e, dig_of<T>(m[a][i + k]));
      if (d != e || (j > i && &w[0] != &x[i])) mismatch("slice from Rust: elements");
      return true;
    }
    default: return false;
    }
  }
};

template <class T> struct Cont : Base<T> {
  using B = Base<T>;
  typedef rust::Vec<T> V;
  using B::m; using B::v; using B::get; using B::adopt;
  void op(const h_op &o, Op op, int a, int b) {
    if (this->common(o, op, a, b)) return;
    Fault ft;
    bool can = El<T>::throws;
    switch (op) {
    case NewList: {
      size_t n = (size_t)o.a[3] % 4;
      // the list's own elements are made before the fault is armed
      T x = El<T>::make(o.id), y = El<T>::make(o.id + 1), z = El<T>::make(o.id + 2);
      V *nv = nullptr;
      std::unique_ptr<T> e0;
      (void)e0;
      Ex e = attempt(o, can, ft, [&] {
        nv = n == 0 ? new V({}) : n == 1 ? new V({x}) : n == 2 ? new V({x, y}) : new V({x, y, z});
      });
      if (e == E_NONE) {
        delete v[a];
        v[a] = nv;
        Pause p;
        m[a] = {};
        for (size_t i = 0; i < n; i++) m[a].push_back(o.id + i);
      }
      return;
    }
    case NewCopy: {
      V *n = nullptr;
      V &src = get(b);
      Ex e = attempt(o, can, ft, [&] { n = new V(static_cast<const V &>(src)); });
      if (e == E_NONE) {
        M mm;
        {
          Pause p;
          mm = m[b];
        }
        delete v[a];
        v[a] = n;
        Pause p;
        m[a] = mm;
        mm = M();
      }
      return;
    }
    case AssignCopy: {
      V &dst = get(a);
      const V &src = get(b);
      Ex e = attempt(o, can, ft, [&] { V &r = (dst = src); if (&r != &dst) mismatch("operator= result"); });
      Pause p;
      if (e == E_NONE) {
        M t = m[b];
        m[a] = t;
      } else {
        M known = m[a];
        known.insert(known.end(), m[b].begin(), m[b].end());
        adopt(a, known);
      }
      return;
    }
    case PushCopy: {
      T x = El<T>::make(o.id);
      V &d = get(a);
      Ex e = attempt(o, can, ft, [&] { d.push_back(x); });
      if (El<T>::dig(x) != dig_of<T>(o.id)) mismatch("push_back changed its source");
      Pause p;
      if (e == E_NONE) m[a].push_back(o.id);
      return;
    }
    case PushMove: {
      T x = El<T>::make(o.id);
      V &d = get(a);
      Ex e = attempt(o, can, ft, [&] { d.push_back(std::move(x)); });
      Pause p;
      if (e == E_NONE) m[a].push_back(o.id);
      return;
    }
    case PushSelf: case EmplaceSelf: {
      V &d = get(a);
      if (m[a].empty()) return;
      size_t i = (size_t)o.a[3] % m[a].size();
      Ex e = attempt(o, can, ft, [&] { op == PushSelf ? d.push_back(d[i]) : d.emplace_back(static_cast<const V &>(d)[i]); });
      Pause p;
      if (e == E_NONE) m[a].push_back(m[a][i]);
      return;
    }
    case Emplace: {
      V &d = get(a);
      T x = El<T>::make(o.id);
      Ex e = attempt(o, can, ft, [&] { d.emplace_back(static_cast<const T &>(x)); });
      Pause p;
      if (e == E_NONE) m[a].push_back(o.id);
      return;
    }
    case BackInsert: {
      // a standard algorithm writing into the vector, stopped in the middle
      V &d = get(a), &s = get(b);
      if (a == b) return;
      Ex e = attempt(o, can, ft, [&] { std::copy(s.begin(), s.end(), std::back_inserter(d)); });
      Pause p;
      if (e == E_NONE) {
        m[a].insert(m[a].end(), m[b].begin(), m[b].end());
      } else {
        size_t n = m[a].size(), k = v[a]->size();
        M known = m[a];
        known.insert(known.end(), m[b].begin(), m[b].end());
        M expect = known;
        adopt(a, known);
        if (k < n || k > expect.size() || !std::equal(m[a].begin(), m[a].end(), expect.begin())) mismatch("contents after an exception", k, n);
      }
      return;
    }
    case Set: {
      V &d = get(a);
      if (m[a].empty()) return;
      size_t i = (size_t)o.a[3] % m[a].size();
      d[i] = El<T>::make(o.id);
      Pause p;
      m[a][i] = o.id;
      return;
    }
    case MoveOut: {
      V &d = get(a);
      if (m[a].empty()) return;
      size_t i = (size_t)o.a[3] % m[a].size();
      T x = std::move(d[i]);
      if (El<T>::dig(x) != dig_of<T>(m[a][i])) mismatch("moved element");
      d.at(i) = std::move(x);
      return;
    }
    case Sort: {
      V &d = get(a);
      auto less = [](const T &x, const T &y) { return El<T>::dig(x) < El<T>::dig(y); };
      int how = o.a[3] % 3;
      size_t n = m[a].size(), r = n ? o.id % n : 0;
      if (how == 0) std::sort(d.begin(), d.end(), less);
      if (how == 1) std::reverse(d.begin(), d.end());
      if (how == 2) std::rotate(d.begin(), d.begin() + (ptrdiff_t)r, d.end());
      Pause p;
      if (how == 0) {
        std::sort(m[a].begin(), m[a].end(), [](uint64_t x, uint64_t y) { return dig_of<T>(x) < dig_of<T>(y); });
      }
      if (how == 1) std::reverse(m[a].begin(), m[a].end());
      if (how == 2) std::rotate(m[a].begin(), m[a].begin() + (ptrdiff_t)r, m[a].end());
      return;
    }
    case SliceAssign: {
      V &d = get(a);
      rust::Slice<T> w(d), u;
      u = std::move(w);
      if (u.size() != m[a].size()) mismatch("slice assignment", u.size(), m[a].size());
      size_t n = u.size();
      if (n) {
        size_t i = (size_t)o.a[3] % n;
        u[i] = El<T>::make(o.id);
        Pause p;
        m[a][i] = o.id;
      }
      return;
    }
    default: return;
    }
  }
};

// ------------------------------------------------------------------ boxes
enum BOp { BCopy, BMove, BInPlace, BMoveCtor, BAssign, BSwap, BSwapF, BRaw, BPass, BDrop, BDeref, BMake, BTake, BSet, NBOPS };
const char *bnames[] = {"BCopy", "BMove", "BInPlace", "BMoveCtor", "BAssign", "BSwap", "BSwapF", "BRaw", "BPass", "BDrop", "BDeref", "BMake", "BTake", "BSet"};
template <class T> struct BOther;
#define BOTHER(T, K)                                                                                                   \
  template <> struct BOther<T> {                                                                                       \
    static rust::Box<T> pass(rust::Box<T> b) { return b_pass_##K(std::move(b)); }                                      \
    static void drop(rust::Box<T> b) { b_drop_##K(std::move(b)); }                                                     \
    static uint64_t digest(const T &b) { return b_digest_##K(b); }                                                     \
    static rust::Box<T> make(uint64_t id) { return b_make_##K(id); }                                                   \
  };
BOTHER(Rec2, rec2)
BOTHER(Pod2, pod2)
BOTHER(OItem, oitem)
// fields of a T to be built in place; making them happens before the fault is armed
template <class T> struct Fields;
template <> struct Fields<Rec2> {
  Tok t, u;
  rust::String s;
  uint32_t n;
  Fields(uint64_t id) : t(id), u(id + 1), s(rt::make<rust::String>(id)), n((uint32_t)id) {}
  rust::Box<Rec2> box() { return rust::Box<Rec2>::in_place(static_cast<const Tok &>(t), static_cast<const rust::String &>(s), static_cast<const Tok &>(u), n); }
};
template <> struct Fields<Pod2> {
  uint64_t id;
  Fields(uint64_t id) : id(id) {}
  rust::Box<Pod2> box() { return rust::Box<Pod2>::in_place(h_mix(id), (uint8_t)id); }
};
template <class T> struct BBase {
  rust::Box<T> *b[NS] = {};
  uint64_t m[NS]; // DEAD: moved from
  void put(int s, rust::Box<T> *n, uint64_t id) {
    delete b[s];
    b[s] = n;
    m[s] = id;
  }
  void check_all() {
    int q = sim_quiet();
    for (int s = 0; s < NS; s++) {
      if (!b[s] || m[s] == DEAD) continue;
      if (El<T>::dig(**b[s]) != dig_of<T>(m[s])) mismatch("box contents", s, m[s]);
      if (BOther<T>::digest(**b[s]) != dig_of<T>(m[s])) mismatch("Rust sees other box contents", s, m[s]);
    }
    sim_resume(q);
  }
  int64_t total() {
    int64_t n = 0;
    for (int s = 0; s < NS; s++) n += full(s);
    return n;
  }
  int64_t tokens() { return El<T>::toks * total(); }
  void destroy() {
    for (int s = 0; s < NS; s++) put(s, nullptr, DEAD);
  }
  bool full(int s) { return b[s] && m[s] != DEAD; }
  void op(const h_op &o, BOp op, int a, int c) {
    switch (op) {
    case BMoveCtor: {
      if (!full(c) || a == c) return;
      auto *n = new rust::Box<T>(std::move(*b[c]));
      uint64_t id = m[c];
      m[c] = DEAD;
      put(a, n, id);
      return;
    }
    case BAssign: {
      // moved-from boxes may be assigned to and from
      if (!b[c] || !b[a] || a == c) return;
      *b[a] = std::move(*b[c]);
      m[a] = m[c];
      m[c] = DEAD;
      return;
    }
    case BSwap: case BSwapF: {
      if (!b[a] || !b[c]) return;
      if (op == BSwap) {
        b[a]->swap(*b[c]);
      } else {
        using std::swap;
        swap(*b[a], *b[c]);
      }
      std::swap(m[a], m[c]);
      return;
    }
    case BRaw: {
      if (!full(a)) return;
      T *raw = b[a]->into_raw();
      if (El<T>::dig(*raw) != dig_of<T>(m[a])) mismatch("into_raw target", m[a]);
      put(a, new rust::Box<T>(rust::Box<T>::from_raw(raw)), m[a]);
      return;
    }
    case BPass: {
      if (!full(a)) return;
      *b[a] = BOther<T>::pass(std::move(*b[a]));
      return;
    }
    case BDrop: {
      if (o.id & 1) {
        put(a, nullptr, DEAD);
      } else if (full(a)) {
        BOther<T>::drop(std::move(*b[a]));
        m[a] = DEAD;
      }
      return;
    }
    case BDeref: {
      if (!full(a)) return;
      const rust::Box<T> &cb = *b[a];
      if (&*cb != &**b[a] || cb.operator->() != b[a]->operator->() || &*cb != cb.operator->()) mismatch("box pointers");
      return;
    }
    case BMake: put(a, new rust::Box<T>(BOther<T>::make(o.id)), o.id); return;
    default: return;
    }
  }
};
template <class T> struct Boxes : BBase<T> {
  using B = BBase<T>;
  using B::b; using B::m; using B::put; using B::full;
  void op(const h_op &o, BOp op, int a, int c) {
    Fault ft;
    bool can = El<T>::throws;
    switch (op) {
    case BCopy: case BMove: case BInPlace: {
      T x = El<T>::make(o.id);
      Fields<T> f(o.id);
      rust::Box<T> *n = nullptr;
      Ex e = attempt(o, can, ft, [&] {
        n = op == BCopy ? new rust::Box<T>(static_cast<const T &>(x)) : op == BMove ? new rust::Box<T>(std::move(x)) : new rust::Box<T>(f.box());
      });
      if (e == E_NONE) put(a, n, o.id);
      return;
    }
    case BTake: {
      if (!full(a)) return;
      T x = std::move(**b[a]);
      if (El<T>::dig(x) != dig_of<T>(m[a])) mismatch("value moved out of a box");
      **b[a] = std::move(x);
      return;
    }
    case BSet: {
      if (!full(a)) return;
      **b[a] = El<T>::make(o.id);
      m[a] = o.id;
      return;
    }
    default: return B::op(o, op, a, c);
    }
  }
};
template <> struct Boxes<OItem> : BBase<OItem> {};

template <class T> Cont<T> &cont() {
  static Cont<T> c;
  return c;
}
template <class T> Boxes<T> &boxes() {
  static Boxes<T> c;
  return c;
}
template <> struct Cont<OItem> : Base<OItem> {
  void op(const h_op &o, Op op, int a, int b) { common(o, op, a, b); }
};
// every live element belongs to a container
void check_tokens() {
  int64_t have = sim_obj_count(KIND_TOK), want = cont<Tok>().tokens() + cont<Rec2>().tokens() + boxes<Rec2>().tokens();
  if (have != want) mismatch("live elements", (uint64_t)have, (uint64_t)want);
  have = sim_obj_count(KIND_ROBJ), want = boxes<OItem>().total();
  for (int s = 0; s < NS; s++) want += (int64_t)cont<OItem>().m[s].size();
  if (have != want) mismatch("live opaque elements", (uint64_t)have, (uint64_t)want);
}
template <class T> void run_op(const h_op &o, uint32_t f, int a, int b) {
  cont<T>().op(o, (Op)f, a, b);
  cont<T>().check_all();
  check_tokens();
}
template <class T> void run_box(const h_op &o, uint32_t f, int a, int b) {
  boxes<T>().op(o, (BOp)(f - NOPS), a, b);
  boxes<T>().check_all();
  check_tokens();
}
} // namespace
extern "C" const char *rt_cont_name(uint32_t f) { return f < NOPS ? names[f] : f < NOPS + NBOPS ? bnames[f - NOPS] : nullptr; }
extern "C" void rt_cont_op(uint64_t i) {
  const h_op &o = h_ops[i];
  cur = i;
  int a = (int)(o.a[1] % NS), b = (int)(o.a[2] % NS);
  if (o.f >= NOPS) {
    if (o.a[0] == 1) run_box<Rec2>(o, o.f, a, b);
    else if (o.a[0] == 2) run_box<OItem>(o, o.f, a, b);
    else run_box<Pod2>(o, o.f, a, b);
    return;
  }
  switch (o.a[0]) {
  case 0: return run_op<uint8_t>(o, o.f, a, b);
  case 1: return run_op<Tok>(o, o.f, a, b);
  case 2: return run_op<rust::String>(o, o.f, a, b);
  case 3: return run_op<Rec2>(o, o.f, a, b);
  case 4: return run_op<Txt>(o, o.f, a, b);
  case 5: return run_op<double>(o, o.f, a, b);
  case 6: return run_op<bool>(o, o.f, a, b);
  case 7: return run_op<Pod>(o, o.f, a, b);
  case 9: return run_op<int8_t>(o, o.f, a, b);
  case 10: return run_op<uint16_t>(o, o.f, a, b);
  case 11: return run_op<int16_t>(o, o.f, a, b);
  case 12: return run_op<uint32_t>(o, o.f, a, b);
  case 13: return run_op<int32_t>(o, o.f, a, b);
  case 14: return run_op<uint64_t>(o, o.f, a, b);
  case 15: return run_op<int64_t>(o, o.f, a, b);
  case 16: return run_op<float>(o, o.f, a, b);
  case 17: return run_op<char>(o, o.f, a, b);
  case 18: return run_op<rust::Str>(o, o.f, a, b);
  default: return run_op<OItem>(o, o.f, a, b);
  }
}
extern "C" void rt_cont_done() {
  cont<uint8_t>().destroy();
  cont<Tok>().destroy();
  cont<rust::String>().destroy();
  cont<Rec2>().destroy();
  cont<Txt>().destroy();
  cont<double>().destroy();
  cont<bool>().destroy();
  cont<Pod>().destroy();
  cont<OItem>().destroy();
  cont<int8_t>().destroy();
  cont<uint16_t>().destroy();
  cont<int16_t>().destroy();
  cont<uint32_t>().destroy();
  cont<int32_t>().destroy();
  cont<uint64_t>().destroy();
  cont<int64_t>().destroy();
  cont<float>().destroy();
  cont<char>().destroy();
  cont<rust::Str>().destroy();
  boxes<OItem>().destroy();
  boxes<Rec2>().destroy();
  boxes<Pod2>().destroy();
}
} // namespace rt
