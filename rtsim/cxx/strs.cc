// Workload "strs": rust::String and rust::Str against plain text, with constructions from text that
// is not valid and allocations that fail in the middle of histories.
#include "rtsim/cxx/calls.h"
#include "rtsim/cxx/elem.h"
#include "rtsim/cxx/strfwd.h"
#include "rtsim/src/w_strs.rs.h"
#include <algorithm>
#include <sstream>
#include <string_view>
namespace rt {
namespace {
uint64_t cur;
void mismatch(const char *what, uint64_t a = 0, uint64_t b = 0) {
  int p = sim_pause();
  char m[300];
  snprintf(m, sizeof m, "%s (%llu, expected %llu)", what, (unsigned long long)a, (unsigned long long)b);
  h_bad(V_MODEL, cur, m);
  sim_resume(p);
}
void report(int cls, const char *what) {
  int p = sim_pause();
  h_bad(cls, cur, what);
  sim_resume(p);
}
// takes a number of bytes and then fails
struct Limited : std::streambuf {
  size_t limit;
  std::string got;
  explicit Limited(size_t n) : limit(n) {}
  int_type overflow(int_type c) override {
    if (got.size() >= limit) return traits_type::eof();
    got += (char)c;
    return c;
  }
  std::streamsize xsputn(const char *p, std::streamsize n) override {
    size_t k = std::min((size_t)n, limit - got.size());
    got.append(p, k);
    return (std::streamsize)k;
  }
};
// ------------------------------------------------------------------ oracle
const char FFFD[] = "\xEF\xBF\xBD";
// true if the bytes are UTF-8; out receives them with U+FFFD for each maximal invalid part
bool decode8(const std::string &in, std::string &out) {
  bool ok = true;
  size_t n = in.size();
  for (size_t i = 0; i < n;) {
    unsigned b = (unsigned char)in[i];
    if (b < 0x80) {
      out += (char)b;
      i++;
      continue;
    }
    size_t need = 0;
    unsigned lo = 0x80, hi = 0xBF;
    if (b >= 0xC2 && b <= 0xDF) need = 1;
    else if (b >= 0xE0 && b <= 0xEF) {
      need = 2;
      if (b == 0xE0) lo = 0xA0;
      if (b == 0xED) hi = 0x9F;
    } else if (b >= 0xF0 && b <= 0xF4) {
      need = 3;
      if (b == 0xF0) lo = 0x90;
      if (b == 0xF4) hi = 0x8F;
    }
    size_t k = 1;
    while (k <= need && i + k < n) {
      unsigned c = (unsigned char)in[i + k];
      if (c < (k == 1 ? lo : 0x80) || c > (k == 1 ? hi : 0xBF)) break;
      k++;
    }
    if (need && k == need + 1) out.append(in, i, k);
    else {
      out += FFFD;
      ok = false;
    }
    i += k;
  }
  return ok;
}
void put(std::string &out, uint32_t c) {
  if (c < 0x80) out += (char)c;
  else if (c < 0x800) {
    out += (char)(0xC0 | c >> 6);
    out += (char)(0x80 | (c & 63));
  } else if (c < 0x10000) {
    out += (char)(0xE0 | c >> 12);
    out += (char)(0x80 | (c >> 6 & 63));
    out += (char)(0x80 | (c & 63));
  } else {
    out += (char)(0xF0 | c >> 18);
    out += (char)(0x80 | (c >> 12 & 63));
    out += (char)(0x80 | (c >> 6 & 63));
    out += (char)(0x80 | (c & 63));
  }
}
bool decode16(const std::u16string &in, std::string &out) {
  bool ok = true;
  for (size_t i = 0; i < in.size(); i++) {
    uint32_t c = in[i];
    if (c < 0xD800 || c > 0xDFFF) put(out, c);
    else if (c < 0xDC00 && i + 1 < in.size() && in[i + 1] >= 0xDC00 && in[i + 1] <= 0xDFFF) {
      put(out, 0x10000 + ((c - 0xD800) << 10) + (in[i + 1] - 0xDC00u));
      i++;
    } else {
      out += FFFD;
      ok = false;
    }
  }
  return ok;
}
// ------------------------------------------------------------------ inputs
struct R {
  uint64_t s;
  uint64_t operator()(uint64_t n) {
    s = h_mix(s + 0x9e37);
    return (s >> 8) % n;
  }
};
const uint32_t points[] = {'a', 'Z', '~', 0x7F, 0x80, 0xE9, 0x7FF, 0x800, 0x20AC, 0xD7FF, 0xE000, 0xFFFD, 0xFFFF, 0x10000, 0x1F600, 0x10FFFF, 0, '\n', ' ', '0'};
uint32_t point(R &r) {
  uint64_t k = r(8);
  if (k < 3) return 'a' + (uint32_t)r(26);
  if (k < 7) return points[r(20)];
  uint32_t c = (uint32_t)r(0x110000);
  return c >= 0xD800 && c < 0xE000 ? 0xFFFD : c;
}
size_t length(R &r) {
  uint64_t k = r(8);
  return k == 0 ? 0 : k < 5 ? 1 + r(8) : k < 7 ? r(40) : r(300);
}
std::string valid8(uint64_t id) {
  R r{id};
  std::string s;
  for (size_t n = length(r); n; n--) put(s, point(r));
  return s;
}
std::string input8(uint64_t id, bool corrupt) {
  std::string s = valid8(id);
  if (!corrupt) return s;
  R r{id * 31 + 7};
  for (uint64_t k = 1 + r(3); k; k--) {
    size_t at = s.empty() ? 0 : r(s.size() + 1);
    switch (r(7)) {
    case 0: s.insert(at, 1, (char)(0x80 + r(0x80))); break;
    case 1: if (at < s.size()) s[at] = (char)r(256); break;
    case 2: if (at < s.size()) s.erase(at, 1); break;
    case 3: s.resize(at); break;
    case 4: s.insert(at, "\xED\xA0\x80"); break; // a surrogate
    case 5: s.insert(at, r(2) ? "\xC0\xAF" : "\xF4\x90\x80\x80"); break; // overlong, too large
    default: s.insert(at, "\xF0\x9F\x98", 3); break; // cut off
    }
  }
  return s;
}
std::u16string input16(uint64_t id, bool corrupt) {
  R r{id};
  std::u16string s;
  for (size_t n = length(r); n; n--) {
    uint32_t c = point(r);
    if (c < 0x10000) s += (char16_t)c;
    else {
      s += (char16_t)(0xD800 + ((c - 0x10000) >> 10));
      s += (char16_t)(0xDC00 + (c & 0x3FF));
    }
  }
  if (corrupt)
    for (uint64_t k = 1 + r(2); k; k--) {
      size_t at = r(s.size() + 1);
      if (r(3) == 0 && at < s.size()) s.erase(at, 1);
      else s.insert(at, 1, (char16_t)(0xD800 + r(0x800)));
    }
  return s;
}

// ------------------------------------------------------------------ state
const int NS = 4, NT = 3;
struct State {
  rust::String *s[NS];
  std::string m[NS];
  rust::Str t[NT];
  std::string tm[NT];
  std::string *lend[NT];
  int from[NT];
};
State *S;
void forget(int a) { // borrowed views of a string that changes
  for (int t = 0; t < NT; t++)
    if (S->from[t] == a) {
      S->t[t] = rust::Str();
      S->tm[t].clear();
      S->from[t] = -1;
    }
}
template <class T> bool same(const T &x, const std::string &m) {
  return x.size() == m.size() && std::memcmp(x.data(), m.data(), m.size()) == 0;
}
void check_all() {
  int q = sim_quiet();
  for (int i = 0; i < NS; i++) {
    const rust::String &x = *S->s[i];
    const std::string &m = S->m[i];
    if (!same(x, m)) mismatch("contents of a string", x.size(), m.size());
    if (x.length() != m.size() || x.empty() != m.empty() || x.capacity() < x.size()) mismatch("length, empty or capacity", x.length(), m.size());
    if (x.begin() != x.data() || x.end() != x.data() + x.size() || x.cbegin() != x.begin() || x.cend() != x.end()) mismatch("iterators of a string");
    if (!z_valid(x)) mismatch("a string is not valid");
    if (z_digest(x) != fnv(m.data(), m.size())) mismatch("Rust sees other contents");
  }
  for (int i = 0; i < NT; i++) {
    const rust::Str &x = S->t[i];
    const std::string &m = S->tm[i];
    if (!same(x, m)) mismatch("contents of a Str", x.size(), m.size());
    if (x.length() != m.size() || x.empty() != m.empty()) mismatch("length or empty of a Str", x.length(), m.size());
    if (x.begin() != x.data() || x.end() != x.data() + x.size() || x.cbegin() != x.begin() || x.cend() != x.end()) mismatch("iterators of a Str");
    if (!z_str_valid(x)) mismatch("a Str is not valid");
    if (z_str_digest(x) != fnv(m.data(), m.size())) mismatch("Rust sees other contents of a Str");
  }
  sim_resume(q);
}
int sign(int x) { return (x > 0) - (x < 0); }
template <class A, class B> void compare(const A &x, const B &y, const std::string &mx, const std::string &my) {
  // char_traits<char>::compare is by unsigned bytes, like the order of str
  int c = sign(mx.compare(my));
  if ((x == y) != (c == 0) || (x != y) != (c != 0)) mismatch("equality");
  if ((x < y) != (c < 0) || (x <= y) != (c <= 0) || (x > y) != (c > 0) || (x >= y) != (c >= 0)) mismatch("ordering");
  if (z_cmp(x, y) != c) mismatch("ordering in Rust");
}
enum Ex { E_NONE, E_INVALID, E_ALLOC, E_OTHER };
template <class F> Ex attempt(F f) {
  try {
    f();
    return E_NONE;
  } catch (const std::invalid_argument &e) {
    if (!*e.what()) mismatch("no text in the exception");
    return E_INVALID;
  } catch (const std::bad_alloc &) {
    return E_ALLOC;
  } catch (const std::exception &) {
    return E_OTHER;
  }
}
// makes a string that may be refused
template <class F> void construct(int a, bool ok, const std::string &text, F f) {
  rust::String *n = nullptr;
  size_t live = sim_live_blocks();
  Ex e = attempt([&] { n = f(); });
  if (e != (ok ? E_NONE : E_INVALID)) mismatch("outcome of a construction", e, ok ? E_NONE : E_INVALID);
  if (e != E_NONE) {
    sim_probe(4);
    if (sim_live_blocks() != live) mismatch("memory kept by a refused construction", sim_live_blocks(), live);
    return;
  }
  forget(a);
  delete S->s[a];
  S->s[a] = n;
  S->m[a] = text;
}
// a borrowed view that may be refused
template <class F> void view(int t, bool ok, const std::string &text, std::string *lend, int from, const char *at, F f) {
  rust::Str n;
  size_t live = sim_live_blocks();
  Ex e = attempt([&] { n = f(); });
  if (e != (ok ? E_NONE : E_INVALID)) mismatch("outcome of a construction of a Str", e, ok ? E_NONE : E_INVALID);
  if (e != E_NONE) {
    sim_probe(4);
    if (sim_live_blocks() != live) mismatch("memory kept by a refused construction", sim_live_blocks(), live);
    if (!n.empty()) mismatch("a refused construction changed a Str");
    delete lend;
    return;
  }
  if (at && !text.empty() && n.data() != at) mismatch("a Str refers to other memory");
  delete S->lend[t];
  S->lend[t] = lend;
  S->from[t] = from;
  S->t[t] = n;
  S->tm[t] = text;
}

enum Op {
  FromStd, FromPtr, FromPtrLen, FromNull, From16, From16Len, From16Null, Empty, LossyStd, LossyPtr, LossyLen, LossyNull, Lossy16, Lossy16Len,
  Lossy16Null, Copy, Move, AssignCopy, AssignMove, SelfCopy, SelfMove, AssignTemp, AssignRefused, SwapM, SwapF, SelfSwap, StdSwap, Reserve, CStr, ToStd, Iterate,
  Mutate, Compare, CompareStr, Stream, RPass, RTake, RMake, RPush, RCut, RInsert, RClear, RShrink, RSwap, RReplace, RVia, RParse, RView,
  TDefault, TFromStd, TFromPtr, TFromLen, TFromNull, TFromString, TCopy, TSwap, TPass, TSlice, TToStd, TToView, TIterate, TToString, TStream, TCompare, InVec, StreamFail, NOPS
};
const char *names[] = {
  "FromStd", "FromPtr", "FromPtrLen", "FromNull", "From16", "From16Len", "From16Null", "Empty", "LossyStd", "LossyPtr", "LossyLen", "LossyNull", "Lossy16", "Lossy16Len",
  "Lossy16Null", "Copy", "Move", "AssignCopy", "AssignMove", "SelfCopy", "SelfMove", "AssignTemp", "AssignRefused", "SwapM", "SwapF", "SelfSwap", "StdSwap", "Reserve", "CStr", "ToStd", "Iterate",
  "Mutate", "Compare", "CompareStr", "Stream", "RPass", "RTake", "RMake", "RPush", "RCut", "RInsert", "RClear", "RShrink", "RSwap", "RReplace", "RVia", "RParse", "RView",
  "TDefault", "TFromStd", "TFromPtr", "TFromLen", "TFromNull", "TFromString", "TCopy", "TSwap", "TPass", "TSlice", "TToStd", "TToView", "TIterate", "TToString", "TStream", "TCompare", "InVec", "StreamFail"};
static_assert(sizeof names / sizeof *names == NOPS, "names");

void reset(int a, rust::String *n, const std::string &m) {
  forget(a);
  delete S->s[a];
  S->s[a] = n;
  S->m[a] = m;
}
// whatever text a moved-from string holds; it only has to be valid
void adopt(int a) {
  std::string now(S->s[a]->data(), S->s[a]->size()), x;
  if (!decode8(now, x)) mismatch("a moved-from string is not valid");
  S->m[a] = now;
}
rust::Slice<const uint8_t> bytes(const std::string &s) { return rust::Slice<const uint8_t>(reinterpret_cast<const uint8_t *>(s.data()), s.size()); }

void op(const h_op &o) {
  using std::swap;
  int a = (int)(o.a[1] % NS), b = (int)(o.a[2] % NS), t = (int)(o.a[1] % NT), u = (int)(o.a[2] % NT);
  bool corrupt = o.a[0] < 45;
  size_t n = (size_t)o.a[3];
  auto &s = S->s;
  auto &m = S->m;
  std::string in, lossy;
  std::u16string in16;
  bool ok = true;
  switch (o.f) {
  case FromStd: case FromPtr: case FromPtrLen: case LossyStd: case LossyPtr: case LossyLen: case TFromStd: case TFromPtr: case TFromLen: case AssignRefused: case RParse: case RView:
    in = input8(o.id, corrupt);
    if (o.f == FromPtr || o.f == LossyPtr || o.f == TFromPtr) in = in.c_str();
    ok = decode8(in, lossy);
    break;
  case From16: case From16Len: case Lossy16: case Lossy16Len:
    in16 = input16(o.id, corrupt);
    if (o.f == From16 || o.f == Lossy16) in16 = in16.c_str();
    ok = decode16(in16, lossy);
    break;
  case RMake: case RPush: case RInsert: in = valid8(o.id); break;
  default: break;
  }
  switch (o.f) {
  case FromStd: return construct(a, ok, in, [&] { return new rust::String(in); });
  case FromPtr:
#ifdef __cpp_char8_t
    if (o.msg & 1) return construct(a, ok, in, [&] { return new rust::String(reinterpret_cast<const char8_t *>(in.c_str())); });
#endif
    return construct(a, ok, in, [&] { return new rust::String(in.c_str()); });
  case FromPtrLen:
#ifdef __cpp_char8_t
    if (o.msg & 1) return construct(a, ok, in, [&] { return new rust::String(reinterpret_cast<const char8_t *>(in.data()), in.size()); });
#endif
    return construct(a, ok, in, [&] { return new rust::String(in.data(), in.size()); });
  case FromNull: return construct(a, true, "", [&] { return new rust::String(static_cast<const char *>(nullptr), 0); });
  case From16: return construct(a, ok, lossy, [&] { return new rust::String(in16.c_str()); });
  case From16Len: return construct(a, ok, lossy, [&] { return new rust::String(in16.data(), in16.size()); });
  case From16Null: return construct(a, true, "", [&] { return new rust::String(static_cast<const char16_t *>(nullptr), 0); });
  case Empty: return construct(a, true, "", [&] { return new rust::String(); });
  case LossyStd: return construct(a, true, lossy, [&] { return new rust::String(rust::String::lossy(in)); });
  case LossyPtr: return construct(a, true, lossy, [&] { return new rust::String(rust::String::lossy(in.c_str())); });
  case LossyLen: return construct(a, true, lossy, [&] { return new rust::String(rust::String::lossy(in.data(), in.size())); });
  case LossyNull: return construct(a, true, "", [&] { return new rust::String(rust::String::lossy(static_cast<const char *>(nullptr), 0)); });
  case Lossy16: return construct(a, true, lossy, [&] { return new rust::String(rust::String::lossy(in16.c_str())); });
  case Lossy16Len: return construct(a, true, lossy, [&] { return new rust::String(rust::String::lossy(in16.data(), in16.size())); });
  case Lossy16Null: return construct(a, true, "", [&] { return new rust::String(rust::String::lossy(static_cast<const char16_t *>(nullptr), 0)); });
  case Copy: return reset(a, new rust::String(*s[b]), m[b]);
  case Move: {
    forget(b);
    auto *x = new rust::String(std::move(*s[b]));
    std::string old = m[b];
    adopt(b);
    return reset(a, x, old);
  }
  case AssignCopy:
    forget(a);
    *s[a] = *s[b];
    m[a] = m[b];
    return;
  case AssignMove:
    if (a == b) return;
    forget(a);
    forget(b);
    *s[a] = std::move(*s[b]);
    m[a] = m[b];
    return adopt(b);
  case SelfCopy: {
    rust::String &r = *s[a];
    forget(a);
    *s[a] = r;
    return;
  }
  case SelfMove: {
    rust::String &r = *s[a];
    forget(a);
    *s[a] = std::move(r);
    return adopt(a);
  }
  case AssignTemp: {
    forget(a);
    std::string x = valid8(o.id);
    *s[a] = x;
    m[a] = x;
    return;
  }
  case AssignRefused: {
    forget(a);
    Ex e = attempt([&] { *s[a] = in; });
    if (e != (ok ? E_NONE : E_INVALID)) mismatch("outcome of an assignment", e, ok ? E_NONE : E_INVALID);
    if (e == E_NONE) m[a] = in;
    return;
  }
  case SwapM: case SwapF: case StdSwap:
    forget(a);
    forget(b);
    if (o.f == SwapM) s[a]->swap(*s[b]);
    else if (o.f == SwapF) swap(*s[a], *s[b]);
    else std::swap(*s[a], *s[b]);
    if (a != b) m[a].swap(m[b]);
    return;
  case SelfSwap: forget(a); s[a]->swap(*s[a]); return;
  case Reserve: {
    forget(a);
    size_t want = o.msg & 1 ? n % 64 : s[a]->capacity() + n % 5 - (n % 3 < s[a]->capacity() ? n % 3 : 0);
    s[a]->reserve(want);
    if (s[a]->capacity() < want) mismatch("capacity after reserve", s[a]->capacity(), want);
    const char *p = s[a]->data();
    // the room is really there
    std::string more(want > m[a].size() ? want - m[a].size() : 0, 'r');
    z_push(*s[a], bytes(more));
    if (s[a]->data() != p) mismatch("the string moved although there was room");
    m[a] += more;
    return;
  }
  case CStr: {
    forget(a);
    const char *c = s[a]->c_str();
    if (c != s[a]->data() || std::memcmp(c, m[a].data(), m[a].size()) != 0 || c[m[a].size()] != 0) mismatch("c_str()");
    return;
  }
  case ToStd: {
    if (o.outcome == 5) sim_fail_alloc(1);
    std::string *x = nullptr;
    Ex e = attempt([&] { x = new std::string(static_cast<std::string>(*s[a])); });
    bool fired = o.outcome == 5 && sim_fail_alloc_left() == 0;
    sim_fail_alloc(0);
    if (e != (fired ? E_ALLOC : E_NONE)) mismatch("outcome of a conversion", e, fired ? E_ALLOC : E_NONE);
    if (fired) sim_probe(2);
    if (x && *x != m[a]) mismatch("conversion to std::string");
    delete x;
    return;
  }
  case Iterate: {
    const rust::String &r = *s[a];
    std::string x;
    for (char c : r) x += c;
    if (x != m[a] || std::string(r.begin(), r.end()) != m[a] || std::string(r.cbegin(), r.cend()) != m[a] || std::string(s[a]->begin(), s[a]->end()) != m[a]) mismatch("iteration");
    if (std::count(r.begin(), r.end(), 'a') != std::count(m[a].begin(), m[a].end(), 'a')) mismatch("iteration");
    return;
  }
  case Mutate:
    forget(a);
    for (char &c : *s[a])
      if (c >= 'a' && c <= 'z') c = (char)(c - 32);
    for (char &c : m[a])
      if (c >= 'a' && c <= 'z') c = (char)(c - 32);
    return;
  case Compare: {
    if (o.msg & 1) { // a common beginning
      forget(a);
      z_cut(*s[a], 0);
      z_push(*s[a], bytes(m[b]));
      m[a] = m[b];
      std::string x = valid8(o.id);
      z_push(*s[a], bytes(x));
      m[a] += x;
      if (a == b) m[b] = m[a];
    }
    compare(*s[a], *s[b], m[a], m[b]);
    compare(*s[b], *s[a], m[b], m[a]);
    return;
  }
  case CompareStr: {
    rust::Str x(*s[a]), y(*s[b]);
    compare(x, y, m[a], m[b]);
    compare(x, S->t[t], m[a], S->tm[t]);
    return;
  }
  case Stream: {
    std::ostringstream os;
    os << *s[a] << "|" << *s[b];
    if (os.str() != m[a] + "|" + m[b]) mismatch("operator<<");
    return;
  }
  case StreamFail: {
    Limited buf(n % (m[a].size() + S->tm[t].size() + 3));
    std::ostream os(&buf);
    os << *s[a];
    bool one = os.good();
    os << S->t[t];
    std::string all = m[a] + S->tm[t], got(buf.got);
    bool fits = all.size() <= buf.limit;
    if (one != (m[a].size() <= buf.limit) || os.good() != fits) report(V_FMT, "state of a stream whose buffer fails");
    if (all.compare(0, got.size(), got) != 0 || (fits && got.size() != all.size())) report(V_FMT, "bytes received by a stream whose buffer fails");
    if (!fits) sim_probe(14);
    std::ostringstream later;
    later << *s[a];
    if (later.str() != m[a]) report(V_FMT, "a later attempt");
    return;
  }
  case RPass:
    forget(a);
    *s[a] = z_pass(std::move(*s[a]));
    return;
  case RTake: {
    forget(a);
    uint64_t d = z_take(std::move(*s[a]));
    if (d != fnv(m[a].data(), m[a].size())) mismatch("Rust received other contents");
    return adopt(a);
  }
  case RMake:
    forget(a);
    *s[a] = z_make(bytes(in));
    m[a] = in;
    return;
  case RPush:
    forget(a);
    z_push(*s[a], bytes(in));
    m[a] += in;
    return;
  case RCut: {
    forget(a);
    size_t k = z_cut(*s[a], n % (m[a].size() + 2));
    m[a].resize(k);
    return;
  }
  case RInsert: {
    forget(a);
    size_t k = z_insert(*s[a], n % (m[a].size() + 1), bytes(in));
    m[a].insert(k, in);
    return;
  }
  case RClear: forget(a); z_clear(*s[a]); m[a].clear(); return;
  case RShrink: forget(a); z_shrink(*s[a]); return;
  case RSwap:
    if (a == b) return;
    forget(a);
    forget(b);
    z_swap(*s[a], *s[b]);
    m[a].swap(m[b]);
    return;
  case RReplace: {
    forget(a);
    rust::String x = z_replace(*s[a], rust::String(*s[b]));
    if (!same(x, m[a])) mismatch("replaced string");
    m[a] = m[b];
    return;
  }
  case RVia:
    forget(a);
    *s[a] = z_via_cpp(std::move(*s[a]), o.id);
    m[a] += valid8(o.id) + "\xF0\x9F\x98\x80";
    return;
  case RParse: {
    rust::String x = z_parse(bytes(in));
    if (ok ? !same(x, in) : x.size() < 2 || x.data()[0] != '!') mismatch("outcome of a construction called from Rust");
    if (!ok) sim_probe(4);
    return;
  }
  case RView: {
    bool threw = false;
    uint64_t d = 0;
    try {
      d = z_view(bytes(in));
    } catch (const rust::Error &) {
      threw = true;
    }
    if (threw == ok) mismatch("outcome of a view made for Rust", threw, !ok);
    if (!threw && d != fnv(in.data(), in.size())) mismatch("view made for Rust");
    return;
  }
  case TDefault: S->t[t] = rust::Str(); S->tm[t].clear(); S->from[t] = -1; return;
  case TFromStd: {
    auto *l = new std::string(in);
    return view(t, ok, in, l, -1, l->data(), [&] { return rust::Str(*l); });
  }
  case TFromPtr: {
    auto *l = new std::string(in);
    return view(t, ok, in, l, -1, l->data(), [&] { return rust::Str(l->c_str()); });
  }
  case TFromLen: {
    auto *l = new std::string(in);
    l->shrink_to_fit();
    return view(t, ok, in, l, -1, l->data(), [&] { return rust::Str(l->data(), l->size()); });
  }
  case TFromNull: return view(t, true, "", nullptr, -1, nullptr, [&] { return rust::Str(static_cast<const char *>(nullptr), 0); });
  case TFromString: return view(t, true, m[a], nullptr, a, s[a]->data(), [&] { return rust::Str(*s[a]); });
  case TCopy: case TPass:
    if (t == u || S->from[u] < 0) return;
    return view(t, true, S->tm[u], nullptr, S->from[u], S->t[u].data(), [&] { return o.f == TPass ? z_pass_str(S->t[u]) : rust::Str(S->t[u]); });
  case TSwap:
    if (o.msg & 1) S->t[t].swap(S->t[u]);
    else swap(S->t[t], S->t[u]);
    if (t != u) {
      S->tm[t].swap(S->tm[u]);
      swap(S->lend[t], S->lend[u]);
      swap(S->from[t], S->from[u]);
    }
    return;
  case TSlice: {
    rust::Str x = z_slice(*s[a], n % (m[a].size() + 1), o.msg % 20);
    std::string y(x.data(), x.size()), z;
    if (x.data() < s[a]->data() || x.data() + x.size() > s[a]->data() + s[a]->size() || !decode8(y, z) || m[a].substr((size_t)(x.data() - s[a]->data()), x.size()) != y) mismatch("slice of a string");
    else view(t, true, y, nullptr, a, nullptr, [&] { return x; });
    return;
  }
  case TToStd:
    if (static_cast<std::string>(S->t[t]) != S->tm[t]) mismatch("conversion of a Str to std::string");
    return;
  case TToView: {
    auto x = static_cast<std::string_view>(S->t[t]);
    if (x != S->tm[t] || x.data() != S->t[t].data()) mismatch("conversion of a Str to std::string_view");
    return;
  }
  case TIterate: {
    std::string x;
    for (char c : S->t[t]) x += c;
    if (x != S->tm[t] || std::string(S->t[t].begin(), S->t[t].end()) != x) mismatch("iteration over a Str");
    return;
  }
  case TToString: {
    rust::String x(S->t[t].data(), S->t[t].size());
    if (!same(x, S->tm[t])) mismatch("a string made of a Str");
    return reset(a, new rust::String(std::move(x)), S->from[t] == a ? std::string(S->tm[t]) : S->tm[t]);
  }
  case TStream: {
    std::ostringstream os;
    os << S->t[t] << S->t[u];
    if (os.str() != S->tm[t] + S->tm[u]) mismatch("operator<< of a Str");
    return;
  }
  case TCompare:
    compare(S->t[t], S->t[u], S->tm[t], S->tm[u]);
    compare(S->t[u], S->t[t], S->tm[u], S->tm[t]);
    return;
  case InVec: {
    rust::Vec<rust::String> v;
    for (int i = 0; i < NS; i++) v.push_back(*s[i]);
    v.push_back(std::move(*s[a]));
    forget(a);
    *s[a] = v[(size_t)(b)];
    m[a] = m[b];
    std::sort(v.begin(), v.end());
    for (size_t i = 1; i < v.size(); i++)
      if (z_cmp(v[i - 1], v[i]) > 0) mismatch("sorted strings");
    return;
  }
  }
}
} // namespace

rust::String zc_pass(rust::String s) { return s; }
rust::Str zc_pass_str(rust::Str s) { return s; }
void zc_append(rust::String &s, uint64_t id) {
  std::string x = static_cast<std::string>(s) + valid8(id);
  s = x;
}
uint64_t zc_digest(const rust::String &s) { return fnv(s.data(), s.size()); }
rust::String zc_parse(rust::Slice<const uint8_t> b) { return rust::String(reinterpret_cast<const char *>(b.data()), b.size()); }
rust::Str zc_view(rust::Slice<const uint8_t> b) { return rust::Str(reinterpret_cast<const char *>(b.data()), b.size()); }

extern "C" const char *rt_strs_name(uint32_t f) { return f < NOPS ? names[f] : nullptr; }
extern "C" void rt_strs_op(uint64_t i) {
  if (!S) {
    S = new State();
    for (int k = 0; k < NS; k++) S->s[k] = new rust::String();
    for (int k = 0; k < NT; k++) S->from[k] = -1;
  }
  cur = i;
  op(h_ops[i]);
  check_all();
}
extern "C" void rt_strs_done() {
  if (!S) return;
  for (int k = 0; k < NS; k++) delete S->s[k];
  for (int k = 0; k < NT; k++) delete S->lend[k];
  delete S;
}
} // namespace rt
