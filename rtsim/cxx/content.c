#include "content.h"
#include <string.h>
struct h_op *h_ops;
uint64_t h_nops;
uint64_t h_mix(uint64_t z) {
  z += 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
static const char *pool[] = {"a", "Z", " ", "\n", "é", "ß", "漢", "€", "😀", "7", "q", "\xc2\x80", "\xef\xbf\xbf", "\xf0\x90\x80\x80", "\xf4\x8f\xbf\xbf", "x"};
static const int lens[] = {0, 1, 3, 15, 16, 23, 60, 400};
size_t h_text(uint64_t id, char *buf) {
  uint64_t r = h_mix(id);
  size_t want = lens[r & 7], n = 0;
  int ascii = (r >> 3) & 1, nul = (r >> 4) % 8 == 0;
  if ((r >> 8) % 64 == 0) want = (r >> 16) % 4 == 0 ? 20000 : 5000;
  while (n < want) {
    r = h_mix(r);
    const char *c = ascii ? pool[(r & 3) == 3 ? 9 : (r & 3)] : pool[r & 15];
    if (nul && (r >> 32) % 4 == 0) {
      buf[n++] = 0;
      continue;
    }
    size_t l = strlen(c);
    for (size_t i = 0; i < l; i++) buf[n++] = c[i];
  }
  return n;
}
static const char *bad[] = {"\xff", "\xc0\x80", "\xe2\x82", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\x80", "\xf0\x9f\x98"};
size_t h_msg(uint64_t id, char *buf) {
  uint64_t r = h_mix(id ^ 0x1234567);
  size_t n = h_text(id * 3 + 1, buf);
  if (id & 1) {
    int k = 1 + (r >> 8) % 3;
    while (k--) {
      r = h_mix(r);
      const char *c = bad[r % 7];
      size_t l = strlen(c);
      for (size_t i = 0; i < l; i++) buf[n++] = c[i];
      if (r & 0x100) n += h_text(r, buf + n) % 2000;
      if (n > 1500) break;
    }
  }
  for (size_t i = 0; i < n; i++)
    if (buf[i] == 0) buf[i] = '0';
  return n;
}
size_t h_len(uint64_t id) {
  static const int l[] = {0, 1, 2, 3, 5, 9, 1, 4};
  return l[h_mix(id) & 7];
}
