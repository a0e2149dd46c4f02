#define _GNU_SOURCE
#include "sim.h"
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>

extern void *__libc_malloc(size_t);
extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);
extern void *__libc_memalign(size_t, size_t);
extern void __libc_free(void *);

struct sim_shm *sim_sh;

// raw versions: never checked, never a scheduling point
static inline void rset(void *d, int c, size_t n) {
  __asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory");
}
static inline void rcpy(void *d, const void *s, size_t n) {
  __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
}
static inline size_t rlen(const char *s) {
  size_t n = 0;
  while (((const volatile char *)s)[n]) n++;
  return n;
}

static inline long raw_syscall(long n, long a, long b, long c, long d, long e, long f) {
  long ret;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall"
                   : "=a"(ret)
                   : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                   : "rcx", "r11", "memory");
  return ret;
}

// ---------------------------------------------------------------- thread state
struct thr {
  int tid;
  volatile int run; // baton
  int done;
  int blocked; // waiting in a futex; spins
  uint64_t count;
  uint64_t next_switch;
  uint32_t next_target;
  const struct sim_switch *list;
  uint32_t nlist, ilist;
  uint64_t rng;
  uintptr_t stack_lo, stack_hi;
  sim_fn fn;
  void *arg;
  pthread_t th;
};

static struct thr g_thr[SIM_MAXTHR];
static int g_nthr;
static volatile int g_sched_on;
static volatile int g_main_wait;
static int g_mode;
static uint64_t g_seed, g_gap;
static struct sim_switch g_list[SIM_MAXTHR][SIM_MAXSCHED];
static uint32_t g_nlist[SIM_MAXTHR];

static __thread int t_insim __attribute__((tls_model("initial-exec")));
static __thread struct thr *t_self __attribute__((tls_model("initial-exec")));
static __thread int64_t t_fail __attribute__((tls_model("initial-exec")));

int sim_active(void) { return t_insim; }
void sim_enter(void) { t_insim = 1; }
void sim_leave(void) { t_insim = 0; }
int sim_pause(void) {
  int p = t_insim;
  t_insim = 0;
  return p;
}
void sim_resume(int p) { t_insim = p; }
int sim_quiet(void) {
  int p = t_insim;
  if (p == 1) t_insim = 2;
  return p;
}
int sim_tid(void) { return t_self ? t_self->tid : 0; }
uint64_t sim_thread_steps(void) { return t_self ? t_self->count : 0; }
void sim_fail_alloc(int64_t n) { t_fail = n; }
int64_t sim_fail_alloc_left(void) { return t_fail; }

static uint64_t splitmix(uint64_t *s) {
  uint64_t z = (*s += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}

void sim_setup_shm(void) {
  sim_sh = mmap(NULL, sizeof(struct sim_shm), PROT_READ | PROT_WRITE,
                MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (sim_sh == MAP_FAILED) {
    perror("mmap shm");
    _exit(2);
  }
}
void sim_reset_shm(void) {
  // the sched array and the log are only valid up to their counters
  sim_sh->nviol = 0;
  rset(sim_sh->viol, 0, sizeof sim_sh->viol);
  sim_sh->finished = sim_sh->fatal_expected = sim_sh->fatal_kind = sim_sh->after_fatal = 0;
  sim_sh->steps = sim_sh->accesses = sim_sh->allocs = sim_sh->alloc_bytes = sim_sh->alloc_faults = 0;
  sim_sh->nsched = 0;
  sim_sh->sched_sig = sim_sh->hist_sig = 0xcbf29ce484222325ull;
  rset((void *)sim_sh->probes, 0, sizeof sim_sh->probes);
  sim_sh->opsdone = 0;
  rset((void *)sim_sh->cur_op, 0xff, sizeof sim_sh->cur_op);
  sim_sh->log_n = 0;
}

static volatile uint64_t g_stamp;
uint64_t sim_stamp(void) { return ++g_stamp; }

void sim_violation(int cls, const char *msg) {
  int p = sim_pause();
  int n = sim_sh->nviol;
  if (n < SIM_MAXV) {
    // the same class and operation is recorded once
    for (int i = 0; i < n; i++)
      if (sim_sh->viol[i].cls == cls && sim_sh->viol[i].op == sim_sh->cur_op[sim_tid()]) {
        sim_resume(p);
        return;
      }
    sim_sh->viol[n].cls = cls;
    sim_sh->viol[n].op = sim_sh->cur_op[sim_tid()];
    size_t l = rlen(msg);
    if (l > sizeof sim_sh->viol[n].msg - 1) l = sizeof sim_sh->viol[n].msg - 1;
    rcpy(sim_sh->viol[n].msg, msg, l);
    sim_sh->viol[n].msg[l] = 0;
    sim_sh->nviol = n + 1;
  }
  sim_resume(p);
}
void sim_violation_fatal(int cls, const char *msg) {
  sim_violation(cls, msg);
  _exit(3);
}
void sim_log(const char *msg) {
  size_t l = rlen(msg);
  uint64_t n = sim_sh->log_n;
  if (n + l + 2 < sizeof sim_sh->log) {
    rcpy(sim_sh->log + n, msg, l);
    sim_sh->log[n + l] = '\n';
    sim_sh->log_n = n + l + 1;
  }
}
void sim_hist(uint64_t v) {
  uint64_t h = sim_sh->hist_sig;
  h ^= v;
  h *= 0x100000001b3ull;
  h ^= h >> 29;
  sim_sh->hist_sig = h;
}
void sim_probe(int n) { sim_sh->probes[n]++; }
uint64_t sim_probe_get(int n) { return sim_sh->probes[n]; }

// ---------------------------------------------------------------- arena
#define ARENA_BASE 0x200000000000ull
#define ARENA_SIZE (192ull << 20)
#define SHADOW_BASE 0x210000000000ull
#define RZ 32
static uintptr_t g_bump;
static size_t g_live;
static int g_arena_on;

enum { K_RUST = 1, K_NEW, K_NEWARR, K_MALLOC };
static const char *kind_name[] = {"?", "Rust", "operator new", "operator new[]", "malloc"};

struct block {
  uint64_t magic;
  uint32_t kind;
  uint32_t state; // 1 live 2 freed
  uint64_t size;
  uint64_t align; // Rust and aligned new
  uint32_t op;
  uint32_t serial;
  struct block *prev, *next; // live list
} __attribute__((aligned(16)));
#define MAGIC 0x51b10c4a11ca7e5dull
static struct block *g_head;
static uint32_t g_serial;

void sim_arena_init(void) {
  void *p = mmap((void *)ARENA_BASE, ARENA_SIZE, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  void *s = mmap((void *)SHADOW_BASE, ARENA_SIZE / 8, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != (void *)ARENA_BASE || s != (void *)SHADOW_BASE) {
    fprintf(stderr, "rtsim: cannot map the arena\n");
    _exit(2);
  }
  g_bump = ARENA_BASE + 4096;
  g_live = 0;
  g_head = NULL;
  g_serial = 0;
  g_arena_on = 1;
}

static inline int in_arena(uintptr_t a) { return a - ARENA_BASE < ARENA_SIZE; }
int sim_in_arena(const void *p) { return in_arena((uintptr_t)p); }
static inline uint8_t *shadow(uintptr_t a) { return (uint8_t *)(SHADOW_BASE + ((a - ARENA_BASE) >> 3)); }

size_t sim_live_blocks(void) { return g_live; }
void sim_describe_live(char *buf, size_t n) {
  size_t off = 0;
  int k = 0;
  buf[0] = 0;
  for (struct block *b = g_head; b && k < 4; b = b->next, k++)
    off += snprintf(buf + off, off < n ? n - off : 0, "[%s block #%u of %lu bytes allocated in op %d] ", kind_name[b->kind], b->serial,
                    (unsigned long)b->size, (int)b->op);
}

// 0 ok, else offending shadow value
static inline int shadow_check(uintptr_t a, size_t n) {
  if (n == 0) return 0;
  uintptr_t end = a + n;
  for (uintptr_t g = a & ~7ull; g < end; g += 8) {
    uint8_t s = *shadow(g);
    if (s == 8) continue;
    if (s == 0 || s == 0xfd) return s == 0 ? 1 : 2;
    if (end - g > s) return 1;
  }
  return 0;
}
int sim_addr_live(const void *p, size_t n) {
  uintptr_t a = (uintptr_t)p;
  return in_arena(a) && shadow_check(a, n) == 0;
}

static void *arena_alloc(size_t size, size_t align, int kind) {
  if (align < 16) align = 16;
  size_t lost = (size >= 1) ? 0 : 1; // zero-sized blocks still get an address
  uintptr_t a = g_bump + RZ + sizeof(struct block);
  a = (a + align - 1) & ~(uintptr_t)(align - 1);
  uintptr_t end = (a + size + lost + RZ + 15) & ~15ull;
  if (size > ARENA_SIZE || end > ARENA_BASE + ARENA_SIZE) return NULL;
  g_bump = end;
  struct block *b = (struct block *)a - 1;
  b->magic = MAGIC;
  b->kind = kind;
  b->state = 1;
  b->size = size;
  b->align = align;
  b->op = sim_sh->cur_op[sim_tid()];
  b->serial = ++g_serial;
  b->prev = NULL;
  b->next = g_head;
  if (g_head) g_head->prev = b;
  g_head = b;
  g_live++;
  rset(shadow(a), 8, size / 8);
  if (size % 8) *shadow(a + size - size % 8) = size % 8;
  rset((void *)a, 0xa5, size < 4096 ? size : 4096);
  sim_sh->allocs++;
  sim_sh->alloc_bytes += size;
  return (void *)a;
}

static struct block *arena_block(void *p, const char *what, int kind) {
  char msg[200];
  uintptr_t a = (uintptr_t)p;
  struct block *b = (struct block *)p - 1;
  if ((a & 15) || b->magic != MAGIC) {
    t_insim = 0;
    snprintf(msg, sizeof msg, "%s of a pointer into the middle of a block (%s)", what, kind_name[kind]);
    sim_violation_fatal(V_OWN, msg);
  }
  if (b->state != 1) {
    t_insim = 0;
    snprintf(msg, sizeof msg, "%s of block #%u (%s, %lu bytes, op %d) which was already released", what, b->serial,
             kind_name[b->kind], (unsigned long)b->size, (int)b->op);
    sim_violation_fatal(V_OWN, msg);
  }
  if ((int)b->kind != kind) {
    t_insim = 0;
    snprintf(msg, sizeof msg, "block #%u came from %s but is given back to %s", b->serial, kind_name[b->kind], kind_name[kind]);
    sim_violation_fatal(V_OWN, msg);
  }
  return b;
}

static void arena_free(void *p, int kind) {
  struct block *b = arena_block(p, "release", kind);
  b->state = 2;
  if (b->prev) b->prev->next = b->next;
  else g_head = b->next;
  if (b->next) b->next->prev = b->prev;
  g_live--;
  size_t size = b->size;
  if (size) rset(shadow((uintptr_t)p), 0xfd, (size + 7) / 8);
  rset(p, 0xdd, size < 4096 ? size : 4096);
}

static void bad_ptr(const char *what) {
  sim_violation_fatal(V_OWN, what);
}
// Freed stack or heap garbage looks like this; anything below the first page too.
static int garbage(void *p) {
  uint64_t v = (uint64_t)p;
  return v && (v < 4096 || v == 0xa5a5a5a5a5a5a5a5ull || v == 0xddddddddddddddddull || (v >> 47));
}

static int take_fault(void) {
  if (t_insim && t_fail > 0 && --t_fail == 0) {
    sim_sh->alloc_faults++;
    return 1;
  }
  return 0;
}

void sim_point(const void *p);

// ---- Rust allocator entry points
void *sim_rust_alloc(size_t size, size_t align) {
  if (t_insim && g_arena_on) {
    sim_point(NULL);
    return arena_alloc(size, align, K_RUST);
  }
  if (align <= 16) return __libc_malloc(size);
  return __libc_memalign(align, size);
}
void sim_rust_dealloc(void *p, size_t size, size_t align) {
  if (in_arena((uintptr_t)p)) {
    sim_point(NULL);
    struct block *b = arena_block(p, "release", K_RUST);
    size_t al = align < 16 ? 16 : align;
    if (b->size != size || b->align != al) {
      char msg[200];
      t_insim = 0;
      snprintf(msg, sizeof msg, "Rust block #%u of %lu bytes released with the wrong layout (%lu bytes)", b->serial,
               (unsigned long)b->size, (unsigned long)size);
      sim_violation_fatal(V_OWN, msg);
    }
    arena_free(p, K_RUST);
    return;
  }
  if (garbage(p)) bad_ptr("Rust allocator asked to release a garbage pointer");
  if (t_insim) bad_ptr("Rust allocator asked to release memory it never handed out");
  __libc_free(p);
}
void *sim_rust_realloc(void *p, size_t size, size_t align, size_t nsize) {
  if (in_arena((uintptr_t)p) || t_insim) {
    void *q = sim_rust_alloc(nsize, align);
    if (!q) return NULL;
    if (shadow_check((uintptr_t)p, in_arena((uintptr_t)p) ? size : 0) == 2)
      sim_violation_fatal(V_OWN, "reallocation of a released block");
    rcpy(q, p, size < nsize ? size : nsize);
    sim_rust_dealloc(p, size, align);
    return q;
  }
  if (align <= 16) return __libc_realloc(p, nsize);
  void *q = __libc_memalign(align, nsize);
  if (q) {
    rcpy(q, p, size < nsize ? size : nsize);
    __libc_free(p);
  }
  return q;
}
// ---- C++ operator new entry points (called from simnew.cc); NULL means bad_alloc
void *sim_cxx_new(size_t size, size_t align, int arr) {
  if (t_insim && g_arena_on) {
    sim_point(NULL);
    if (take_fault()) return NULL;
    return arena_alloc(size, align, arr ? K_NEWARR : K_NEW);
  }
  if (align <= 16) return __libc_malloc(size ? size : 1);
  return __libc_memalign(align, size ? size : 1);
}
void sim_cxx_delete(void *p, int arr, size_t size, int sized) {
  if (!p) return;
  if (in_arena((uintptr_t)p)) {
    sim_point(NULL);
    struct block *b = arena_block(p, "delete", arr ? K_NEWARR : K_NEW);
    if (sized && b->size != size) {
      char msg[200];
      t_insim = 0;
      snprintf(msg, sizeof msg, "block #%u of %lu bytes deleted as an object of %lu bytes", b->serial, (unsigned long)b->size,
               (unsigned long)size);
      sim_violation_fatal(V_OWN, msg);
    }
    arena_free(p, arr ? K_NEWARR : K_NEW);
    return;
  }
  if (garbage(p)) bad_ptr("operator delete of a garbage pointer");
  if (t_insim) bad_ptr("operator delete of memory that operator new never handed out");
  __libc_free(p);
}
// ---- malloc family
void *malloc(size_t n) {
  if (t_insim && g_arena_on) return arena_alloc(n, 16, K_MALLOC);
  return __libc_malloc(n);
}
void *calloc(size_t a, size_t b) {
  if (t_insim && g_arena_on) {
    void *p = arena_alloc(a * b, 16, K_MALLOC);
    if (p) rset(p, 0, a * b);
    return p;
  }
  return __libc_calloc(a, b);
}
void *memalign(size_t al, size_t n) {
  if (t_insim && g_arena_on) return arena_alloc(n, al, K_MALLOC);
  return __libc_memalign(al, n);
}
void *aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void **out, size_t al, size_t n) {
  *out = memalign(al, n);
  return *out ? 0 : ENOMEM;
}
void free(void *p) {
  if (!p) return;
  if (in_arena((uintptr_t)p)) {
    arena_free(p, K_MALLOC);
    return;
  }
  if (t_insim && garbage(p)) bad_ptr("free of a garbage pointer");
  __libc_free(p);
}
void *realloc(void *p, size_t n) {
  if (!p) return malloc(n);
  if (in_arena((uintptr_t)p) || (t_insim && g_arena_on)) {
    size_t old = n;
    if (in_arena((uintptr_t)p)) old = arena_block(p, "realloc", K_MALLOC)->size;
    else return __libc_realloc(p, n);
    void *q = arena_alloc(n, 16, K_MALLOC);
    if (!q) return NULL;
    rcpy(q, p, old < n ? old : n);
    arena_free(p, K_MALLOC);
    return q;
  }
  return __libc_realloc(p, n);
}

// ---------------------------------------------------------------- objects
#define NOBJ 8192
static struct {
  uintptr_t p;
  int kind;
} g_obj[NOBJ];
static int64_t g_objn[16];
static int g_nobj;
void sim_obj_new(const void *p, int kind) {
  for (int i = 0; i < g_nobj; i++)
    if (g_obj[i].p == (uintptr_t)p && g_obj[i].kind == kind) {
      sim_violation_fatal(V_OWN, "object constructed over a live object");
    }
  if (g_nobj == NOBJ) sim_violation_fatal(V_HANG, "harness: too many objects");
  g_obj[g_nobj].p = (uintptr_t)p;
  g_obj[g_nobj].kind = kind;
  g_nobj++;
  g_objn[kind]++;
}
void sim_obj_del(const void *p, int kind) {
  for (int i = 0; i < g_nobj; i++)
    if (g_obj[i].p == (uintptr_t)p && g_obj[i].kind == kind) {
      g_obj[i] = g_obj[--g_nobj];
      g_objn[kind]--;
      return;
    }
  sim_violation_fatal(V_OWN, "destructor run on something that is not a live object");
}
int sim_obj_live(const void *p, int kind) {
  for (int i = 0; i < g_nobj; i++)
    if (g_obj[i].p == (uintptr_t)p && g_obj[i].kind == kind) return 1;
  return 0;
}
int64_t sim_obj_count(int kind) { return g_objn[kind]; }

// ---------------------------------------------------------------- scheduler
static void fwait(volatile int *w) {
  while (__atomic_load_n(w, __ATOMIC_ACQUIRE) == 0)
    raw_syscall(SYS_futex, (long)w, FUTEX_WAIT, 0, 0, 0, 0);
  __atomic_store_n(w, 0, __ATOMIC_RELEASE);
}
static void fwake(volatile int *w) {
  __atomic_store_n(w, 1, __ATOMIC_RELEASE);
  raw_syscall(SYS_futex, (long)w, FUTEX_WAKE, 1, 0, 0, 0);
}

static void arm(struct thr *t) {
  if (g_mode == 1) {
    if (!t->rng) t->rng = g_seed * 0x9e3779b97f4a7c15ull + 77 * (t->tid + 1);
    uint64_t r = splitmix(&t->rng);
    // heavy tailed gap: mostly around g_gap, sometimes immediate
    uint64_t gap = 1 + (r >> 8) % (2 * g_gap + 1);
    if ((r & 7) == 0) gap = 1 + (r >> 40) % 4;
    t->next_switch = t->count + gap;
    t->next_target = ~0u;
  } else if (g_mode == 2) {
    if (t->ilist < t->nlist) {
      t->next_switch = t->list[t->ilist].count;
      t->next_target = t->list[t->ilist].next;
      t->ilist++;
    } else
      t->next_switch = ~0ull;
  } else
    t->next_switch = ~0ull;
}

static int pick(struct thr *self, uint32_t want) {
  int cand[SIM_MAXTHR], n = 0;
  for (int i = 0; i < g_nthr; i++)
    if (i != self->tid && !g_thr[i].done) {
      if (want == (uint32_t)i) return i;
      cand[n++] = i;
    }
  if (!n) return -1;
  if (g_mode == 1) return cand[splitmix(&self->rng) % n];
  return cand[0];
}

static void record(struct thr *self, int to, void *pc) {
  uint32_t n = sim_sh->nsched;
  if (n < SIM_MAXSCHED) {
    sim_sh->sched[n].tid = self->tid;
    sim_sh->sched[n].next = to;
    sim_sh->sched[n].count = self->count;
    sim_sh->nsched = n + 1;
  }
  uint64_t h = sim_sh->sched_sig;
  h = (h ^ (uint64_t)(self->tid * 8 + to) ^ ((uint64_t)pc << 8)) * 0x100000001b3ull;
  sim_sh->sched_sig = h ^ (h >> 31);
}

extern char __executable_start, _end;
static void switch_to(struct thr *self, int to, void *pc) {
  // code positions outside the executable depend on where libraries were mapped
  uintptr_t off = 0;
  if ((char *)pc >= &__executable_start && (char *)pc < &_end) off = (char *)pc - &__executable_start;
  record(self, to, (void *)off);
  fwake(&g_thr[to].run);
  fwait(&self->run);
}

#define STEP_CAP 24000000
static __attribute__((noinline)) void slow_point(struct thr *self, void *pc) {
  // if something must end the process, no other thread may be scheduled any more
  if (sim_sh->fatal_expected) {
    self->next_switch = ~0ull;
    return;
  }
  uint32_t want = self->next_target;
  int to = pick(self, want);
  arm(self);
  if (to < 0) return;
  int p = t_insim;
  t_insim = 0;
  switch_to(self, to, pc);
  t_insim = p;
}

// variables with static storage are what calls could share without meaning to: the scheduler likes to
// switch threads next to accesses of them
extern char __data_start;
static int g_static_bias;
static inline void point_at(const void *p, void *pc) {
  struct thr *self = t_self;
  if (!self || !g_sched_on || t_insim == 2) return;
  if (p) {
    uintptr_t a = (uintptr_t)p;
    if (a >= self->stack_lo && a < self->stack_hi) return;
  }
  self->count++;
  if (++sim_sh->steps > STEP_CAP) sim_violation_fatal(V_HANG, "step limit exceeded");
  if (__builtin_expect(g_static_bias && (const char *)p >= &__data_start && (const char *)p < &_end, 0) && splitmix(&self->rng) % 3 == 0) {
    slow_point(self, pc);
    return;
  }
  if (__builtin_expect(self->count >= self->next_switch, 0)) slow_point(self, pc);
}
void sim_point(const void *p) {
  if (t_insim) point_at(p, __builtin_return_address(0));
}
void sim_yield(void) {
  if (t_insim != 2) point_at(NULL, __builtin_return_address(0));
}

// the running thread cannot continue until another one does something
static int forced_switch(void) {
  struct thr *self = t_self;
  if (!self || !g_sched_on) return 0;
  self->count++;
  if (++sim_sh->steps > STEP_CAP) sim_violation_fatal(V_HANG, "threads wait for each other forever");
  self->blocked = 1;
  int to = -1;
  // round robin over the others so that the owner of the lock gets its turn
  for (int k = 1; k < g_nthr; k++) {
    int i = (self->tid + k) % g_nthr;
    if (!g_thr[i].done) {
      to = i;
      break;
    }
  }
  if (to < 0) sim_violation_fatal(V_HANG, "the only running thread waits forever");
  int p = t_insim;
  t_insim = 0;
  switch_to(self, to, NULL);
  t_insim = p;
  self->blocked = 0;
  return 1;
}

static void thread_exit_handoff(struct thr *self) {
  self->done = 1;
  int to = -1;
  for (int i = 0; i < g_nthr; i++)
    if (!g_thr[i].done) {
      to = i;
      break;
    }
  if (to < 0) fwake(&g_main_wait);
  else {
    record(self, to, 0);
    fwake(&g_thr[to].run);
  }
}

static void *thr_main(void *a) {
  struct thr *self = a;
  t_self = self;
  fwait(&self->run);
  arm(self);
  self->fn(self->arg, self->tid);
  t_insim = 0;
  thread_exit_handoff(self);
  return NULL;
}

void sim_sched_config(int mode, uint64_t seed, uint64_t gap, const struct sim_switch *list, uint32_t n) {
  g_mode = mode;
  g_seed = seed;
  g_gap = gap;
  g_static_bias = mode == 1 && (seed & 1);
  rset(g_nlist, 0, sizeof g_nlist);
  for (uint32_t i = 0; i < n; i++) {
    uint32_t t = list[i].tid;
    if (t < SIM_MAXTHR && g_nlist[t] < SIM_MAXSCHED) g_list[t][g_nlist[t]++] = list[i];
  }
}

#define STK (1 << 20)
void sim_run_threads(int n, sim_fn fn, void *arg) {
  rset(g_thr, 0, sizeof g_thr);
  g_nthr = n;
  g_main_wait = 0;
  for (int i = 0; i < n; i++) {
    struct thr *t = &g_thr[i];
    t->tid = i;
    t->fn = fn;
    t->arg = arg;
    t->list = g_list[i];
    t->nlist = g_nlist[i];
    char *s = mmap(NULL, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    t->stack_lo = (uintptr_t)s;
    t->stack_hi = (uintptr_t)s + STK;
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstack(&at, s, STK);
    if (pthread_create(&t->th, &at, thr_main, t)) {
      fprintf(stderr, "rtsim: pthread_create failed\n");
      _exit(2);
    }
    pthread_attr_destroy(&at);
  }
  g_sched_on = 1;
  fwake(&g_thr[0].run);
  fwait(&g_main_wait);
  g_sched_on = 0;
  for (int i = 0; i < n; i++) pthread_join(g_thr[i].th, NULL);
}

__attribute__((noinline)) void sim_scrub_stack(void) {
  char buf[6144];
  rset(buf, 0xa5, sizeof buf);
  __asm__ volatile("" : : "r"(buf) : "memory");
}

// ---------------------------------------------------------------- blocking primitives
long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long),
       f = va_arg(ap, long);
  va_end(ap);
  if (n == SYS_futex && t_self && g_sched_on && g_nthr > 1) {
    int op = (int)b & 0x7f;
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      if (*(volatile int *)a != (int)c) {
        errno = EAGAIN;
        return -1;
      }
      forced_switch();
      return 0; // spurious wakeup, the caller re-checks
    }
  }
  long r = raw_syscall(n, a, b, c, d, e, f);
  if (r < 0 && r > -4096) {
    errno = -r;
    return -1;
  }
  return r;
}
int pthread_mutex_trylock(pthread_mutex_t *);
extern int __pthread_mutex_lock(pthread_mutex_t *) __attribute__((weak));
int pthread_mutex_lock(pthread_mutex_t *m) {
  if (t_self && g_sched_on) {
    sim_point(NULL);
    int r;
    while ((r = pthread_mutex_trylock(m)) == EBUSY)
      if (!forced_switch()) break;
    if (r != EBUSY) return r;
  }
  // before any simulated thread exists the lock is free or recursive
  int r;
  while ((r = pthread_mutex_trylock(m)) == EBUSY) sched_yield();
  return r;
}

// ---------------------------------------------------------------- instrumentation
static __attribute__((noinline, cold)) void bad_access(uintptr_t a, size_t n, int w, int how, void *pc) {
  char msg[300];
  t_insim = 0;
  snprintf(msg, sizeof msg, "%s of %lu bytes %s (code at +0x%lx)", w ? "write" : "read", (unsigned long)n,
           how == 2 ? "in a heap block that was already released" : "outside any live heap block",
           (unsigned long)((char *)pc - &__executable_start));
  sim_violation_fatal(V_OWN, msg);
}
static inline __attribute__((always_inline)) void acc(const void *p, size_t n, int w) {
  if (__builtin_expect(!t_insim, 1)) return;
  uintptr_t a = (uintptr_t)p;
  if (in_arena(a)) {
    sim_sh->accesses++;
    int how = shadow_check(a, n);
    if (__builtin_expect(how, 0)) bad_access(a, n, w, how, __builtin_return_address(0));
  }
  point_at(p, __builtin_return_address(0));
}
#define RW(n)                                                                                                          \
  void __tsan_read##n(void *p) { acc(p, n, 0); }                                                                       \
  void __tsan_write##n(void *p) { acc(p, n, 1); }                                                                      \
  void __tsan_unaligned_read##n(void *p) { acc(p, n, 0); }                                                             \
  void __tsan_unaligned_write##n(void *p) { acc(p, n, 1); }                                                            \
  void __tsan_read_write##n(void *p) { acc(p, n, 1); }                                                                 \
  void __tsan_unaligned_read_write##n(void *p) { acc(p, n, 1); }                                                       \
  void __tsan_volatile_read##n(void *p) { acc(p, n, 0); }                                                              \
  void __tsan_volatile_write##n(void *p) { acc(p, n, 1); }                                                             \
  void __tsan_unaligned_volatile_read##n(void *p) { acc(p, n, 0); }                                                    \
  void __tsan_unaligned_volatile_write##n(void *p) { acc(p, n, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { acc(p, n, 0); }
void __tsan_write_range(void *p, size_t n) { acc(p, n, 1); }
void __tsan_vptr_update(void **p, void *v) { acc(p, 8, 1); }
void __tsan_vptr_read(void **p) { acc(p, 8, 0); }
void __tsan_func_entry(void *pc) {}
void __tsan_func_exit(void) {}
void __tsan_init(void) {}
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
void *__tsan_memcpy(void *d, const void *s, size_t n) {
  if (n) { acc(s, n, 0); acc(d, n, 1); }
  return memmove(d, s, n);
}
void *__tsan_memmove(void *d, const void *s, size_t n) {
  if (n) { acc(s, n, 0); acc(d, n, 1); }
  return memmove(d, s, n);
}
void *__tsan_memset(void *d, int c, size_t n) {
  if (n) acc(d, n, 1);
  return memset(d, c, n);
}
#define AT(bits, T)                                                                                                    \
  T __tsan_atomic##bits##_load(const volatile T *a, int mo) {                                                          \
    acc((const void *)a, sizeof(T), 0);                                                                                \
    return __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                                       \
  }                                                                                                                    \
  void __tsan_atomic##bits##_store(volatile T *a, T v, int mo) {                                                       \
    acc((const void *)a, sizeof(T), 1);                                                                                \
    __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                                          \
  }                                                                                                                    \
  T __tsan_atomic##bits##_exchange(volatile T *a, T v, int mo) {                                                       \
    acc((const void *)a, sizeof(T), 1);                                                                                \
    return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                                                                \
  }                                                                                                                    \
  T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int mo) {                                                      \
    acc((const void *)a, sizeof(T), 1);                                                                                \
    return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST);                                                                 \
  }                                                                                                                    \
  T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int mo) {                                                      \
    acc((const void *)a, sizeof(T), 1);                                                                                \
    return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST);                                                                 \
  }                                                                                                                    \
  T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int mo) {                                                      \
    acc((const void *)a, sizeof(T), 1);                                                                                \
    return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST);                                                                 \
  }                                                                                                                    \
  T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int mo) {                                                       \
    acc((const void *)a, sizeof(T), 1);                                                                                \
    return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST);                                                                  \
  }                                                                                                                    \
  T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int mo) {                                                      \
    acc((const void *)a, sizeof(T), 1);                                                                                \
    return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST);                                                                 \
  }                                                                                                                    \
  T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int mo) {                                                     \
    acc((const void *)a, sizeof(T), 1);                                                                                \
    return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST);                                                                \
  }                                                                                                                    \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int fmo) {                       \
    acc((const void *)a, sizeof(T), 1);                                                                                \
    return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                                \
  }                                                                                                                    \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int fmo) {                         \
    acc((const void *)a, sizeof(T), 1);                                                                                \
    return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                                \
  }                                                                                                                    \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int mo, int fmo) {                             \
    acc((const void *)a, sizeof(T), 1);                                                                                \
    __atomic_compare_exchange_n(a, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                                      \
    return c;                                                                                                          \
  }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int mo) {}

// ---------------------------------------------------------------- libc memory functions
// Replaced so that block operations in uninstrumented code (std, libstdc++ headers) are checked as well.
void *memcpy(void *d, const void *s, size_t n) {
  if (__builtin_expect(t_insim, 0) && n) { acc(s, n, 0); acc(d, n, 1); }
  void *r = d;
  __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
  return r;
}
void *memmove(void *d, const void *s, size_t n) {
  if (__builtin_expect(t_insim, 0) && n) { acc(s, n, 0); acc(d, n, 1); }
  void *r = d;
  if ((uintptr_t)d - (uintptr_t)s >= n) {
    __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
  } else {
    char *dd = (char *)d + n - 1;
    const char *ss = (const char *)s + n - 1;
    __asm__ volatile("std\n\trep movsb\n\tcld" : "+D"(dd), "+S"(ss), "+c"(n) : : "memory");
  }
  return r;
}
void *memset(void *d, int c, size_t n) {
  if (__builtin_expect(t_insim, 0) && n) acc(d, n, 1);
  void *r = d;
  __asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory");
  return r;
}
int memcmp(const void *a, const void *b, size_t n) {
  if (__builtin_expect(t_insim, 0) && n) { acc(a, n, 0); acc(b, n, 0); }
  const unsigned char *x = a, *y = b;
  for (size_t i = 0; i < n; i++)
    if (x[i] != y[i]) return (int)x[i] - (int)y[i];
  return 0;
}
int bcmp(const void *a, const void *b, size_t n) { return memcmp(a, b, n); }
// (what a fortified build calls instead)
void *__memcpy_chk(void *d, const void *s, size_t n, size_t room) {
  if (n > room) __builtin_trap();
  return memcpy(d, s, n);
}
void *__memmove_chk(void *d, const void *s, size_t n, size_t room) {
  if (n > room) __builtin_trap();
  return memmove(d, s, n);
}
void *__memset_chk(void *d, int c, size_t n, size_t room) {
  if (n > room) __builtin_trap();
  return memset(d, c, n);
}
void *memchr(const void *p, int c, size_t n) {
  const unsigned char *s = p;
  size_t i = 0;
  while (i < n && s[i] != (unsigned char)c) i++;
  if (__builtin_expect(t_insim, 0) && n) acc(p, i < n ? i + 1 : n, 0);
  return i < n ? (void *)(s + i) : NULL;
}
int strncmp(const char *a, const char *b, size_t n) {
  size_t i = 0;
  while (i < n && a[i] == b[i] && a[i]) i++;
  if (__builtin_expect(t_insim, 0) && n) { acc(a, i < n ? i + 1 : n, 0); acc(b, i < n ? i + 1 : n, 0); }
  return i < n ? (int)(unsigned char)a[i] - (int)(unsigned char)b[i] : 0;
}
int strcmp(const char *a, const char *b) { return strncmp(a, b, (size_t)-1); }
size_t strlen(const char *s) {
  size_t n = 0;
  while (s[n]) n++;
  if (__builtin_expect(t_insim, 0)) acc(s, n + 1, 0);
  return n;
}
