// Simulator core: simulated allocator with shadow memory, controlled threads,
// schedule recording/replay, violation recording. Plain C, never instrumented.
#pragma once
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif

enum sim_class {
  V_NONE = 0,
  V_OWN = 1,   // ownership: leak, double free, use after free, wrong allocator
  V_VAL = 2,   // wrong value seen by callee or caller
  V_ERR = 3,   // wrong error mapping / text
  V_FATAL = 4, // something continued after a fault that must end the process
  V_CRASH = 5, // unexpected death of the process
  V_HANG = 6,  // no progress
  V_MODEL = 7, // container/string differs from its model
  V_IO = 8,    // io forwarding
  V_FMT = 9,   // formatting
  V_PTR = 10,  // shared/weak pointer semantics
  V_CFG = 11,
};

#define SIM_MAXV 6
#define SIM_MAXSCHED 4096
#define SIM_MAXTHR 6
#define SIM_NPROBE 96
#define SIM_MAXOPS 512

struct sim_viol {
  int cls;
  int op;
  char msg[400];
};
struct sim_switch {
  uint32_t tid;
  uint32_t next;
  uint64_t count;
};

// Shared with the parent process; survives the child's death.
struct sim_shm {
  volatile int nviol;
  struct sim_viol viol[SIM_MAXV];
  volatile int finished;       // the run's program came to its end
  volatile int fatal_expected; // tag+1 of the op that raised a fatal fault
  volatile int fatal_kind;
  volatile int after_fatal;    // user code observed running after it
  volatile uint64_t steps;     // scheduling points passed
  volatile uint64_t accesses;  // checked memory accesses
  volatile uint64_t allocs;
  volatile uint64_t alloc_bytes;
  volatile uint64_t alloc_faults;
  volatile uint32_t nsched;    // switches performed
  struct sim_switch sched[SIM_MAXSCHED];
  volatile uint64_t sched_sig;
  volatile uint64_t hist_sig;
  volatile uint64_t probes[SIM_NPROBE];
  volatile uint64_t opsdone;
  volatile int cur_op[SIM_MAXTHR];
  volatile uint64_t log_n;
  char log[1 << 16]; // event log text, for replay output
};

extern struct sim_shm *sim_sh;

void sim_setup_shm(void);
void sim_reset_shm(void);
void sim_arena_init(void);

// true while code under test runs on this thread
int sim_active(void);
void sim_enter(void);
void sim_leave(void);
int sim_quiet(void);        // memory is still tracked, no scheduling points
int sim_pause(void);        // returns previous state
void sim_resume(int prev);

void sim_violation(int cls, const char *msg);
void sim_violation_fatal(int cls, const char *msg) __attribute__((noreturn));
void sim_log(const char *msg);
void sim_hist(uint64_t v);
void sim_probe(int n);
uint64_t sim_probe_get(int n);

size_t sim_live_blocks(void);
void sim_describe_live(char *buf, size_t n);
int sim_in_arena(const void *p);
int sim_addr_live(const void *p, size_t n);

// allocation faults: the n-th C++ allocation from now on this thread fails
void sim_fail_alloc(int64_t n);
int64_t sim_fail_alloc_left(void);

// objects with identity at an address (constructed/destroyed by user code)
void sim_obj_new(const void *p, int kind);
void sim_obj_del(const void *p, int kind);
int64_t sim_obj_count(int kind);
int sim_obj_live(const void *p, int kind);

// threads
typedef void (*sim_fn)(void *, int tid);
// mode 0: no preemption, 1: random from seed with mean gap, 2: explicit list
void sim_sched_config(int mode, uint64_t seed, uint64_t gap, const struct sim_switch *list, uint32_t n);
void sim_run_threads(int n, sim_fn fn, void *arg);
void sim_yield(void);          // explicit scheduling point
int sim_tid(void);
void sim_scrub_stack(void);
uint64_t sim_thread_steps(void);
uint64_t sim_stamp(void); // global event sequence number

#ifdef __cplusplus
}
#endif
