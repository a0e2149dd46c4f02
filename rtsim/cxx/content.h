#pragma once
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
// content determined by an id, the same in both languages
size_t h_text(uint64_t id, char *buf);      // valid UTF-8, less than 32 KiB; some contain NUL
size_t h_msg(uint64_t id, char *buf);       // error message without NUL, less than 32 KiB; may be invalid UTF-8 if (id & 1)
size_t h_len(uint64_t id);                  // element count
uint64_t h_mix(uint64_t id);
// the run's operations, filled in by the driver
struct h_op {
  uint32_t f;
  uint32_t outcome;
  uint64_t id;
  uint64_t msg;
  int64_t a[4];
  uint32_t thread;
  int32_t parent;
  volatile uint32_t state; // H_* bits, set while the operation runs
  uint32_t pad;
};
enum { H_CALLED = 1, H_ENTERED = 2, H_THREW = 4, H_DONE = 8, H_RETURNED = 16, H_CAUGHT = 32, H_ALLOCFAIL = 64 };
#define H_CB 0xffffffffu
extern struct h_op *h_ops;
extern uint64_t h_nops;
void h_callee(uint64_t tag, int lang);       // a callee was entered
uint32_t h_drive_idx(uint64_t tag);
void h_called(uint64_t tag);                   // the calling side of an operation starts
void h_nested_one(uint64_t tag);              // drives operation tag from Rust
void h_bad(int cls, uint64_t tag, const char *what);
void h_fatal(uint64_t tag, int kind);        // the caller is about to raise a fault that must be fatal
void h_frame_exit(uint64_t tag, int callee);             // a frame of user code is left
void h_result(uint64_t tag, int how, const char *p, size_t n); // 1 ok 2 error text 3 other exception
#ifdef __cplusplus
}
#endif
