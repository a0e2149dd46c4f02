//! Bindings to the simulator core (cxx/sim.h, cxx/content.h).
#![allow(dead_code)]
use std::alloc::{GlobalAlloc, Layout};

pub const V_OWN: i32 = 1;
pub const V_VAL: i32 = 2;
pub const V_ERR: i32 = 3;
pub const V_FATAL: i32 = 4;
pub const V_CRASH: i32 = 5;
pub const V_HANG: i32 = 6;
pub const V_MODEL: i32 = 7;
pub const V_IO: i32 = 8;
pub const V_FMT: i32 = 9;
pub const V_PTR: i32 = 10;
pub const V_CFG: i32 = 11;
pub const CLS: [&str; 12] = ["none", "ownership", "value", "error", "fatal", "crash", "hang", "model", "io", "format", "pointer", "cfg"];

pub const KIND_OBJ: i32 = 1;
pub const KIND_ROBJ: i32 = 2;
pub const KIND_TOK: i32 = 3;
pub const KIND_LOCAL: i32 = 4;
pub const KIND_NODE: i32 = 5;

pub const H_CALLED: u32 = 1;
pub const H_ENTERED: u32 = 2;
pub const H_THREW: u32 = 4;
pub const H_DONE: u32 = 8;
pub const H_RETURNED: u32 = 16;
pub const H_CAUGHT: u32 = 32;
pub const H_ALLOCFAIL: u32 = 64;
pub const H_CB: u32 = 0xffffffff;

#[repr(C)]
#[derive(Clone, Copy)]
pub struct Viol {
    pub cls: i32,
    pub op: i32,
    pub msg: [u8; 400],
}
#[repr(C)]
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Switch {
    pub tid: u32,
    pub next: u32,
    pub count: u64,
}
pub const MAXSCHED: usize = 4096;
#[repr(C)]
pub struct Shm {
    pub nviol: i32,
    pub viol: [Viol; 6],
    pub finished: i32,
    pub fatal_expected: i32,
    pub fatal_kind: i32,
    pub after_fatal: i32,
    pub steps: u64,
    pub accesses: u64,
    pub allocs: u64,
    pub alloc_bytes: u64,
    pub alloc_faults: u64,
    pub nsched: u32,
    pub sched: [Switch; MAXSCHED],
    pub sched_sig: u64,
    pub hist_sig: u64,
    pub probes: [u64; 96],
    pub opsdone: u64,
    pub cur_op: [i32; 6],
    pub log_n: u64,
    pub log: [u8; 1 << 16],
}
#[repr(C)]
#[derive(Clone, Copy, Debug)]
pub struct HOp {
    pub f: u32,
    pub outcome: u32,
    pub id: u64,
    pub msg: u64,
    pub a: [i64; 4],
    pub thread: u32,
    pub parent: i32,
    pub state: u32,
    pub pad: u32,
}

extern "C" {
    pub static mut sim_sh: *mut Shm;
    pub static mut h_ops: *mut HOp;
    pub static mut h_nops: u64;
    pub fn sim_setup_shm();
    pub fn sim_reset_shm();
    pub fn sim_arena_init();
    pub fn sim_active() -> i32;
    pub fn sim_enter();
    pub fn sim_leave();
    pub fn sim_quiet() -> i32;
    pub fn sim_pause() -> i32;
    pub fn sim_resume(p: i32);
    pub fn sim_violation(cls: i32, msg: *const u8);
    pub fn sim_violation_fatal(cls: i32, msg: *const u8) -> !;
    pub fn sim_log(msg: *const u8);
    pub fn sim_hist(v: u64);
    pub fn sim_probe(n: i32);
    pub fn sim_live_blocks() -> usize;
    pub fn sim_describe_live(buf: *mut u8, n: usize);
    pub fn sim_in_arena(p: *const u8) -> i32;
    pub fn sim_addr_live(p: *const u8, n: usize) -> i32;
    pub fn sim_fail_alloc(n: i64);
    pub fn sim_fail_alloc_left() -> i64;
    pub fn sim_obj_new(p: *const u8, kind: i32);
    pub fn sim_obj_del(p: *const u8, kind: i32);
    pub fn sim_obj_count(kind: i32) -> i64;
    pub fn sim_obj_live(p: *const u8, kind: i32) -> i32;
    pub fn sim_sched_config(mode: i32, seed: u64, gap: u64, list: *const Switch, n: u32);
    pub fn sim_run_threads(n: i32, f: extern "C" fn(*mut u8, i32), arg: *mut u8);
    pub fn sim_yield();
    pub fn sim_tid() -> i32;
    pub fn sim_thread_steps() -> u64;
    pub fn sim_scrub_stack();
    pub fn sim_stamp() -> u64;
    fn sim_rust_alloc(size: usize, align: usize) -> *mut u8;
    fn sim_rust_dealloc(p: *mut u8, size: usize, align: usize);
    fn sim_rust_realloc(p: *mut u8, size: usize, align: usize, n: usize) -> *mut u8;
    pub fn h_text(id: u64, buf: *mut u8) -> usize;
    pub fn h_msg(id: u64, buf: *mut u8) -> usize;
    pub fn h_len(id: u64) -> usize;
    pub fn rt_tok_new(id: u64) -> *mut u64;
    pub fn rt_tok_del(p: *mut u64);
    pub fn rt_drive_c2r(idx: u32, tag: u64);
    pub fn rt_keeper_new(id: u64);
    pub fn rt_keeper_del();
    pub fn rt_warmup();
}

pub struct SimAlloc;
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        sim_rust_alloc(l.size(), l.align())
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        sim_rust_dealloc(p, l.size(), l.align())
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        sim_rust_realloc(p, l.size(), l.align(), n)
    }
}
pub fn viol(cls: i32, msg: &str) {
    let p = unsafe { sim_pause() };
    let m = format!("{}\0", msg.replace('\0', "\\0"));
    unsafe {
        sim_violation(cls, m.as_ptr());
        sim_resume(p);
    }
}
pub fn viol_fatal(cls: i32, msg: &str) -> ! {
    unsafe { sim_pause() };
    let m = format!("{}\0", msg.replace('\0', "\\0"));
    unsafe { sim_violation_fatal(cls, m.as_ptr()) }
}
pub fn log(msg: &str) {
    let p = unsafe { sim_pause() };
    let m = format!("{}\0", msg.replace('\0', "\\0"));
    unsafe {
        sim_log(m.as_ptr());
        sim_resume(p);
    }
}
/// Runs f with memory still tracked but without scheduling points.
pub fn quiet<T>(f: impl FnOnce() -> T) -> T {
    let q = unsafe { sim_quiet() };
    let r = f();
    unsafe { sim_resume(q) };
    r
}
/// Runs f outside the simulation (for the harness's own bookkeeping).
pub fn outside<T>(f: impl FnOnce() -> T) -> T {
    let q = unsafe { sim_pause() };
    let r = f();
    unsafe { sim_resume(q) };
    r
}
