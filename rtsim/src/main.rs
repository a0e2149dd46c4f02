//! Deterministic simulation of the cxx runtime and of the code it generates.
mod calls;
mod gen_alt;
mod gen_bridge;
mod gen_callees;
mod gen_cont;
mod gen_drive;
mod gen_ptr;
mod gen_uv;
mod runner;
mod sim;
mod spec;
mod user;
mod w_calls;
mod w_cont;
mod w_fmt;
mod w_io;
mod w_ptr;
mod w_strs;
mod w_uv;
pub use gen_bridge::ffi;

use sim::*;
use spec::*;

#[global_allocator]
static ALLOC: SimAlloc = SimAlloc;

pub struct Work {
    pub name: &'static str,
    pub gen: fn(&mut Rng, &str) -> Spec,
    pub name_of: fn(u32) -> String,
    pub fixup: fn(&mut Spec),
    pub setup: fn(&Spec),
    pub thread: fn(u32),
    pub finish: fn(),
    pub data_matters: bool,
}
pub fn works() -> &'static [&'static Work] {
    static W: &[&Work] = &[&w_calls::WORK, &w_ptr::WORK, &w_cont::WORK, &w_uv::WORK, &w_strs::WORK, &w_io::WORK, &w_fmt::WORK];
    W
}

pub fn op_name(f: u32) -> String {
    unsafe { WORK }.map_or("?".into(), |w| (w.name_of)(f))
}
pub fn nthreads() -> u32 {
    unsafe { NTHREADS }
}
static mut NTHREADS: u32 = 1;
static mut WORK: Option<&'static Work> = None;

/// Reports heap blocks that are alive now and were not counted before.
pub fn check_leaks(op: u64, before: usize) {
    let n = unsafe { sim_live_blocks() };
    if n > before {
        let mut b = [0u8; 512];
        unsafe { sim_describe_live(b.as_mut_ptr(), b.len()) };
        let d = String::from_utf8_lossy(&b[..b.iter().position(|c| *c == 0).unwrap()]).into_owned();
        viol(V_OWN, &format!("op {op}: {} heap blocks leaked: {d}", n - before));
    } else if n < before {
        viol(V_OWN, &format!("op {op}: released {} heap blocks of somebody else", before - n));
    }
}

extern "C" fn thread_main(_: *mut u8, tid: i32) {
    unsafe {
        rt_warmup();
        let _ = std::panic::catch_unwind(|| panic!("warm up"));
        (WORK.unwrap().thread)(tid as u32);
    }
}

/// Executes one run in this (forked) process.
pub fn run_here(spec: &Spec) {
    unsafe {
        NTHREADS = spec.nthreads;
        WORK = Some(spec.work);
        let ops: Vec<HOp> = spec
            .ops
            .iter()
            .map(|o| HOp { f: o.f, outcome: o.outcome, id: o.id, msg: o.msg, a: o.a, thread: o.thread, parent: o.parent, state: 0, pad: 0 })
            .collect();
        h_nops = ops.len() as u64;
        h_ops = ops.leak().as_mut_ptr();
        match &spec.sched {
            Sched::None => sim_sched_config(0, 0, 1, std::ptr::null(), 0),
            Sched::Random { seed, gap } => sim_sched_config(1, *seed, *gap, std::ptr::null(), 0),
            Sched::List(l) => sim_sched_config(2, 0, 1, l.as_ptr(), l.len() as u32),
        }
        (spec.work.setup)(spec);
        sim_run_threads(spec.nthreads as i32, thread_main, std::ptr::null_mut());
        (spec.work.finish)();
        if sim_live_blocks() != 0 {
            check_leaks(h_nops, 0);
        }
        (*sim_sh).finished = 1;
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    runner::main();
}
