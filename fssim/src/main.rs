//! Deterministic simulation of build scripts that use cxx-build, and of the command line generator.
#![feature(thread_local)]
#![allow(static_mut_refs, non_upper_case_globals)]
mod cfgsim;
mod cli;
mod exec;
mod gen;
mod nodes;
mod rng;
mod runner;
mod sim;
mod spec;
mod srcgen;
mod sys;
mod vfs;

use std::ffi::c_char;

/// Where this process keeps its arguments; simulated processes find theirs there.
pub static mut ARGV: *mut *mut c_char = std::ptr::null_mut();
pub const SLOTS: usize = 64;

unsafe extern "C" fn keep(_: i32, argv: *mut *mut c_char, _: *mut *mut c_char) {
    ARGV = argv;
}
#[link_section = ".init_array"]
#[used]
static KEEP: unsafe extern "C" fn(i32, *mut *mut c_char, *mut *mut c_char) = keep;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < SLOTS {
        use std::os::unix::process::CommandExt;
        let mut a = args[1..].to_vec();
        a.resize(SLOTS, String::new());
        let e = std::process::Command::new(std::env::current_exe().expect("own path")).args(a).exec();
        eprintln!("fssim: {e}");
        std::process::exit(2);
    }
    let args: Vec<String> = args.into_iter().filter(|a| !a.is_empty()).collect();
    runner::main(args);
}
