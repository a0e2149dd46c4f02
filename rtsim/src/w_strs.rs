//! Workload "strs": histories on rust::String and rust::Str (executed by cxx/strs.cc).
use crate::sim::*;
use crate::spec::*;
use crate::w_cont::fnv;
use crate::Work;

pub static WORK: Work = Work { name: "strs", gen, name_of, fixup: |_| {}, setup: |_| {}, thread, finish: || {}, data_matters: true };

#[cxx::bridge(namespace = "rt")]
pub mod sb {
    unsafe extern "C++" {
        include!("rtsim/cxx/strfwd.h");
        fn zc_pass(s: String) -> String;
        fn zc_pass_str(s: &str) -> &str;
        fn zc_append(s: &mut String, id: u64);
        fn zc_digest(s: &String) -> u64;
        fn zc_parse(bytes: &[u8]) -> Result<String>;
        fn zc_view(bytes: &[u8]) -> Result<&str>;
    }
    extern "Rust" {
        fn z_digest(s: &String) -> u64;
        fn z_valid(s: &String) -> bool;
        fn z_str_digest(s: &str) -> u64;
        fn z_str_valid(s: &str) -> bool;
        fn z_cmp(a: &str, b: &str) -> i32;
        fn z_pass(s: String) -> String;
        fn z_take(s: String) -> u64;
        fn z_pass_str(s: &str) -> &str;
        fn z_make(bytes: &[u8]) -> String;
        fn z_push(s: &mut String, bytes: &[u8]);
        fn z_cut(s: &mut String, at: usize) -> usize;
        fn z_insert(s: &mut String, at: usize, bytes: &[u8]) -> usize;
        fn z_clear(s: &mut String);
        fn z_shrink(s: &mut String);
        fn z_swap(s: &mut String, t: &mut String);
        fn z_replace(s: &mut String, t: String) -> String;
        fn z_slice(s: &String, at: usize, n: usize) -> &str;
        fn z_via_cpp(s: String, id: u64) -> String;
        fn z_parse(bytes: &[u8]) -> String;
        fn z_view(bytes: &[u8]) -> Result<u64>;
    }
}
fn utf8(b: &[u8]) -> &str {
    std::str::from_utf8(b).unwrap()
}
fn floor(s: &str, at: usize) -> usize {
    let mut at = at.min(s.len());
    while !s.is_char_boundary(at) {
        at -= 1;
    }
    at
}
fn z_digest(s: &String) -> u64 {
    fnv(s.as_bytes())
}
fn z_valid(s: &String) -> bool {
    std::str::from_utf8(s.as_bytes()).is_ok() && s.capacity() >= s.len()
}
fn z_str_digest(s: &str) -> u64 {
    fnv(s.as_bytes())
}
fn z_str_valid(s: &str) -> bool {
    std::str::from_utf8(s.as_bytes()).is_ok()
}
fn z_cmp(a: &str, b: &str) -> i32 {
    a.cmp(b) as i32
}
fn z_pass(s: String) -> String {
    s
}
fn z_take(s: String) -> u64 {
    fnv(s.as_bytes())
}
#[allow(clippy::needless_lifetimes)]
fn z_pass_str<'a>(s: &'a str) -> &'a str {
    s
}
fn z_make(bytes: &[u8]) -> String {
    utf8(bytes).to_owned()
}
fn z_push(s: &mut String, bytes: &[u8]) {
    s.push_str(utf8(bytes))
}
fn z_cut(s: &mut String, at: usize) -> usize {
    let at = floor(s, at);
    s.truncate(at);
    at
}
fn z_insert(s: &mut String, at: usize, bytes: &[u8]) -> usize {
    let at = floor(s, at);
    s.insert_str(at, utf8(bytes));
    at
}
fn z_clear(s: &mut String) {
    s.clear()
}
fn z_shrink(s: &mut String) {
    s.shrink_to_fit()
}
fn z_swap(s: &mut String, t: &mut String) {
    std::mem::swap(s, t)
}
fn z_replace(s: &mut String, t: String) -> String {
    std::mem::replace(s, t)
}
#[allow(clippy::needless_lifetimes)]
fn z_slice<'a>(s: &'a String, at: usize, n: usize) -> &'a str {
    let a = floor(s, at);
    let b = floor(s, (at + n).min(s.len()));
    &s[a..b]
}
/// A string that travels Rust -> C++ -> Rust several times while both sides append to it.
fn z_via_cpp(mut s: String, id: u64) -> String {
    let before = fnv(s.as_bytes());
    s = sb::zc_pass(s);
    if fnv(s.as_bytes()) != before || sb::zc_digest(&s) != before || sb::zc_pass_str(&s).as_ptr() != s.as_ptr() || sb::zc_pass_str(&s).len() != s.len() {
        viol(V_MODEL, "a string changed on its way through C++");
    }
    sb::zc_append(&mut s, id);
    s.push('\u{1f600}');
    s
}
fn z_parse(bytes: &[u8]) -> String {
    match sb::zc_parse(bytes) {
        Ok(s) => s,
        Err(e) => format!("!{}", e.what()),
    }
}
fn z_view(bytes: &[u8]) -> Result<u64, cxx::Exception> {
    sb::zc_view(bytes).map(|s| {
        if s.as_ptr() != bytes.as_ptr() && !bytes.is_empty() {
            viol(V_MODEL, "a view of other memory");
        }
        fnv(s.as_bytes())
    })
}

extern "C" {
    fn rt_strs_name(f: u32) -> *const std::ffi::c_char;
    fn rt_strs_op(i: u64);
    fn rt_strs_done();
}
fn cname(f: u32) -> Option<&'static str> {
    unsafe {
        let p = rt_strs_name(f);
        (!p.is_null()).then(|| std::ffi::CStr::from_ptr(p).to_str().unwrap())
    }
}
fn name_of(f: u32) -> String {
    cname(f).unwrap_or("?").into()
}
fn gen(r: &mut Rng, check: &str) -> Spec {
    let mut nops = 0u64;
    while cname(nops as u32).is_some() {
        nops += 1;
    }
    let faults = [0, 20, 50][r.below(3) as usize];
    let n = 3 + r.below(28);
    let bits = *r.pick(&[6, 10, 16]);
    let sink = (0..nops).find(|f| cname(*f as u32) == Some("StreamFail")).unwrap();
    let ops = (0..n)
        .map(|_| {
            let outcome = if r.chance(faults) { 5 } else { 0 };
            OpSpec { thread: 0, parent: -1, f: if check == "C09" && r.chance(40) { sink as u32 } else { r.below(nops) as u32 }, outcome, id: 1 + r.below(1 << bits), msg: r.below(1 << 10), a: [r.below(100) as i64, r.below(4) as i64, r.below(4) as i64, r.below(1 << 12) as i64] }
        })
        .collect();
    Spec { work: &WORK, nthreads: 1, ops, sched: Sched::None }
}
fn thread(_: u32) {
    unsafe {
        for i in 0..h_nops {
            (*sim_sh).cur_op[0] = i as i32;
            sim_enter();
            rt_strs_op(i);
            sim_leave();
            sim_hist(i << 8 | (*h_ops.add(i as usize)).f as u64);
            (*sim_sh).opsdone += 1;
        }
        sim_enter();
        rt_strs_done();
        sim_leave();
    }
}
