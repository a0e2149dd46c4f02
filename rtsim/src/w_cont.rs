//! Workload "cont": histories on the C++ views of Rust containers (executed by cxx/cont.cc).
use crate::ffi::{Pod, Txt};
use crate::gen_cont::cb::{Pod2, Rec2};
use crate::sim::*;
use crate::spec::*;
use crate::user::{mix, text, Kind, Tok};
use crate::Work;

pub static WORK: Work = Work { name: "cont", gen, name_of, fixup: |_| {}, setup: |_| {}, thread, finish: || {}, data_matters: true };

extern "C" {
    fn rt_cont_name(f: u32) -> *const std::ffi::c_char;
    fn rt_cont_op(i: u64);
    fn rt_cont_done();
}
fn cname(f: u32) -> Option<&'static str> {
    unsafe {
        let p = rt_cont_name(f);
        (!p.is_null()).then(|| std::ffi::CStr::from_ptr(p).to_str().unwrap())
    }
}
fn name_of(f: u32) -> String {
    cname(f).unwrap_or("?").into()
}
pub fn fnv(b: &[u8]) -> u64 {
    b.iter().fold(0xcbf29ce484222325, |h, x| (h ^ *x as u64).wrapping_mul(0x100000001b3))
}
pub fn mixd(h: u64, d: u64) -> u64 {
    (h ^ d).wrapping_mul(0x100000001b3).wrapping_add(1)
}
pub trait Digest {
    fn digest(&self) -> u64;
}
impl Digest for u8 { fn digest(&self) -> u64 { fnv(&[*self]) } }
impl Digest for bool { fn digest(&self) -> u64 { fnv(&[*self as u8]) } }
macro_rules! num { ($($t:ty)*) => { $(impl Digest for $t { fn digest(&self) -> u64 { fnv(&self.to_ne_bytes()) } })* } }
num!(i8 u16 i16 u32 i32 u64 i64 f32);
impl Digest for &str { fn digest(&self) -> u64 { fnv(self.as_bytes()) } }
/// Views into one text; the same one exists in cxx/elem.h.
pub static LONG: &str = "the quick brown fox jumps over the lazy dog and runs away from the simulator";
impl<'a> Kind for &'a str { fn make(id: u64) -> Self { &LONG[(id % 32) as usize..][..(id / 32 % 40) as usize] } }
impl crate::user::Check for &str { fn same(&self, id: u64) -> bool { *self == <&str>::make(id) } }
impl Digest for f64 { fn digest(&self) -> u64 { fnv(&self.to_ne_bytes()) } }
impl Digest for String { fn digest(&self) -> u64 { assert!(std::str::from_utf8(self.as_bytes()).is_ok()); fnv(self.as_bytes()) } }
impl Digest for Tok { fn digest(&self) -> u64 { self.id_or_dead() } }
impl Digest for Rec2 { fn digest(&self) -> u64 { mixd(mixd(mixd(self.t.digest(), fnv(self.s.as_bytes())), self.u.digest()), self.n as u64) } }
impl Digest for Txt { fn digest(&self) -> u64 { mixd(mixd(fnv(self.s.as_bytes()), self.n as u64), if self.v.is_empty() { 7 } else { fnv(&self.v) }) } }
impl Digest for Pod {
    fn digest(&self) -> u64 {
        let d = self.d[0] as u64 + self.d[1] as u64 * 65536 + ((self.d[2] as u64) << 32);
        mixd(mixd(mixd(self.a as i64 as u64, self.b), self.c as u64), d)
    }
}
impl Digest for Pod2 { fn digest(&self) -> u64 { mixd(self.a, self.b as u64) } }
/// Opaque Rust element with identity; its size and alignment are unknown to C++.
pub struct OItem {
    id: Box<u64>,
    text: String,
    pad: [u16; 7],
}
impl OItem {
    pub fn odig(&self) -> u64 {
        unsafe {
            if sim_obj_live(&*self.id as *const u64 as *const u8, 2) == 0 || self.text.len() != (*self.id % 5) as usize || self.pad != [*self.id as u16; 7] {
                return u64::MAX;
            }
        }
        mix(*self.id)
    }
}
impl Drop for OItem {
    fn drop(&mut self) {
        unsafe { sim_obj_del(&*self.id as *const u64 as *const u8, 2) };
    }
}
impl Digest for OItem { fn digest(&self) -> u64 { self.odig() } }
impl Kind for OItem {
    fn make(id: u64) -> Self {
        let text = "xxxxx"[..(id % 5) as usize].to_owned();
        let b = Box::new(id);
        unsafe { sim_obj_new(&*b as *const u64 as *const u8, 2) };
        OItem { id: b, text, pad: [id as u16; 7] }
    }
}
impl crate::user::Check for OItem {
    fn same(&self, id: u64) -> bool {
        self.odig() == mix(id)
    }
}
#[no_mangle]
unsafe extern "C" fn rt_vstr_digest(v: &Vec<&'static str>) -> u64 {
    digest(v)
}
#[no_mangle]
unsafe extern "C" fn rt_vstr_push(v: &mut Vec<&'static str>, id: u64) {
    v.push(<&str as Kind>::make(id));
}
#[no_mangle]
unsafe extern "C" fn rt_vstr_remove(v: &mut Vec<&'static str>, i: usize) {
    v.remove(i);
}
#[no_mangle]
unsafe extern "C" fn rt_sstr_digest(p: *const &'static str, n: usize) -> u64 {
    digest(std::slice::from_raw_parts(p, n))
}
#[no_mangle]
unsafe extern "C" fn rt_sstr_rev(p: *mut &'static str, n: usize) {
    std::slice::from_raw_parts_mut(p, n).reverse();
}
pub fn digest<T: Digest>(v: &[T]) -> u64 {
    let p = std::hint::black_box(v.as_ptr() as usize);
    if p == 0 || p % std::mem::align_of::<T>() != 0 {
        return u64::MAX;
    }
    v.iter().fold(5, |h, x| mixd(h, x.digest()))
}
impl Kind for Rec2 {
    fn make(id: u64) -> Self {
        Rec2 { t: Kind::make(id), s: text(id), u: Kind::make(id + 1), n: id as u32 }
    }
}
impl crate::user::Check for Rec2 {
    fn same(&self, id: u64) -> bool {
        self.t.same(id) && self.s == text(id) && self.u.same(id + 1) && self.n == id as u32
    }
}
impl Kind for Pod2 {
    fn make(id: u64) -> Self {
        Pod2 { a: mix(id), b: id as u8 }
    }
}
impl crate::user::Check for Pod2 {
    fn same(&self, id: u64) -> bool {
        self.a == mix(id) && self.b == id as u8
    }
}

fn gen(r: &mut Rng, _check: &str) -> Spec {
    let mut names = vec![];
    while let Some(n) = cname(names.len() as u32) {
        names.push(n);
    }
    let first_box = names.iter().position(|n| *n == "BCopy").unwrap() as u64;
    let boxes = r.chance(15);
    // types whose copies can fail more often than the others
    let kinds: Vec<i64> = (0..1 + r.below(2)).map(|_| [0, 1, 1, 1, 2, 3, 3, 3, 4, 5, 6, 7, 8, 8, 9 + r.below(10) as i64, 9 + r.below(10) as i64][r.below(16) as usize]).collect();
    let faults = [0, 15, 40, 70][r.below(4) as usize];
    let n = 3 + r.below(25);
    let mut ops = vec![];
    for _ in 0..n {
        let f = if boxes { first_box + r.below(names.len() as u64 - first_box) } else { r.below(first_box) };
        let outcome = if r.chance(faults) { [6, 6, 5][r.below(3) as usize] } else { 0 };
        let kind = if boxes { [0, 1, 1, 2][r.below(4) as usize] } else { *r.pick(&kinds) };
        ops.push(OpSpec { thread: 0, parent: -1, f: f as u32, outcome, id: 1 + r.below(1 << 16), msg: r.below(1 << 10), a: [kind, r.below(3) as i64, r.below(3) as i64, r.below(1 << 12) as i64] });
    }
    Spec { work: &WORK, nthreads: 1, ops, sched: Sched::None }
}
fn thread(_: u32) {
    unsafe {
        for i in 0..h_nops {
            (*sim_sh).cur_op[0] = i as i32;
            sim_enter();
            rt_cont_op(i);
            sim_leave();
            sim_hist(i << 8 | (*h_ops.add(i as usize)).f as u64);
            (*sim_sh).opsdone += 1;
        }
        sim_enter();
        rt_cont_done();
        sim_leave();
        for k in 1..5 {
            let n = sim_obj_count(k);
            if n != 0 {
                viol(V_OWN, &format!("{n} objects are alive after every container was destroyed"));
            }
        }
    }
}
