//! Workload "uv": histories on C++ strings, vectors and unique pointers issued from Rust and C++.
use crate::ffi::{Obj, Txt};
use crate::gen_uv::ub;
use crate::sim::*;
use crate::spec::*;
use crate::user::{message, text, Check, Kind};
use crate::w_cont::{fnv, mixd};
use crate::Work;
use cxx::kind::Trivial;
use cxx::memory::UniquePtrTarget;
use cxx::vector::VectorElement;
use cxx::{let_cxx_string, CxxString, CxxVector, Exception, ExternType, SharedPtr, UniquePtr};
use std::collections::hash_map::DefaultHasher;
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;

pub static WORK: Work = Work { name: "uv", gen, name_of, fixup: |_| {}, setup: |_| {}, thread, finish: || {}, data_matters: true };

/// What is only available for elements that Rust holds by value.
#[allow(clippy::type_complexity)]
pub struct ByValue<T: VectorElement> {
    make: fn(u64) -> T,
    push: fn(Pin<&mut CxxVector<T>>, T),
    pop: fn(Pin<&mut CxxVector<T>>) -> Option<T>,
    slice: for<'a> fn(&'a CxxVector<T>) -> &'a [T],
    mslice: for<'a> fn(Pin<&'a mut CxxVector<T>>) -> &'a mut [T],
    new: fn(T) -> UniquePtr<CxxVector<T>>,
}
impl<T: Kind + VectorElement + ExternType<Kind = Trivial>> ByValue<T> {
    pub fn of() -> Self {
        ByValue {
            make: T::make,
            push: |v, x| v.push(x),
            pop: |v| v.pop(),
            slice: |v| v.as_slice(),
            mslice: |v| v.as_mut_slice(),
            new: |x| {
                let mut v = CxxVector::new();
                v.pin_mut().push(x);
                v
            },
        }
    }
}
pub trait VK: VectorElement {
    const NAME: &'static str;
    fn digest(v: &CxxVector<Self>) -> u64;
    fn cpush(v: Pin<&mut CxxVector<Self>>, id: u64);
    fn insert(v: Pin<&mut CxxVector<Self>>, at: usize, id: u64);
    fn erase(v: Pin<&mut CxxVector<Self>>, at: usize);
    fn fill(v: Pin<&mut CxxVector<Self>>, id: u64, n: usize, fail: usize) -> Result<(), Exception>;
    fn clear(v: Pin<&mut CxxVector<Self>>);
    fn shrink(v: Pin<&mut CxxVector<Self>>);
    fn swap(v: Pin<&mut CxxVector<Self>>, w: Pin<&mut CxxVector<Self>>);
    fn make(id: u64, n: usize) -> UniquePtr<CxxVector<Self>>;
    fn pass(v: UniquePtr<CxxVector<Self>>) -> UniquePtr<CxxVector<Self>>;
    fn eat(v: UniquePtr<CxxVector<Self>>) -> u64;
    fn edig(&self) -> u64;
    fn eset(e: Pin<&mut Self>, id: u64);
    fn by_value() -> Option<ByValue<Self>>;
}
fn dig_of<T: VK>(id: u64) -> u64 {
    T::make(id, 1).get(0).unwrap().edig()
}
fn digest_of<T: VK>(m: &[u64]) -> u64 {
    m.iter().fold(5, |h, id| mixd(h, dig_of::<T>(*id)))
}
static mut CUR: u64 = 0;
fn bad(what: impl AsRef<str>) {
    let what = what.as_ref();
    outside(|| unsafe {
        let o = *h_ops.add(CUR as usize);
        viol(V_MODEL, &format!("op {CUR} {}: {what}", name_of(o.f)))
    });
}
fn want(ok: bool, what: &str) {
    if !ok {
        bad(what);
    }
}
/// Runs something that must panic.
fn panics<R>(what: &str, f: impl FnOnce() -> R) {
    if catch_unwind(AssertUnwindSafe(f)).is_ok() {
        bad(format!("{what} did not panic"));
    }
}

macro_rules! ops {
    ($e:ident $t:ident: $($n:ident),* $(,)?) => {
        #[allow(non_camel_case_types, clippy::enum_variant_names)]
        #[derive(Clone, Copy, PartialEq, Debug)]
        enum $e { $($n),* }
        const $t: &[(&str, $e)] = &[$((stringify!($n), $e::$n)),*];
    };
}
ops!(V VOPS: VNew, VMake, VNull, VPush, VPop, VCPush, VInsert, VErase, VFill, VClear, VShrink, VSwapC, VPass, VEat, VGet, VSet,
    VIter, VIterMut, VIterHold, VSlice, VSliceMut, VRaw, VAssign, VTake, VMemSwap, VNullUse, VPanicIter, VPanicPush, VDrain, VOne, VBig);
ops!(S SOPS: SMake, SNull, SPushStr, SPushBytes, SClear, SReserve, SReserveTooMuch, SAppendC, SResizeC, SEraseC, SSwapC, SPass, SEat, SFailC,
    SCompare, SCompareStr, SHash, SCStr, SToStr, SFmtWrite, SIoWrite, SRaw, SAssign, STake, SNullUse, SStack, SStackPanic, SStackReturn,
    SStackAsRef, SStackNested, SStackDiverge);
ops!(U UOPS: UNew, UNull, URaw, UAssign, USwap, UMut, UDeref, UNullUse, UTake, UCompare, UPanicHeld);

fn name_of(f: u32) -> String {
    let f = f as usize;
    let all = VOPS.iter().map(|o| o.0).chain(SOPS.iter().map(|o| o.0)).chain(UOPS.iter().map(|o| o.0));
    all.into_iter().nth(f).unwrap_or("?").into()
}

fn gen(r: &mut Rng, _check: &str) -> Spec {
    let (v, s, u) = (VOPS.len() as u64, SOPS.len() as u64, UOPS.len() as u64);
    let mix: [u64; 3] = [[1, 0, 0], [0, 1, 0], [6, 3, 1], [0, 0, 1], [8, 0, 2]][r.weighted(&[5, 4, 3, 1, 2])];
    let kinds: Vec<i64> = (0..1 + r.below(2)).map(|_| if r.chance(70) { r.below(9) } else { 9 + r.below(8) } as i64).collect();
    let n = 3 + r.below(28);
    let ops = (0..n)
        .map(|_| {
            let f = match r.weighted(&mix) {
                0 => r.below(v),
                1 => v + r.below(s),
                _ => v + s + r.below(u),
            };
            OpSpec { thread: 0, parent: -1, f: f as u32, outcome: 0, id: 1 + r.below(1 << 16), msg: r.below(1 << 10), a: [*r.pick(&kinds), r.below(3) as i64, r.below(3) as i64, r.below(1 << 12) as i64] }
        })
        .collect();
    Spec { work: &WORK, nthreads: 1, ops, sched: Sched::None }
}

const NS: usize = 3;
struct Vecs<T: VK> {
    v: [UniquePtr<CxxVector<T>>; NS],
    m: [Option<Vec<u64>>; NS],
}
struct Op {
    id: u64,
    msg: u64,
    a: usize,
    b: usize,
    n: usize,
}
impl<T: VK> Vecs<T> {
    fn new() -> Self {
        Vecs { v: [UniquePtr::null(), UniquePtr::null(), UniquePtr::null()], m: [None, None, None] }
    }
    fn check(&self) {
        for s in 0..NS {
            match (self.v[s].as_ref(), &self.m[s]) {
                (None, None) => {}
                (Some(v), Some(m)) => {
                    if v.len() != m.len() || v.is_empty() != m.is_empty() {
                        bad(format!("length {} instead of {}", v.len(), m.len()));
                        continue;
                    }
                    for (i, id) in m.iter().enumerate() {
                        if v.get(i).unwrap().edig() != dig_of::<T>(*id) {
                            bad(format!("element {i} differs from the model"));
                        }
                    }
                    want(T::digest(v) == digest_of::<T>(m), "C++ sees other contents");
                    want(v.get(m.len()).is_none() && v.get(usize::MAX).is_none(), "get() beyond the end");
                }
                _ => bad("null state differs from the model"),
            }
        }
    }
    fn elems(&self) -> usize {
        self.m.iter().flatten().map(|m| m.len()).sum()
    }
    /// Makes sure that slot s holds a vector.
    fn some(&mut self, s: usize, o: &Op) {
        if self.m[s].is_none() {
            let n = (o.msg % 5) as usize;
            self.v[s] = T::make(o.id, n);
            self.m[s] = Some((0..n).map(|i| o.id + i as u64).collect());
        }
    }
    fn op(&mut self, op: V, o: &Op) {
        use V::*;
        let (a, b) = (o.a, o.b);
        if !matches!(op, VNew | VMake | VNull | VRaw | VAssign | VTake | VMemSwap | VNullUse | VPass | VEat | VOne) {
            self.some(a, o);
        }
        let bv = T::by_value();
        let len = self.m[a].as_ref().map_or(0, |m| m.len());
        match op {
            VNew => {
                self.v[a] = CxxVector::new();
                self.m[a] = Some(vec![]);
            }
            VMake => {
                let n = o.n % 6;
                self.v[a] = T::make(o.id, n);
                self.m[a] = Some((0..n).map(|i| o.id + i as u64).collect());
            }
            VOne => {
                if let Some(bv) = bv {
                    self.v[a] = (bv.new)((bv.make)(o.id));
                    self.m[a] = Some(vec![o.id]);
                }
            }
            VBig => {
                // sizes around the limits of narrower integers
                let small = !matches!(T::NAME, "tok" | "txt" | "pod" | "cstr" | "obj");
                let n = if small && o.id % 16 == 0 && unsafe { sim_thread_steps() } < 100_000 { 65534 } else { 126 + (o.id as usize >> 3 & 1) * 128 } + o.n % 5;
                let v = T::make(o.id, n);
                let sample = |i: usize| i < 3 || i + 3 >= n || i % 251 == 0;
                want(v.len() == n && !v.is_empty() && v.iter().len() == n, "length of a long vector");
                want(v.get(n).is_none(), "get() at the end of a long vector");
                let mut k = 0;
                for e in v.iter() {
                    if sample(k) {
                        want(e.edig() == dig_of::<T>(o.id + k as u64), "element of a long vector");
                        want(v.get(k).is_some_and(|g| std::ptr::eq(g, e)), "get() on a long vector");
                    }
                    k += 1;
                }
                want(k == n, "iteration over a long vector");
                if let Some(bv) = bv {
                    let s = (bv.slice)(&v);
                    want(s.len() == n && s.last().unwrap().edig() == dig_of::<T>(o.id + n as u64 - 1), "slice of a long vector");
                }
            }
            VNull => {
                self.v[a] = UniquePtr::null();
                self.m[a] = None;
            }
            VPush => {
                if let Some(bv) = bv {
                    (bv.push)(self.v[a].pin_mut(), (bv.make)(o.id));
                    self.m[a].as_mut().unwrap().push(o.id);
                }
            }
            VPop => {
                if let Some(bv) = bv {
                    let x = (bv.pop)(self.v[a].pin_mut());
                    let y = self.m[a].as_mut().unwrap().pop();
                    match (x, y) {
                        (None, None) => {}
                        (Some(x), Some(y)) => want(x.edig() == dig_of::<T>(y), "popped element"),
                        _ => bad("pop() at the end"),
                    }
                }
            }
            VDrain => {
                if let Some(bv) = bv {
                    let mut got = vec![];
                    while let Some(x) = (bv.pop)(self.v[a].pin_mut()) {
                        got.push(x);
                        if got.len() > len {
                            break;
                        }
                    }
                    want(got.len() == len, "number of elements popped");
                    let m = self.m[a].as_mut().unwrap();
                    for x in &got {
                        let id = m.pop().unwrap_or(0);
                        want(x.edig() == dig_of::<T>(id), "popped element");
                    }
                    for x in got {
                        (bv.push)(self.v[a].pin_mut(), x);
                    }
                    // pushed back in the order they came out
                    let mut ids = std::mem::take(self.m[a].as_mut().unwrap());
                    want(ids.is_empty(), "elements left");
                    ids.clear();
                    self.v[a] = UniquePtr::null();
                    self.m[a] = None;
                }
            }
            VCPush => {
                T::cpush(self.v[a].pin_mut(), o.id);
                self.m[a].as_mut().unwrap().push(o.id);
            }
            VInsert => {
                let at = o.n % (len + 1);
                T::insert(self.v[a].pin_mut(), at, o.id);
                self.m[a].as_mut().unwrap().insert(at, o.id);
            }
            VErase => {
                if len > 0 {
                    T::erase(self.v[a].pin_mut(), o.n % len);
                    self.m[a].as_mut().unwrap().remove(o.n % len);
                }
            }
            VFill => {
                let (n, fail) = (o.n % 5, (o.msg % 6) as usize);
                let r = T::fill(self.v[a].pin_mut(), o.id, n, fail);
                want(r.is_err() == (fail < n), "result of a C++ function");
                if r.is_err() {
                    unsafe { sim_probe(3) };
                }
                self.m[a].as_mut().unwrap().extend((0..n.min(fail)).map(|i| o.id + i as u64));
            }
            VClear => {
                T::clear(self.v[a].pin_mut());
                self.m[a].as_mut().unwrap().clear();
            }
            VShrink => T::shrink(self.v[a].pin_mut()),
            VSwapC => {
                if a != b {
                    self.some(b, o);
                    let (x, y) = two(&mut self.v, a, b);
                    T::swap(x.pin_mut(), y.pin_mut());
                    self.m.swap(a, b);
                }
            }
            VPass => {
                let v = std::mem::replace(&mut self.v[a], UniquePtr::null());
                self.v[a] = T::pass(v);
            }
            VEat => {
                let v = std::mem::replace(&mut self.v[a], UniquePtr::null());
                let d = T::eat(v);
                let m = self.m[a].take();
                want(d == m.map_or(1, |m| digest_of::<T>(&m)), "C++ received other contents");
            }
            VGet => {
                let i = o.n % (len + 2);
                let x = self.v[a].get(i);
                want(x.is_some() == (i < len), "get()");
                if let (Some(x), Some(id)) = (x, self.m[a].as_ref().unwrap().get(i)) {
                    want(x.edig() == dig_of::<T>(*id), "get()");
                    want(std::ptr::eq(x, unsafe { self.v[a].get_unchecked(i) }), "get_unchecked()");
                }
            }
            VSet => {
                let i = o.n % (len + 2);
                let e = self.v[a].pin_mut().index_mut(i);
                want(e.is_some() == (i < len), "index_mut()");
                if let Some(e) = e {
                    T::eset(e, o.id);
                    let p = unsafe { &*self.v[a].pin_mut().index_unchecked_mut(i) as *const T };
                    want(std::ptr::eq(p, self.v[a].get(i).unwrap()), "index_unchecked_mut()");
                    self.m[a].as_mut().unwrap()[i] = o.id;
                }
            }
            VIter => {
                let m = self.m[a].as_ref().unwrap();
                let v = self.v[a].as_ref().unwrap();
                let stop = o.n % (len + 3);
                let mut it = v.iter();
                for k in 0..stop {
                    let left = len.saturating_sub(k);
                    want(it.len() == left && it.size_hint() == (left, Some(left)), "elements announced by an iterator");
                    let x = it.next();
                    want(x.is_some() == (k < len), "end of an iteration");
                    if let (Some(x), Some(id)) = (x, m.get(k)) {
                        want(x.edig() == dig_of::<T>(*id), "element of an iteration");
                    }
                }
                let rest = len.saturating_sub(stop);
                match o.msg % 4 {
                    0 => want(it.count() == rest, "elements counted"),
                    1 => want(it.last().map(|x| x.edig()) == (rest > 0).then(|| dig_of::<T>(m[len - 1])), "last element"),
                    2 => want(it.nth((o.id % 3) as usize).map(|x| x.edig()) == m.get(stop.min(len) + (o.id % 3) as usize).map(|i| dig_of::<T>(*i)), "nth element"),
                    _ => want(it.collect::<Vec<&T>>().len() == rest, "elements collected"),
                }
            }
            VIterMut => {
                let stop = o.n % (len + 3);
                let mut ids = self.m[a].clone().unwrap();
                let mut it = self.v[a].pin_mut().into_iter();
                for k in 0..stop {
                    let left = len.saturating_sub(k);
                    want(it.len() == left && it.size_hint() == (left, Some(left)), "elements announced by a mutable iterator");
                    let x = it.next();
                    want(x.is_some() == (k < len), "end of a mutable iteration");
                    if let Some(x) = x {
                        want(x.edig() == dig_of::<T>(ids[k]), "element of a mutable iteration");
                        if (o.msg >> k) & 1 != 0 {
                            T::eset(x, o.id + k as u64);
                            ids[k] = o.id + k as u64;
                        }
                    }
                }
                self.m[a] = Some(ids);
            }
            VIterHold => {
                // all elements at the same time, changed in reverse order
                let mut ids = self.m[a].clone().unwrap();
                let mut all: Vec<Pin<&mut T>> = self.v[a].pin_mut().iter_mut().collect();
                want(all.len() == len, "elements of a mutable iteration");
                for (k, x) in all.iter_mut().enumerate().rev() {
                    T::eset(x.as_mut(), o.id + k as u64);
                    if k < len {
                        ids[k] = o.id + k as u64;
                    }
                }
                self.m[a] = Some(ids);
            }
            VSlice => {
                if let Some(bv) = bv {
                    let s = (bv.slice)(&self.v[a]);
                    want(s.len() == len, "length of the slice");
                    for (x, id) in s.iter().zip(self.m[a].as_ref().unwrap()) {
                        want(x.edig() == dig_of::<T>(*id), "element of the slice");
                    }
                }
            }
            VSliceMut => {
                if let Some(bv) = bv {
                    let s = (bv.mslice)(self.v[a].pin_mut());
                    want(s.len() == len, "length of the mutable slice");
                    s.reverse();
                    self.m[a].as_mut().unwrap().reverse();
                    if len > 0 {
                        s[o.n % len] = (bv.make)(o.id);
                        self.m[a].as_mut().unwrap()[o.n % len] = o.id;
                    }
                }
            }
            VRaw => {
                let v = std::mem::replace(&mut self.v[a], UniquePtr::null());
                let p = v.as_ptr();
                want(p == v.as_mut_ptr() as *const _, "as_mut_ptr()");
                let r = v.into_raw();
                want(r as *const _ == p && r.is_null() == self.m[a].is_none(), "into_raw()");
                self.v[a] = unsafe { UniquePtr::from_raw(r) };
            }
            VAssign => {
                if a != b {
                    self.v[a] = std::mem::replace(&mut self.v[b], UniquePtr::null());
                    self.m[a] = self.m[b].take();
                }
            }
            VTake => {
                let v = std::mem::replace(&mut self.v[a], CxxVector::new());
                let m = self.m[a].replace(vec![]);
                want(v.is_null() == m.is_none(), "taken vector");
                if let (Some(v), Some(m)) = (v.as_ref(), m) {
                    want(T::digest(v) == digest_of::<T>(&m), "taken vector");
                }
            }
            VMemSwap => {
                self.v.swap(a, b);
                self.m.swap(a, b);
            }
            VNullUse => {
                let mut n: UniquePtr<CxxVector<T>> = UniquePtr::null();
                want(n.is_null() && n.as_ref().is_none() && n.as_mut().is_none() && n.as_ptr().is_null(), "null pointer");
                match o.msg % 3 {
                    0 => panics("deref of null", || n.len()),
                    1 => panics("pin_mut of null", || n.pin_mut().len()),
                    _ => panics("iteration over null", || n.iter().count()),
                }
            }
            VPanicIter => {
                // leaves an iteration in the middle
                let stop = o.n % (len + 1);
                let v = &mut self.v[a];
                let r = catch_unwind(AssertUnwindSafe(|| {
                    for (k, x) in v.pin_mut().iter_mut().enumerate() {
                        if k == stop {
                            panic!("stop");
                        }
                        T::eset(x, o.id + k as u64);
                    }
                }));
                want(r.is_err() == (stop < len), "panic in an iteration");
                for k in 0..stop.min(len) {
                    self.m[a].as_mut().unwrap()[k] = o.id + k as u64;
                }
            }
            VPanicPush => {
                if let Some(bv) = bv {
                    let v = &mut self.v[a];
                    panics("argument of push", || (bv.push)(v.pin_mut(), if o.id > 0 { panic!("stop") } else { (bv.make)(1) }));
                }
            }
        }
    }
}
fn two<T>(v: &mut [T], a: usize, b: usize) -> (&mut T, &mut T) {
    let p = v.as_mut_ptr();
    assert!(a != b && a < v.len() && b < v.len());
    unsafe { (&mut *p.add(a), &mut *p.add(b)) }
}

struct Strs {
    s: [UniquePtr<CxxString>; NS],
    m: [Option<Vec<u8>>; NS],
}
struct BadRef(bool);
impl AsRef<[u8]> for BadRef {
    fn as_ref(&self) -> &[u8] {
        if self.0 {
            panic!("no bytes");
        }
        b"bytes"
    }
}
fn hash(x: &(impl Hash + ?Sized)) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
fn stack_return(o: &Op) -> Option<usize> {
    let none: Option<&str> = None;
    let_cxx_string!(s = if o.msg & 1 != 0 { none? } else { "some text that needs the heap" });
    Some(s.len())
}
fn stack_diverge(o: &Op) -> usize {
    let mut n = 0;
    for i in 0..4 {
        let_cxx_string!(s = if i as u64 == o.msg % 4 { continue } else { text(o.id) });
        n += 1;
        want(s.as_bytes() == text(o.id).as_bytes(), "contents of a string on the stack");
    }
    n
}
impl Strs {
    fn check(&self) {
        for s in 0..NS {
            match (self.s[s].as_ref(), &self.m[s]) {
                (None, None) => {}
                (Some(x), Some(m)) => {
                    want(x.len() == m.len() && x.is_empty() == m.is_empty() && x.as_bytes() == &m[..], "contents");
                    want(ub::us_digest(x) == fnv(m), "C++ sees other contents");
                    want(unsafe { *x.as_ptr().add(x.len()) } == 0, "terminator");
                }
                _ => bad("null state differs from the model"),
            }
        }
    }
    fn some(&mut self, s: usize, o: &Op) {
        if self.m[s].is_none() {
            self.s[s] = crate::ffi::mk_str(o.id + 7);
            self.m[s] = Some(text(o.id + 7).into_bytes());
        }
    }
    fn op(&mut self, op: S, o: &Op) {
        use S::*;
        let (a, b) = (o.a, o.b);
        if !matches!(op, SMake | SNull | SPass | SEat | SRaw | SAssign | STake | SNullUse) {
            self.some(a, o);
        }
        if matches!(op, SSwapC | SCompare) {
            self.some(b, o);
        }
        match op {
            SMake => {
                self.s[a] = crate::ffi::mk_str(o.id);
                self.m[a] = Some(text(o.id).into_bytes());
            }
            SNull => {
                self.s[a] = UniquePtr::null();
                self.m[a] = None;
            }
            SPushStr => {
                self.s[a].pin_mut().push_str(&text(o.id));
                self.m[a].as_mut().unwrap().extend_from_slice(text(o.id).as_bytes());
            }
            SPushBytes => {
                let mut b = message(o.id);
                if o.msg & 1 != 0 {
                    b.push(0);
                }
                self.s[a].pin_mut().push_bytes(&b);
                self.m[a].as_mut().unwrap().extend_from_slice(&b);
            }
            SClear => {
                self.s[a].pin_mut().clear();
                self.m[a].as_mut().unwrap().clear();
            }
            SReserve => {
                let n = o.n % 200;
                self.s[a].pin_mut().reserve(n);
                want(ub::us_capacity(&self.s[a]) >= self.s[a].len() + n, "capacity after reserve");
                let p = self.s[a].as_ptr();
                let add = vec![b'x'; n];
                self.s[a].pin_mut().push_bytes(&add);
                want(self.s[a].as_ptr() == p, "reallocation although there was room");
                self.m[a].as_mut().unwrap().extend_from_slice(&add);
            }
            SReserveTooMuch => {
                let s = &mut self.s[a];
                if s.len() > 0 {
                    panics("reserve(usize::MAX)", || s.pin_mut().reserve(usize::MAX));
                }
            }
            SAppendC => {
                ub::us_append(self.s[a].pin_mut(), o.id);
                self.m[a].as_mut().unwrap().extend_from_slice(text(o.id).as_bytes());
            }
            SResizeC => {
                ub::us_resize(self.s[a].pin_mut(), o.n % 64);
                self.m[a].as_mut().unwrap().resize(o.n % 64, b'r');
            }
            SEraseC => {
                let m = self.m[a].as_mut().unwrap();
                let at = o.n % (m.len() + 1);
                let n = (o.msg as usize) % (m.len() - at + 1);
                ub::us_erase(self.s[a].pin_mut(), at, n);
                m.drain(at..at + n);
            }
            SSwapC => {
                if a != b {
                    let (x, y) = two(&mut self.s, a, b);
                    ub::us_swap(x.pin_mut(), y.pin_mut());
                    self.m.swap(a, b);
                }
            }
            SPass => {
                let s = std::mem::replace(&mut self.s[a], UniquePtr::null());
                self.s[a] = ub::us_pass(s);
            }
            SEat => {
                let s = std::mem::replace(&mut self.s[a], UniquePtr::null());
                let m = self.m[a].take();
                want(ub::us_eat(s) == m.map_or(1, |m| fnv(&m)), "C++ received other contents");
            }
            SFailC => {
                want(ub::us_fail(self.s[a].pin_mut(), o.id).is_err(), "result of a C++ function");
                unsafe { sim_probe(3) };
                self.m[a].as_mut().unwrap().extend_from_slice(text(o.id).as_bytes());
            }
            SCompare => {
                let (x, y) = (&*self.s[a], &*self.s[b]);
                let (mx, my) = (self.m[a].as_ref().unwrap(), self.m[b].as_ref().unwrap());
                want((x == y) == (mx == my) && (x != y) == (mx != my), "==");
                want(x.cmp(y) == mx.cmp(my) && x.partial_cmp(y) == Some(mx.cmp(my)) && (x < y) == (mx < my), "ordering");
                want((self.s[a] == self.s[b]) == (mx == my) && self.s[a].cmp(&self.s[b]) == mx.cmp(my), "comparison of the pointers");
                let n = UniquePtr::null();
                want(self.s[a] != n && n == UniquePtr::null() && n < self.s[a], "comparison with null");
                let (sa, sb, sn) = (ub::us_shared(x), ub::us_shared(y), SharedPtr::null());
                want((sa == sb) == (mx == my) && (sa != sb) == (mx != my), "== of shared pointers");
                want(sa.cmp(&sb) == mx.cmp(my) && sa.partial_cmp(&sb) == Some(mx.cmp(my)) && (sa < sb) == (mx < my) && (sa >= sb) == (mx >= my), "ordering of shared pointers");
                want(sa != sn && sn != sa && sn == SharedPtr::null() && sn < sa && sn.cmp(&sn.clone()).is_eq(), "comparison of shared pointers with null");
                want(hash(&sa) == hash(&Some(&mx[..])) && hash(&sn) == hash(&None::<&[u8]>), "hash of a shared pointer");
                if mx == my {
                    want(hash(x) == hash(y) && hash(&self.s[a]) == hash(&self.s[b]), "hash");
                }
            }
            SCompareStr => {
                let m = self.m[a].as_ref().unwrap();
                let t = text(o.id);
                want((*self.s[a] == *t) == (m == t.as_bytes()) && (*t == *self.s[a]) == (m == t.as_bytes()), "comparison with a str");
                if let Ok(t) = std::str::from_utf8(m) {
                    want(*self.s[a] == *t && *t == *self.s[a], "comparison with an equal str");
                }
            }
            SHash => {
                let m = self.m[a].as_ref().unwrap();
                want(hash(&*self.s[a]) == hash(&m[..]) && hash(&self.s[a]) == hash(&Some(&m[..])), "hash");
                want(hash(&UniquePtr::<CxxString>::null()) == hash(&None::<&[u8]>), "hash of null");
            }
            SCStr => {
                let m = self.m[a].as_ref().unwrap();
                let n = m.iter().position(|c| *c == 0).unwrap_or(m.len());
                want(self.s[a].as_c_str().to_bytes() == &m[..n], "as_c_str()");
            }
            SToStr => {
                let m = self.m[a].as_ref().unwrap();
                match (self.s[a].to_str(), std::str::from_utf8(m)) {
                    (Ok(x), Ok(y)) => want(x == y, "to_str()"),
                    (Err(x), Err(y)) => want(x == y, "error of to_str()"),
                    _ => bad("to_str()"),
                }
                want(self.s[a].to_string_lossy() == String::from_utf8_lossy(m), "to_string_lossy()");
            }
            SFmtWrite => {
                let mut p = self.s[a].pin_mut();
                let t = text(o.id);
                want(write!(&mut p as &mut dyn std::fmt::Write, "<{}|{:>5}>", t, o.n % 100).is_ok() && p.write_char('\u{20ac}').is_ok(), "fmt::Write");
                self.m[a].as_mut().unwrap().extend_from_slice(format!("<{}|{:>5}>\u{20ac}", t, o.n % 100).as_bytes());
            }
            SIoWrite => {
                let t = message(o.id);
                let mut p = self.s[a].pin_mut();
                want(matches!(std::io::Write::write(&mut p, &t), Ok(n) if n == t.len()), "io::Write::write");
                want(p.write_all(&t).is_ok() && p.flush().is_ok(), "io::Write");
                let m = self.m[a].as_mut().unwrap();
                m.extend_from_slice(&t);
                m.extend_from_slice(&t);
            }
            SRaw => {
                let s = std::mem::replace(&mut self.s[a], UniquePtr::null());
                let p = s.as_ptr();
                let r = s.into_raw();
                want(r as *const _ == p && r.is_null() == self.m[a].is_none(), "into_raw()");
                self.s[a] = unsafe { UniquePtr::from_raw(r) };
            }
            SAssign => {
                if a != b {
                    self.s[a] = std::mem::replace(&mut self.s[b], UniquePtr::null());
                    self.m[a] = self.m[b].take();
                }
            }
            STake => {
                drop(std::mem::replace(&mut self.s[a], UniquePtr::null()));
                self.m[a] = None;
            }
            SNullUse => {
                let mut n: UniquePtr<CxxString> = UniquePtr::null();
                want(n.is_null() && n.as_ref().is_none() && n.as_mut().is_none(), "null pointer");
                match o.msg % 4 {
                    0 => panics("deref of null", || n.len()),
                    1 => panics("pin_mut of null", || n.pin_mut().push_str("x")),
                    2 => panics("comparison of null's target", || n.to_str().is_ok()),
                    _ => panics("C++ call on null", || ub::us_append(n.pin_mut(), 1)),
                }
            }
            SStack => {
                let mut m = text(o.id).into_bytes();
                let_cxx_string!(s = &m);
                want(s.as_bytes() == &m[..], "contents of a string on the stack");
                s.as_mut().push_str(&text(o.id + 1));
                ub::us_append(s.as_mut(), o.id + 2);
                m.extend_from_slice(text(o.id + 1).as_bytes());
                m.extend_from_slice(text(o.id + 2).as_bytes());
                want(s.as_bytes() == &m[..] && ub::us_digest(&s) == fnv(&m), "contents of a string on the stack");
                ub::us_swap(s.as_mut(), self.s[a].pin_mut());
                let old = self.m[a].replace(m).unwrap();
                want(s.as_bytes() == &old[..], "contents of a swapped string");
            }
            SStackPanic => {
                let r = catch_unwind(AssertUnwindSafe(|| {
                    let_cxx_string!(s = if o.msg % 3 > 0 { panic!("no value") } else { text(o.id) });
                    s.len()
                }));
                want(r.is_err() == (o.msg % 3 > 0), "panic in the initialiser");
            }
            SStackReturn => want(stack_return(o).is_none() == (o.msg & 1 != 0), "early return in the initialiser"),
            SStackAsRef => {
                let r = catch_unwind(AssertUnwindSafe(|| {
                    let_cxx_string!(s = BadRef(o.msg & 1 != 0));
                    s.len()
                }));
                want(r.is_err() == (o.msg & 1 != 0), "panic in as_ref");
            }
            SStackNested => {
                let_cxx_string!(s = text(o.id));
                let_cxx_string!(t = s.to_string_lossy().into_owned() + "+");
                let_cxx_string!(u = t.as_bytes());
                want(*t == *u && s.len() + 1 == t.len(), "nested strings on the stack");
                ub::us_swap(s.as_mut(), t.as_mut());
                want(s.as_bytes() == u.as_bytes(), "swapped strings on the stack");
            }
            SStackDiverge => want(stack_diverge(o) == 3, "continue in the initialiser"),
        }
    }
}

trait UK: UniquePtrTarget + Check {
    fn mk(id: u64) -> UniquePtr<Self>
    where
        Self: Sized;
    fn set(p: Pin<&mut Self>, id: u64);
    fn compare(_: &UniquePtr<Self>, _: Option<u64>, _: &UniquePtr<Self>, _: Option<u64>)
    where
        Self: Sized,
    {
    }
}
impl UK for Obj {
    fn mk(id: u64) -> UniquePtr<Self> {
        crate::ffi::obj_new(id)
    }
    fn set(p: Pin<&mut Self>, id: u64) {
        crate::ffi::obj_set(p, id)
    }
}
impl UK for Txt {
    fn mk(id: u64) -> UniquePtr<Self> {
        UniquePtr::new(Kind::make(id))
    }
    fn set(p: Pin<&mut Self>, id: u64) {
        *Pin::into_inner(p) = Kind::make(id);
    }
    fn compare(x: &UniquePtr<Self>, a: Option<u64>, y: &UniquePtr<Self>, b: Option<u64>) {
        let (a, b) = (a.map(|i| <Txt as Kind>::make(i)), b.map(|i| <Txt as Kind>::make(i)));
        want((x == y) == (a == b) && (x != y) == (a != b), "== of unique pointers");
        let p = |v: &Option<Txt>| v.clone().map_or(SharedPtr::null(), SharedPtr::new);
        want((p(&a) == p(&b)) == (a == b) && p(&a) == p(&a), "== of shared pointers");
    }
}
/// Pointers to a type whose values are not totally ordered.
fn compare_floats(id: u64) {
    let f = |i: u64| [None, Some(f64::NAN), Some(-0.0), Some(0.0), Some(1.5), Some(f64::INFINITY)][(i % 6) as usize];
    let (a, b) = (f(id), f(id / 6));
    let p = |v: Option<f64>| v.map_or(SharedPtr::null(), SharedPtr::new);
    let (x, y) = (p(a), if id / 36 % 2 == 0 { p(b) } else { p(a).clone() });
    let b = if id / 36 % 2 == 0 { b } else { a };
    want((x == y) == (a == b) && (x != y) == (a != b), "== of shared pointers");
    want(x.partial_cmp(&y) == a.partial_cmp(&b) && (x < y) == (a < b) && (x >= y) == (a >= b), "order of shared pointers");
    let z = x.clone();
    want((x == z) == (a == a), "== of two owners of one target");
}
struct Uniqs<T: UK> {
    p: [UniquePtr<T>; NS],
    m: [Option<u64>; NS],
}
impl<T: UK> Uniqs<T> {
    fn new() -> Self {
        Uniqs { p: [UniquePtr::null(), UniquePtr::null(), UniquePtr::null()], m: [None; NS] }
    }
    fn check(&self) {
        for s in 0..NS {
            match (self.p[s].as_ref(), self.m[s]) {
                (None, None) => want(self.p[s].is_null() && self.p[s].as_ptr().is_null(), "null pointer"),
                (Some(x), Some(id)) => want(x.same(id) && !self.p[s].is_null(), "target of a unique pointer"),
                _ => bad("null state differs from the model"),
            }
        }
    }
    fn count(&self) -> usize {
        self.m.iter().flatten().count()
    }
    fn op(&mut self, op: U, o: &Op) {
        use U::*;
        let (a, b) = (o.a, o.b);
        match op {
            UNew => {
                self.p[a] = T::mk(o.id);
                self.m[a] = Some(o.id);
            }
            UNull => {
                self.p[a] = UniquePtr::null();
                self.m[a] = None;
            }
            URaw => {
                let p = std::mem::replace(&mut self.p[a], UniquePtr::null());
                let q = p.as_ptr();
                let r = p.into_raw();
                want(r as *const T == q, "into_raw()");
                self.p[b] = unsafe { UniquePtr::from_raw(r) };
                self.m[b] = self.m[a];
                if a != b {
                    self.m[a] = None;
                }
            }
            UAssign => {
                if a != b {
                    self.p[a] = std::mem::replace(&mut self.p[b], UniquePtr::null());
                    self.m[a] = self.m[b].take();
                }
            }
            USwap => {
                self.p.swap(a, b);
                self.m.swap(a, b);
            }
            UMut => {
                let r = self.p[a].as_mut();
                want(r.is_some() == self.m[a].is_some(), "as_mut()");
                if let Some(x) = r {
                    T::set(x, o.id);
                    T::set(self.p[a].pin_mut(), o.id + 1);
                    self.m[a] = Some(o.id + 1);
                }
            }
            UDeref => {
                if let Some(id) = self.m[a] {
                    let x: &T = &self.p[a];
                    want(x.same(id) && std::ptr::eq(x, self.p[a].as_ptr()), "deref");
                }
            }
            UNullUse => {
                let mut n: UniquePtr<T> = UniquePtr::null();
                match o.msg % 2 {
                    0 => panics("deref of null", || n.same(o.id)),
                    _ => panics("pin_mut of null", || T::set(n.pin_mut(), o.id)),
                }
            }
            UTake => {
                let p = std::mem::replace(&mut self.p[a], UniquePtr::null());
                want(p.is_null() == self.m[a].take().is_none(), "taken pointer");
            }
            UCompare => {
                T::compare(&self.p[a], self.m[a], &self.p[b], self.m[b]);
                compare_floats(o.id);
            }
            UPanicHeld => {
                let p = std::mem::replace(&mut self.p[a], UniquePtr::null());
                self.m[a] = None;
                panics("closure", move || {
                    let _p = p;
                    panic!("stop")
                });
            }
        }
    }
}

fn thread(_: u32) {
    unsafe {
        sim_enter();
        let (mut v0, mut v1, mut v2, mut v3) = (Vecs::<u8>::new(), Vecs::<i32>::new(), Vecs::<f64>::new(), Vecs::<usize>::new());
        let (mut v4, mut v5, mut v6) = (Vecs::<crate::user::Tok>::new(), Vecs::<Txt>::new(), Vecs::<crate::ffi::Pod>::new());
        let (mut w0, mut w1, mut w2, mut w3) = (Vecs::<i8>::new(), Vecs::<u16>::new(), Vecs::<i16>::new(), Vecs::<u32>::new());
        let (mut w4, mut w5, mut w6, mut w7) = (Vecs::<u64>::new(), Vecs::<i64>::new(), Vecs::<f32>::new(), Vecs::<isize>::new());
        let (mut v7, mut v8) = (Vecs::<CxxString>::new(), Vecs::<Obj>::new());
        let mut s = Strs { s: [UniquePtr::null(), UniquePtr::null(), UniquePtr::null()], m: [None, None, None] };
        let (mut u0, mut u1) = (Uniqs::<Obj>::new(), Uniqs::<Txt>::new());
        for i in 0..h_nops {
            (*sim_sh).cur_op[0] = i as i32;
            CUR = i;
            let h = *h_ops.add(i as usize);
            let o = Op { id: h.id, msg: h.msg, a: h.a[1] as usize % NS, b: h.a[2] as usize % NS, n: h.a[3] as usize };
            let f = h.f as usize;
            if let Some(op) = VOPS.get(f) {
                macro_rules! go {
                    ($($k:literal $v:ident)*) => {
                        match h.a[0] { $($k => { $v.op(op.1, &o); $v.check(); })* _ => {} }
                    };
                }
                go!(0 v0 1 v1 2 v2 3 v3 4 v4 5 v5 6 v6 7 v7 8 v8 9 w0 10 w1 11 w2 12 w3 13 w4 14 w5 15 w6 16 w7);
            } else if let Some(op) = SOPS.get(f - VOPS.len()) {
                s.op(op.1, &o);
                s.check();
            } else {
                let op = UOPS[f - VOPS.len() - SOPS.len()].1;
                if h.a[0] & 1 != 0 {
                    u0.op(op, &o);
                    u0.check();
                } else {
                    u1.op(op, &o);
                    u1.check();
                }
            }
            let (t, b) = (sim_obj_count(KIND_TOK), sim_obj_count(KIND_OBJ));
            if t != v4.elems() as i64 || b != (v8.elems() + u0.count()) as i64 {
                bad(format!("{t} and {b} objects are alive, expected {} and {}", v4.elems(), v8.elems() + u0.count()));
            }
            let q = sim_pause();
            sim_hist(i << 8 | h.f as u64);
            (*sim_sh).opsdone += 1;
            sim_resume(q);
        }
        drop((v0, v1, v2, v3, v4, v5, v6, v7, v8, s, u0, u1));
        drop((w0, w1, w2, w3, w4, w5, w6, w7));
        sim_leave();
        for k in 1..5 {
            let n = sim_obj_count(k);
            if n != 0 {
                viol(V_OWN, &format!("{n} objects are alive after every owner is gone"));
            }
        }
    }
}
