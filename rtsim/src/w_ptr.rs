//! Workload "ptr": threads that clone, move, drop, downgrade, upgrade and dereference shared and
//! weak pointers in both languages, against a count of owners kept by the simulator.
use crate::ffi::{Obj, Pod, Txt};
use crate::gen_ptr::PK;
use crate::sim::*;
use crate::spec::*;
use crate::user::{Check, Kind};
use crate::Work;
use cxx::{CxxString, SharedPtr, WeakPtr};
use std::mem::ManuallyDrop;

pub static WORK: Work = Work { name: "ptr", gen, name_of, fixup: |_| {}, setup, thread, finish, data_matters: true };

pub trait PKRust: Check {
    const RUST_NEW: bool;
    fn rust_new(id: u64) -> SharedPtr<Self>
    where
        Self: PK;
    fn alive(addr: usize) -> bool {
        unsafe { sim_addr_live(addr as *const u8, std::mem::size_of::<usize>().min(8)) != 0 }
    }
}
impl PKRust for Obj {
    const RUST_NEW: bool = false;
    fn rust_new(id: u64) -> SharedPtr<Self> {
        crate::ffi::obj_new_shared(id)
    }
    fn alive(addr: usize) -> bool {
        unsafe { sim_obj_live(addr as *const u8, KIND_OBJ) != 0 }
    }
}
impl PKRust for CxxString {
    const RUST_NEW: bool = false;
    fn rust_new(id: u64) -> SharedPtr<Self> {
        crate::ffi::mk_sp_str(id)
    }
    // made by make_shared the block outlives the target; the string's fate shows in its contents
    fn alive(addr: usize) -> bool {
        unsafe { sim_addr_live(addr as *const u8, 8) != 0 }
    }
}
macro_rules! rust_new {
    ($($t:ty)*) => {$(impl PKRust for $t {
        const RUST_NEW: bool = true;
        fn rust_new(id: u64) -> SharedPtr<Self> { SharedPtr::new(<$t as Kind>::make(id)) }
    })*};
}
rust_new!(Txt Pod u64);

const SLOTS: usize = 4;
const WSLOTS: usize = 3;
const BOX: usize = 4; // mail boxes shared by the threads
const MAXT: usize = 6;

#[derive(Clone, Copy, PartialEq, Debug)]
struct Tgt(u16);
const NONE: Tgt = Tgt(u16::MAX);

struct Sp<T: PK> {
    p: ManuallyDrop<Option<SharedPtr<T>>>,
    t: Tgt,
}
struct Wp<T: PK> {
    p: ManuallyDrop<Option<WeakPtr<T>>>,
    t: Tgt,
}
pub struct KState<T: PK> {
    sp: [[Sp<T>; SLOTS]; MAXT],
    wp: [[Wp<T>; WSLOTS]; MAXT],
    mail: [Sp<T>; BOX],
    wmail: [Wp<T>; BOX],
    // readable by every thread, replaced only while nobody reads
    glob: Sp<T>,
    gweak: Wp<T>,
    readers: [u32; 2],
}
impl<T: PK> Sp<T> {
    const E: Sp<T> = Sp { p: ManuallyDrop::new(None), t: NONE };
}
impl<T: PK> Wp<T> {
    const E: Wp<T> = Wp { p: ManuallyDrop::new(None), t: NONE };
}
impl<T: PK> KState<T> {
    pub const fn new() -> Self {
        KState {
            sp: [const { [const { Sp::<T>::E }; SLOTS] }; MAXT],
            wp: [const { [const { Wp::<T>::E }; WSLOTS] }; MAXT],
            mail: [const { Sp::<T>::E }; BOX],
            wmail: [const { Wp::<T>::E }; BOX],
            glob: Sp::<T>::E,
            gweak: Wp::<T>::E,
            readers: [0; 2],
        }
    }
}

#[derive(Clone, Copy)]
struct Target {
    addr: usize,
    id: u64,
    kind: u32,
    made: bool, // false for make_shared of a string: liveness is not visible from outside
    def: i32,   // owners that certainly exist
    pos: i32,   // owners that may exist
    zero: u32,  // how often def became zero
}
static mut TG: [Target; 256] = [Target { addr: 0, id: 0, kind: 0, made: false, def: 0, pos: 0, zero: 0 }; 256];
static mut NT: usize = 0;

fn tg(t: Tgt) -> &'static mut Target {
    unsafe { &mut *(&raw mut TG[t.0 as usize]) }
}
/// Runs f under the schedule; everything else the simulator does in this file is atomic.
fn act<R>(f: impl FnOnce() -> R) -> R {
    let q = unsafe { sim_quiet() };
    unsafe { sim_enter() };
    let r = f();
    unsafe { sim_resume(q) };
    r
}
fn fail(i: u64, what: &str) {
    outside(|| {
        let o = unsafe { *h_ops.add(i as usize) };
        viol(V_PTR, &format!("op {i} {}: {what}", name_of(o.f)))
    });
}
fn alive(t: &Target) -> bool {
    match t.kind {
        0 => Obj::alive(t.addr),
        1 => Txt::alive(t.addr),
        2 => Pod::alive(t.addr),
        3 => u64::alive(t.addr),
        _ => CxxString::alive(t.addr),
    }
}
/// Every target with a certain owner is alive.
fn check_all(i: u64) {
    for k in 0..unsafe { NT } {
        let t = tg(Tgt(k as u16));
        if t.def > 0 && !alive(t) {
            fail(i, &format!("target {k} was destroyed while {} owners exist", t.def));
            t.def = -1000;
        }
    }
}
fn may_own(t: Tgt) {
    if t != NONE {
        tg(t).pos += 1;
    }
}
fn owns(t: Tgt) {
    if t != NONE {
        tg(t).def += 1;
    }
}
fn releasing(t: Tgt) {
    if t != NONE {
        let x = tg(t);
        x.def -= 1;
        if x.def == 0 {
            x.zero += 1;
        }
    }
}
fn released(t: Tgt, i: u64) {
    if t != NONE {
        let x = tg(t);
        x.pos -= 1;
        if x.pos == 0 && x.made && alive(x) {
            fail(i, &format!("target {} is alive though its last owner is gone", t.0));
        }
    }
}
fn target_of<T: PK>(p: &SharedPtr<T>) -> usize {
    p.as_ref().map_or(0, |x| x as *const T as usize)
}

macro_rules! ops {
    ($($n:ident),*) => {
        #[allow(non_camel_case_types, clippy::enum_variant_names)]
        #[derive(Clone, Copy, PartialEq)]
        #[repr(u32)]
        enum Op { $($n),* }
        const OPS: &[(&str, Op)] = &[$((stringify!($n), Op::$n)),*];
    };
}
ops!(
    NewRust, NewCxx, Clone, CloneCxx, CloneBack, Drop, DropCxx, DropBack, Move, MoveCxx, MoveBack, Weak, WeakCxx, WeakBack,
    Upgrade, LockCxx, LockBack, WClone, WCloneCxx, WMoveCxx, WDrop, WDropCxx, WDropBack, Deref, Send, Recv, SendWeak,
    RecvWeak, GlobClone, GlobCloneCxx, GlobUpgrade, GlobLock, GlobWeak, GlobDeref, GlobPut, GlobTake, GlobWPut, GlobWTake, Assign, Swap,
    Reset, WAssign, Null, WNull, Count, Prim
);
fn name_of(f: u32) -> String {
    OPS.get(f as usize).map_or("?".into(), |o| o.0.into())
}

fn gen(r: &mut Rng, _check: &str) -> Spec {
    let nthreads = if r.chance(70) { 2 + r.below(3) as u32 } else { 1 };
    let nk = 1 + r.below(2);
    let kinds: Vec<i64> = (0..nk).map(|_| r.below(5) as i64).collect();
    let mut ops = vec![];
    let len = if nthreads == 1 { 5 + r.below(40) } else { 3 + r.below(14) };
    // a common beginning: an object every thread can reach
    let mut push = |r: &mut Rng, thread: u32, f: Op, a: [i64; 4]| ops.push(OpSpec { thread, parent: -1, f: f as u32, outcome: 0, id: if f == Op::Prim { r.below(1 << 30) } else { r.below(1 << 20) }, msg: 0, a });
    let hot = r.chance(60);
    for t in 0..nthreads {
        let k = *r.pick(&kinds);
        let f = *r.pick(&[Op::NewRust, Op::NewCxx]);
        push(r, t, f, [k, 0, 0, 0]);
        let f = *r.pick(&[Op::Weak, Op::WeakCxx, Op::WeakBack]);
        push(r, t, f, [k, 0, 0, 0]);
        if hot {
            let f = *r.pick(&[Op::SendWeak, Op::GlobWPut]);
            push(r, t, f, [k, 0, 0, 0]);
        }
        let mut w = vec![2u64; OPS.len()];
        for f in [Op::Upgrade, Op::LockCxx, Op::GlobUpgrade, Op::GlobClone, Op::Clone, Op::Drop, Op::DropCxx, Op::DropBack] {
            w[f as usize] = 5;
        }
        if hot {
            for f in [Op::GlobUpgrade, Op::Upgrade, Op::GlobLock, Op::LockBack, Op::RecvWeak, Op::Drop] {
                w[f as usize] = 9;
            }
        }
        if nthreads > 1 {
            w[Op::Count as usize] = 0;
        }
        for _ in 0..len {
            let f = OPS[r.weighted(&w)].1;
            let slots = if r.chance(50) { 2 } else { SLOTS as u64 };
            let a = [*r.pick(&kinds), r.below(slots) as i64, r.below(slots) as i64, 0];
            push(r, t, f, a);
        }
    }
    let sched = if nthreads > 1 { Sched::Random { seed: r.next() >> 8, gap: [2, 4, 10, 30, 100, 400][r.below(6) as usize] } } else { Sched::None };
    Spec { work: &WORK, nthreads, ops, sched }
}
fn setup(_: &Spec) {
    unsafe { NT = 0 };
}

impl<T: PK> Sp<T> {
    /// Puts a new owner of target t into the slot; whatever was there is dropped.
    fn put(&mut self, p: SharedPtr<T>, t: Tgt, i: u64) {
        let old = std::mem::replace(&mut self.t, t);
        releasing(old);
        let slot = &mut *self.p;
        act(move || *slot = Some(p)); // drops the old pointer
        released(old, i);
    }
    fn get(&mut self) -> &mut SharedPtr<T> {
        if self.p.is_none() {
            *self.p = Some(SharedPtr::null());
        }
        self.p.as_mut().unwrap()
    }
    fn check(&mut self, i: u64) {
        let t = self.t;
        let a = target_of(self.get());
        if t == NONE && a != 0 {
            fail(i, "a null pointer became non-null");
        }
        if t != NONE && a != tg(t).addr {
            fail(i, "pointer does not point to its target");
        }
    }
}
impl<T: PK> Wp<T> {
    fn put(&mut self, p: WeakPtr<T>, t: Tgt) {
        self.t = t;
        let slot = &mut *self.p;
        act(move || *slot = Some(p));
    }
    fn get(&mut self) -> &mut WeakPtr<T> {
        if self.p.is_none() {
            *self.p = Some(WeakPtr::null());
        }
        self.p.as_mut().unwrap()
    }
}
/// The state of the owners when an upgrade starts.
struct Up {
    t: Tgt,
    def: i32,
    zero: u32,
    gone: bool,
}
fn up_start(t: Tgt) -> Up {
    if t == NONE {
        return Up { t, def: 0, zero: 0, gone: true };
    }
    let x = tg(t);
    let u = Up { t, def: x.def, zero: x.zero, gone: x.pos == 0 };
    x.pos += 1;
    u
}
fn up_end<T: PK>(u: Up, p: &SharedPtr<T>, i: u64) -> Tgt {
    let a = target_of(p);
    if a == 0 {
        if u.t != NONE && u.def > 0 && tg(u.t).zero == u.zero && tg(u.t).def > 0 {
            fail(i, "upgrade failed though an owner existed all the time");
        }
        released(u.t, i);
        return NONE;
    }
    if u.gone {
        fail(i, "upgrade succeeded though no owner existed");
        return NONE;
    }
    if a != tg(u.t).addr {
        fail(i, "upgrade yielded another target");
    }
    owns(u.t);
    if !alive(tg(u.t)) {
        fail(i, "upgrade yielded a destroyed target");
    }
    u.t
}
fn new_target<T: PK>(p: &SharedPtr<T>, kind: u32, id: u64, made: bool) -> Tgt {
    unsafe {
        if NT >= 256 {
            return NONE;
        }
        TG[NT] = Target { addr: target_of(p), id, kind, made, def: 1, pos: 1, zero: 0 };
        NT += 1;
        Tgt(NT as u16 - 1)
    }
}
/// The target is looked at some time after the pointer was obtained.
fn sim_yield_here() {
    unsafe { sim_yield() }
}
fn deref_check<T: PK>(p: &SharedPtr<T>, t: Tgt, i: u64) {
    act(sim_yield_here);
    if t == NONE {
        if p.as_ref().is_some() || !p.is_null() {
            fail(i, "null pointer has a target");
        }
        return;
    }
    match p.as_ref() {
        Some(x) if x.same(tg(t).id) => {}
        Some(_) => fail(i, "the target's value is wrong"),
        None => fail(i, "pointer to a target is null"),
    }
}

fn step<T: PK>(op: Op, o: &HOp, i: u64, tid: usize) {
    let s = T::st();
    let kind = o.a[0] as u32;
    let (a, b) = (o.a[1] as usize % SLOTS, o.a[2] as usize % SLOTS);
    let (wa, wb) = (a % WSLOTS, b % WSLOTS);
    let box_ = b % BOX;
    macro_rules! sp {
        ($k:expr) => {
            (*(&raw mut (*s).sp[tid][$k]))
        };
    }
    macro_rules! wp {
        ($k:expr) => {
            (*(&raw mut (*s).wp[tid][$k]))
        };
    }
    let s: *mut KState<T> = s;
    unsafe {
        match op {
            Op::NewRust | Op::NewCxx => {
                let p = if op == Op::NewRust { act(|| T::rust_new(o.id)) } else { act(|| T::new(o.id)) };
                let made = !(kind == 4 && op == Op::NewRust);
                let t = new_target(&p, kind, o.id, made);
                if t == NONE {
                    return;
                }
                sp!(a).put(p, t, i);
            }
            Op::Clone | Op::CloneCxx | Op::CloneBack => {
                let t = sp!(a).t;
                may_own(t);
                let p = match op {
                    Op::Clone => { let x = sp!(a).get(); act(|| x.clone()) }
                    Op::CloneCxx => { let x = sp!(a).get(); act(|| T::copy(x)) }
                    _ => { let x = sp!(a).get(); act(|| T::rclone(x)) }
                };
                owns(t);
                sp!(b).put(p, t, i);
                sp!(b).check(i);
            }
            Op::Drop | Op::DropCxx | Op::DropBack | Op::Reset | Op::Null => {
                let t = std::mem::replace(&mut sp!(a).t, NONE);
                let p = sp!(a).p.take();
                releasing(t);
                match (op, p) {
                    (_, None) => {}
                    (Op::Drop, Some(p)) => act(|| drop(p)),
                    (Op::DropCxx, Some(p)) => act(|| T::drop(p)),
                    (Op::DropBack, Some(p)) => act(|| T::rdrop(p)),
                    (Op::Null, p) => {
                        *sp!(a).p = p;
                        let x = &mut *sp!(a).p;
                        act(|| *x = Some(SharedPtr::null()));
                    }
                    (_, Some(mut p)) => {
                        act(|| T::reset(&mut p));
                        if !p.is_null() {
                            fail(i, "reset left the pointer non-null");
                        }
                        *sp!(a).p = Some(p);
                    }
                }
                released(t, i);
            }
            Op::Move | Op::MoveCxx | Op::MoveBack => {
                let t = std::mem::replace(&mut sp!(a).t, NONE);
                if let Some(p) = sp!(a).p.take() {
                    let p = match op {
                        Op::Move => p,
                        Op::MoveCxx => act(|| T::r#move(p)),
                        _ => act(|| T::rmove(p)),
                    };
                    sp!(b).put(p, t, i);
                    sp!(b).check(i);
                }
            }
            Op::Weak | Op::WeakCxx | Op::WeakBack => {
                let t = sp!(a).t;
                let w = match op {
                    Op::Weak => { let x = sp!(a).get(); act(|| x.downgrade()) }
                    Op::WeakCxx => { let x = sp!(a).get(); act(|| T::weak(x)) }
                    _ => { let x = sp!(a).get(); act(|| T::rweak(x)) }
                };
                wp!(wb).put(w, t);
            }
            Op::Upgrade | Op::LockCxx | Op::LockBack => {
                let u = up_start(wp!(wa).t);
                let p = match op {
                    Op::Upgrade => { let x = wp!(wa).get(); act(|| x.upgrade()) }
                    Op::LockCxx => { let x = wp!(wa).get(); act(|| T::lock(x)) }
                    _ => { let x = wp!(wa).get(); act(|| T::rlock(x)) }
                };
                let t = up_end(u, &p, i);
                deref_check(&p, t, i);
                sp!(b).put(p, t, i);
            }
            Op::WClone | Op::WCloneCxx => {
                let t = wp!(wa).t;
                let x = wp!(wa).get();
                let w = act(|| if op == Op::WClone { x.clone() } else { T::wcopy(x) });
                wp!(wb).put(w, t);
            }
            Op::WMoveCxx => {
                let t = std::mem::replace(&mut wp!(wa).t, NONE);
                if let Some(w) = wp!(wa).p.take() {
                    let w = act(|| T::wmove(w));
                    wp!(wb).put(w, t);
                }
            }
            Op::WDrop | Op::WDropCxx | Op::WDropBack => {
                wp!(wa).t = NONE;
                if let Some(w) = wp!(wa).p.take() {
                    match op {
                        Op::WDrop => act(|| drop(w)),
                        Op::WDropCxx => act(|| T::wdrop(w)),
                        _ => act(|| T::rwdrop(w)),
                    }
                }
            }
            Op::WNull => wp!(wa).put(WeakPtr::null(), NONE),
            Op::Deref => {
                let t = sp!(a).t;
                deref_check(sp!(a).get(), t, i);
                if T::addr(sp!(a).get()) != target_of(sp!(a).get()) {
                    fail(i, "the languages disagree on the target");
                }
            }
            Op::Send => {
                // mail boxes change hands at one instant
                if (*s).mail[box_].p.is_none() {
                    let t = std::mem::replace(&mut sp!(a).t, NONE);
                    let p = sp!(a).p.take();
                    (*s).mail[box_].t = t;
                    *(*s).mail[box_].p = p;
                }
            }
            Op::Recv => {
                let t = std::mem::replace(&mut (*s).mail[box_].t, NONE);
                if let Some(p) = (*s).mail[box_].p.take() {
                    sp!(a).put(p, t, i);
                    sp!(a).check(i);
                }
            }
            Op::SendWeak => {
                if (*s).wmail[box_].p.is_none() {
                    let t = std::mem::replace(&mut wp!(wa).t, NONE);
                    let p = wp!(wa).p.take();
                    (*s).wmail[box_].t = t;
                    *(*s).wmail[box_].p = p;
                }
            }
            Op::RecvWeak => {
                let t = std::mem::replace(&mut (*s).wmail[box_].t, NONE);
                if let Some(p) = (*s).wmail[box_].p.take() {
                    wp!(wa).put(p, t);
                }
            }
            Op::GlobClone | Op::GlobCloneCxx | Op::GlobWeak | Op::GlobDeref => {
                if (*s).glob.p.is_none() {
                    return;
                }
                (*s).readers[0] += 1;
                let t = (*s).glob.t;
                let g: &SharedPtr<T> = (*(&raw const (*s).glob)).p.as_ref().unwrap();
                match op {
                    Op::GlobWeak => {
                        let w = act(|| g.downgrade());
                        wp!(wa).put(w, t);
                    }
                    Op::GlobDeref => deref_check(g, t, i),
                    _ => {
                        may_own(t);
                        let p = act(|| if op == Op::GlobClone { g.clone() } else { T::copy(g) });
                        owns(t);
                        sp!(a).put(p, t, i);
                        sp!(a).check(i);
                    }
                }
                (*s).readers[0] -= 1;
            }
            Op::GlobUpgrade | Op::GlobLock => {
                if (*s).gweak.p.is_none() {
                    return;
                }
                (*s).readers[1] += 1;
                let w: &WeakPtr<T> = (*(&raw const (*s).gweak)).p.as_ref().unwrap();
                let u = up_start((*s).gweak.t);
                let p = act(|| if op == Op::GlobUpgrade { w.upgrade() } else { T::lock(w) });
                let t = up_end(u, &p, i);
                deref_check(&p, t, i);
                sp!(a).put(p, t, i);
                (*s).readers[1] -= 1;
            }
            Op::GlobPut => {
                if (*s).readers[0] == 0 && (*s).glob.p.is_none() {
                    (*s).glob.t = std::mem::replace(&mut sp!(a).t, NONE);
                    *(*s).glob.p = sp!(a).p.take();
                }
            }
            Op::GlobTake => {
                if (*s).readers[0] == 0 {
                    let t = std::mem::replace(&mut (*s).glob.t, NONE);
                    if let Some(p) = (*s).glob.p.take() {
                        sp!(a).put(p, t, i);
                    }
                }
            }
            Op::GlobWPut => {
                if (*s).readers[1] == 0 && (*s).gweak.p.is_none() {
                    (*s).gweak.t = wp!(wa).t;
                    let w = wp!(wa).p.take();
                    *(*s).gweak.p = w;
                    wp!(wa).t = NONE;
                }
            }
            Op::GlobWTake => {
                if (*s).readers[1] == 0 {
                    let t = std::mem::replace(&mut (*s).gweak.t, NONE);
                    if let Some(w) = (*s).gweak.p.take() {
                        wp!(wa).put(w, t);
                    }
                }
            }
            Op::Assign => {
                if a == b {
                    return;
                }
                let t = sp!(a).t;
                may_own(t);
                let old = sp!(b).t;
                sp!(a).get();
                let dst: *mut SharedPtr<T> = sp!(b).get();
                releasing(old);
                let src = sp!(a).get();
                act(|| T::assign(&mut *dst, src));
                owns(t);
                sp!(b).t = t;
                released(old, i);
                sp!(b).check(i);
            }
            Op::Swap => {
                if a == b {
                    return;
                }
                sp!(a).get();
                let y: *mut SharedPtr<T> = sp!(b).get();
                let x = sp!(a).get();
                act(|| T::swap(x, &mut *y));
                let t = sp!(a).t;
                sp!(a).t = sp!(b).t;
                sp!(b).t = t;
                sp!(a).check(i);
                sp!(b).check(i);
            }
            Op::WAssign => {
                let t = sp!(a).t;
                wp!(wb).get();
                let (x, y) = (wp!(wb).get(), sp!(a).get());
                act(|| T::wassign(x, y));
                wp!(wb).t = t;
            }
            Op::Count => count::<T>(sp!(a).t, sp!(a).get(), i),
            Op::Prim => prim(o.id, i),
        }
    }
}
/// A short history of one owner on a target of a primitive type; each has functions of its own.
fn prim(id: u64, i: u64) {
    fn go<T: Kind + Check + Copy + cxx::memory::SharedPtrTarget + cxx::memory::WeakPtrTarget + cxx::ExternType<Kind = cxx::kind::Trivial>>(id: u64, i: u64) {
        let addr = |p: &SharedPtr<T>| p.as_ref().map_or(0, |x| x as *const T as usize);
        let live = |a: usize| unsafe { sim_addr_live(a as *const u8, std::mem::size_of::<T>()) } != 0;
        let ok = |c: bool, what: &str| {
            if !c {
                fail(i, &format!("{what} ({})", std::any::type_name::<T>()));
            }
        };
        let value = T::make(id);
        let mut p = act(|| SharedPtr::new(value));
        let a = addr(&p);
        ok(a != 0 && !p.is_null() && live(a) && p.same(id), "new pointer to a primitive");
        let mut w: WeakPtr<T> = act(|| WeakPtr::null());
        ok(act(|| w.upgrade()).is_null(), "upgrade of a null pointer");
        w = act(|| p.downgrade());
        for k in 0..3 {
            match id >> (20 + 2 * k) & 3 {
                0 => {
                    let q = act(|| p.clone());
                    ok(addr(&q) == a && q.same(id), "clone of a pointer to a primitive");
                    p = act(move || {
                        drop(p);
                        q
                    });
                }
                1 => {
                    let q = act(|| w.upgrade());
                    ok(addr(&q) == a && q.same(id), "upgrade while an owner exists");
                    act(|| drop(q));
                }
                2 => {
                    let v = act(|| w.clone());
                    act(|| w = v);
                }
                _ => {
                    let q = act(|| SharedPtr::<T>::null());
                    ok(q.is_null() && q.as_ref().is_none() && act(|| q.clone()).is_null() && act(|| q.downgrade().upgrade()).is_null(), "null pointer to a primitive");
                }
            }
            ok(live(a) && p.same(id), "target of a pointer to a primitive");
        }
        act(|| drop(p));
        ok(act(|| w.upgrade()).is_null(), "upgrade after the last owner went away");
        act(|| drop(w));
    }
    match id % 13 {
        0 => go::<bool>(id, i),
        1 => go::<u8>(id, i),
        2 => go::<u16>(id, i),
        3 => go::<u32>(id, i),
        4 => go::<u64>(id, i),
        5 => go::<usize>(id, i),
        6 => go::<i8>(id, i),
        7 => go::<i16>(id, i),
        8 => go::<i32>(id, i),
        9 => go::<i64>(id, i),
        10 => go::<isize>(id, i),
        11 => go::<f32>(id, i),
        _ => go::<f64>(id, i),
    }
}
fn count<T: PK>(t: Tgt, p: &SharedPtr<T>, i: u64) {
    let want = if t == NONE { 0 } else { tg(t).def as usize };
    let n = T::count(p);
    if n != want {
        fail(i, &format!("{want} owners exist, the pointer counts {n}"));
    }
}
fn thread(tid: u32) {
    unsafe {
        for i in 0..h_nops {
            let o = *h_ops.add(i as usize);
            if o.thread != tid {
                continue;
            }
            (*sim_sh).cur_op[tid as usize] = i as i32;
            sim_enter();
            sim_quiet();
            let op = OPS[o.f as usize].1;
            match o.a[0] {
                0 => step::<Obj>(op, &o, i, tid as usize),
                1 => step::<Txt>(op, &o, i, tid as usize),
                2 => step::<Pod>(op, &o, i, tid as usize),
                3 => step::<u64>(op, &o, i, tid as usize),
                _ => step::<CxxString>(op, &o, i, tid as usize),
            }
            sim_leave();
            check_all(i);
            sim_hist((i << 8) | tid as u64);
            (*sim_sh).opsdone += 1;
        }
    }
}
/// Drops what is left, one pointer after the other.
fn drain<T: PK>() {
    let s: *mut KState<T> = T::st();
    let i = unsafe { h_nops - 1 };
    unsafe {
        let mut all: Vec<*mut Sp<T>> = vec![];
        for t in 0..MAXT {
            for k in 0..SLOTS {
                all.push(&raw mut (*s).sp[t][k]);
            }
        }
        for k in 0..BOX {
            all.push(&raw mut (*s).mail[k]);
        }
        all.push(&raw mut (*s).glob);
        sim_enter();
        for p in &all {
            if (**p).p.is_some() {
                let t = (**p).t;
                (**p).check(i);
                deref_check((**p).get(), t, i);
                count((**p).t, (**p).get(), i);
            }
        }
        for p in &all {
            if let Some(x) = (**p).p.take() {
                let t = std::mem::replace(&mut (**p).t, NONE);
                releasing(t);
                drop(x);
                released(t, i);
                check_all(i);
            }
        }
        let mut all: Vec<*mut Wp<T>> = vec![];
        for t in 0..MAXT {
            for k in 0..WSLOTS {
                all.push(&raw mut (*s).wp[t][k]);
            }
        }
        for k in 0..BOX {
            all.push(&raw mut (*s).wmail[k]);
        }
        all.push(&raw mut (*s).gweak);
        for p in &all {
            if let Some(x) = (**p).p.take() {
                if !x.upgrade().is_null() || T::wcount(&x) != 0 {
                    fail(i, "upgrade succeeded after the last owner went away");
                }
                drop(x);
            }
        }
        drop(all);
        sim_leave();
    }
}
fn finish() {
    drain::<Obj>();
    drain::<Txt>();
    drain::<Pod>();
    drain::<u64>();
    drain::<CxxString>();
    for k in 1..5 {
        let n = unsafe { sim_obj_count(k) };
        if n != 0 {
            viol(V_PTR, &format!("{n} objects are alive at the end of the run"));
        }
    }
}
