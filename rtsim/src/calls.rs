//! Drivers (Rust calls C++) and callees (C++ calls Rust) of the call workload.
use crate::ffi::c_raise;
use crate::gen_drive::*;
use crate::sim::*;
use crate::user::*;
use cxx::{Exception, UniquePtr};
use std::pin::Pin;

pub const O_OK: u32 = 0;
pub const O_SAME: u32 = 1;
pub const O_FAIL: u32 = 2;
pub const O_FAIL2: u32 = 3;
pub const O_RUSTERR: u32 = 4;
pub const O_ALLOC: u32 = 5;
pub const O_FATAL: u32 = 16;
pub const O_FATAL2: u32 = 17;
pub const O_FATAL3: u32 = 18;
pub const O_FATAL4: u32 = 19;
pub const O_FATAL5: u32 = 20;
pub const O_FATAL6: u32 = 21;

pub fn op(tag: u64) -> &'static mut HOp {
    unsafe { &mut *h_ops.add(tag as usize) }
}
pub fn opid(tag: u64) -> u64 {
    op(tag).id
}
pub fn opx(tag: u64) -> u64 {
    op(tag).id ^ 0x5555
}
pub fn bad(cls: i32, tag: u64, what: &str) {
    let name = outside(|| crate::op_name(op(tag).f));
    outside(|| viol(cls, &format!("op {tag} {name}: {what}")));
    outside(|| drop(name));
}
#[no_mangle]
pub extern "C" fn h_bad(cls: i32, tag: u64, what: *const std::ffi::c_char) {
    let s = unsafe { std::ffi::CStr::from_ptr(what) }.to_str().unwrap_or("?");
    bad(cls, tag, s);
}
fn set_cur(tag: i64) {
    unsafe { (*sim_sh).cur_op[sim_tid() as usize] = tag as i32 };
}
#[no_mangle]
pub extern "C" fn h_called(tag: u64) {
    op(tag).state |= H_CALLED;
    set_cur(tag as i64);
}
#[no_mangle]
pub extern "C" fn h_callee(tag: u64, _lang: i32) {
    let o = op(tag);
    if o.state & H_CALLED == 0 && o.f != H_CB {
        bad(V_VAL, tag, "callee entered for an operation nobody called");
    }
    if o.state & H_ENTERED != 0 {
        bad(V_VAL, tag, "callee entered twice for one call");
    }
    o.state |= H_ENTERED;
    if unsafe { sim_tid() } as u32 != o.thread {
        bad(V_VAL, tag, "callee entered on another thread");
    }
    set_cur(tag as i64);
    unsafe { sim_hist((tag << 8) | 1) };
}
#[no_mangle]
pub extern "C" fn h_fatal(tag: u64, kind: i32) {
    unsafe {
        (*sim_sh).fatal_expected = tag as i32 + 1;
        (*sim_sh).fatal_kind = kind;
    }
}
fn after_fatal(what: &str) -> ! {
    unsafe { (*sim_sh).after_fatal = 1 };
    let t = unsafe { (*sim_sh).fatal_expected } as u64 - 1;
    let name = outside(|| FUNS.get(op(t).f as usize).map_or("callback", |f| f.name));
    viol_fatal(V_FATAL, &format!("op {t} {name}: {what}"))
}
#[no_mangle]
pub extern "C" fn h_frame_exit(tag: u64, callee: i32) {
    let f = unsafe { (*sim_sh).fatal_expected };
    if f != 0 && !(callee != 0 && f as u64 - 1 == tag) {
        after_fatal("a frame beyond the boundary was unwound or resumed after a fault that must end the process");
    }
    let o = op(tag);
    if callee == 0 || o.f == H_CB {
        set_cur(o.parent as i64);
        unsafe { (*sim_sh).opsdone += 1 };
    }
}
#[no_mangle]
pub extern "C" fn h_result(tag: u64, how: i32, p: *const u8, n: usize) {
    let o = op(tag);
    if unsafe { (*sim_sh).fatal_expected } != 0 {
        after_fatal("the caller resumed after a fault that must end the process");
    }
    quiet(|| {
        let threw = o.state & H_THREW != 0;
        if o.state & H_ENTERED == 0 {
            bad(V_VAL, tag, "the call came back but the callee never ran");
        }
        if how == 1 {
            o.state |= H_RETURNED;
            if threw {
                bad(V_ERR, tag, "the callee failed but the caller saw success");
            }
            return;
        }
        o.state |= H_CAUGHT;
        if !threw {
            bad(V_ERR, tag, "the callee succeeded but the caller saw an error");
        }
        if how == 3 {
            bad(V_ERR, tag, "the error arrived as something other than rust::Error");
        }
        let text = unsafe { std::slice::from_raw_parts(p, n) };
        check_text(tag, text);
    });
    unsafe { sim_hist((tag << 8) | how as u64 | 16) };
}
fn check_text(tag: u64, text: &[u8]) {
    let o = op(tag);
    outside(|| {
        let mut m = message(o.msg);
        let exp = if o.state & H_ALLOCFAIL != 0 {
            "std::bad_alloc".to_owned()
        } else {
            if o.outcome == O_FAIL2 && o.a[1] == 2 {
                m.extend_from_slice(b"\0tail");
            }
            String::from_utf8_lossy(&m).into_owned()
        };
        if exp.as_bytes() != text {
            bad(V_ERR, tag, &format!("error text is {:?} instead of {:?}", short(&String::from_utf8_lossy(text)), short(&exp)));
        }
    });
}
fn short(s: &str) -> String {
    let mut t: String = s.chars().take(40).collect();
    if t.len() < s.len() {
        t.push_str(&format!("... ({} bytes)", s.len()));
    }
    t
}

pub fn drive_one(tag: u64) {
    let f = &FUNS[op(tag).f as usize];
    if f.dir == 0 {
        drive(f.idx, tag);
    } else {
        unsafe { rt_drive_c2r_idx(f.idx, tag) };
    }
}
unsafe fn rt_drive_c2r_idx(idx: u32, tag: u64) {
    rt_drive_c2r(idx, tag)
}
#[no_mangle]
pub extern "C" fn h_nested_one(tag: u64) {
    drive_one(tag);
}
#[no_mangle]
pub extern "C" fn h_drive_idx(tag: u64) -> u32 {
    FUNS[op(tag).f as usize].idx
}

pub struct Frame {
    tag: u64,
    callee: bool,
}
impl Frame {
    pub fn new(tag: u64) -> Frame {
        h_callee(tag, 1);
        Frame { tag, callee: true }
    }
    pub fn caller(tag: u64) -> Frame {
        h_called(tag);
        Frame { tag, callee: false }
    }
}
impl Drop for Frame {
    fn drop(&mut self) {
        h_frame_exit(self.tag, self.callee as i32);
    }
}
pub fn qmake<T: Kind>(id: u64) -> T {
    quiet(|| T::make(id))
}
pub fn check_at<T: Check + ?Sized>(v: &T, id: u64, tag: u64, what: &str) {
    if !quiet(|| v.same(id)) {
        bad(V_VAL, tag, what);
    }
}
pub fn check_str(s: &str, id: u64, tag: u64) {
    if !quiet(|| std::str::from_utf8(s.as_bytes()).is_ok() && s == text(id)) {
        bad(V_VAL, tag, "str contents");
    }
}
pub fn check_slice<T: Check>(s: &[T], id: u64, tag: u64) {
    if !quiet(|| s.len() == len_of(id) && s.iter().enumerate().all(|(i, e)| e.same(elem(id, i)))) {
        bad(V_VAL, tag, "slice contents");
    }
}
pub fn make_ret<T: Kind>(tag: u64) -> T {
    qmake(opid(tag) + 1000)
}
fn expect_id(tag: u64) -> u64 {
    if op(tag).outcome == O_SAME { opid(tag) } else { opid(tag) + 1000 }
}

struct Nasty(u64);
impl Drop for Nasty {
    fn drop(&mut self) {
        std::hint::black_box(self.0);
    }
}
fn nested(tag: u64) {
    for i in tag + 1..unsafe { h_nops } {
        let o = op(i);
        if o.parent == tag as i32 && o.f != H_CB {
            drive_one(i);
        }
    }
    unsafe { sim_yield() };
}
/// Body of an infallible Rust callee.
pub fn body0(tag: u64) {
    nested(tag);
    fatal(tag);
    op(tag).state |= H_DONE;
}
fn fatal(tag: u64) {
    match op(tag).outcome {
        O_FATAL => {
            h_fatal(tag, 0);
            panic!("planned panic");
        }
        O_FATAL5 => {
            h_fatal(tag, 5);
            std::panic::resume_unwind(Box::new(Nasty(tag)));
        }
        _ => {}
    }
}
/// Body of a fallible Rust callee.
pub fn body(tag: u64) -> Result<(), RErr> {
    nested(tag);
    fatal(tag);
    let o = op(tag);
    match o.outcome {
        O_FAIL | O_FAIL2 => {
            o.state |= H_THREW;
            Err(RErr::Text(o.msg))
        }
        O_RUSTERR => {
            o.state |= H_THREW;
            match c_raise(tag) {
                Ok(()) => {
                    bad(V_ERR, tag, "a C++ function threw but the Rust caller saw Ok");
                    Ok(())
                }
                Err(e) => Err(RErr::Cxx(e)),
            }
        }
        O_FATAL2 => Err(RErr::PanicInDisplay(tag)),
        O_FATAL3 => Err(RErr::FailInDisplay(tag)),
        _ => {
            o.state |= H_DONE;
            Ok(())
        }
    }
}

// ------------------------------------------------------------------ callees
pub fn callee_x<T: Kind>(tag: u64, x: T) -> T {
    let _f = Frame::new(tag);
    check_at(&x, opid(tag), tag, "argument");
    body0(tag);
    if op(tag).outcome == O_SAME {
        return x;
    }
    make_ret(tag)
}
pub fn callee_t<T: Kind>(tag: u64, x: T) -> Result<T, RErr> {
    let _f = Frame::new(tag);
    check_at(&x, opid(tag), tag, "argument");
    body(tag)?;
    if op(tag).outcome == O_SAME {
        return Ok(x);
    }
    Ok(make_ret(tag))
}
pub fn callee_take<T: Kind>(tag: u64, x: T) {
    let _f = Frame::new(tag);
    check_at(&x, opid(tag), tag, "argument");
    body0(tag);
    drop(x);
}
pub fn callee_ttake<T: Kind>(tag: u64, x: T) -> Result<(), RErr> {
    let _f = Frame::new(tag);
    check_at(&x, opid(tag), tag, "argument");
    body(tag)?;
    drop(x);
    Ok(())
}
pub fn callee_ret<T: Kind>(tag: u64) -> T {
    let _f = Frame::new(tag);
    body0(tag);
    make_ret(tag)
}
pub fn callee_tret<T: Kind>(tag: u64) -> Result<T, RErr> {
    let _f = Frame::new(tag);
    body(tag)?;
    Ok(make_ret(tag))
}
pub fn callee_ref<T: Check + ?Sized>(tag: u64, x: &T) -> &T {
    let _f = Frame::new(tag);
    check_at(x, opid(tag), tag, "referenced argument");
    body0(tag);
    x
}
pub fn callee_tref<T: Check + ?Sized>(tag: u64, x: &T) -> Result<&T, RErr> {
    let _f = Frame::new(tag);
    check_at(x, opid(tag), tag, "referenced argument");
    body(tag)?;
    Ok(x)
}
pub fn callee_mut<T: Check + SetK>(tag: u64, x: &mut T) -> &mut T {
    let _f = Frame::new(tag);
    check_at(x, opid(tag), tag, "referenced argument");
    body0(tag);
    quiet(|| x.set(opid(tag) + 1000));
    x
}
pub fn callee_tmut<T: Check + SetK>(tag: u64, x: &mut T) -> Result<&mut T, RErr> {
    let _f = Frame::new(tag);
    check_at(x, opid(tag), tag, "referenced argument");
    body(tag)?;
    quiet(|| x.set(opid(tag) + 1000));
    Ok(x)
}
pub fn callee_pin<T: Check + SetPin>(tag: u64, mut x: Pin<&mut T>) -> Pin<&mut T> {
    let _f = Frame::new(tag);
    check_at(&*x, opid(tag), tag, "referenced argument");
    body0(tag);
    quiet(|| x.as_mut().set_pin(opid(tag) + 1000));
    x
}
pub fn callee_tpin<T: Check + SetPin>(tag: u64, mut x: Pin<&mut T>) -> Result<Pin<&mut T>, RErr> {
    let _f = Frame::new(tag);
    check_at(&*x, opid(tag), tag, "referenced argument");
    body(tag)?;
    quiet(|| x.as_mut().set_pin(opid(tag) + 1000));
    Ok(x)
}
pub fn callee_sl<T: Check>(tag: u64, x: &[T]) -> &[T] {
    let _f = Frame::new(tag);
    check_slice(x, opid(tag), tag);
    body0(tag);
    x
}
pub fn callee_tsl<T: Check>(tag: u64, x: &[T]) -> Result<&[T], RErr> {
    let _f = Frame::new(tag);
    check_slice(x, opid(tag), tag);
    body(tag)?;
    Ok(x)
}
fn set_slice<T: Kind>(x: &mut [T], id: u64) {
    quiet(|| {
        for (i, e) in x.iter_mut().enumerate() {
            *e = T::make(elem(id, i));
        }
    });
}
pub fn callee_msl<T: Kind>(tag: u64, x: &mut [T]) -> &mut [T] {
    let _f = Frame::new(tag);
    check_slice(x, opid(tag), tag);
    body0(tag);
    set_slice(x, opid(tag) + 1000);
    x
}
pub fn callee_tmsl<T: Kind>(tag: u64, x: &mut [T]) -> Result<&mut [T], RErr> {
    let _f = Frame::new(tag);
    check_slice(x, opid(tag), tag);
    body(tag)?;
    set_slice(x, opid(tag) + 1000);
    Ok(x)
}
pub fn callee_str(tag: u64, x: &str) -> &str {
    let _f = Frame::new(tag);
    check_str(x, opid(tag), tag);
    body0(tag);
    x
}
pub fn callee_tstr(tag: u64, x: &str) -> Result<&str, RErr> {
    let _f = Frame::new(tag);
    check_str(x, opid(tag), tag);
    body(tag)?;
    Ok(x)
}

// ------------------------------------------------------------------ drivers
fn returned(tag: u64) {
    h_result(tag, 1, std::ptr::null(), 0);
}
fn caught(tag: u64, e: Exception) {
    {
        let s = e.what();
        h_result(tag, 2, s.as_ptr(), s.len());
    }
    quiet(|| {
        let s = e.what();
        if std::str::from_utf8(s.as_bytes()).is_err() {
            bad(V_ERR, tag, "error text is not UTF-8");
        }
        if e.to_string() != s || !format!("{e:?}").contains(&format!("{s:?}")) {
            bad(V_ERR, tag, "Display or Debug of the Exception differs from what()");
        }
    });
    quiet(|| {
        if op(tag).a[1] & 4 != 0 {
            let b: Box<dyn std::error::Error + Send + Sync> = Box::new(e);
            if b.downcast_ref::<Exception>().map(|e| e.what().len()) != Some(b.to_string().len()) {
                bad(V_ERR, tag, "Exception as dyn Error");
            }
        }
    });
}
pub fn self_obj(tag: u64) -> UniquePtr<crate::ffi::Obj> {
    quiet(|| crate::ffi::obj_new(opx(tag)))
}
pub fn drive_x<T: Kind>(tag: u64, f: impl FnOnce(u64, T) -> T) {
    let _f = Frame::caller(tag);
    let x = qmake::<T>(opid(tag));
    let y = f(tag, x);
    returned(tag);
    check_at(&y, expect_id(tag), tag, "result");
}
pub fn drive_t<T: Kind>(tag: u64, f: impl FnOnce(u64, T) -> Result<T, Exception>) {
    let _f = Frame::caller(tag);
    let x = qmake::<T>(opid(tag));
    match f(tag, x) {
        Ok(y) => {
            returned(tag);
            check_at(&y, expect_id(tag), tag, "result");
        }
        Err(e) => caught(tag, e),
    }
}
pub fn drive_take<T: Kind>(tag: u64, f: impl FnOnce(u64, T)) {
    let _f = Frame::caller(tag);
    let x = qmake::<T>(opid(tag));
    f(tag, x);
    returned(tag);
}
pub fn drive_ttake<T: Kind>(tag: u64, f: impl FnOnce(u64, T) -> Result<(), Exception>) {
    let _f = Frame::caller(tag);
    let x = qmake::<T>(opid(tag));
    match f(tag, x) {
        Ok(()) => returned(tag),
        Err(e) => caught(tag, e),
    }
}
pub fn drive_ret<T: Kind>(tag: u64, f: impl FnOnce(u64) -> T) {
    let _f = Frame::caller(tag);
    let y = f(tag);
    returned(tag);
    check_at(&y, opid(tag) + 1000, tag, "result");
}
pub fn drive_tret<T: Kind>(tag: u64, f: impl FnOnce(u64) -> Result<T, Exception>) {
    let _f = Frame::caller(tag);
    match f(tag) {
        Ok(y) => {
            returned(tag);
            check_at(&y, opid(tag) + 1000, tag, "result");
        }
        Err(e) => caught(tag, e),
    }
}
// two functions for every type: each caller passes its own
fn own_callback(tag: u64, k: u64) {
    let p = op(tag).parent;
    if p < 0 || opid(p as u64) & 1 != k {
        bad(V_VAL, tag, "the callback of another call");
    }
}
fn callback<T: Kind, const K: u64>(tag: u64, x: T) -> T {
    own_callback(tag, K);
    callee_x(tag, x)
}
fn callback_ref<T: Check, const K: u64>(tag: u64, x: &T) {
    own_callback(tag, K);
    callee_ref(tag, x);
}
fn callback_of<T: Kind>(tag: u64) -> fn(u64, T) -> T {
    if opid(tag) & 1 == 0 { callback::<T, 0> } else { callback::<T, 1> }
}
fn callback_ref_of<T: Check>(tag: u64) -> fn(u64, &T) {
    if opid(tag) & 1 == 0 { callback_ref::<T, 0> } else { callback_ref::<T, 1> }
}
pub fn drive_cb<T: Kind>(tag: u64, f: impl FnOnce(u64, T, fn(u64, T) -> T) -> T) {
    let _f = Frame::caller(tag);
    let x = qmake::<T>(opid(tag));
    let y = f(tag, x, callback_of::<T>(tag));
    returned(tag);
    check_at(&y, expect_id(tag), tag, "result");
}
pub fn drive_tcb<T: Kind>(tag: u64, f: impl FnOnce(u64, T, fn(u64, T) -> T) -> Result<T, Exception>) {
    let _f = Frame::caller(tag);
    let x = qmake::<T>(opid(tag));
    match f(tag, x, callback_of::<T>(tag)) {
        Ok(y) => {
            returned(tag);
            check_at(&y, expect_id(tag), tag, "result");
        }
        Err(e) => caught(tag, e),
    }
}
pub fn drive_cbr<T: Kind>(tag: u64, f: impl for<'a> FnOnce(u64, &'a T, fn(u64, &T))) {
    let _f = Frame::caller(tag);
    let x = qmake::<T>(opid(tag));
    f(tag, &x, callback_ref_of::<T>(tag));
    returned(tag);
    check_at(&x, opid(tag), tag, "referent afterwards");
}
pub fn drive_ref<O: Kind, R: Check + ?Sized>(tag: u64, f: impl for<'a> FnOnce(u64, &'a O) -> &'a R, d: impl for<'a> Fn(&'a O) -> &'a R) {
    let _f = Frame::caller(tag);
    let o = qmake::<O>(opid(tag));
    let r = f(tag, &o);
    returned(tag);
    if !std::ptr::addr_eq(r, d(&o)) {
        bad(V_VAL, tag, "returned reference");
    }
    check_at(d(&o), opid(tag), tag, "referent afterwards");
}
pub fn drive_tref<O: Kind, R: Check + ?Sized>(
    tag: u64,
    f: impl for<'a> FnOnce(u64, &'a O) -> Result<&'a R, Exception>,
    d: impl for<'a> Fn(&'a O) -> &'a R,
) {
    let _f = Frame::caller(tag);
    let o = qmake::<O>(opid(tag));
    match f(tag, &o) {
        Ok(r) => {
            returned(tag);
            if !std::ptr::addr_eq(r, d(&o)) {
                bad(V_VAL, tag, "returned reference");
            }
        }
        Err(e) => caught(tag, e),
    }
    check_at(d(&o), opid(tag), tag, "referent afterwards");
}
pub fn drive_mut<O: Kind, R: Check + ?Sized>(
    tag: u64,
    f: impl for<'a> FnOnce(u64, &'a mut O) -> &'a mut R,
    d: impl for<'a> Fn(&'a O) -> &'a R,
) {
    let _f = Frame::caller(tag);
    let mut o = qmake::<O>(opid(tag));
    let p = f(tag, &mut o) as *const R;
    returned(tag);
    if !std::ptr::addr_eq(p, d(&o)) {
        bad(V_VAL, tag, "returned reference");
    }
    check_at(d(&o), opid(tag) + 1000, tag, "referent afterwards");
}
pub fn drive_tmut<O: Kind, R: Check + ?Sized>(
    tag: u64,
    f: impl for<'a> FnOnce(u64, &'a mut O) -> Result<&'a mut R, Exception>,
    d: impl for<'a> Fn(&'a O) -> &'a R,
) {
    let _f = Frame::caller(tag);
    let mut o = qmake::<O>(opid(tag));
    match f(tag, &mut o).map(|r| r as *const R) {
        Ok(p) => {
            returned(tag);
            if !std::ptr::addr_eq(p, d(&o)) {
                bad(V_VAL, tag, "returned reference");
            }
            check_at(d(&o), opid(tag) + 1000, tag, "referent afterwards");
        }
        Err(e) => {
            caught(tag, e);
            check_at(d(&o), opid(tag), tag, "referent afterwards");
        }
    }
}
fn same_slice<T>(a: &[T], b: &[T]) -> bool {
    a.as_ptr() == b.as_ptr() && a.len() == b.len()
}
pub fn drive_sl<T: Kind>(tag: u64, f: impl for<'a> FnOnce(u64, &'a [T]) -> &'a [T]) {
    let _f = Frame::caller(tag);
    let o = qmake::<Vec<T>>(opid(tag));
    let r = f(tag, &o);
    returned(tag);
    if !same_slice(r, &o) {
        bad(V_VAL, tag, "returned slice");
    }
}
pub fn drive_tsl<T: Kind>(tag: u64, f: impl for<'a> FnOnce(u64, &'a [T]) -> Result<&'a [T], Exception>) {
    let _f = Frame::caller(tag);
    let o = qmake::<Vec<T>>(opid(tag));
    match f(tag, &o) {
        Ok(r) => {
            returned(tag);
            if !same_slice(r, &o) {
                bad(V_VAL, tag, "returned slice");
            }
        }
        Err(e) => caught(tag, e),
    }
}
fn check_elems<T: Kind>(tag: u64, o: &[T], id: u64, n: usize) {
    if !quiet(|| o.len() == n && o.iter().enumerate().all(|(i, e)| e.same(elem(id, i)))) {
        bad(V_VAL, tag, "elements afterwards");
    }
}
pub fn drive_msl<T: Kind>(tag: u64, f: impl for<'a> FnOnce(u64, &'a mut [T]) -> &'a mut [T]) {
    let _f = Frame::caller(tag);
    let mut o = qmake::<Vec<T>>(opid(tag));
    let (p, n) = (o.as_ptr(), o.len());
    let r = f(tag, &mut o);
    let ok = r.as_ptr() == p && r.len() == n;
    returned(tag);
    if !ok {
        bad(V_VAL, tag, "returned slice");
    }
    check_elems(tag, &o, opid(tag) + 1000, len_of(opid(tag)));
}
pub fn drive_tmsl<T: Kind>(tag: u64, f: impl for<'a> FnOnce(u64, &'a mut [T]) -> Result<&'a mut [T], Exception>) {
    let _f = Frame::caller(tag);
    let mut o = qmake::<Vec<T>>(opid(tag));
    let (p, n) = (o.as_ptr(), o.len());
    match f(tag, &mut o).map(|r| r.as_ptr() == p && r.len() == n) {
        Ok(ok) => {
            returned(tag);
            if !ok {
                bad(V_VAL, tag, "returned slice");
            }
            check_elems(tag, &o, opid(tag) + 1000, len_of(opid(tag)));
        }
        Err(e) => {
            caught(tag, e);
            check_elems(tag, &o, opid(tag), len_of(opid(tag)));
        }
    }
}
pub fn drive_str(tag: u64, f: impl for<'a> FnOnce(u64, &'a str) -> &'a str) {
    let _f = Frame::caller(tag);
    let o = quiet(|| text(opid(tag)));
    let r = f(tag, &o);
    returned(tag);
    if !same_slice(r.as_bytes(), o.as_bytes()) {
        bad(V_VAL, tag, "returned str");
    }
}
pub fn drive_tstr(tag: u64, f: impl for<'a> FnOnce(u64, &'a str) -> Result<&'a str, Exception>) {
    let _f = Frame::caller(tag);
    let o = quiet(|| text(opid(tag)));
    match f(tag, &o) {
        Ok(r) => {
            returned(tag);
            if !same_slice(r.as_bytes(), o.as_bytes()) {
                bad(V_VAL, tag, "returned str");
            }
        }
        Err(e) => caught(tag, e),
    }
}

/// Functions of the crate itself whose C++ part allocates. The planned fault is an allocation that fails in it,
/// which the C++ part has no way to report: it must end the process.
pub fn drive_shim(tag: u64, how: u32) {
    use crate::ffi::{Pod, Txt};
    use cxx::{CxxString, CxxVector, SharedPtr};
    let _f = Frame::caller(tag);
    let o = op(tag);
    let id = o.id;
    let mut s: UniquePtr<CxxString> = quiet(|| UniquePtr::make(if id % 7 == 3 { id + 1 } else { id }));
    let mut v64 = quiet(CxxVector::<u64>::new);
    let mut vtok = quiet(CxxVector::<Tok>::new);
    let mut vtxt = quiet(CxxVector::<Txt>::new);
    let big = quiet(|| vec![b'x'; 300 + (id % 1000) as usize]);
    let before = quiet(|| s.as_bytes().to_vec());
    let (pod, txt, tok) = quiet(|| (Pod::make(id), Txt::make(id), Tok::make(id)));
    struct Arm(bool);
    impl Drop for Arm {
        fn drop(&mut self) {
            if self.0 {
                unsafe { sim_fail_alloc(0) };
            }
        }
    }
    h_callee(tag, 0);
    let fatal = o.outcome == O_FATAL6;
    let arm = Arm(fatal);
    if fatal {
        h_fatal(tag, 6);
        unsafe { sim_fail_alloc(1 + (o.msg % 2) as i64) };
    }
    // the operation, and what must hold after it
    let mut ok: Box<dyn FnOnce() -> bool> = quiet(|| Box::new(|| true) as Box<dyn FnOnce() -> bool>);
    macro_rules! then {
        ($e:expr) => { ok = quiet(|| Box::new($e) as Box<dyn FnOnce() -> bool>) };
    }
    match how {
        0 => s.pin_mut().push_bytes(&big),
        1 => s.pin_mut().reserve(5000),
        2 => {
            cxx::let_cxx_string!(t = &big);
            let same = t.as_bytes() == &big[..];
            then!(move || same);
        }
        3 => {
            use std::io::Write;
            let n = s.pin_mut().write(&big);
            then!(move || matches!(n, Ok(n) if n > 299));
        }
        4 => {
            let v = CxxVector::<f64>::new();
            then!(move || v.is_empty());
        }
        5 => v64.pin_mut().push(id),
        6 => vtok.pin_mut().push(tok),
        7 => vtxt.pin_mut().push(txt),
        8 => {
            let p = UniquePtr::<Pod>::new(pod);
            then!(move || Check::same(&*p, id));
        }
        9 => {
            let p = UniquePtr::<Txt>::new(txt);
            then!(move || Check::same(&*p, id));
        }
        10 => {
            let p = SharedPtr::<Pod>::new(pod);
            then!(move || Check::same(&*p, id));
        }
        11 => {
            let p = SharedPtr::<u64>::new(id);
            then!(move || *p == id);
        }
        12 => {
            let p = SharedPtr::<Txt>::new(txt);
            then!(move || Check::same(&*p, id));
        }
        13 => {
            let v = CxxVector::<Tok>::new();
            then!(move || v.is_empty() && v.len() == 0);
        }
        14 => {
            let v = CxxVector::<Txt>::new();
            then!(move || v.is_empty() && v.get(0).is_none());
        }
        _ => {
            let v = CxxVector::<crate::ffi::Obj>::new();
            then!(move || v.is_empty() && v.iter().next().is_none());
        }
    }
    if fatal && unsafe { sim_fail_alloc_left() } != 0 {
        // it needed fewer allocations
        unsafe { (*sim_sh).fatal_expected = 0 };
    }
    drop(arm);
    h_frame_exit(tag, 1);
    set_cur(tag as i64);
    returned(tag);
    let good = quiet(|| {
        ok() && match how {
            0 | 3 => s.as_bytes()[..before.len()] == before[..] && s.as_bytes()[before.len()..] == big[..],
            1 => s.as_bytes() == &before[..],
            5 => v64.len() == 1 && v64.get(0) == Some(&id),
            6 => vtok.len() == 1 && vtok.get(0).unwrap().same(id),
            7 => vtxt.len() == 1 && vtxt.get(0).unwrap().same(id),
            _ => true,
        }
    });
    if !good {
        bad(V_VAL, tag, "contents after a function of the crate");
    }
}
