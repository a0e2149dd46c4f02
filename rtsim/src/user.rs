//! The Rust side's user code: types with identity, values determined by an id.
use crate::calls::*;
use crate::ffi::*;
use crate::sim::*;
use cxx::memory::{SharedPtrTarget, UniquePtrTarget};
use cxx::vector::VectorElement;
use cxx::{type_id, CxxString, CxxVector, Exception, ExternType, SharedPtr, UniquePtr, WeakPtr};
use std::fmt::{self, Display};
use std::pin::Pin;

pub fn mix(id: u64) -> u64 {
    let mut z = id.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}
pub fn text(id: u64) -> String {
    let mut b = std::mem::MaybeUninit::<[u8; 32768]>::uninit();
    let b = b.as_mut_ptr() as *mut u8;
    let b = unsafe { std::slice::from_raw_parts(b, h_text(id, b)) };
    std::str::from_utf8(b).unwrap().to_owned()
}
pub fn message(id: u64) -> Vec<u8> {
    let mut b = std::mem::MaybeUninit::<[u8; 32768]>::uninit();
    let b = b.as_mut_ptr() as *mut u8;
    unsafe { std::slice::from_raw_parts(b, h_msg(id, b)) }.to_vec()
}
pub fn len_of(id: u64) -> usize {
    unsafe { h_len(id) }
}
pub fn elem(id: u64, i: usize) -> u64 {
    id.wrapping_mul(31).wrapping_add(i as u64 + 1)
}

/// Comparison with the value that an id determines.
pub trait Check {
    fn same(&self, id: u64) -> bool;
}
pub trait Kind: Check + Sized {
    fn make(id: u64) -> Self;
}
pub trait SetK {
    fn set(&mut self, id: u64);
}
impl<T: Kind> SetK for T {
    fn set(&mut self, id: u64) {
        *self = T::make(id);
    }
}
pub trait SetPin {
    fn set_pin(self: Pin<&mut Self>, id: u64);
}
pub trait Target {
    type T: ?Sized;
    fn target(&self) -> &Self::T;
}

macro_rules! int {
    ($($t:ty),*) => {$(
        impl Check for $t { fn same(&self, id: u64) -> bool { *self == <$t>::make(id) } }
        impl Kind for $t { fn make(id: u64) -> Self { mix(id) as $t } }
    )*};
}
int!(u8, i8, u16, i16, u32, i32, u64, i64, usize, isize);
impl Check for f32 { fn same(&self, id: u64) -> bool { *self == f32::make(id) } }
impl Kind for f32 { fn make(id: u64) -> Self { (mix(id) & 0xffff) as f32 * 0.25 } }
impl Check for f64 { fn same(&self, id: u64) -> bool { *self == f64::make(id) } }
impl Kind for f64 { fn make(id: u64) -> Self { (mix(id) & 0xffffffff) as f64 * 0.125 } }
impl Check for bool { fn same(&self, id: u64) -> bool { *self == bool::make(id) } }
impl Kind for bool { fn make(id: u64) -> Self { mix(id) & 1 != 0 } }

impl Check for Color { fn same(&self, id: u64) -> bool { *self == Color::make(id) } }
impl Kind for Color {
    fn make(id: u64) -> Self {
        [Color::Red, Color::Green, Color::Blue, Color::Last][(mix(id) & 3) as usize]
    }
}
impl Check for Pod { fn same(&self, id: u64) -> bool { *self == Pod::make(id) } }
impl Kind for Pod {
    fn make(id: u64) -> Self {
        Pod { a: mix(id) as i32, b: mix(id + 1), c: (mix(id) & 0xffff) as f64, d: [id as u16, (id >> 8) as u16, mix(id) as u16] }
    }
}
impl Check for String {
    fn same(&self, id: u64) -> bool {
        std::str::from_utf8(self.as_bytes()).is_ok() && *self == text(id)
    }
}
impl Kind for String { fn make(id: u64) -> Self { text(id) } }
impl<T: Check> Check for Vec<T> {
    fn same(&self, id: u64) -> bool {
        self.len() == len_of(id) && self.iter().enumerate().all(|(i, e)| e.same(elem(id, i)))
    }
}
impl<T: Kind> Kind for Vec<T> {
    fn make(id: u64) -> Self {
        let mut v = Vec::new();
        for i in 0..len_of(id) {
            v.push(T::make(elem(id, i)));
        }
        v
    }
}
impl Check for Txt {
    fn same(&self, id: u64) -> bool {
        self.s.same(id) && self.n == u32::make(id) && self.v.same(id)
    }
}
impl Kind for Txt {
    fn make(id: u64) -> Self {
        Txt { s: Kind::make(id), n: Kind::make(id), v: Kind::make(id) }
    }
}
impl<T: Check> Check for Box<T> { fn same(&self, id: u64) -> bool { (**self).same(id) } }
impl<T: Kind> Kind for Box<T> { fn make(id: u64) -> Self { Box::new(T::make(id)) } }

/// Opaque Rust type with identity.
pub struct RObj {
    id: Box<u64>,
    text: String,
    panic_tag: Option<u64>,
}
impl RObj {
    pub fn new(id: u64) -> Self {
        let id = Box::new(id);
        unsafe { sim_obj_new(&*id as *const u64 as *const u8, KIND_ROBJ) };
        let text = text(*id & 15);
        RObj { id, text, panic_tag: None }
    }
    pub fn robj_id(&self) -> u64 {
        *self.id
    }
    pub fn robj_set(&mut self, id: u64) {
        *self.id = id;
    }
    pub fn robj_panic_on_drop(&mut self, tag: u64) {
        self.panic_tag = Some(tag);
    }
    pub fn self_check(&self, tag: u64) {
        if *self.id != opx(tag) {
            bad(V_VAL, tag, "method receiver");
        }
    }
}
impl Drop for RObj {
    fn drop(&mut self) {
        unsafe { sim_obj_del(&*self.id as *const u64 as *const u8, KIND_ROBJ) };
        if self.text.len() > 1 << 20 {
            bad(V_OWN, 0, "object destroyed with destroyed contents");
        }
        if let Some(tag) = self.panic_tag {
            h_fatal(tag, 4);
            panic!("panic in drop");
        }
    }
}
impl Check for RObj { fn same(&self, id: u64) -> bool { *self.id == id } }
impl Kind for RObj { fn make(id: u64) -> Self { RObj::new(id) } }
pub fn robj_new(id: u64) -> Box<RObj> {
    Box::new(RObj::new(id))
}
pub fn vec_robj_new(id: u64) -> Vec<RObj> {
    Kind::make(id)
}

/// Layout of the relocatable C++ type.
#[repr(C)]
pub struct Tok {
    p: *mut u64,
}
unsafe impl ExternType for Tok {
    type Id = type_id!("rt::Tok");
    type Kind = cxx::kind::Trivial;
}
impl Tok {
    pub fn id_or_dead(&self) -> u64 {
        if self.p.is_null() || unsafe { sim_obj_live(self.p as *const u8, KIND_TOK) } == 0 {
            return u64::MAX;
        }
        unsafe { *self.p }
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        unsafe { rt_tok_del(self.p) }
    }
}
impl Check for Tok { fn same(&self, id: u64) -> bool { !self.p.is_null() && unsafe { *self.p } == id } }
impl Kind for Tok { fn make(id: u64) -> Self { Tok { p: unsafe { rt_tok_new(id) } } } }

/// Fields of shared structs whose comparison is a callee: totally ordered, and partially (7 equals nothing).
#[repr(C)]
#[derive(Copy, Clone)]
pub struct Cmp {
    pub tag: u64,
    pub v: u64,
}
#[repr(C)]
#[derive(Copy, Clone)]
pub struct CmpP {
    pub tag: u64,
    pub v: u64,
}
unsafe impl ExternType for Cmp {
    type Id = type_id!("rt::Cmp");
    type Kind = cxx::kind::Trivial;
}
unsafe impl ExternType for CmpP {
    type Id = type_id!("rt::CmpP");
    type Kind = cxx::kind::Trivial;
}
fn callee_cmp(a: (u64, u64), b: (u64, u64)) {
    let tag = a.0;
    let _f = crate::calls::Frame::new(tag);
    let id = crate::calls::opid(tag);
    let (v, w) = (id % 8, if id / 8 % 3 == 0 { id % 8 } else { id / 24 % 8 });
    if b.0 != tag || !((a.1, b.1) == (v, w) || (a.1, b.1) == (w, v)) {
        bad(V_VAL, tag, "operands");
    }
    crate::calls::body0(tag);
}
impl PartialEq for Cmp {
    fn eq(&self, o: &Self) -> bool {
        callee_cmp((self.tag, self.v), (o.tag, o.v));
        self.v == o.v
    }
}
impl Eq for Cmp {}
impl PartialOrd for Cmp {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Cmp {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        callee_cmp((self.tag, self.v), (o.tag, o.v));
        self.v.cmp(&o.v)
    }
}
// a tag of !0 is the reference: the same value without a callee
impl std::hash::Hash for Cmp {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        if self.tag != !0 {
            let _f = crate::calls::Frame::new(self.tag);
            if self.v != crate::calls::opid(self.tag) % 8 {
                bad(V_VAL, self.tag, "operand");
            }
            crate::calls::body0(self.tag);
        }
        h.write_u64(self.v);
    }
}
impl PartialEq for CmpP {
    fn eq(&self, o: &Self) -> bool {
        callee_cmp((self.tag, self.v), (o.tag, o.v));
        self.v == o.v && self.v != 7
    }
}
impl PartialOrd for CmpP {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        callee_cmp((self.tag, self.v), (o.tag, o.v));
        (self.v != 7 && o.v != 7).then(|| self.v.cmp(&o.v))
    }
}

impl Check for Obj { fn same(&self, id: u64) -> bool { obj_id(self) == id } }
impl SetPin for Obj { fn set_pin(self: Pin<&mut Self>, id: u64) { obj_set(self, id) } }
impl Check for CxxString { fn same(&self, id: u64) -> bool { self.as_bytes() == text(id).as_bytes() } }
impl SetPin for CxxString {
    fn set_pin(mut self: Pin<&mut Self>, id: u64) {
        self.as_mut().clear();
        self.push_str(&text(id));
    }
}
impl<T: Check + VectorElement> Check for CxxVector<T> {
    fn same(&self, id: u64) -> bool {
        self.len() == len_of(id) && self.iter().enumerate().all(|(i, e)| e.same(elem(id, i)))
    }
}
impl SetPin for CxxVector<u8> { fn set_pin(self: Pin<&mut Self>, id: u64) { set_cvu8(self, id) } }
impl SetPin for CxxVector<CxxString> { fn set_pin(self: Pin<&mut Self>, id: u64) { set_cvstr(self, id) } }
impl SetPin for CxxVector<Obj> { fn set_pin(self: Pin<&mut Self>, id: u64) { set_cvobj(self, id) } }

pub trait Uniq: Sized + Check + UniquePtrTarget {
    fn uniq(id: u64) -> UniquePtr<Self>;
}
impl Uniq for Obj { fn uniq(id: u64) -> UniquePtr<Self> { obj_new(id) } }
impl Uniq for CxxString { fn uniq(id: u64) -> UniquePtr<Self> { mk_str(id) } }
impl Uniq for Pod { fn uniq(id: u64) -> UniquePtr<Self> { UniquePtr::new(Pod::make(id)) } }
impl Uniq for Txt { fn uniq(id: u64) -> UniquePtr<Self> { UniquePtr::new(Txt::make(id)) } }
fn cvec<T: Kind + VectorElement + ExternType<Kind = cxx::kind::Trivial>>(id: u64) -> UniquePtr<CxxVector<T>> {
    let mut v = CxxVector::<T>::new();
    for i in 0..len_of(id) {
        v.pin_mut().push(T::make(elem(id, i)));
    }
    v
}
impl Uniq for CxxVector<u8> { fn uniq(id: u64) -> UniquePtr<Self> { cvec(id) } }
impl Uniq for CxxVector<f64> { fn uniq(id: u64) -> UniquePtr<Self> { cvec(id) } }
impl Uniq for CxxVector<Txt> { fn uniq(id: u64) -> UniquePtr<Self> { cvec(id) } }
impl Uniq for CxxVector<CxxString> { fn uniq(id: u64) -> UniquePtr<Self> { mk_vstr(id) } }
impl Uniq for CxxVector<Obj> { fn uniq(id: u64) -> UniquePtr<Self> { mk_vobj(id) } }
impl<T: Uniq> Check for UniquePtr<T> {
    fn same(&self, id: u64) -> bool {
        if id % 7 == 3 {
            return self.is_null();
        }
        self.as_ref().is_some_and(|x| x.same(id))
    }
}
impl<T: Uniq> Kind for UniquePtr<T> {
    fn make(id: u64) -> Self {
        if id % 7 == 3 {
            return UniquePtr::null();
        }
        T::uniq(id)
    }
}
pub trait Shared: Sized + Check + SharedPtrTarget {
    fn shared(id: u64) -> SharedPtr<Self>;
}
impl Shared for Obj { fn shared(id: u64) -> SharedPtr<Self> { obj_new_shared(id) } }
impl Shared for CxxString { fn shared(id: u64) -> SharedPtr<Self> { mk_sp_str(id) } }
impl Shared for Pod { fn shared(id: u64) -> SharedPtr<Self> { SharedPtr::new(Pod::make(id)) } }
impl Shared for u64 { fn shared(id: u64) -> SharedPtr<Self> { SharedPtr::new(u64::make(id)) } }
impl<T: Shared> Check for SharedPtr<T> {
    fn same(&self, id: u64) -> bool {
        if id % 7 == 3 {
            return self.is_null();
        }
        self.as_ref().is_some_and(|x| x.same(id))
    }
}
impl<T: Shared> Kind for SharedPtr<T> {
    fn make(id: u64) -> Self {
        if id % 7 == 3 {
            return SharedPtr::null();
        }
        T::shared(id)
    }
}
fn same_sp<T: SharedPtrTarget>(a: &SharedPtr<T>, b: &SharedPtr<T>) -> bool {
    a.as_ref().map(|x| x as *const T) == b.as_ref().map(|x| x as *const T)
}
impl Check for WeakPtr<Obj> {
    fn same(&self, id: u64) -> bool {
        let s = self.upgrade();
        if id % 3 == 2 {
            return same_sp(&s, &keeper());
        }
        s.is_null() && wp_use_count(self) == 0
    }
}
impl Kind for WeakPtr<Obj> {
    fn make(id: u64) -> Self {
        match id % 3 {
            0 => WeakPtr::null(),
            1 => {
                let s = obj_new_shared(id);
                let w = s.downgrade();
                drop(s);
                w
            }
            _ => keeper().downgrade(),
        }
    }
}
impl Check for Rec {
    fn same(&self, id: u64) -> bool {
        self.s.same(id)
            && self.t.same(id + 1)
            && self.b.same(id + 2)
            && self.u.same(id + 3)
            && self.sp.same(id + 4)
            && self.w.same(id + 5)
            && self.tok.same(id + 6)
            && self.vt.same(id + 7)
            && self.cs.same(id + 8)
            && self.p.same(id + 9)
            && self.c.same(id + 10)
    }
}
impl Kind for Rec {
    fn make(id: u64) -> Self {
        Rec {
            s: Kind::make(id),
            t: Kind::make(id + 1),
            b: Kind::make(id + 2),
            u: Kind::make(id + 3),
            sp: Kind::make(id + 4),
            w: Kind::make(id + 5),
            tok: Kind::make(id + 6),
            vt: Kind::make(id + 7),
            cs: Kind::make(id + 8),
            p: Kind::make(id + 9),
            c: Kind::make(id + 10),
        }
    }
}
impl<T: UniquePtrTarget> Target for UniquePtr<T> {
    type T = T;
    fn target(&self) -> &T {
        self.as_ref().unwrap()
    }
}
impl<T> Target for Box<T> {
    type T = T;
    fn target(&self) -> &T {
        self
    }
}

/// What Rust functions return as their error.
pub enum RErr {
    Text(u64),
    Cxx(Exception),
    PanicInDisplay(u64),
    FailInDisplay(u64),
}
impl Display for RErr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            RErr::Text(id) => {
                let q = unsafe { sim_quiet() };
                let m = String::from_utf8_lossy(&message(*id)).into_owned();
                unsafe { sim_resume(q) };
                // in pieces, as real implementations do
                let mut cut = m.len() / 2;
                while !m.is_char_boundary(cut) {
                    cut += 1;
                }
                f.write_str(&m[..cut])?;
                f.write_str(&m[cut..])
            }
            RErr::Cxx(e) => Display::fmt(e, f),
            RErr::PanicInDisplay(tag) => {
                f.write_str("x")?;
                h_fatal(*tag, 2);
                panic!("panic in display");
            }
            RErr::FailInDisplay(tag) => {
                f.write_str("y")?;
                h_fatal(*tag, 3);
                Err(fmt::Error)
            }
        }
    }
}
pub fn r_raise(tag: u64) -> Result<(), RErr> {
    Err(RErr::Text(op(tag).msg))
}
pub fn r_raise2(id: u64) -> Result<(), RErr> {
    Err(RErr::Text(id))
}
