// generated by gen_uv.py
use crate::ffi::{Obj, Pod, Txt};
use crate::user::Tok;
use crate::w_uv::{ByValue, VK};
use cxx::{CxxString, CxxVector, SharedPtr, UniquePtr};
use std::pin::Pin;
#[cxx::bridge(namespace = "rt")]
pub mod ub {
    unsafe extern "C++" {
        include!("rtsim/cxx/contfwd.h");
        include!("rtsim/cxx/gen_uv.h");
        type Obj = crate::ffi::Obj;
        type Tok = crate::user::Tok;
        type Txt = crate::ffi::Txt;
        type Pod = crate::ffi::Pod;
        fn uv_digest_u8(v: &CxxVector<u8>) -> u64;
        fn uv_push_u8(v: Pin<&mut CxxVector<u8>>, id: u64);
        fn uv_insert_u8(v: Pin<&mut CxxVector<u8>>, at: usize, id: u64);
        fn uv_erase_u8(v: Pin<&mut CxxVector<u8>>, at: usize);
        fn uv_fill_u8(v: Pin<&mut CxxVector<u8>>, id: u64, n: usize, fail: usize) -> Result<()>;
        fn uv_clear_u8(v: Pin<&mut CxxVector<u8>>);
        fn uv_shrink_u8(v: Pin<&mut CxxVector<u8>>);
        fn uv_swap_u8(v: Pin<&mut CxxVector<u8>>, w: Pin<&mut CxxVector<u8>>);
        fn uv_make_u8(id: u64, n: usize) -> UniquePtr<CxxVector<u8>>;
        fn uv_pass_u8(v: UniquePtr<CxxVector<u8>>) -> UniquePtr<CxxVector<u8>>;
        fn uv_eat_u8(v: UniquePtr<CxxVector<u8>>) -> u64;
        fn uv_edig_u8(e: &u8) -> u64;
        fn uv_eset_u8(e: &mut u8, id: u64);
        fn uv_digest_i32(v: &CxxVector<i32>) -> u64;
        fn uv_push_i32(v: Pin<&mut CxxVector<i32>>, id: u64);
        fn uv_insert_i32(v: Pin<&mut CxxVector<i32>>, at: usize, id: u64);
        fn uv_erase_i32(v: Pin<&mut CxxVector<i32>>, at: usize);
        fn uv_fill_i32(v: Pin<&mut CxxVector<i32>>, id: u64, n: usize, fail: usize) -> Result<()>;
        fn uv_clear_i32(v: Pin<&mut CxxVector<i32>>);
        fn uv_shrink_i32(v: Pin<&mut CxxVector<i32>>);
        fn uv_swap_i32(v: Pin<&mut CxxVector<i32>>, w: Pin<&mut CxxVector<i32>>);
        fn uv_make_i32(id: u64, n: usize) -> UniquePtr<CxxVector<i32>>;
        fn uv_pass_i32(v: UniquePtr<CxxVector<i32>>) -> UniquePtr<CxxVector<i32>>;
        fn uv_eat_i32(v: UniquePtr<CxxVector<i32>>) -> u64;
        fn uv_edig_i32(e: &i32) -> u64;
        fn uv_eset_i32(e: &mut i32, id: u64);
        fn uv_digest_f64(v: &CxxVector<f64>) -> u64;
        fn uv_push_f64(v: Pin<&mut CxxVector<f64>>, id: u64);
        fn uv_insert_f64(v: Pin<&mut CxxVector<f64>>, at: usize, id: u64);
        fn uv_erase_f64(v: Pin<&mut CxxVector<f64>>, at: usize);
        fn uv_fill_f64(v: Pin<&mut CxxVector<f64>>, id: u64, n: usize, fail: usize) -> Result<()>;
        fn uv_clear_f64(v: Pin<&mut CxxVector<f64>>);
        fn uv_shrink_f64(v: Pin<&mut CxxVector<f64>>);
        fn uv_swap_f64(v: Pin<&mut CxxVector<f64>>, w: Pin<&mut CxxVector<f64>>);
        fn uv_make_f64(id: u64, n: usize) -> UniquePtr<CxxVector<f64>>;
        fn uv_pass_f64(v: UniquePtr<CxxVector<f64>>) -> UniquePtr<CxxVector<f64>>;
        fn uv_eat_f64(v: UniquePtr<CxxVector<f64>>) -> u64;
        fn uv_edig_f64(e: &f64) -> u64;
        fn uv_eset_f64(e: &mut f64, id: u64);
        fn uv_digest_usize(v: &CxxVector<usize>) -> u64;
        fn uv_push_usize(v: Pin<&mut CxxVector<usize>>, id: u64);
        fn uv_insert_usize(v: Pin<&mut CxxVector<usize>>, at: usize, id: u64);
        fn uv_erase_usize(v: Pin<&mut CxxVector<usize>>, at: usize);
        fn uv_fill_usize(v: Pin<&mut CxxVector<usize>>, id: u64, n: usize, fail: usize) -> Result<()>;
        fn uv_clear_usize(v: Pin<&mut CxxVector<usize>>);
        fn uv_shrink_usize(v: Pin<&mut CxxVector<usize>>);
        fn uv_swap_usize(v: Pin<&mut CxxVector<usize>>, w: Pin<&mut CxxVector<usize>>);
        fn uv_make_usize(id: u64, n: usize) -> UniquePtr<CxxVector<usize>>;
        fn uv_pass_usize(v: UniquePtr<CxxVector<usize>>) -> UniquePtr<CxxVector<usize>>;
        fn uv_eat_usize(v: UniquePtr<CxxVector<usize>>) -> u64;
        fn uv_edig_usize(e: &usize) -> u64;
        fn uv_eset_usize(e: &mut usize, id: u64);
        fn uv_digest_tok(v: &CxxVector<Tok>) -> u64;
        fn uv_push_tok(v: Pin<&mut CxxVector<Tok>>, id: u64);
        fn uv_insert_tok(v: Pin<&mut CxxVector<Tok>>, at: usize, id: u64);
        fn uv_erase_tok(v: Pin<&mut CxxVector<Tok>>, at: usize);
        fn uv_fill_tok(v: Pin<&mut CxxVector<Tok>>, id: u64, n: usize, fail: usize) -> Result<()>;
        fn uv_clear_tok(v: Pin<&mut CxxVector<Tok>>);
        fn uv_shrink_tok(v: Pin<&mut CxxVector<Tok>>);
        fn uv_swap_tok(v: Pin<&mut CxxVector<Tok>>, w: Pin<&mut CxxVector<Tok>>);
        fn uv_make_tok(id: u64, n: usize) -> UniquePtr<CxxVector<Tok>>;
        fn uv_pass_tok(v: UniquePtr<CxxVector<Tok>>) -> UniquePtr<CxxVector<Tok>>;
        fn uv_eat_tok(v: UniquePtr<CxxVector<Tok>>) -> u64;
        fn uv_edig_tok(e: &Tok) -> u64;
        fn uv_eset_tok(e: &mut Tok, id: u64);
        fn uv_digest_txt(v: &CxxVector<Txt>) -> u64;
        fn uv_push_txt(v: Pin<&mut CxxVector<Txt>>, id: u64);
        fn uv_insert_txt(v: Pin<&mut CxxVector<Txt>>, at: usize, id: u64);
        fn uv_erase_txt(v: Pin<&mut CxxVector<Txt>>, at: usize);
        fn uv_fill_txt(v: Pin<&mut CxxVector<Txt>>, id: u64, n: usize, fail: usize) -> Result<()>;
        fn uv_clear_txt(v: Pin<&mut CxxVector<Txt>>);
        fn uv_shrink_txt(v: Pin<&mut CxxVector<Txt>>);
        fn uv_swap_txt(v: Pin<&mut CxxVector<Txt>>, w: Pin<&mut CxxVector<Txt>>);
        fn uv_make_txt(id: u64, n: usize) -> UniquePtr<CxxVector<Txt>>;
        fn uv_pass_txt(v: UniquePtr<CxxVector<Txt>>) -> UniquePtr<CxxVector<Txt>>;
        fn uv_eat_txt(v: UniquePtr<CxxVector<Txt>>) -> u64;
        fn uv_edig_txt(e: &Txt) -> u64;
        fn uv_eset_txt(e: &mut Txt, id: u64);
        fn uv_digest_pod(v: &CxxVector<Pod>) -> u64;
        fn uv_push_pod(v: Pin<&mut CxxVector<Pod>>, id: u64);
        fn uv_insert_pod(v: Pin<&mut CxxVector<Pod>>, at: usize, id: u64);
        fn uv_erase_pod(v: Pin<&mut CxxVector<Pod>>, at: usize);
        fn uv_fill_pod(v: Pin<&mut CxxVector<Pod>>, id: u64, n: usize, fail: usize) -> Result<()>;
        fn uv_clear_pod(v: Pin<&mut CxxVector<Pod>>);
        fn uv_shrink_pod(v: Pin<&mut CxxVector<Pod>>);
        fn uv_swap_pod(v: Pin<&mut CxxVector<Pod>>, w: Pin<&mut CxxVector<Pod>>);
        fn uv_make_pod(id: u64, n: usize) -> UniquePtr<CxxVector<Pod>>;
        fn uv_pass_pod(v: UniquePtr<CxxVector<Pod>>) -> UniquePtr<CxxVector<Pod>>;
        fn uv_eat_pod(v: UniquePtr<CxxVector<Pod>>) -> u64;
        fn uv_edig_pod(e: &Pod) -> u64;
        fn uv_eset_pod(e: &mut Pod, id: u64);
        fn uv_digest_cstr(v: &CxxVector<CxxString>) -> u64;
        fn uv_push_cstr(v: Pin<&mut CxxVector<CxxString>>, id: u64);
        fn uv_insert_cstr(v: Pin<&mut CxxVector<CxxString>>, at: usize, id: u64);
        fn uv_erase_cstr(v: Pin<&mut CxxVector<CxxString>>, at: usize);
        fn uv_fill_cstr(v: Pin<&mut CxxVector<CxxString>>, id: u64, n: usize, fail: usize) -> Result<()>;
        fn uv_clear_cstr(v: Pin<&mut CxxVector<CxxString>>);
        fn uv_shrink_cstr(v: Pin<&mut CxxVector<CxxString>>);
        fn uv_swap_cstr(v: Pin<&mut CxxVector<CxxString>>, w: Pin<&mut CxxVector<CxxString>>);
        fn uv_make_cstr(id: u64, n: usize) -> UniquePtr<CxxVector<CxxString>>;
        fn uv_pass_cstr(v: UniquePtr<CxxVector<CxxString>>) -> UniquePtr<CxxVector<CxxString>>;
        fn uv_eat_cstr(v: UniquePtr<CxxVector<CxxString>>) -> u64;
        fn uv_edig_cstr(e: &CxxString) -> u64;
        fn uv_eset_cstr(e: Pin<&mut CxxString>, id: u64);
        fn uv_digest_obj(v: &CxxVector<Obj>) -> u64;
        fn uv_push_obj(v: Pin<&mut CxxVector<Obj>>, id: u64);
        fn uv_insert_obj(v: Pin<&mut CxxVector<Obj>>, at: usize, id: u64);
        fn uv_erase_obj(v: Pin<&mut CxxVector<Obj>>, at: usize);
        fn uv_fill_obj(v: Pin<&mut CxxVector<Obj>>, id: u64, n: usize, fail: usize) -> Result<()>;
        fn uv_clear_obj(v: Pin<&mut CxxVector<Obj>>);
        fn uv_shrink_obj(v: Pin<&mut CxxVector<Obj>>);
        fn uv_swap_obj(v: Pin<&mut CxxVector<Obj>>, w: Pin<&mut CxxVector<Obj>>);
        fn uv_make_obj(id: u64, n: usize) -> UniquePtr<CxxVector<Obj>>;
        fn uv_pass_obj(v: UniquePtr<CxxVector<Obj>>) -> UniquePtr<CxxVector<Obj>>;
        fn uv_eat_obj(v: UniquePtr<CxxVector<Obj>>) -> u64;
        fn uv_edig_obj(e: &Obj) -> u64;
        fn uv_eset_obj(e: Pin<&mut Obj>, id: u64);
        fn uv_digest_i8(v: &CxxVector<i8>) -> u64;
        fn uv_push_i8(v: Pin<&mut CxxVector<i8>>, id: u64);
        fn uv_insert_i8(v: Pin<&mut CxxVector<i8>>, at: usize, id: u64);
        fn uv_erase_i8(v: Pin<&mut CxxVector<i8>>, at: usize);
        fn uv_fill_i8(v: Pin<&mut CxxVector<i8>>, id: u64, n: usize, fail: usize) -> Result<()>;
        fn uv_clear_i8(v: Pin<&mut CxxVector<i8>>);
        fn uv_shrink_i8(v: Pin<&mut CxxVector<i8>>);
        fn uv_swap_i8(v: Pin<&mut CxxVector<i8>>, w: Pin<&mut CxxVector<i8>>);
        fn uv_make_i8(id: u64, n: usize) -> UniquePtr<CxxVector<i8>>;
        fn uv_pass_i8(v: UniquePtr<CxxVector<i8>>) -> UniquePtr<CxxVector<i8>>;
        fn uv_eat_i8(v: UniquePtr<CxxVector<i8>>) -> u64;
        fn uv_edig_i8(e: &i8) -> u64;
        fn uv_eset_i8(e: &mut i8, id: u64);
        fn uv_digest_u16(v: &CxxVector<u16>) -> u64;
        fn uv_push_u16(v: Pin<&mut CxxVector<u16>>, id: u64);
        fn uv_insert_u16(v: Pin<&mut CxxVector<u16>>, at: usize, id: u64);
        fn uv_erase_u16(v: Pin<&mut CxxVector<u16>>, at: usize);
        fn uv_fill_u16(v: Pin<&mut CxxVector<u16>>, id: u64, n: usize, fail: usize) -> Result<()>;
        fn uv_clear_u16(v: Pin<&mut CxxVector<u16>>);
        fn uv_shrink_u16(v: Pin<&mut CxxVector<u16>>);
        fn uv_swap_u16(v: Pin<&mut CxxVector<u16>>, w: Pin<&mut CxxVector<u16>>);
        fn uv_make_u16(id: u64, n: usize) -> UniquePtr<CxxVector<u16>>;
        fn uv_pass_u16(v: UniquePtr<CxxVector<u16>>) -> UniquePtr<CxxVector<u16>>;
        fn uv_eat_u16(v: UniquePtr<CxxVector<u16>>) -> u64;
        fn uv_edig_u16(e: &u16) -> u64;
        fn uv_eset_u16(e: &mut u16, id: u64);
        fn uv_digest_i16(v: &CxxVector<i16>) -> u64;
        fn uv_push_i16(v: Pin<&mut CxxVector<i16>>, id: u64);
        fn uv_insert_i16(v: Pin<&mut CxxVector<i16>>, at: usize, id: u64);
        fn uv_erase_i16(v: Pin<&mut CxxVector<i16>>, at: usize);
        fn uv_fill_i16(v: Pin<&mut CxxVector<i16>>, id: u64, n: usize, fail: usize) -> Result<()>;
        fn uv_clear_i16(v: Pin<&mut CxxVector<i16>>);
        fn uv_shrink_i16(v: Pin<&mut CxxVector<i16>>);
        fn uv_swap_i16(v: Pin<&mut CxxVector<i16>>, w: Pin<&mut CxxVector<i16>>);
        fn uv_make_i16(id: u64, n: usize) -> UniquePtr<CxxVector<i16>>;
        fn uv_pass_i16(v: UniquePtr<CxxVector<i16>>) -> UniquePtr<CxxVector<i16>>;
        fn uv_eat_i16(v: UniquePtr<CxxVector<i16>>) -> u64;
        fn uv_edig_i16(e: &i16) -> u64;
        fn uv_eset_i16(e: &mut i16, id: u64);
        fn uv_digest_u32(v: &CxxVector<u32>) -> u64;
        fn uv_push_u32(v: Pin<&mut CxxVector<u32>>, id: u64);
        fn uv_insert_u32(v: Pin<&mut CxxVector<u32>>, at: usize, id: u64);
        fn uv_erase_u32(v: Pin<&mut CxxVector<u32>>, at: usize);
        fn uv_fill_u32(v: Pin<&mut CxxVector<u32>>, id: u64, n: usize, fail: usize) -> Result<()>;
        fn uv_clear_u32(v: Pin<&mut CxxVector<u32>>);
        fn uv_shrink_u32(v: Pin<&mut CxxVector<u32>>);
        fn uv_swap_u32(v: Pin<&mut CxxVector<u32>>, w: Pin<&mut CxxVector<u32>>);
        fn uv_make_u32(id: u64, n: usize) -> UniquePtr<CxxVector<u32>>;
        fn uv_pass_u32(v: UniquePtr<CxxVector<u32>>) -> UniquePtr<CxxVector<u32>>;
        fn uv_eat_u32(v: UniquePtr<CxxVector<u32>>) -> u64;
        fn uv_edig_u32(e: &u32) -> u64;
        fn uv_eset_u32(e: &mut u32, id: u64);
        fn uv_digest_u64(v: &CxxVector<u64>) -> u64;
        fn uv_push_u64(v: Pin<&mut CxxVector<u64>>, id: u64);
        fn uv_insert_u64(v: Pin<&mut CxxVector<u64>>, at: usize, id: u64);
        fn uv_erase_u64(v: Pin<&mut CxxVector<u64>>, at: usize);
        fn uv_fill_u64(v: Pin<&mut CxxVector<u64>>, id: u64, n: usize, fail: usize) -> Result<()>;
        fn uv_clear_u64(v: Pin<&mut CxxVector<u64>>);
        fn uv_shrink_u64(v: Pin<&mut CxxVector<u64>>);
        fn uv_swap_u64(v: Pin<&mut CxxVector<u64>>, w: Pin<&mut CxxVector<u64>>);
        fn uv_make_u64(id: u64, n: usize) -> UniquePtr<CxxVector<u64>>;
        fn uv_pass_u64(v: UniquePtr<CxxVector<u64>>) -> UniquePtr<CxxVector<u64>>;
        fn uv_eat_u64(v: UniquePtr<CxxVector<u64>>) -> u64;
        fn uv_edig_u64(e: &u64) -> u64;
        fn uv_eset_u64(e: &mut u64, id: u64);
        fn uv_digest_i64(v: &CxxVector<i64>) -> u64;
        fn uv_push_i64(v: Pin<&mut CxxVector<i64>>, id: u64);
        fn uv_insert_i64(v: Pin<&mut CxxVector<i64>>, at: usize, id: u64);
        fn uv_erase_i64(v: Pin<&mut CxxVector<i64>>, at: usize);
        fn uv_fill_i64(v: Pin<&mut CxxVector<i64>>, id: u64, n: usize, fail: usize) -> Result<()>;
        fn uv_clear_i64(v: Pin<&mut CxxVector<i64>>);
        fn uv_shrink_i64(v: Pin<&mut CxxVector<i64>>);
        fn uv_swap_i64(v: Pin<&mut CxxVector<i64>>, w: Pin<&mut CxxVector<i64>>);
        fn uv_make_i64(id: u64, n: usize) -> UniquePtr<CxxVector<i64>>;
        fn uv_pass_i64(v: UniquePtr<CxxVector<i64>>) -> UniquePtr<CxxVector<i64>>;
        fn uv_eat_i64(v: UniquePtr<CxxVector<i64>>) -> u64;
        fn uv_edig_i64(e: &i64) -> u64;
        fn uv_eset_i64(e: &mut i64, id: u64);
        fn uv_digest_f32(v: &CxxVector<f32>) -> u64;
        fn uv_push_f32(v: Pin<&mut CxxVector<f32>>, id: u64);
        fn uv_insert_f32(v: Pin<&mut CxxVector<f32>>, at: usize, id: u64);
        fn uv_erase_f32(v: Pin<&mut CxxVector<f32>>, at: usize);
        fn uv_fill_f32(v: Pin<&mut CxxVector<f32>>, id: u64, n: usize, fail: usize) -> Result<()>;
        fn uv_clear_f32(v: Pin<&mut CxxVector<f32>>);
        fn uv_shrink_f32(v: Pin<&mut CxxVector<f32>>);
        fn uv_swap_f32(v: Pin<&mut CxxVector<f32>>, w: Pin<&mut CxxVector<f32>>);
        fn uv_make_f32(id: u64, n: usize) -> UniquePtr<CxxVector<f32>>;
        fn uv_pass_f32(v: UniquePtr<CxxVector<f32>>) -> UniquePtr<CxxVector<f32>>;
        fn uv_eat_f32(v: UniquePtr<CxxVector<f32>>) -> u64;
        fn uv_edig_f32(e: &f32) -> u64;
        fn uv_eset_f32(e: &mut f32, id: u64);
        fn uv_digest_isize(v: &CxxVector<isize>) -> u64;
        fn uv_push_isize(v: Pin<&mut CxxVector<isize>>, id: u64);
        fn uv_insert_isize(v: Pin<&mut CxxVector<isize>>, at: usize, id: u64);
        fn uv_erase_isize(v: Pin<&mut CxxVector<isize>>, at: usize);
        fn uv_fill_isize(v: Pin<&mut CxxVector<isize>>, id: u64, n: usize, fail: usize) -> Result<()>;
        fn uv_clear_isize(v: Pin<&mut CxxVector<isize>>);
        fn uv_shrink_isize(v: Pin<&mut CxxVector<isize>>);
        fn uv_swap_isize(v: Pin<&mut CxxVector<isize>>, w: Pin<&mut CxxVector<isize>>);
        fn uv_make_isize(id: u64, n: usize) -> UniquePtr<CxxVector<isize>>;
        fn uv_pass_isize(v: UniquePtr<CxxVector<isize>>) -> UniquePtr<CxxVector<isize>>;
        fn uv_eat_isize(v: UniquePtr<CxxVector<isize>>) -> u64;
        fn uv_edig_isize(e: &isize) -> u64;
        fn uv_eset_isize(e: &mut isize, id: u64);
        fn us_digest(s: &CxxString) -> u64;
        fn us_append(s: Pin<&mut CxxString>, id: u64);
        fn us_resize(s: Pin<&mut CxxString>, n: usize);
        fn us_erase(s: Pin<&mut CxxString>, at: usize, n: usize);
        fn us_swap(s: Pin<&mut CxxString>, t: Pin<&mut CxxString>);
        fn us_pass(s: UniquePtr<CxxString>) -> UniquePtr<CxxString>;
        fn us_shared(s: &CxxString) -> SharedPtr<CxxString>;
        fn us_eat(s: UniquePtr<CxxString>) -> u64;
        fn us_capacity(s: &CxxString) -> usize;
        fn us_fail(s: Pin<&mut CxxString>, id: u64) -> Result<()>;
    }
    impl CxxVector<Tok> {}
}
impl VK for u8 {
    const NAME: &'static str = "u8";
    fn digest(v: &CxxVector<Self>) -> u64 { ub::uv_digest_u8(v) }
    fn cpush(v: Pin<&mut CxxVector<Self>>, id: u64) { ub::uv_push_u8(v, id) }
    fn insert(v: Pin<&mut CxxVector<Self>>, at: usize, id: u64) { ub::uv_insert_u8(v, at, id) }
    fn erase(v: Pin<&mut CxxVector<Self>>, at: usize) { ub::uv_erase_u8(v, at) }
    fn fill(v: Pin<&mut CxxVector<Self>>, id: u64, n: usize, fail: usize) -> Result<(), cxx::Exception> { ub::uv_fill_u8(v, id, n, fail) }
    fn clear(v: Pin<&mut CxxVector<Self>>) { ub::uv_clear_u8(v) }
    fn shrink(v: Pin<&mut CxxVector<Self>>) { ub::uv_shrink_u8(v) }
    fn swap(v: Pin<&mut CxxVector<Self>>, w: Pin<&mut CxxVector<Self>>) { ub::uv_swap_u8(v, w) }
    fn make(id: u64, n: usize) -> UniquePtr<CxxVector<Self>> { ub::uv_make_u8(id, n) }
    fn pass(v: UniquePtr<CxxVector<Self>>) -> UniquePtr<CxxVector<Self>> { ub::uv_pass_u8(v) }
    fn eat(v: UniquePtr<CxxVector<Self>>) -> u64 { ub::uv_eat_u8(v) }
    fn edig(&self) -> u64 { ub::uv_edig_u8(self) }
    fn eset(e: Pin<&mut Self>, id: u64) { ub::uv_eset_u8(Pin::into_inner(e), id) }
    fn by_value() -> Option<ByValue<Self>> { Some(ByValue::<Self>::of()) }
}
impl VK for i32 {
    const NAME: &'static str = "i32";
    fn digest(v: &CxxVector<Self>) -> u64 { ub::uv_digest_i32(v) }
    fn cpush(v: Pin<&mut CxxVector<Self>>, id: u64) { ub::uv_push_i32(v, id) }
    fn insert(v: Pin<&mut CxxVector<Self>>, at: usize, id: u64) { ub::uv_insert_i32(v, at, id) }
    fn erase(v: Pin<&mut CxxVector<Self>>, at: usize) { ub::uv_erase_i32(v, at) }
    fn fill(v: Pin<&mut CxxVector<Self>>, id: u64, n: usize, fail: usize) -> Result<(), cxx::Exception> { ub::uv_fill_i32(v, id, n, fail) }
    fn clear(v: Pin<&mut CxxVector<Self>>) { ub::uv_clear_i32(v) }
    fn shrink(v: Pin<&mut CxxVector<Self>>) { ub::uv_shrink_i32(v) }
    fn swap(v: Pin<&mut CxxVector<Self>>, w: Pin<&mut CxxVector<Self>>) { ub::uv_swap_i32(v, w) }
    fn make(id: u64, n: usize) -> UniquePtr<CxxVector<Self>> { ub::uv_make_i32(id, n) }
    fn pass(v: UniquePtr<CxxVector<Self>>) -> UniquePtr<CxxVector<Self>> { ub::uv_pass_i32(v) }
    fn eat(v: UniquePtr<CxxVector<Self>>) -> u64 { ub::uv_eat_i32(v) }
    fn edig(&self) -> u64 { ub::uv_edig_i32(self) }
    fn eset(e: Pin<&mut Self>, id: u64) { ub::uv_eset_i32(Pin::into_inner(e), id) }
    fn by_value() -> Option<ByValue<Self>> { Some(ByValue::<Self>::of()) }
}
impl VK for f64 {
    const NAME: &'static str = "f64";
    fn digest(v: &CxxVector<Self>) -> u64 { ub::uv_digest_f64(v) }
    fn cpush(v: Pin<&mut CxxVector<Self>>, id: u64) { ub::uv_push_f64(v, id) }
    fn insert(v: Pin<&mut CxxVector<Self>>, at: usize, id: u64) { ub::uv_insert_f64(v, at, id) }
    fn erase(v: Pin<&mut CxxVector<Self>>, at: usize) { ub::uv_erase_f64(v, at) }
    fn fill(v: Pin<&mut CxxVector<Self>>, id: u64, n: usize, fail: usize) -> Result<(), cxx::Exception> { ub::uv_fill_f64(v, id, n, fail) }
    fn clear(v: Pin<&mut CxxVector<Self>>) { ub::uv_clear_f64(v) }
    fn shrink(v: Pin<&mut CxxVector<Self>>) { ub::uv_shrink_f64(v) }
    fn swap(v: Pin<&mut CxxVector<Self>>, w: Pin<&mut CxxVector<Self>>) { ub::uv_swap_f64(v, w) }
    fn make(id: u64, n: usize) -> UniquePtr<CxxVector<Self>> { ub::uv_make_f64(id, n) }
    fn pass(v: UniquePtr<CxxVector<Self>>) -> UniquePtr<CxxVector<Self>> { ub::uv_pass_f64(v) }
    fn eat(v: UniquePtr<CxxVector<Self>>) -> u64 { ub::uv_eat_f64(v) }
    fn edig(&self) -> u64 { ub::uv_edig_f64(self) }
    fn eset(e: Pin<&mut Self>, id: u64) { ub::uv_eset_f64(Pin::into_inner(e), id) }
    fn by_value() -> Option<ByValue<Self>> { Some(ByValue::<Self>::of()) }
}
impl VK for usize {
    const NAME: &'static str = "usize";
    fn digest(v: &CxxVector<Self>) -> u64 { ub::uv_digest_usize(v) }
    fn cpush(v: Pin<&mut CxxVector<Self>>, id: u64) { ub::uv_push_usize(v, id) }
    fn insert(v: Pin<&mut CxxVector<Self>>, at: usize, id: u64) { ub::uv_insert_usize(v, at, id) }
    fn erase(v: Pin<&mut CxxVector<Self>>, at: usize) { ub::uv_erase_usize(v, at) }
    fn fill(v: Pin<&mut CxxVector<Self>>, id: u64, n: usize, fail: usize) -> Result<(), cxx::Exception> { ub::uv_fill_usize(v, id, n, fail) }
    fn clear(v: Pin<&mut CxxVector<Self>>) { ub::uv_clear_usize(v) }
    fn shrink(v: Pin<&mut CxxVector<Self>>) { ub::uv_shrink_usize(v) }
    fn swap(v: Pin<&mut CxxVector<Self>>, w: Pin<&mut CxxVector<Self>>) { ub::uv_swap_usize(v, w) }
    fn make(id: u64, n: usize) -> UniquePtr<CxxVector<Self>> { ub::uv_make_usize(id, n) }
    fn pass(v: UniquePtr<CxxVector<Self>>) -> UniquePtr<CxxVector<Self>> { ub::uv_pass_usize(v) }
    fn eat(v: UniquePtr<CxxVector<Self>>) -> u64 { ub::uv_eat_usize(v) }
    fn edig(&self) -> u64 { ub::uv_edig_usize(self) }
    fn eset(e: Pin<&mut Self>, id: u64) { ub::uv_eset_usize(Pin::into_inner(e), id) }
    fn by_value() -> Option<ByValue<Self>> { Some(ByValue::<Self>::of()) }
}
impl VK for Tok {
    const NAME: &'static str = "tok";
    fn digest(v: &CxxVector<Self>) -> u64 { ub::uv_digest_tok(v) }
    fn cpush(v: Pin<&mut CxxVector<Self>>, id: u64) { ub::uv_push_tok(v, id) }
    fn insert(v: Pin<&mut CxxVector<Self>>, at: usize, id: u64) { ub::uv_insert_tok(v, at, id) }
    fn erase(v: Pin<&mut CxxVector<Self>>, at: usize) { ub::uv_erase_tok(v, at) }
    fn fill(v: Pin<&mut CxxVector<Self>>, id: u64, n: usize, fail: usize) -> Result<(), cxx::Exception> { ub::uv_fill_tok(v, id, n, fail) }
    fn clear(v: Pin<&mut CxxVector<Self>>) { ub::uv_clear_tok(v) }
    fn shrink(v: Pin<&mut CxxVector<Self>>) { ub::uv_shrink_tok(v) }
    fn swap(v: Pin<&mut CxxVector<Self>>, w: Pin<&mut CxxVector<Self>>) { ub::uv_swap_tok(v, w) }
    fn make(id: u64, n: usize) -> UniquePtr<CxxVector<Self>> { ub::uv_make_tok(id, n) }
    fn pass(v: UniquePtr<CxxVector<Self>>) -> UniquePtr<CxxVector<Self>> { ub::uv_pass_tok(v) }
    fn eat(v: UniquePtr<CxxVector<Self>>) -> u64 { ub::uv_eat_tok(v) }
    fn edig(&self) -> u64 { ub::uv_edig_tok(self) }
    fn eset(e: Pin<&mut Self>, id: u64) { ub::uv_eset_tok(Pin::into_inner(e), id) }
    fn by_value() -> Option<ByValue<Self>> { Some(ByValue::<Self>::of()) }
}
impl VK for Txt {
    const NAME: &'static str = "txt";
    fn digest(v: &CxxVector<Self>) -> u64 { ub::uv_digest_txt(v) }
    fn cpush(v: Pin<&mut CxxVector<Self>>, id: u64) { ub::uv_push_txt(v, id) }
    fn insert(v: Pin<&mut CxxVector<Self>>, at: usize, id: u64) { ub::uv_insert_txt(v, at, id) }
    fn erase(v: Pin<&mut CxxVector<Self>>, at: usize) { ub::uv_erase_txt(v, at) }
    fn fill(v: Pin<&mut CxxVector<Self>>, id: u64, n: usize, fail: usize) -> Result<(), cxx::Exception> { ub::uv_fill_txt(v, id, n, fail) }
    fn clear(v: Pin<&mut CxxVector<Self>>) { ub::uv_clear_txt(v) }
    fn shrink(v: Pin<&mut CxxVector<Self>>) { ub::uv_shrink_txt(v) }
    fn swap(v: Pin<&mut CxxVector<Self>>, w: Pin<&mut CxxVector<Self>>) { ub::uv_swap_txt(v, w) }
    fn make(id: u64, n: usize) -> UniquePtr<CxxVector<Self>> { ub::uv_make_txt(id, n) }
    fn pass(v: UniquePtr<CxxVector<Self>>) -> UniquePtr<CxxVector<Self>> { ub::uv_pass_txt(v) }
    fn eat(v: UniquePtr<CxxVector<Self>>) -> u64 { ub::uv_eat_txt(v) }
    fn edig(&self) -> u64 { ub::uv_edig_txt(self) }
    fn eset(e: Pin<&mut Self>, id: u64) { ub::uv_eset_txt(Pin::into_inner(e), id) }
    fn by_value() -> Option<ByValue<Self>> { Some(ByValue::<Self>::of()) }
}
impl VK for Pod {
    const NAME: &'static str = "pod";
    fn digest(v: &CxxVector<Self>) -> u64 { ub::uv_digest_pod(v) }
    fn cpush(v: Pin<&mut CxxVector<Self>>, id: u64) { ub::uv_push_pod(v, id) }
    fn insert(v: Pin<&mut CxxVector<Self>>, at: usize, id: u64) { ub::uv_insert_pod(v, at, id) }
    fn erase(v: Pin<&mut CxxVector<Self>>, at: usize) { ub::uv_erase_pod(v, at) }
    fn fill(v: Pin<&mut CxxVector<Self>>, id: u64, n: usize, fail: usize) -> Result<(), cxx::Exception> { ub::uv_fill_pod(v, id, n, fail) }
    fn clear(v: Pin<&mut CxxVector<Self>>) { ub::uv_clear_pod(v) }
    fn shrink(v: Pin<&mut CxxVector<Self>>) { ub::uv_shrink_pod(v) }
    fn swap(v: Pin<&mut CxxVector<Self>>, w: Pin<&mut CxxVector<Self>>) { ub::uv_swap_pod(v, w) }
    fn make(id: u64, n: usize) -> UniquePtr<CxxVector<Self>> { ub::uv_make_pod(id, n) }
    fn pass(v: UniquePtr<CxxVector<Self>>) -> UniquePtr<CxxVector<Self>> { ub::uv_pass_pod(v) }
    fn eat(v: UniquePtr<CxxVector<Self>>) -> u64 { ub::uv_eat_pod(v) }
    fn edig(&self) -> u64 { ub::uv_edig_pod(self) }
    fn eset(e: Pin<&mut Self>, id: u64) { ub::uv_eset_pod(Pin::into_inner(e), id) }
    fn by_value() -> Option<ByValue<Self>> { Some(ByValue::<Self>::of()) }
}
impl VK for CxxString {
    const NAME: &'static str = "cstr";
    fn digest(v: &CxxVector<Self>) -> u64 { ub::uv_digest_cstr(v) }
    fn cpush(v: Pin<&mut CxxVector<Self>>, id: u64) { ub::uv_push_cstr(v, id) }
    fn insert(v: Pin<&mut CxxVector<Self>>, at: usize, id: u64) { ub::uv_insert_cstr(v, at, id) }
    fn erase(v: Pin<&mut CxxVector<Self>>, at: usize) { ub::uv_erase_cstr(v, at) }
    fn fill(v: Pin<&mut CxxVector<Self>>, id: u64, n: usize, fail: usize) -> Result<(), cxx::Exception> { ub::uv_fill_cstr(v, id, n, fail) }
    fn clear(v: Pin<&mut CxxVector<Self>>) { ub::uv_clear_cstr(v) }
    fn shrink(v: Pin<&mut CxxVector<Self>>) { ub::uv_shrink_cstr(v) }
    fn swap(v: Pin<&mut CxxVector<Self>>, w: Pin<&mut CxxVector<Self>>) { ub::uv_swap_cstr(v, w) }
    fn make(id: u64, n: usize) -> UniquePtr<CxxVector<Self>> { ub::uv_make_cstr(id, n) }
    fn pass(v: UniquePtr<CxxVector<Self>>) -> UniquePtr<CxxVector<Self>> { ub::uv_pass_cstr(v) }
    fn eat(v: UniquePtr<CxxVector<Self>>) -> u64 { ub::uv_eat_cstr(v) }
    fn edig(&self) -> u64 { ub::uv_edig_cstr(self) }
    fn eset(e: Pin<&mut Self>, id: u64) { ub::uv_eset_cstr(e, id) }
    fn by_value() -> Option<ByValue<Self>> { None }
}
impl VK for Obj {
    const NAME: &'static str = "obj";
    fn digest(v: &CxxVector<Self>) -> u64 { ub::uv_digest_obj(v) }
    fn cpush(v: Pin<&mut CxxVector<Self>>, id: u64) { ub::uv_push_obj(v, id) }
    fn insert(v: Pin<&mut CxxVector<Self>>, at: usize, id: u64) { ub::uv_insert_obj(v, at, id) }
    fn erase(v: Pin<&mut CxxVector<Self>>, at: usize) { ub::uv_erase_obj(v, at) }
    fn fill(v: Pin<&mut CxxVector<Self>>, id: u64, n: usize, fail: usize) -> Result<(), cxx::Exception> { ub::uv_fill_obj(v, id, n, fail) }
    fn clear(v: Pin<&mut CxxVector<Self>>) { ub::uv_clear_obj(v) }
    fn shrink(v: Pin<&mut CxxVector<Self>>) { ub::uv_shrink_obj(v) }
    fn swap(v: Pin<&mut CxxVector<Self>>, w: Pin<&mut CxxVector<Self>>) { ub::uv_swap_obj(v, w) }
    fn make(id: u64, n: usize) -> UniquePtr<CxxVector<Self>> { ub::uv_make_obj(id, n) }
    fn pass(v: UniquePtr<CxxVector<Self>>) -> UniquePtr<CxxVector<Self>> { ub::uv_pass_obj(v) }
    fn eat(v: UniquePtr<CxxVector<Self>>) -> u64 { ub::uv_eat_obj(v) }
    fn edig(&self) -> u64 { ub::uv_edig_obj(self) }
    fn eset(e: Pin<&mut Self>, id: u64) { ub::uv_eset_obj(e, id) }
    fn by_value() -> Option<ByValue<Self>> { None }
}
impl VK for i8 {
    const NAME: &'static str = "i8";
    fn digest(v: &CxxVector<Self>) -> u64 { ub::uv_digest_i8(v) }
    fn cpush(v: Pin<&mut CxxVector<Self>>, id: u64) { ub::uv_push_i8(v, id) }
    fn insert(v: Pin<&mut CxxVector<Self>>, at: usize, id: u64) { ub::uv_insert_i8(v, at, id) }
    fn erase(v: Pin<&mut CxxVector<Self>>, at: usize) { ub::uv_erase_i8(v, at) }
    fn fill(v: Pin<&mut CxxVector<Self>>, id: u64, n: usize, fail: usize) -> Result<(), cxx::Exception> { ub::uv_fill_i8(v, id, n, fail) }
    fn clear(v: Pin<&mut CxxVector<Self>>) { ub::uv_clear_i8(v) }
    fn shrink(v: Pin<&mut CxxVector<Self>>) { ub::uv_shrink_i8(v) }
    fn swap(v: Pin<&mut CxxVector<Self>>, w: Pin<&mut CxxVector<Self>>) { ub::uv_swap_i8(v, w) }
    fn make(id: u64, n: usize) -> UniquePtr<CxxVector<Self>> { ub::uv_make_i8(id, n) }
    fn pass(v: UniquePtr<CxxVector<Self>>) -> UniquePtr<CxxVector<Self>> { ub::uv_pass_i8(v) }
    fn eat(v: UniquePtr<CxxVector<Self>>) -> u64 { ub::uv_eat_i8(v) }
    fn edig(&self) -> u64 { ub::uv_edig_i8(self) }
    fn eset(e: Pin<&mut Self>, id: u64) { ub::uv_eset_i8(Pin::into_inner(e), id) }
    fn by_value() -> Option<ByValue<Self>> { Some(ByValue::<Self>::of()) }
}
impl VK for u16 {
    const NAME: &'static str = "u16";
    fn digest(v: &CxxVector<Self>) -> u64 { ub::uv_digest_u16(v) }
    fn cpush(v: Pin<&mut CxxVector<Self>>, id: u64) { ub::uv_push_u16(v, id) }
    fn insert(v: Pin<&mut CxxVector<Self>>, at: usize, id: u64) { ub::uv_insert_u16(v, at, id) }
    fn erase(v: Pin<&mut CxxVector<Self>>, at: usize) { ub::uv_erase_u16(v, at) }
    fn fill(v: Pin<&mut CxxVector<Self>>, id: u64, n: usize, fail: usize) -> Result<(), cxx::Exception> { ub::uv_fill_u16(v, id, n, fail) }
    fn clear(v: Pin<&mut CxxVector<Self>>) { ub::uv_clear_u16(v) }
    fn shrink(v: Pin<&mut CxxVector<Self>>) { ub::uv_shrink_u16(v) }
    fn swap(v: Pin<&mut CxxVector<Self>>, w: Pin<&mut CxxVector<Self>>) { ub::uv_swap_u16(v, w) }
    fn make(id: u64, n: usize) -> UniquePtr<CxxVector<Self>> { ub::uv_make_u16(id, n) }
    fn pass(v: UniquePtr<CxxVector<Self>>) -> UniquePtr<CxxVector<Self>> { ub::uv_pass_u16(v) }
    fn eat(v: UniquePtr<CxxVector<Self>>) -> u64 { ub::uv_eat_u16(v) }
    fn edig(&self) -> u64 { ub::uv_edig_u16(self) }
    fn eset(e: Pin<&mut Self>, id: u64) { ub::uv_eset_u16(Pin::into_inner(e), id) }
    fn by_value() -> Option<ByValue<Self>> { Some(ByValue::<Self>::of()) }
}
impl VK for i16 {
    const NAME: &'static str = "i16";
    fn digest(v: &CxxVector<Self>) -> u64 { ub::uv_digest_i16(v) }
    fn cpush(v: Pin<&mut CxxVector<Self>>, id: u64) { ub::uv_push_i16(v, id) }
    fn insert(v: Pin<&mut CxxVector<Self>>, at: usize, id: u64) { ub::uv_insert_i16(v, at, id) }
    fn erase(v: Pin<&mut CxxVector<Self>>, at: usize) { ub::uv_erase_i16(v, at) }
    fn fill(v: Pin<&mut CxxVector<Self>>, id: u64, n: usize, fail: usize) -> Result<(), cxx::Exception> { ub::uv_fill_i16(v, id, n, fail) }
    fn clear(v: Pin<&mut CxxVector<Self>>) { ub::uv_clear_i16(v) }
    fn shrink(v: Pin<&mut CxxVector<Self>>) { ub::uv_shrink_i16(v) }
    fn swap(v: Pin<&mut CxxVector<Self>>, w: Pin<&mut CxxVector<Self>>) { ub::uv_swap_i16(v, w) }
    fn make(id: u64, n: usize) -> UniquePtr<CxxVector<Self>> { ub::uv_make_i16(id, n) }
    fn pass(v: UniquePtr<CxxVector<Self>>) -> UniquePtr<CxxVector<Self>> { ub::uv_pass_i16(v) }
    fn eat(v: UniquePtr<CxxVector<Self>>) -> u64 { ub::uv_eat_i16(v) }
    fn edig(&self) -> u64 { ub::uv_edig_i16(self) }
    fn eset(e: Pin<&mut Self>, id: u64) { ub::uv_eset_i16(Pin::into_inner(e), id) }
    fn by_value() -> Option<ByValue<Self>> { Some(ByValue::<Self>::of()) }
}
impl VK for u32 {
    const NAME: &'static str = "u32";
    fn digest(v: &CxxVector<Self>) -> u64 { ub::uv_digest_u32(v) }
    fn cpush(v: Pin<&mut CxxVector<Self>>, id: u64) { ub::uv_push_u32(v, id) }
    fn insert(v: Pin<&mut CxxVector<Self>>, at: usize, id: u64) { ub::uv_insert_u32(v, at, id) }
    fn erase(v: Pin<&mut CxxVector<Self>>, at: usize) { ub::uv_erase_u32(v, at) }
    fn fill(v: Pin<&mut CxxVector<Self>>, id: u64, n: usize, fail: usize) -> Result<(), cxx::Exception> { ub::uv_fill_u32(v, id, n, fail) }
    fn clear(v: Pin<&mut CxxVector<Self>>) { ub::uv_clear_u32(v) }
    fn shrink(v: Pin<&mut CxxVector<Self>>) { ub::uv_shrink_u32(v) }
    fn swap(v: Pin<&mut CxxVector<Self>>, w: Pin<&mut CxxVector<Self>>) { ub::uv_swap_u32(v, w) }
    fn make(id: u64, n: usize) -> UniquePtr<CxxVector<Self>> { ub::uv_make_u32(id, n) }
    fn pass(v: UniquePtr<CxxVector<Self>>) -> UniquePtr<CxxVector<Self>> { ub::uv_pass_u32(v) }
    fn eat(v: UniquePtr<CxxVector<Self>>) -> u64 { ub::uv_eat_u32(v) }
    fn edig(&self) -> u64 { ub::uv_edig_u32(self) }
    fn eset(e: Pin<&mut Self>, id: u64) { ub::uv_eset_u32(Pin::into_inner(e), id) }
    fn by_value() -> Option<ByValue<Self>> { Some(ByValue::<Self>::of()) }
}
impl VK for u64 {
    const NAME: &'static str = "u64";
    fn digest(v: &CxxVector<Self>) -> u64 { ub::uv_digest_u64(v) }
    fn cpush(v: Pin<&mut CxxVector<Self>>, id: u64) { ub::uv_push_u64(v, id) }
    fn insert(v: Pin<&mut CxxVector<Self>>, at: usize, id: u64) { ub::uv_insert_u64(v, at, id) }
    fn erase(v: Pin<&mut CxxVector<Self>>, at: usize) { ub::uv_erase_u64(v, at) }
    fn fill(v: Pin<&mut CxxVector<Self>>, id: u64, n: usize, fail: usize) -> Result<(), cxx::Exception> { ub::uv_fill_u64(v, id, n, fail) }
    fn clear(v: Pin<&mut CxxVector<Self>>) { ub::uv_clear_u64(v) }
    fn shrink(v: Pin<&mut CxxVector<Self>>) { ub::uv_shrink_u64(v) }
    fn swap(v: Pin<&mut CxxVector<Self>>, w: Pin<&mut CxxVector<Self>>) { ub::uv_swap_u64(v, w) }
    fn make(id: u64, n: usize) -> UniquePtr<CxxVector<Self>> { ub::uv_make_u64(id, n) }
    fn pass(v: UniquePtr<CxxVector<Self>>) -> UniquePtr<CxxVector<Self>> { ub::uv_pass_u64(v) }
    fn eat(v: UniquePtr<CxxVector<Self>>) -> u64 { ub::uv_eat_u64(v) }
    fn edig(&self) -> u64 { ub::uv_edig_u64(self) }
    fn eset(e: Pin<&mut Self>, id: u64) { ub::uv_eset_u64(Pin::into_inner(e), id) }
    fn by_value() -> Option<ByValue<Self>> { Some(ByValue::<Self>::of()) }
}
impl VK for i64 {
    const NAME: &'static str = "i64";
    fn digest(v: &CxxVector<Self>) -> u64 { ub::uv_digest_i64(v) }
    fn cpush(v: Pin<&mut CxxVector<Self>>, id: u64) { ub::uv_push_i64(v, id) }
    fn insert(v: Pin<&mut CxxVector<Self>>, at: usize, id: u64) { ub::uv_insert_i64(v, at, id) }
    fn erase(v: Pin<&mut CxxVector<Self>>, at: usize) { ub::uv_erase_i64(v, at) }
    fn fill(v: Pin<&mut CxxVector<Self>>, id: u64, n: usize, fail: usize) -> Result<(), cxx::Exception> { ub::uv_fill_i64(v, id, n, fail) }
    fn clear(v: Pin<&mut CxxVector<Self>>) { ub::uv_clear_i64(v) }
    fn shrink(v: Pin<&mut CxxVector<Self>>) { ub::uv_shrink_i64(v) }
    fn swap(v: Pin<&mut CxxVector<Self>>, w: Pin<&mut CxxVector<Self>>) { ub::uv_swap_i64(v, w) }
    fn make(id: u64, n: usize) -> UniquePtr<CxxVector<Self>> { ub::uv_make_i64(id, n) }
    fn pass(v: UniquePtr<CxxVector<Self>>) -> UniquePtr<CxxVector<Self>> { ub::uv_pass_i64(v) }
    fn eat(v: UniquePtr<CxxVector<Self>>) -> u64 { ub::uv_eat_i64(v) }
    fn edig(&self) -> u64 { ub::uv_edig_i64(self) }
    fn eset(e: Pin<&mut Self>, id: u64) { ub::uv_eset_i64(Pin::into_inner(e), id) }
    fn by_value() -> Option<ByValue<Self>> { Some(ByValue::<Self>::of()) }
}
impl VK for f32 {
    const NAME: &'static str = "f32";
    fn digest(v: &CxxVector<Self>) -> u64 { ub::uv_digest_f32(v) }
    fn cpush(v: Pin<&mut CxxVector<Self>>, id: u64) { ub::uv_push_f32(v, id) }
    fn insert(v: Pin<&mut CxxVector<Self>>, at: usize, id: u64) { ub::uv_insert_f32(v, at, id) }
    fn erase(v: Pin<&mut CxxVector<Self>>, at: usize) { ub::uv_erase_f32(v, at) }
    fn fill(v: Pin<&mut CxxVector<Self>>, id: u64, n: usize, fail: usize) -> Result<(), cxx::Exception> { ub::uv_fill_f32(v, id, n, fail) }
    fn clear(v: Pin<&mut CxxVector<Self>>) { ub::uv_clear_f32(v) }
    fn shrink(v: Pin<&mut CxxVector<Self>>) { ub::uv_shrink_f32(v) }
    fn swap(v: Pin<&mut CxxVector<Self>>, w: Pin<&mut CxxVector<Self>>) { ub::uv_swap_f32(v, w) }
    fn make(id: u64, n: usize) -> UniquePtr<CxxVector<Self>> { ub::uv_make_f32(id, n) }
    fn pass(v: UniquePtr<CxxVector<Self>>) -> UniquePtr<CxxVector<Self>> { ub::uv_pass_f32(v) }
    fn eat(v: UniquePtr<CxxVector<Self>>) -> u64 { ub::uv_eat_f32(v) }
    fn edig(&self) -> u64 { ub::uv_edig_f32(self) }
    fn eset(e: Pin<&mut Self>, id: u64) { ub::uv_eset_f32(Pin::into_inner(e), id) }
    fn by_value() -> Option<ByValue<Self>> { Some(ByValue::<Self>::of()) }
}
impl VK for isize {
    const NAME: &'static str = "isize";
    fn digest(v: &CxxVector<Self>) -> u64 { ub::uv_digest_isize(v) }
    fn cpush(v: Pin<&mut CxxVector<Self>>, id: u64) { ub::uv_push_isize(v, id) }
    fn insert(v: Pin<&mut CxxVector<Self>>, at: usize, id: u64) { ub::uv_insert_isize(v, at, id) }
    fn erase(v: Pin<&mut CxxVector<Self>>, at: usize) { ub::uv_erase_isize(v, at) }
    fn fill(v: Pin<&mut CxxVector<Self>>, id: u64, n: usize, fail: usize) -> Result<(), cxx::Exception> { ub::uv_fill_isize(v, id, n, fail) }
    fn clear(v: Pin<&mut CxxVector<Self>>) { ub::uv_clear_isize(v) }
    fn shrink(v: Pin<&mut CxxVector<Self>>) { ub::uv_shrink_isize(v) }
    fn swap(v: Pin<&mut CxxVector<Self>>, w: Pin<&mut CxxVector<Self>>) { ub::uv_swap_isize(v, w) }
    fn make(id: u64, n: usize) -> UniquePtr<CxxVector<Self>> { ub::uv_make_isize(id, n) }
    fn pass(v: UniquePtr<CxxVector<Self>>) -> UniquePtr<CxxVector<Self>> { ub::uv_pass_isize(v) }
    fn eat(v: UniquePtr<CxxVector<Self>>) -> u64 { ub::uv_eat_isize(v) }
    fn edig(&self) -> u64 { ub::uv_edig_isize(self) }
    fn eset(e: Pin<&mut Self>, id: u64) { ub::uv_eset_isize(Pin::into_inner(e), id) }
    fn by_value() -> Option<ByValue<Self>> { Some(ByValue::<Self>::of()) }
}
