// generated by gen_cont.py
use crate::user::Tok;
use crate::user::Kind;
use crate::w_cont::*;
use cb::*;
use std::ffi::c_char;
#[cxx::bridge(namespace = "rt")]
pub mod cb {
    struct Rec2 { t: Tok, s: String, u: Tok, n: u32 }
    #[derive(Copy, Clone)]
    struct Pod2 { a: u64, b: u8 }
    unsafe extern "C++" {
        include!("rtsim/cxx/contfwd.h");
        type Tok = crate::user::Tok;
        type Txt = crate::ffi::Txt;
        type Pod = crate::ffi::Pod;
    }
    extern "Rust" {
        type OItem;
        fn odig(self: &OItem) -> u64;
        fn v_digest_u8(v: &Vec<u8>) -> u64;
        fn v_pass_u8(v: Vec<u8>) -> Vec<u8>;
        fn v_take_u8(v: Vec<u8>) -> u64;
        fn v_push_u8(v: &mut Vec<u8>, id: u64);
        fn v_remove_u8(v: &mut Vec<u8>, at: usize);
        fn v_make_u8(id: u64, n: usize) -> Vec<u8>;
        fn s_digest_u8(v: &[u8]) -> u64;
        fn s_rev_u8(v: &mut [u8]);
        fn v_slice_u8(v: &Vec<u8>, a: usize, b: usize) -> &[u8];
        fn v_mslice_u8(v: &mut Vec<u8>, a: usize, b: usize) -> &mut [u8];
        fn v_digest_tok(v: &Vec<Tok>) -> u64;
        fn v_pass_tok(v: Vec<Tok>) -> Vec<Tok>;
        fn v_take_tok(v: Vec<Tok>) -> u64;
        fn v_push_tok(v: &mut Vec<Tok>, id: u64);
        fn v_remove_tok(v: &mut Vec<Tok>, at: usize);
        fn v_make_tok(id: u64, n: usize) -> Vec<Tok>;
        fn s_digest_tok(v: &[Tok]) -> u64;
        fn s_rev_tok(v: &mut [Tok]);
        fn v_slice_tok(v: &Vec<Tok>, a: usize, b: usize) -> &[Tok];
        fn v_mslice_tok(v: &mut Vec<Tok>, a: usize, b: usize) -> &mut [Tok];
        fn v_digest_string(v: &Vec<String>) -> u64;
        fn v_pass_string(v: Vec<String>) -> Vec<String>;
        fn v_take_string(v: Vec<String>) -> u64;
        fn v_push_string(v: &mut Vec<String>, id: u64);
        fn v_remove_string(v: &mut Vec<String>, at: usize);
        fn v_make_string(id: u64, n: usize) -> Vec<String>;
        fn s_digest_string(v: &[String]) -> u64;
        fn s_rev_string(v: &mut [String]);
        fn v_slice_string(v: &Vec<String>, a: usize, b: usize) -> &[String];
        fn v_mslice_string(v: &mut Vec<String>, a: usize, b: usize) -> &mut [String];
        fn v_digest_rec2(v: &Vec<Rec2>) -> u64;
        fn v_pass_rec2(v: Vec<Rec2>) -> Vec<Rec2>;
        fn v_take_rec2(v: Vec<Rec2>) -> u64;
        fn v_push_rec2(v: &mut Vec<Rec2>, id: u64);
        fn v_remove_rec2(v: &mut Vec<Rec2>, at: usize);
        fn v_make_rec2(id: u64, n: usize) -> Vec<Rec2>;
        fn s_digest_rec2(v: &[Rec2]) -> u64;
        fn s_rev_rec2(v: &mut [Rec2]);
        fn v_slice_rec2(v: &Vec<Rec2>, a: usize, b: usize) -> &[Rec2];
        fn v_mslice_rec2(v: &mut Vec<Rec2>, a: usize, b: usize) -> &mut [Rec2];
        fn v_digest_txt(v: &Vec<Txt>) -> u64;
        fn v_pass_txt(v: Vec<Txt>) -> Vec<Txt>;
        fn v_take_txt(v: Vec<Txt>) -> u64;
        fn v_push_txt(v: &mut Vec<Txt>, id: u64);
        fn v_remove_txt(v: &mut Vec<Txt>, at: usize);
        fn v_make_txt(id: u64, n: usize) -> Vec<Txt>;
        fn s_digest_txt(v: &[Txt]) -> u64;
        fn s_rev_txt(v: &mut [Txt]);
        fn v_slice_txt(v: &Vec<Txt>, a: usize, b: usize) -> &[Txt];
        fn v_mslice_txt(v: &mut Vec<Txt>, a: usize, b: usize) -> &mut [Txt];
        fn v_digest_f64(v: &Vec<f64>) -> u64;
        fn v_pass_f64(v: Vec<f64>) -> Vec<f64>;
        fn v_take_f64(v: Vec<f64>) -> u64;
        fn v_push_f64(v: &mut Vec<f64>, id: u64);
        fn v_remove_f64(v: &mut Vec<f64>, at: usize);
        fn v_make_f64(id: u64, n: usize) -> Vec<f64>;
        fn s_digest_f64(v: &[f64]) -> u64;
        fn s_rev_f64(v: &mut [f64]);
        fn v_slice_f64(v: &Vec<f64>, a: usize, b: usize) -> &[f64];
        fn v_mslice_f64(v: &mut Vec<f64>, a: usize, b: usize) -> &mut [f64];
        fn v_digest_bool(v: &Vec<bool>) -> u64;
        fn v_pass_bool(v: Vec<bool>) -> Vec<bool>;
        fn v_take_bool(v: Vec<bool>) -> u64;
        fn v_push_bool(v: &mut Vec<bool>, id: u64);
        fn v_remove_bool(v: &mut Vec<bool>, at: usize);
        fn v_make_bool(id: u64, n: usize) -> Vec<bool>;
        fn s_digest_bool(v: &[bool]) -> u64;
        fn s_rev_bool(v: &mut [bool]);
        fn v_slice_bool(v: &Vec<bool>, a: usize, b: usize) -> &[bool];
        fn v_mslice_bool(v: &mut Vec<bool>, a: usize, b: usize) -> &mut [bool];
        fn v_digest_pod(v: &Vec<Pod>) -> u64;
        fn v_pass_pod(v: Vec<Pod>) -> Vec<Pod>;
        fn v_take_pod(v: Vec<Pod>) -> u64;
        fn v_push_pod(v: &mut Vec<Pod>, id: u64);
        fn v_remove_pod(v: &mut Vec<Pod>, at: usize);
        fn v_make_pod(id: u64, n: usize) -> Vec<Pod>;
        fn s_digest_pod(v: &[Pod]) -> u64;
        fn s_rev_pod(v: &mut [Pod]);
        fn v_slice_pod(v: &Vec<Pod>, a: usize, b: usize) -> &[Pod];
        fn v_mslice_pod(v: &mut Vec<Pod>, a: usize, b: usize) -> &mut [Pod];
        fn v_digest_oitem(v: &Vec<OItem>) -> u64;
        fn v_pass_oitem(v: Vec<OItem>) -> Vec<OItem>;
        fn v_take_oitem(v: Vec<OItem>) -> u64;
        fn v_push_oitem(v: &mut Vec<OItem>, id: u64);
        fn v_remove_oitem(v: &mut Vec<OItem>, at: usize);
        fn v_make_oitem(id: u64, n: usize) -> Vec<OItem>;
        fn s_digest_oitem(v: &[OItem]) -> u64;
        fn s_rev_oitem(v: &mut [OItem]);
        fn v_slice_oitem(v: &Vec<OItem>, a: usize, b: usize) -> &[OItem];
        fn v_mslice_oitem(v: &mut Vec<OItem>, a: usize, b: usize) -> &mut [OItem];
        fn v_digest_i8(v: &Vec<i8>) -> u64;
        fn v_pass_i8(v: Vec<i8>) -> Vec<i8>;
        fn v_take_i8(v: Vec<i8>) -> u64;
        fn v_push_i8(v: &mut Vec<i8>, id: u64);
        fn v_remove_i8(v: &mut Vec<i8>, at: usize);
        fn v_make_i8(id: u64, n: usize) -> Vec<i8>;
        fn s_digest_i8(v: &[i8]) -> u64;
        fn s_rev_i8(v: &mut [i8]);
        fn v_slice_i8(v: &Vec<i8>, a: usize, b: usize) -> &[i8];
        fn v_mslice_i8(v: &mut Vec<i8>, a: usize, b: usize) -> &mut [i8];
        fn v_digest_u16(v: &Vec<u16>) -> u64;
        fn v_pass_u16(v: Vec<u16>) -> Vec<u16>;
        fn v_take_u16(v: Vec<u16>) -> u64;
        fn v_push_u16(v: &mut Vec<u16>, id: u64);
        fn v_remove_u16(v: &mut Vec<u16>, at: usize);
        fn v_make_u16(id: u64, n: usize) -> Vec<u16>;
        fn s_digest_u16(v: &[u16]) -> u64;
        fn s_rev_u16(v: &mut [u16]);
        fn v_slice_u16(v: &Vec<u16>, a: usize, b: usize) -> &[u16];
        fn v_mslice_u16(v: &mut Vec<u16>, a: usize, b: usize) -> &mut [u16];
        fn v_digest_i16(v: &Vec<i16>) -> u64;
        fn v_pass_i16(v: Vec<i16>) -> Vec<i16>;
        fn v_take_i16(v: Vec<i16>) -> u64;
        fn v_push_i16(v: &mut Vec<i16>, id: u64);
        fn v_remove_i16(v: &mut Vec<i16>, at: usize);
        fn v_make_i16(id: u64, n: usize) -> Vec<i16>;
        fn s_digest_i16(v: &[i16]) -> u64;
        fn s_rev_i16(v: &mut [i16]);
        fn v_slice_i16(v: &Vec<i16>, a: usize, b: usize) -> &[i16];
        fn v_mslice_i16(v: &mut Vec<i16>, a: usize, b: usize) -> &mut [i16];
        fn v_digest_u32(v: &Vec<u32>) -> u64;
        fn v_pass_u32(v: Vec<u32>) -> Vec<u32>;
        fn v_take_u32(v: Vec<u32>) -> u64;
        fn v_push_u32(v: &mut Vec<u32>, id: u64);
        fn v_remove_u32(v: &mut Vec<u32>, at: usize);
        fn v_make_u32(id: u64, n: usize) -> Vec<u32>;
        fn s_digest_u32(v: &[u32]) -> u64;
        fn s_rev_u32(v: &mut [u32]);
        fn v_slice_u32(v: &Vec<u32>, a: usize, b: usize) -> &[u32];
        fn v_mslice_u32(v: &mut Vec<u32>, a: usize, b: usize) -> &mut [u32];
        fn v_digest_i32(v: &Vec<i32>) -> u64;
        fn v_pass_i32(v: Vec<i32>) -> Vec<i32>;
        fn v_take_i32(v: Vec<i32>) -> u64;
        fn v_push_i32(v: &mut Vec<i32>, id: u64);
        fn v_remove_i32(v: &mut Vec<i32>, at: usize);
        fn v_make_i32(id: u64, n: usize) -> Vec<i32>;
        fn s_digest_i32(v: &[i32]) -> u64;
        fn s_rev_i32(v: &mut [i32]);
        fn v_slice_i32(v: &Vec<i32>, a: usize, b: usize) -> &[i32];
        fn v_mslice_i32(v: &mut Vec<i32>, a: usize, b: usize) -> &mut [i32];
        fn v_digest_u64(v: &Vec<u64>) -> u64;
        fn v_pass_u64(v: Vec<u64>) -> Vec<u64>;
        fn v_take_u64(v: Vec<u64>) -> u64;
        fn v_push_u64(v: &mut Vec<u64>, id: u64);
        fn v_remove_u64(v: &mut Vec<u64>, at: usize);
        fn v_make_u64(id: u64, n: usize) -> Vec<u64>;
        fn s_digest_u64(v: &[u64]) -> u64;
        fn s_rev_u64(v: &mut [u64]);
        fn v_slice_u64(v: &Vec<u64>, a: usize, b: usize) -> &[u64];
        fn v_mslice_u64(v: &mut Vec<u64>, a: usize, b: usize) -> &mut [u64];
        fn v_digest_i64(v: &Vec<i64>) -> u64;
        fn v_pass_i64(v: Vec<i64>) -> Vec<i64>;
        fn v_take_i64(v: Vec<i64>) -> u64;
        fn v_push_i64(v: &mut Vec<i64>, id: u64);
        fn v_remove_i64(v: &mut Vec<i64>, at: usize);
        fn v_make_i64(id: u64, n: usize) -> Vec<i64>;
        fn s_digest_i64(v: &[i64]) -> u64;
        fn s_rev_i64(v: &mut [i64]);
        fn v_slice_i64(v: &Vec<i64>, a: usize, b: usize) -> &[i64];
        fn v_mslice_i64(v: &mut Vec<i64>, a: usize, b: usize) -> &mut [i64];
        fn v_digest_f32(v: &Vec<f32>) -> u64;
        fn v_pass_f32(v: Vec<f32>) -> Vec<f32>;
        fn v_take_f32(v: Vec<f32>) -> u64;
        fn v_push_f32(v: &mut Vec<f32>, id: u64);
        fn v_remove_f32(v: &mut Vec<f32>, at: usize);
        fn v_make_f32(id: u64, n: usize) -> Vec<f32>;
        fn s_digest_f32(v: &[f32]) -> u64;
        fn s_rev_f32(v: &mut [f32]);
        fn v_slice_f32(v: &Vec<f32>, a: usize, b: usize) -> &[f32];
        fn v_mslice_f32(v: &mut Vec<f32>, a: usize, b: usize) -> &mut [f32];
        fn v_digest_char(v: &Vec<c_char>) -> u64;
        fn v_pass_char(v: Vec<c_char>) -> Vec<c_char>;
        fn v_take_char(v: Vec<c_char>) -> u64;
        fn v_push_char(v: &mut Vec<c_char>, id: u64);
        fn v_remove_char(v: &mut Vec<c_char>, at: usize);
        fn v_make_char(id: u64, n: usize) -> Vec<c_char>;
        fn s_digest_char(v: &[c_char]) -> u64;
        fn s_rev_char(v: &mut [c_char]);
        fn v_slice_char(v: &Vec<c_char>, a: usize, b: usize) -> &[c_char];
        fn v_mslice_char(v: &mut Vec<c_char>, a: usize, b: usize) -> &mut [c_char];
        fn b_pass_rec2(b: Box<Rec2>) -> Box<Rec2>;
        fn b_drop_rec2(b: Box<Rec2>);
        fn b_digest_rec2(b: &Rec2) -> u64;
        fn b_make_rec2(id: u64) -> Box<Rec2>;
        fn b_pass_pod2(b: Box<Pod2>) -> Box<Pod2>;
        fn b_drop_pod2(b: Box<Pod2>);
        fn b_digest_pod2(b: &Pod2) -> u64;
        fn b_make_pod2(id: u64) -> Box<Pod2>;
        fn b_pass_oitem(b: Box<OItem>) -> Box<OItem>;
        fn b_drop_oitem(b: Box<OItem>);
        fn b_digest_oitem(b: &OItem) -> u64;
        fn b_make_oitem(id: u64) -> Box<OItem>;
    }
    impl Vec<Rec2> {}
    impl Box<Rec2> {}
    impl Box<Pod2> {}
}
fn v_digest_u8(v: &Vec<u8>) -> u64 { digest(v) }
fn v_pass_u8(v: Vec<u8>) -> Vec<u8> { v }
fn v_take_u8(v: Vec<u8>) -> u64 { digest(&v) }
fn v_push_u8(v: &mut Vec<u8>, id: u64) { v.push(<u8 as Kind>::make(id)) }
fn v_remove_u8(v: &mut Vec<u8>, at: usize) { drop(v.remove(at)) }
fn v_make_u8(id: u64, n: usize) -> Vec<u8> { (0..n).map(|i| <u8 as Kind>::make(id + i as u64)).collect() }
fn s_digest_u8(v: &[u8]) -> u64 { digest(v) }
fn s_rev_u8(v: &mut [u8]) { v.reverse() }
fn v_slice_u8(v: &Vec<u8>, a: usize, b: usize) -> &[u8] { &v[a..b] }
fn v_mslice_u8(v: &mut Vec<u8>, a: usize, b: usize) -> &mut [u8] { &mut v[a..b] }
fn v_digest_tok(v: &Vec<Tok>) -> u64 { digest(v) }
fn v_pass_tok(v: Vec<Tok>) -> Vec<Tok> { v }
fn v_take_tok(v: Vec<Tok>) -> u64 { digest(&v) }
fn v_push_tok(v: &mut Vec<Tok>, id: u64) { v.push(<Tok as Kind>::make(id)) }
fn v_remove_tok(v: &mut Vec<Tok>, at: usize) { drop(v.remove(at)) }
fn v_make_tok(id: u64, n: usize) -> Vec<Tok> { (0..n).map(|i| <Tok as Kind>::make(id + i as u64)).collect() }
fn s_digest_tok(v: &[Tok]) -> u64 { digest(v) }
fn s_rev_tok(v: &mut [Tok]) { v.reverse() }
fn v_slice_tok(v: &Vec<Tok>, a: usize, b: usize) -> &[Tok] { &v[a..b] }
fn v_mslice_tok(v: &mut Vec<Tok>, a: usize, b: usize) -> &mut [Tok] { &mut v[a..b] }
fn v_digest_string(v: &Vec<String>) -> u64 { digest(v) }
fn v_pass_string(v: Vec<String>) -> Vec<String> { v }
fn v_take_string(v: Vec<String>) -> u64 { digest(&v) }
fn v_push_string(v: &mut Vec<String>, id: u64) { v.push(<String as Kind>::make(id)) }
fn v_remove_string(v: &mut Vec<String>, at: usize) { drop(v.remove(at)) }
fn v_make_string(id: u64, n: usize) -> Vec<String> { (0..n).map(|i| <String as Kind>::make(id + i as u64)).collect() }
fn s_digest_string(v: &[String]) -> u64 { digest(v) }
fn s_rev_string(v: &mut [String]) { v.reverse() }
fn v_slice_string(v: &Vec<String>, a: usize, b: usize) -> &[String] { &v[a..b] }
fn v_mslice_string(v: &mut Vec<String>, a: usize, b: usize) -> &mut [String] { &mut v[a..b] }
fn v_digest_rec2(v: &Vec<Rec2>) -> u64 { digest(v) }
fn v_pass_rec2(v: Vec<Rec2>) -> Vec<Rec2> { v }
fn v_take_rec2(v: Vec<Rec2>) -> u64 { digest(&v) }
fn v_push_rec2(v: &mut Vec<Rec2>, id: u64) { v.push(<Rec2 as Kind>::make(id)) }
fn v_remove_rec2(v: &mut Vec<Rec2>, at: usize) { drop(v.remove(at)) }
fn v_make_rec2(id: u64, n: usize) -> Vec<Rec2> { (0..n).map(|i| <Rec2 as Kind>::make(id + i as u64)).collect() }
fn s_digest_rec2(v: &[Rec2]) -> u64 { digest(v) }
fn s_rev_rec2(v: &mut [Rec2]) { v.reverse() }
fn v_slice_rec2(v: &Vec<Rec2>, a: usize, b: usize) -> &[Rec2] { &v[a..b] }
fn v_mslice_rec2(v: &mut Vec<Rec2>, a: usize, b: usize) -> &mut [Rec2] { &mut v[a..b] }
fn v_digest_txt(v: &Vec<Txt>) -> u64 { digest(v) }
fn v_pass_txt(v: Vec<Txt>) -> Vec<Txt> { v }
fn v_take_txt(v: Vec<Txt>) -> u64 { digest(&v) }
fn v_push_txt(v: &mut Vec<Txt>, id: u64) { v.push(<Txt as Kind>::make(id)) }
fn v_remove_txt(v: &mut Vec<Txt>, at: usize) { drop(v.remove(at)) }
fn v_make_txt(id: u64, n: usize) -> Vec<Txt> { (0..n).map(|i| <Txt as Kind>::make(id + i as u64)).collect() }
fn s_digest_txt(v: &[Txt]) -> u64 { digest(v) }
fn s_rev_txt(v: &mut [Txt]) { v.reverse() }
fn v_slice_txt(v: &Vec<Txt>, a: usize, b: usize) -> &[Txt] { &v[a..b] }
fn v_mslice_txt(v: &mut Vec<Txt>, a: usize, b: usize) -> &mut [Txt] { &mut v[a..b] }
fn v_digest_f64(v: &Vec<f64>) -> u64 { digest(v) }
fn v_pass_f64(v: Vec<f64>) -> Vec<f64> { v }
fn v_take_f64(v: Vec<f64>) -> u64 { digest(&v) }
fn v_push_f64(v: &mut Vec<f64>, id: u64) { v.push(<f64 as Kind>::make(id)) }
fn v_remove_f64(v: &mut Vec<f64>, at: usize) { drop(v.remove(at)) }
fn v_make_f64(id: u64, n: usize) -> Vec<f64> { (0..n).map(|i| <f64 as Kind>::make(id + i as u64)).collect() }
fn s_digest_f64(v: &[f64]) -> u64 { digest(v) }
fn s_rev_f64(v: &mut [f64]) { v.reverse() }
fn v_slice_f64(v: &Vec<f64>, a: usize, b: usize) -> &[f64] { &v[a..b] }
fn v_mslice_f64(v: &mut Vec<f64>, a: usize, b: usize) -> &mut [f64] { &mut v[a..b] }
fn v_digest_bool(v: &Vec<bool>) -> u64 { digest(v) }
fn v_pass_bool(v: Vec<bool>) -> Vec<bool> { v }
fn v_take_bool(v: Vec<bool>) -> u64 { digest(&v) }
fn v_push_bool(v: &mut Vec<bool>, id: u64) { v.push(<bool as Kind>::make(id)) }
fn v_remove_bool(v: &mut Vec<bool>, at: usize) { drop(v.remove(at)) }
fn v_make_bool(id: u64, n: usize) -> Vec<bool> { (0..n).map(|i| <bool as Kind>::make(id + i as u64)).collect() }
fn s_digest_bool(v: &[bool]) -> u64 { digest(v) }
fn s_rev_bool(v: &mut [bool]) { v.reverse() }
fn v_slice_bool(v: &Vec<bool>, a: usize, b: usize) -> &[bool] { &v[a..b] }
fn v_mslice_bool(v: &mut Vec<bool>, a: usize, b: usize) -> &mut [bool] { &mut v[a..b] }
fn v_digest_pod(v: &Vec<Pod>) -> u64 { digest(v) }
fn v_pass_pod(v: Vec<Pod>) -> Vec<Pod> { v }
fn v_take_pod(v: Vec<Pod>) -> u64 { digest(&v) }
fn v_push_pod(v: &mut Vec<Pod>, id: u64) { v.push(<Pod as Kind>::make(id)) }
fn v_remove_pod(v: &mut Vec<Pod>, at: usize) { drop(v.remove(at)) }
fn v_make_pod(id: u64, n: usize) -> Vec<Pod> { (0..n).map(|i| <Pod as Kind>::make(id + i as u64)).collect() }
fn s_digest_pod(v: &[Pod]) -> u64 { digest(v) }
fn s_rev_pod(v: &mut [Pod]) { v.reverse() }
fn v_slice_pod(v: &Vec<Pod>, a: usize, b: usize) -> &[Pod] { &v[a..b] }
fn v_mslice_pod(v: &mut Vec<Pod>, a: usize, b: usize) -> &mut [Pod] { &mut v[a..b] }
fn v_digest_oitem(v: &Vec<OItem>) -> u64 { digest(v) }
fn v_pass_oitem(v: Vec<OItem>) -> Vec<OItem> { v }
fn v_take_oitem(v: Vec<OItem>) -> u64 { digest(&v) }
fn v_push_oitem(v: &mut Vec<OItem>, id: u64) { v.push(<OItem as Kind>::make(id)) }
fn v_remove_oitem(v: &mut Vec<OItem>, at: usize) { drop(v.remove(at)) }
fn v_make_oitem(id: u64, n: usize) -> Vec<OItem> { (0..n).map(|i| <OItem as Kind>::make(id + i as u64)).collect() }
fn s_digest_oitem(v: &[OItem]) -> u64 { digest(v) }
fn s_rev_oitem(v: &mut [OItem]) { v.reverse() }
fn v_slice_oitem(v: &Vec<OItem>, a: usize, b: usize) -> &[OItem] { &v[a..b] }
fn v_mslice_oitem(v: &mut Vec<OItem>, a: usize, b: usize) -> &mut [OItem] { &mut v[a..b] }
fn v_digest_i8(v: &Vec<i8>) -> u64 { digest(v) }
fn v_pass_i8(v: Vec<i8>) -> Vec<i8> { v }
fn v_take_i8(v: Vec<i8>) -> u64 { digest(&v) }
fn v_push_i8(v: &mut Vec<i8>, id: u64) { v.push(<i8 as Kind>::make(id)) }
fn v_remove_i8(v: &mut Vec<i8>, at: usize) { drop(v.remove(at)) }
fn v_make_i8(id: u64, n: usize) -> Vec<i8> { (0..n).map(|i| <i8 as Kind>::make(id + i as u64)).collect() }
fn s_digest_i8(v: &[i8]) -> u64 { digest(v) }
fn s_rev_i8(v: &mut [i8]) { v.reverse() }
fn v_slice_i8(v: &Vec<i8>, a: usize, b: usize) -> &[i8] { &v[a..b] }
fn v_mslice_i8(v: &mut Vec<i8>, a: usize, b: usize) -> &mut [i8] { &mut v[a..b] }
fn v_digest_u16(v: &Vec<u16>) -> u64 { digest(v) }
fn v_pass_u16(v: Vec<u16>) -> Vec<u16> { v }
fn v_take_u16(v: Vec<u16>) -> u64 { digest(&v) }
fn v_push_u16(v: &mut Vec<u16>, id: u64) { v.push(<u16 as Kind>::make(id)) }
fn v_remove_u16(v: &mut Vec<u16>, at: usize) { drop(v.remove(at)) }
fn v_make_u16(id: u64, n: usize) -> Vec<u16> { (0..n).map(|i| <u16 as Kind>::make(id + i as u64)).collect() }
fn s_digest_u16(v: &[u16]) -> u64 { digest(v) }
fn s_rev_u16(v: &mut [u16]) { v.reverse() }
fn v_slice_u16(v: &Vec<u16>, a: usize, b: usize) -> &[u16] { &v[a..b] }
fn v_mslice_u16(v: &mut Vec<u16>, a: usize, b: usize) -> &mut [u16] { &mut v[a..b] }
fn v_digest_i16(v: &Vec<i16>) -> u64 { digest(v) }
fn v_pass_i16(v: Vec<i16>) -> Vec<i16> { v }
fn v_take_i16(v: Vec<i16>) -> u64 { digest(&v) }
fn v_push_i16(v: &mut Vec<i16>, id: u64) { v.push(<i16 as Kind>::make(id)) }
fn v_remove_i16(v: &mut Vec<i16>, at: usize) { drop(v.remove(at)) }
fn v_make_i16(id: u64, n: usize) -> Vec<i16> { (0..n).map(|i| <i16 as Kind>::make(id + i as u64)).collect() }
fn s_digest_i16(v: &[i16]) -> u64 { digest(v) }
fn s_rev_i16(v: &mut [i16]) { v.reverse() }
fn v_slice_i16(v: &Vec<i16>, a: usize, b: usize) -> &[i16] { &v[a..b] }
fn v_mslice_i16(v: &mut Vec<i16>, a: usize, b: usize) -> &mut [i16] { &mut v[a..b] }
fn v_digest_u32(v: &Vec<u32>) -> u64 { digest(v) }
fn v_pass_u32(v: Vec<u32>) -> Vec<u32> { v }
fn v_take_u32(v: Vec<u32>) -> u64 { digest(&v) }
fn v_push_u32(v: &mut Vec<u32>, id: u64) { v.push(<u32 as Kind>::make(id)) }
fn v_remove_u32(v: &mut Vec<u32>, at: usize) { drop(v.remove(at)) }
fn v_make_u32(id: u64, n: usize) -> Vec<u32> { (0..n).map(|i| <u32 as Kind>::make(id + i as u64)).collect() }
fn s_digest_u32(v: &[u32]) -> u64 { digest(v) }
fn s_rev_u32(v: &mut [u32]) { v.reverse() }
fn v_slice_u32(v: &Vec<u32>, a: usize, b: usize) -> &[u32] { &v[a..b] }
fn v_mslice_u32(v: &mut Vec<u32>, a: usize, b: usize) -> &mut [u32] { &mut v[a..b] }
fn v_digest_i32(v: &Vec<i32>) -> u64 { digest(v) }
fn v_pass_i32(v: Vec<i32>) -> Vec<i32> { v }
fn v_take_i32(v: Vec<i32>) -> u64 { digest(&v) }
fn v_push_i32(v: &mut Vec<i32>, id: u64) { v.push(<i32 as Kind>::make(id)) }
fn v_remove_i32(v: &mut Vec<i32>, at: usize) { drop(v.remove(at)) }
fn v_make_i32(id: u64, n: usize) -> Vec<i32> { (0..n).map(|i| <i32 as Kind>::make(id + i as u64)).collect() }
fn s_digest_i32(v: &[i32]) -> u64 { digest(v) }
fn s_rev_i32(v: &mut [i32]) { v.reverse() }
fn v_slice_i32(v: &Vec<i32>, a: usize, b: usize) -> &[i32] { &v[a..b] }
fn v_mslice_i32(v: &mut Vec<i32>, a: usize, b: usize) -> &mut [i32] { &mut v[a..b] }
fn v_digest_u64(v: &Vec<u64>) -> u64 { digest(v) }
fn v_pass_u64(v: Vec<u64>) -> Vec<u64> { v }
fn v_take_u64(v: Vec<u64>) -> u64 { digest(&v) }
fn v_push_u64(v: &mut Vec<u64>, id: u64) { v.push(<u64 as Kind>::make(id)) }
fn v_remove_u64(v: &mut Vec<u64>, at: usize) { drop(v.remove(at)) }
fn v_make_u64(id: u64, n: usize) -> Vec<u64> { (0..n).map(|i| <u64 as Kind>::make(id + i as u64)).collect() }
fn s_digest_u64(v: &[u64]) -> u64 { digest(v) }
fn s_rev_u64(v: &mut [u64]) { v.reverse() }
fn v_slice_u64(v: &Vec<u64>, a: usize, b: usize) -> &[u64] { &v[a..b] }
fn v_mslice_u64(v: &mut Vec<u64>, a: usize, b: usize) -> &mut [u64] { &mut v[a..b] }
fn v_digest_i64(v: &Vec<i64>) -> u64 { digest(v) }
fn v_pass_i64(v: Vec<i64>) -> Vec<i64> { v }
fn v_take_i64(v: Vec<i64>) -> u64 { digest(&v) }
fn v_push_i64(v: &mut Vec<i64>, id: u64) { v.push(<i64 as Kind>::make(id)) }
fn v_remove_i64(v: &mut Vec<i64>, at: usize) { drop(v.remove(at)) }
fn v_make_i64(id: u64, n: usize) -> Vec<i64> { (0..n).map(|i| <i64 as Kind>::make(id + i as u64)).collect() }
fn s_digest_i64(v: &[i64]) -> u64 { digest(v) }
fn s_rev_i64(v: &mut [i64]) { v.reverse() }
fn v_slice_i64(v: &Vec<i64>, a: usize, b: usize) -> &[i64] { &v[a..b] }
fn v_mslice_i64(v: &mut Vec<i64>, a: usize, b: usize) -> &mut [i64] { &mut v[a..b] }
fn v_digest_f32(v: &Vec<f32>) -> u64 { digest(v) }
fn v_pass_f32(v: Vec<f32>) -> Vec<f32> { v }
fn v_take_f32(v: Vec<f32>) -> u64 { digest(&v) }
fn v_push_f32(v: &mut Vec<f32>, id: u64) { v.push(<f32 as Kind>::make(id)) }
fn v_remove_f32(v: &mut Vec<f32>, at: usize) { drop(v.remove(at)) }
fn v_make_f32(id: u64, n: usize) -> Vec<f32> { (0..n).map(|i| <f32 as Kind>::make(id + i as u64)).collect() }
fn s_digest_f32(v: &[f32]) -> u64 { digest(v) }
fn s_rev_f32(v: &mut [f32]) { v.reverse() }
fn v_slice_f32(v: &Vec<f32>, a: usize, b: usize) -> &[f32] { &v[a..b] }
fn v_mslice_f32(v: &mut Vec<f32>, a: usize, b: usize) -> &mut [f32] { &mut v[a..b] }
fn v_digest_char(v: &Vec<c_char>) -> u64 { digest(v) }
fn v_pass_char(v: Vec<c_char>) -> Vec<c_char> { v }
fn v_take_char(v: Vec<c_char>) -> u64 { digest(&v) }
fn v_push_char(v: &mut Vec<c_char>, id: u64) { v.push(<c_char as Kind>::make(id)) }
fn v_remove_char(v: &mut Vec<c_char>, at: usize) { drop(v.remove(at)) }
fn v_make_char(id: u64, n: usize) -> Vec<c_char> { (0..n).map(|i| <c_char as Kind>::make(id + i as u64)).collect() }
fn s_digest_char(v: &[c_char]) -> u64 { digest(v) }
fn s_rev_char(v: &mut [c_char]) { v.reverse() }
fn v_slice_char(v: &Vec<c_char>, a: usize, b: usize) -> &[c_char] { &v[a..b] }
fn v_mslice_char(v: &mut Vec<c_char>, a: usize, b: usize) -> &mut [c_char] { &mut v[a..b] }
fn b_pass_rec2(b: Box<Rec2>) -> Box<Rec2> { b }
fn b_drop_rec2(b: Box<Rec2>) { drop(b) }
fn b_digest_rec2(b: &Rec2) -> u64 { Digest::digest(b) }
fn b_make_rec2(id: u64) -> Box<Rec2> { Box::new(Kind::make(id)) }
fn b_pass_pod2(b: Box<Pod2>) -> Box<Pod2> { b }
fn b_drop_pod2(b: Box<Pod2>) { drop(b) }
fn b_digest_pod2(b: &Pod2) -> u64 { Digest::digest(b) }
fn b_make_pod2(id: u64) -> Box<Pod2> { Box::new(Kind::make(id)) }
fn b_pass_oitem(b: Box<OItem>) -> Box<OItem> { b }
fn b_drop_oitem(b: Box<OItem>) { drop(b) }
fn b_digest_oitem(b: &OItem) -> u64 { Digest::digest(b) }
fn b_make_oitem(id: u64) -> Box<OItem> { Box::new(Kind::make(id)) }
