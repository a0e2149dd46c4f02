// generated by gen.py

use crate::gen_callees::*;
use crate::user::*;
use crate::user::{RObj, Tok};
#[cxx::bridge(namespace = "rt")]
pub mod ffi {
    #[derive(Copy, Clone, Debug, PartialEq, Default)]
    struct Pod { a: i32, b: u64, c: f64, d: [u16; 3] }
    #[derive(Copy, Clone, Debug, PartialEq, Eq, Hash)]
    #[repr(u8)]
    enum Color { Red, Green = 7, Blue, Last = 255 }
    #[derive(Clone, Debug, PartialEq, Default)]
    struct Txt { s: String, n: u32, v: Vec<u8> }
    struct Rec { s: String, t: Txt, b: Box<RObj>, u: UniquePtr<Obj>, sp: SharedPtr<Obj>, w: WeakPtr<Obj>, tok: Tok, vt: Vec<Txt>, cs: UniquePtr<CxxString>, p: Pod, c: Color }

    #[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
    struct Key { c: Cmp, n: u32 }
    #[derive(Copy, Clone, PartialEq, PartialOrd)]
    struct KeyP { c: CmpP, n: u32 }

    unsafe extern "C++" {
        include!("rtsim/cxx/types.h");
        type Obj;
        type Cmp = crate::user::Cmp;
        type CmpP = crate::user::CmpP;
        type Tok = crate::user::Tok;
        fn obj_id(o: &Obj) -> u64;
        fn obj_new(id: u64) -> UniquePtr<Obj>;
        fn obj_new_shared(id: u64) -> SharedPtr<Obj>;
        fn obj_set(o: Pin<&mut Obj>, id: u64);
        fn hash_of(k: &Key) -> usize;
        fn keeper() -> SharedPtr<Obj>;
        fn c_raise(tag: u64) -> Result<()>;
        fn mk_str(id: u64) -> UniquePtr<CxxString>;
        fn mk_sp_str(id: u64) -> SharedPtr<CxxString>;
        fn mk_vstr(id: u64) -> UniquePtr<CxxVector<CxxString>>;
        fn mk_vobj(id: u64) -> UniquePtr<CxxVector<Obj>>;
        fn set_cvstr(v: Pin<&mut CxxVector<CxxString>>, id: u64);
        fn set_cvobj(v: Pin<&mut CxxVector<Obj>>, id: u64);
        fn set_cvu8(v: Pin<&mut CxxVector<u8>>, id: u64);
        fn sp_use_count(p: &SharedPtr<Obj>) -> usize;
        fn wp_use_count(p: &WeakPtr<Obj>) -> usize;
        include!("rtsim/cxx/gen_fns.h");
                fn c_x_u8(tag: u64, x: u8) -> u8;
        fn c_t_u8(tag: u64, x: u8) -> Result<u8>;
        fn c_take_u8(tag: u64, x: u8);
        fn c_ttake_u8(tag: u64, x: u8) -> Result<()>;
        fn c_ret_u8(tag: u64) -> u8;
        fn c_tret_u8(tag: u64) -> Result<u8>;
        fn c_x_i8(tag: u64, x: i8) -> i8;
        fn c_x_u16(tag: u64, x: u16) -> u16;
        fn c_x_i16(tag: u64, x: i16) -> i16;
        fn c_x_u32(tag: u64, x: u32) -> u32;
        fn c_x_i32(tag: u64, x: i32) -> i32;
        fn c_x_u64(tag: u64, x: u64) -> u64;
        fn c_x_i64(tag: u64, x: i64) -> i64;
        fn c_t_i64(tag: u64, x: i64) -> Result<i64>;
        fn c_take_i64(tag: u64, x: i64);
        fn c_ttake_i64(tag: u64, x: i64) -> Result<()>;
        fn c_ret_i64(tag: u64) -> i64;
        fn c_tret_i64(tag: u64) -> Result<i64>;
        fn c_x_usize(tag: u64, x: usize) -> usize;
        fn c_x_isize(tag: u64, x: isize) -> isize;
        fn c_x_f32(tag: u64, x: f32) -> f32;
        fn c_t_f32(tag: u64, x: f32) -> Result<f32>;
        fn c_take_f32(tag: u64, x: f32);
        fn c_ttake_f32(tag: u64, x: f32) -> Result<()>;
        fn c_ret_f32(tag: u64) -> f32;
        fn c_tret_f32(tag: u64) -> Result<f32>;
        fn c_x_f64(tag: u64, x: f64) -> f64;
        fn c_x_bool(tag: u64, x: bool) -> bool;
        fn c_t_bool(tag: u64, x: bool) -> Result<bool>;
        fn c_take_bool(tag: u64, x: bool);
        fn c_ttake_bool(tag: u64, x: bool) -> Result<()>;
        fn c_ret_bool(tag: u64) -> bool;
        fn c_tret_bool(tag: u64) -> Result<bool>;
        fn c_x_chr(tag: u64, x: c_char) -> c_char;
        fn c_x_pod(tag: u64, x: Pod) -> Pod;
        fn c_t_pod(tag: u64, x: Pod) -> Result<Pod>;
        fn c_take_pod(tag: u64, x: Pod);
        fn c_ttake_pod(tag: u64, x: Pod) -> Result<()>;
        fn c_ret_pod(tag: u64) -> Pod;
        fn c_tret_pod(tag: u64) -> Result<Pod>;
        fn c_x_color(tag: u64, x: Color) -> Color;
        fn c_t_color(tag: u64, x: Color) -> Result<Color>;
        fn c_take_color(tag: u64, x: Color);
        fn c_ttake_color(tag: u64, x: Color) -> Result<()>;
        fn c_ret_color(tag: u64) -> Color;
        fn c_tret_color(tag: u64) -> Result<Color>;
        fn c_x_txt(tag: u64, x: Txt) -> Txt;
        fn c_t_txt(tag: u64, x: Txt) -> Result<Txt>;
        fn c_take_txt(tag: u64, x: Txt);
        fn c_ttake_txt(tag: u64, x: Txt) -> Result<()>;
        fn c_ret_txt(tag: u64) -> Txt;
        fn c_tret_txt(tag: u64) -> Result<Txt>;
        fn c_x_rec(tag: u64, x: Rec) -> Rec;
        fn c_t_rec(tag: u64, x: Rec) -> Result<Rec>;
        fn c_take_rec(tag: u64, x: Rec);
        fn c_ttake_rec(tag: u64, x: Rec) -> Result<()>;
        fn c_ret_rec(tag: u64) -> Rec;
        fn c_tret_rec(tag: u64) -> Result<Rec>;
        fn c_x_tok(tag: u64, x: Tok) -> Tok;
        fn c_t_tok(tag: u64, x: Tok) -> Result<Tok>;
        fn c_take_tok(tag: u64, x: Tok);
        fn c_ttake_tok(tag: u64, x: Tok) -> Result<()>;
        fn c_ret_tok(tag: u64) -> Tok;
        fn c_tret_tok(tag: u64) -> Result<Tok>;
        fn c_x_box_robj(tag: u64, x: Box<RObj>) -> Box<RObj>;
        fn c_t_box_robj(tag: u64, x: Box<RObj>) -> Result<Box<RObj>>;
        fn c_take_box_robj(tag: u64, x: Box<RObj>);
        fn c_ttake_box_robj(tag: u64, x: Box<RObj>) -> Result<()>;
        fn c_ret_box_robj(tag: u64) -> Box<RObj>;
        fn c_tret_box_robj(tag: u64) -> Result<Box<RObj>>;
        fn c_x_box_txt(tag: u64, x: Box<Txt>) -> Box<Txt>;
        fn c_t_box_txt(tag: u64, x: Box<Txt>) -> Result<Box<Txt>>;
        fn c_take_box_txt(tag: u64, x: Box<Txt>);
        fn c_ttake_box_txt(tag: u64, x: Box<Txt>) -> Result<()>;
        fn c_ret_box_txt(tag: u64) -> Box<Txt>;
        fn c_tret_box_txt(tag: u64) -> Result<Box<Txt>>;
        fn c_x_up_obj(tag: u64, x: UniquePtr<Obj>) -> UniquePtr<Obj>;
        fn c_t_up_obj(tag: u64, x: UniquePtr<Obj>) -> Result<UniquePtr<Obj>>;
        fn c_take_up_obj(tag: u64, x: UniquePtr<Obj>);
        fn c_ttake_up_obj(tag: u64, x: UniquePtr<Obj>) -> Result<()>;
        fn c_ret_up_obj(tag: u64) -> UniquePtr<Obj>;
        fn c_tret_up_obj(tag: u64) -> Result<UniquePtr<Obj>>;
        fn c_x_up_str(tag: u64, x: UniquePtr<CxxString>) -> UniquePtr<CxxString>;
        fn c_t_up_str(tag: u64, x: UniquePtr<CxxString>) -> Result<UniquePtr<CxxString>>;
        fn c_take_up_str(tag: u64, x: UniquePtr<CxxString>);
        fn c_ttake_up_str(tag: u64, x: UniquePtr<CxxString>) -> Result<()>;
        fn c_ret_up_str(tag: u64) -> UniquePtr<CxxString>;
        fn c_tret_up_str(tag: u64) -> Result<UniquePtr<CxxString>>;
        fn c_x_up_pod(tag: u64, x: UniquePtr<Pod>) -> UniquePtr<Pod>;
        fn c_t_up_pod(tag: u64, x: UniquePtr<Pod>) -> Result<UniquePtr<Pod>>;
        fn c_take_up_pod(tag: u64, x: UniquePtr<Pod>);
        fn c_ttake_up_pod(tag: u64, x: UniquePtr<Pod>) -> Result<()>;
        fn c_ret_up_pod(tag: u64) -> UniquePtr<Pod>;
        fn c_tret_up_pod(tag: u64) -> Result<UniquePtr<Pod>>;
        fn c_x_up_txt(tag: u64, x: UniquePtr<Txt>) -> UniquePtr<Txt>;
        fn c_t_up_txt(tag: u64, x: UniquePtr<Txt>) -> Result<UniquePtr<Txt>>;
        fn c_take_up_txt(tag: u64, x: UniquePtr<Txt>);
        fn c_ttake_up_txt(tag: u64, x: UniquePtr<Txt>) -> Result<()>;
        fn c_ret_up_txt(tag: u64) -> UniquePtr<Txt>;
        fn c_tret_up_txt(tag: u64) -> Result<UniquePtr<Txt>>;
        fn c_x_up_vu8(tag: u64, x: UniquePtr<CxxVector<u8>>) -> UniquePtr<CxxVector<u8>>;
        fn c_t_up_vu8(tag: u64, x: UniquePtr<CxxVector<u8>>) -> Result<UniquePtr<CxxVector<u8>>>;
        fn c_take_up_vu8(tag: u64, x: UniquePtr<CxxVector<u8>>);
        fn c_ttake_up_vu8(tag: u64, x: UniquePtr<CxxVector<u8>>) -> Result<()>;
        fn c_ret_up_vu8(tag: u64) -> UniquePtr<CxxVector<u8>>;
        fn c_tret_up_vu8(tag: u64) -> Result<UniquePtr<CxxVector<u8>>>;
        fn c_x_up_vf64(tag: u64, x: UniquePtr<CxxVector<f64>>) -> UniquePtr<CxxVector<f64>>;
        fn c_t_up_vf64(tag: u64, x: UniquePtr<CxxVector<f64>>) -> Result<UniquePtr<CxxVector<f64>>>;
        fn c_take_up_vf64(tag: u64, x: UniquePtr<CxxVector<f64>>);
        fn c_ttake_up_vf64(tag: u64, x: UniquePtr<CxxVector<f64>>) -> Result<()>;
        fn c_ret_up_vf64(tag: u64) -> UniquePtr<CxxVector<f64>>;
        fn c_tret_up_vf64(tag: u64) -> Result<UniquePtr<CxxVector<f64>>>;
        fn c_x_up_vstr(tag: u64, x: UniquePtr<CxxVector<CxxString>>) -> UniquePtr<CxxVector<CxxString>>;
        fn c_t_up_vstr(tag: u64, x: UniquePtr<CxxVector<CxxString>>) -> Result<UniquePtr<CxxVector<CxxString>>>;
        fn c_take_up_vstr(tag: u64, x: UniquePtr<CxxVector<CxxString>>);
        fn c_ttake_up_vstr(tag: u64, x: UniquePtr<CxxVector<CxxString>>) -> Result<()>;
        fn c_ret_up_vstr(tag: u64) -> UniquePtr<CxxVector<CxxString>>;
        fn c_tret_up_vstr(tag: u64) -> Result<UniquePtr<CxxVector<CxxString>>>;
        fn c_x_up_vobj(tag: u64, x: UniquePtr<CxxVector<Obj>>) -> UniquePtr<CxxVector<Obj>>;
        fn c_t_up_vobj(tag: u64, x: UniquePtr<CxxVector<Obj>>) -> Result<UniquePtr<CxxVector<Obj>>>;
        fn c_take_up_vobj(tag: u64, x: UniquePtr<CxxVector<Obj>>);
        fn c_ttake_up_vobj(tag: u64, x: UniquePtr<CxxVector<Obj>>) -> Result<()>;
        fn c_ret_up_vobj(tag: u64) -> UniquePtr<CxxVector<Obj>>;
        fn c_tret_up_vobj(tag: u64) -> Result<UniquePtr<CxxVector<Obj>>>;
        fn c_x_up_vtxt(tag: u64, x: UniquePtr<CxxVector<Txt>>) -> UniquePtr<CxxVector<Txt>>;
        fn c_t_up_vtxt(tag: u64, x: UniquePtr<CxxVector<Txt>>) -> Result<UniquePtr<CxxVector<Txt>>>;
        fn c_take_up_vtxt(tag: u64, x: UniquePtr<CxxVector<Txt>>);
        fn c_ttake_up_vtxt(tag: u64, x: UniquePtr<CxxVector<Txt>>) -> Result<()>;
        fn c_ret_up_vtxt(tag: u64) -> UniquePtr<CxxVector<Txt>>;
        fn c_tret_up_vtxt(tag: u64) -> Result<UniquePtr<CxxVector<Txt>>>;
        fn c_x_sp_obj(tag: u64, x: SharedPtr<Obj>) -> SharedPtr<Obj>;
        fn c_t_sp_obj(tag: u64, x: SharedPtr<Obj>) -> Result<SharedPtr<Obj>>;
        fn c_take_sp_obj(tag: u64, x: SharedPtr<Obj>);
        fn c_ttake_sp_obj(tag: u64, x: SharedPtr<Obj>) -> Result<()>;
        fn c_ret_sp_obj(tag: u64) -> SharedPtr<Obj>;
        fn c_tret_sp_obj(tag: u64) -> Result<SharedPtr<Obj>>;
        fn c_x_sp_pod(tag: u64, x: SharedPtr<Pod>) -> SharedPtr<Pod>;
        fn c_t_sp_pod(tag: u64, x: SharedPtr<Pod>) -> Result<SharedPtr<Pod>>;
        fn c_take_sp_pod(tag: u64, x: SharedPtr<Pod>);
        fn c_ttake_sp_pod(tag: u64, x: SharedPtr<Pod>) -> Result<()>;
        fn c_ret_sp_pod(tag: u64) -> SharedPtr<Pod>;
        fn c_tret_sp_pod(tag: u64) -> Result<SharedPtr<Pod>>;
        fn c_x_sp_str(tag: u64, x: SharedPtr<CxxString>) -> SharedPtr<CxxString>;
        fn c_t_sp_str(tag: u64, x: SharedPtr<CxxString>) -> Result<SharedPtr<CxxString>>;
        fn c_take_sp_str(tag: u64, x: SharedPtr<CxxString>);
        fn c_ttake_sp_str(tag: u64, x: SharedPtr<CxxString>) -> Result<()>;
        fn c_ret_sp_str(tag: u64) -> SharedPtr<CxxString>;
        fn c_tret_sp_str(tag: u64) -> Result<SharedPtr<CxxString>>;
        fn c_x_sp_u64(tag: u64, x: SharedPtr<u64>) -> SharedPtr<u64>;
        fn c_t_sp_u64(tag: u64, x: SharedPtr<u64>) -> Result<SharedPtr<u64>>;
        fn c_take_sp_u64(tag: u64, x: SharedPtr<u64>);
        fn c_ttake_sp_u64(tag: u64, x: SharedPtr<u64>) -> Result<()>;
        fn c_ret_sp_u64(tag: u64) -> SharedPtr<u64>;
        fn c_tret_sp_u64(tag: u64) -> Result<SharedPtr<u64>>;
        fn c_x_wp_obj(tag: u64, x: WeakPtr<Obj>) -> WeakPtr<Obj>;
        fn c_t_wp_obj(tag: u64, x: WeakPtr<Obj>) -> Result<WeakPtr<Obj>>;
        fn c_take_wp_obj(tag: u64, x: WeakPtr<Obj>);
        fn c_ttake_wp_obj(tag: u64, x: WeakPtr<Obj>) -> Result<()>;
        fn c_ret_wp_obj(tag: u64) -> WeakPtr<Obj>;
        fn c_tret_wp_obj(tag: u64) -> Result<WeakPtr<Obj>>;
        fn c_x_string(tag: u64, x: String) -> String;
        fn c_t_string(tag: u64, x: String) -> Result<String>;
        fn c_take_string(tag: u64, x: String);
        fn c_ttake_string(tag: u64, x: String) -> Result<()>;
        fn c_ret_string(tag: u64) -> String;
        fn c_tret_string(tag: u64) -> Result<String>;
        fn c_x_vec_u8(tag: u64, x: Vec<u8>) -> Vec<u8>;
        fn c_t_vec_u8(tag: u64, x: Vec<u8>) -> Result<Vec<u8>>;
        fn c_take_vec_u8(tag: u64, x: Vec<u8>);
        fn c_ttake_vec_u8(tag: u64, x: Vec<u8>) -> Result<()>;
        fn c_ret_vec_u8(tag: u64) -> Vec<u8>;
        fn c_tret_vec_u8(tag: u64) -> Result<Vec<u8>>;
        fn c_x_vec_str(tag: u64, x: Vec<String>) -> Vec<String>;
        fn c_t_vec_str(tag: u64, x: Vec<String>) -> Result<Vec<String>>;
        fn c_take_vec_str(tag: u64, x: Vec<String>);
        fn c_ttake_vec_str(tag: u64, x: Vec<String>) -> Result<()>;
        fn c_ret_vec_str(tag: u64) -> Vec<String>;
        fn c_tret_vec_str(tag: u64) -> Result<Vec<String>>;
        fn c_x_vec_txt(tag: u64, x: Vec<Txt>) -> Vec<Txt>;
        fn c_t_vec_txt(tag: u64, x: Vec<Txt>) -> Result<Vec<Txt>>;
        fn c_take_vec_txt(tag: u64, x: Vec<Txt>);
        fn c_ttake_vec_txt(tag: u64, x: Vec<Txt>) -> Result<()>;
        fn c_ret_vec_txt(tag: u64) -> Vec<Txt>;
        fn c_tret_vec_txt(tag: u64) -> Result<Vec<Txt>>;
        fn c_x_vec_pod(tag: u64, x: Vec<Pod>) -> Vec<Pod>;
        fn c_t_vec_pod(tag: u64, x: Vec<Pod>) -> Result<Vec<Pod>>;
        fn c_take_vec_pod(tag: u64, x: Vec<Pod>);
        fn c_ttake_vec_pod(tag: u64, x: Vec<Pod>) -> Result<()>;
        fn c_ret_vec_pod(tag: u64) -> Vec<Pod>;
        fn c_tret_vec_pod(tag: u64) -> Result<Vec<Pod>>;
        fn c_x_vec_bool(tag: u64, x: Vec<bool>) -> Vec<bool>;
        fn c_t_vec_bool(tag: u64, x: Vec<bool>) -> Result<Vec<bool>>;
        fn c_take_vec_bool(tag: u64, x: Vec<bool>);
        fn c_ttake_vec_bool(tag: u64, x: Vec<bool>) -> Result<()>;
        fn c_ret_vec_bool(tag: u64) -> Vec<bool>;
        fn c_tret_vec_bool(tag: u64) -> Result<Vec<bool>>;
        fn c_x_vec_f64(tag: u64, x: Vec<f64>) -> Vec<f64>;
        fn c_t_vec_f64(tag: u64, x: Vec<f64>) -> Result<Vec<f64>>;
        fn c_take_vec_f64(tag: u64, x: Vec<f64>);
        fn c_ttake_vec_f64(tag: u64, x: Vec<f64>) -> Result<()>;
        fn c_ret_vec_f64(tag: u64) -> Vec<f64>;
        fn c_tret_vec_f64(tag: u64) -> Result<Vec<f64>>;
        fn c_x_vec_usize(tag: u64, x: Vec<usize>) -> Vec<usize>;
        fn c_t_vec_usize(tag: u64, x: Vec<usize>) -> Result<Vec<usize>>;
        fn c_take_vec_usize(tag: u64, x: Vec<usize>);
        fn c_ttake_vec_usize(tag: u64, x: Vec<usize>) -> Result<()>;
        fn c_ret_vec_usize(tag: u64) -> Vec<usize>;
        fn c_tret_vec_usize(tag: u64) -> Result<Vec<usize>>;
        fn c_x_vec_tok(tag: u64, x: Vec<Tok>) -> Vec<Tok>;
        fn c_t_vec_tok(tag: u64, x: Vec<Tok>) -> Result<Vec<Tok>>;
        fn c_take_vec_tok(tag: u64, x: Vec<Tok>);
        fn c_ttake_vec_tok(tag: u64, x: Vec<Tok>) -> Result<()>;
        fn c_ret_vec_tok(tag: u64) -> Vec<Tok>;
        fn c_tret_vec_tok(tag: u64) -> Result<Vec<Tok>>;
        fn c_x_vec_robj(tag: u64, x: Vec<RObj>) -> Vec<RObj>;
        fn c_t_vec_robj(tag: u64, x: Vec<RObj>) -> Result<Vec<RObj>>;
        fn c_take_vec_robj(tag: u64, x: Vec<RObj>);
        fn c_ttake_vec_robj(tag: u64, x: Vec<RObj>) -> Result<()>;
        fn c_ret_vec_robj(tag: u64) -> Vec<RObj>;
        fn c_tret_vec_robj(tag: u64) -> Result<Vec<RObj>>;
        fn c_cb_u32(tag: u64, x: u32, f: fn(u64, u32) -> u32) -> u32;
        fn c_tcb_u32(tag: u64, x: u32, f: fn(u64, u32) -> u32) -> Result<u32>;
        fn c_cbr_u32(tag: u64, x: &u32, f: fn(u64, &u32));
        fn c_cb_txt(tag: u64, x: Txt, f: fn(u64, Txt) -> Txt) -> Txt;
        fn c_tcb_txt(tag: u64, x: Txt, f: fn(u64, Txt) -> Txt) -> Result<Txt>;
        fn c_cbr_txt(tag: u64, x: &Txt, f: fn(u64, &Txt));
        fn c_cb_rec(tag: u64, x: Rec, f: fn(u64, Rec) -> Rec) -> Rec;
        fn c_tcb_rec(tag: u64, x: Rec, f: fn(u64, Rec) -> Rec) -> Result<Rec>;
        fn c_cbr_rec(tag: u64, x: &Rec, f: fn(u64, &Rec));
        fn c_cb_tok(tag: u64, x: Tok, f: fn(u64, Tok) -> Tok) -> Tok;
        fn c_tcb_tok(tag: u64, x: Tok, f: fn(u64, Tok) -> Tok) -> Result<Tok>;
        fn c_cbr_tok(tag: u64, x: &Tok, f: fn(u64, &Tok));
        fn c_cb_box_robj(tag: u64, x: Box<RObj>, f: fn(u64, Box<RObj>) -> Box<RObj>) -> Box<RObj>;
        fn c_tcb_box_robj(tag: u64, x: Box<RObj>, f: fn(u64, Box<RObj>) -> Box<RObj>) -> Result<Box<RObj>>;
        fn c_cbr_box_robj(tag: u64, x: &Box<RObj>, f: fn(u64, &Box<RObj>));
        fn c_cb_up_obj(tag: u64, x: UniquePtr<Obj>, f: fn(u64, UniquePtr<Obj>) -> UniquePtr<Obj>) -> UniquePtr<Obj>;
        fn c_tcb_up_obj(tag: u64, x: UniquePtr<Obj>, f: fn(u64, UniquePtr<Obj>) -> UniquePtr<Obj>) -> Result<UniquePtr<Obj>>;
        fn c_cbr_up_obj(tag: u64, x: &UniquePtr<Obj>, f: fn(u64, &UniquePtr<Obj>));
        fn c_cb_sp_obj(tag: u64, x: SharedPtr<Obj>, f: fn(u64, SharedPtr<Obj>) -> SharedPtr<Obj>) -> SharedPtr<Obj>;
        fn c_tcb_sp_obj(tag: u64, x: SharedPtr<Obj>, f: fn(u64, SharedPtr<Obj>) -> SharedPtr<Obj>) -> Result<SharedPtr<Obj>>;
        fn c_cbr_sp_obj(tag: u64, x: &SharedPtr<Obj>, f: fn(u64, &SharedPtr<Obj>));
        fn c_cb_string(tag: u64, x: String, f: fn(u64, String) -> String) -> String;
        fn c_tcb_string(tag: u64, x: String, f: fn(u64, String) -> String) -> Result<String>;
        fn c_cbr_string(tag: u64, x: &String, f: fn(u64, &String));
        fn c_cb_vec_str(tag: u64, x: Vec<String>, f: fn(u64, Vec<String>) -> Vec<String>) -> Vec<String>;
        fn c_tcb_vec_str(tag: u64, x: Vec<String>, f: fn(u64, Vec<String>) -> Vec<String>) -> Result<Vec<String>>;
        fn c_cbr_vec_str(tag: u64, x: &Vec<String>, f: fn(u64, &Vec<String>));
        fn c_cb_vec_tok(tag: u64, x: Vec<Tok>, f: fn(u64, Vec<Tok>) -> Vec<Tok>) -> Vec<Tok>;
        fn c_tcb_vec_tok(tag: u64, x: Vec<Tok>, f: fn(u64, Vec<Tok>) -> Vec<Tok>) -> Result<Vec<Tok>>;
        fn c_cbr_vec_tok(tag: u64, x: &Vec<Tok>, f: fn(u64, &Vec<Tok>));
        fn c_cb_color(tag: u64, x: Color, f: fn(u64, Color) -> Color) -> Color;
        fn c_tcb_color(tag: u64, x: Color, f: fn(u64, Color) -> Color) -> Result<Color>;
        fn c_cbr_color(tag: u64, x: &Color, f: fn(u64, &Color));
        fn m_x_u32(self: Pin<&mut Obj>, tag: u64, x: u32) -> u32;
        fn m_t_u32(self: &Obj, tag: u64, x: u32) -> Result<u32>;
        fn sm_t_u32(self: &mut Pod, tag: u64, x: u32) -> Result<u32>;
        fn m_x_txt(self: Pin<&mut Obj>, tag: u64, x: Txt) -> Txt;
        fn m_t_txt(self: &Obj, tag: u64, x: Txt) -> Result<Txt>;
        fn sm_t_txt(self: &mut Pod, tag: u64, x: Txt) -> Result<Txt>;
        fn m_x_rec(self: Pin<&mut Obj>, tag: u64, x: Rec) -> Rec;
        fn m_t_rec(self: &Obj, tag: u64, x: Rec) -> Result<Rec>;
        fn sm_t_rec(self: &mut Pod, tag: u64, x: Rec) -> Result<Rec>;
        fn m_x_tok(self: Pin<&mut Obj>, tag: u64, x: Tok) -> Tok;
        fn m_t_tok(self: &Obj, tag: u64, x: Tok) -> Result<Tok>;
        fn sm_t_tok(self: &mut Pod, tag: u64, x: Tok) -> Result<Tok>;
        fn m_x_box_robj(self: Pin<&mut Obj>, tag: u64, x: Box<RObj>) -> Box<RObj>;
        fn m_t_box_robj(self: &Obj, tag: u64, x: Box<RObj>) -> Result<Box<RObj>>;
        fn sm_t_box_robj(self: &mut Pod, tag: u64, x: Box<RObj>) -> Result<Box<RObj>>;
        fn m_x_up_obj(self: Pin<&mut Obj>, tag: u64, x: UniquePtr<Obj>) -> UniquePtr<Obj>;
        fn m_t_up_obj(self: &Obj, tag: u64, x: UniquePtr<Obj>) -> Result<UniquePtr<Obj>>;
        fn sm_t_up_obj(self: &mut Pod, tag: u64, x: UniquePtr<Obj>) -> Result<UniquePtr<Obj>>;
        fn m_x_sp_obj(self: Pin<&mut Obj>, tag: u64, x: SharedPtr<Obj>) -> SharedPtr<Obj>;
        fn m_t_sp_obj(self: &Obj, tag: u64, x: SharedPtr<Obj>) -> Result<SharedPtr<Obj>>;
        fn sm_t_sp_obj(self: &mut Pod, tag: u64, x: SharedPtr<Obj>) -> Result<SharedPtr<Obj>>;
        fn m_x_string(self: Pin<&mut Obj>, tag: u64, x: String) -> String;
        fn m_t_string(self: &Obj, tag: u64, x: String) -> Result<String>;
        fn sm_t_string(self: &mut Pod, tag: u64, x: String) -> Result<String>;
        fn m_x_vec_txt(self: Pin<&mut Obj>, tag: u64, x: Vec<Txt>) -> Vec<Txt>;
        fn m_t_vec_txt(self: &Obj, tag: u64, x: Vec<Txt>) -> Result<Vec<Txt>>;
        fn sm_t_vec_txt(self: &mut Pod, tag: u64, x: Vec<Txt>) -> Result<Vec<Txt>>;
        fn c_ref_txt(tag: u64, x: &Txt) -> &Txt;
        fn c_tref_txt(tag: u64, x: &Txt) -> Result<&Txt>;
        fn c_mut_txt(tag: u64, x: &mut Txt) -> &mut Txt;
        fn c_tmut_txt(tag: u64, x: &mut Txt) -> Result<&mut Txt>;
        fn c_ref_rec(tag: u64, x: &Rec) -> &Rec;
        fn c_tref_rec(tag: u64, x: &Rec) -> Result<&Rec>;
        fn c_mut_rec(tag: u64, x: &mut Rec) -> &mut Rec;
        fn c_tmut_rec(tag: u64, x: &mut Rec) -> Result<&mut Rec>;
        fn c_ref_pod(tag: u64, x: &Pod) -> &Pod;
        fn c_tref_pod(tag: u64, x: &Pod) -> Result<&Pod>;
        fn c_mut_pod(tag: u64, x: &mut Pod) -> &mut Pod;
        fn c_tmut_pod(tag: u64, x: &mut Pod) -> Result<&mut Pod>;
        fn c_ref_u64(tag: u64, x: &u64) -> &u64;
        fn c_tref_u64(tag: u64, x: &u64) -> Result<&u64>;
        fn c_mut_u64(tag: u64, x: &mut u64) -> &mut u64;
        fn c_tmut_u64(tag: u64, x: &mut u64) -> Result<&mut u64>;
        fn c_ref_robj(tag: u64, x: &RObj) -> &RObj;
        fn c_tref_robj(tag: u64, x: &RObj) -> Result<&RObj>;
        fn c_mut_robj(tag: u64, x: &mut RObj) -> &mut RObj;
        fn c_tmut_robj(tag: u64, x: &mut RObj) -> Result<&mut RObj>;
        fn c_ref_obj(tag: u64, x: &Obj) -> &Obj;
        fn c_tref_obj(tag: u64, x: &Obj) -> Result<&Obj>;
        fn c_mut_obj(tag: u64, x: Pin<&mut Obj>) -> Pin<&mut Obj>;
        fn c_tmut_obj(tag: u64, x: Pin<&mut Obj>) -> Result<Pin<&mut Obj>>;
        fn c_ref_string(tag: u64, x: &String) -> &String;
        fn c_tref_string(tag: u64, x: &String) -> Result<&String>;
        fn c_mut_string(tag: u64, x: &mut String) -> &mut String;
        fn c_tmut_string(tag: u64, x: &mut String) -> Result<&mut String>;
        fn c_ref_vec_u8(tag: u64, x: &Vec<u8>) -> &Vec<u8>;
        fn c_tref_vec_u8(tag: u64, x: &Vec<u8>) -> Result<&Vec<u8>>;
        fn c_mut_vec_u8(tag: u64, x: &mut Vec<u8>) -> &mut Vec<u8>;
        fn c_tmut_vec_u8(tag: u64, x: &mut Vec<u8>) -> Result<&mut Vec<u8>>;
        fn c_ref_vec_txt(tag: u64, x: &Vec<Txt>) -> &Vec<Txt>;
        fn c_tref_vec_txt(tag: u64, x: &Vec<Txt>) -> Result<&Vec<Txt>>;
        fn c_mut_vec_txt(tag: u64, x: &mut Vec<Txt>) -> &mut Vec<Txt>;
        fn c_tmut_vec_txt(tag: u64, x: &mut Vec<Txt>) -> Result<&mut Vec<Txt>>;
        fn c_ref_vec_str(tag: u64, x: &Vec<String>) -> &Vec<String>;
        fn c_tref_vec_str(tag: u64, x: &Vec<String>) -> Result<&Vec<String>>;
        fn c_mut_vec_str(tag: u64, x: &mut Vec<String>) -> &mut Vec<String>;
        fn c_tmut_vec_str(tag: u64, x: &mut Vec<String>) -> Result<&mut Vec<String>>;
        fn c_ref_cstr(tag: u64, x: &CxxString) -> &CxxString;
        fn c_tref_cstr(tag: u64, x: &CxxString) -> Result<&CxxString>;
        fn c_mut_cstr(tag: u64, x: Pin<&mut CxxString>) -> Pin<&mut CxxString>;
        fn c_tmut_cstr(tag: u64, x: Pin<&mut CxxString>) -> Result<Pin<&mut CxxString>>;
        fn c_ref_cvu8(tag: u64, x: &CxxVector<u8>) -> &CxxVector<u8>;
        fn c_tref_cvu8(tag: u64, x: &CxxVector<u8>) -> Result<&CxxVector<u8>>;
        fn c_mut_cvu8(tag: u64, x: Pin<&mut CxxVector<u8>>) -> Pin<&mut CxxVector<u8>>;
        fn c_tmut_cvu8(tag: u64, x: Pin<&mut CxxVector<u8>>) -> Result<Pin<&mut CxxVector<u8>>>;
        fn c_ref_cvstr(tag: u64, x: &CxxVector<CxxString>) -> &CxxVector<CxxString>;
        fn c_tref_cvstr(tag: u64, x: &CxxVector<CxxString>) -> Result<&CxxVector<CxxString>>;
        fn c_mut_cvstr(tag: u64, x: Pin<&mut CxxVector<CxxString>>) -> Pin<&mut CxxVector<CxxString>>;
        fn c_tmut_cvstr(tag: u64, x: Pin<&mut CxxVector<CxxString>>) -> Result<Pin<&mut CxxVector<CxxString>>>;
        fn c_ref_cvobj(tag: u64, x: &CxxVector<Obj>) -> &CxxVector<Obj>;
        fn c_tref_cvobj(tag: u64, x: &CxxVector<Obj>) -> Result<&CxxVector<Obj>>;
        fn c_mut_cvobj(tag: u64, x: Pin<&mut CxxVector<Obj>>) -> Pin<&mut CxxVector<Obj>>;
        fn c_tmut_cvobj(tag: u64, x: Pin<&mut CxxVector<Obj>>) -> Result<Pin<&mut CxxVector<Obj>>>;
        fn c_ref_sp_obj(tag: u64, x: &SharedPtr<Obj>) -> &SharedPtr<Obj>;
        fn c_tref_sp_obj(tag: u64, x: &SharedPtr<Obj>) -> Result<&SharedPtr<Obj>>;
        fn c_mut_sp_obj(tag: u64, x: &mut SharedPtr<Obj>) -> &mut SharedPtr<Obj>;
        fn c_tmut_sp_obj(tag: u64, x: &mut SharedPtr<Obj>) -> Result<&mut SharedPtr<Obj>>;
        fn c_ref_up_obj(tag: u64, x: &UniquePtr<Obj>) -> &UniquePtr<Obj>;
        fn c_tref_up_obj(tag: u64, x: &UniquePtr<Obj>) -> Result<&UniquePtr<Obj>>;
        fn c_mut_up_obj(tag: u64, x: &mut UniquePtr<Obj>) -> &mut UniquePtr<Obj>;
        fn c_tmut_up_obj(tag: u64, x: &mut UniquePtr<Obj>) -> Result<&mut UniquePtr<Obj>>;
        fn c_ref_box_robj(tag: u64, x: &Box<RObj>) -> &Box<RObj>;
        fn c_tref_box_robj(tag: u64, x: &Box<RObj>) -> Result<&Box<RObj>>;
        fn c_mut_box_robj(tag: u64, x: &mut Box<RObj>) -> &mut Box<RObj>;
        fn c_tmut_box_robj(tag: u64, x: &mut Box<RObj>) -> Result<&mut Box<RObj>>;
        fn c_ref_tok(tag: u64, x: &Tok) -> &Tok;
        fn c_tref_tok(tag: u64, x: &Tok) -> Result<&Tok>;
        fn c_mut_tok(tag: u64, x: &mut Tok) -> &mut Tok;
        fn c_tmut_tok(tag: u64, x: &mut Tok) -> Result<&mut Tok>;
        fn c_sl_u8(tag: u64, x: &[u8]) -> &[u8];
        fn c_tsl_u8(tag: u64, x: &[u8]) -> Result<&[u8]>;
        fn c_msl_u8(tag: u64, x: &mut [u8]) -> &mut [u8];
        fn c_tmsl_u8(tag: u64, x: &mut [u8]) -> Result<&mut [u8]>;
        fn c_sl_string(tag: u64, x: &[String]) -> &[String];
        fn c_tsl_string(tag: u64, x: &[String]) -> Result<&[String]>;
        fn c_msl_string(tag: u64, x: &mut [String]) -> &mut [String];
        fn c_tmsl_string(tag: u64, x: &mut [String]) -> Result<&mut [String]>;
        fn c_sl_txt(tag: u64, x: &[Txt]) -> &[Txt];
        fn c_tsl_txt(tag: u64, x: &[Txt]) -> Result<&[Txt]>;
        fn c_msl_txt(tag: u64, x: &mut [Txt]) -> &mut [Txt];
        fn c_tmsl_txt(tag: u64, x: &mut [Txt]) -> Result<&mut [Txt]>;
        fn c_sl_pod(tag: u64, x: &[Pod]) -> &[Pod];
        fn c_tsl_pod(tag: u64, x: &[Pod]) -> Result<&[Pod]>;
        fn c_msl_pod(tag: u64, x: &mut [Pod]) -> &mut [Pod];
        fn c_tmsl_pod(tag: u64, x: &mut [Pod]) -> Result<&mut [Pod]>;
        fn c_sl_usize(tag: u64, x: &[usize]) -> &[usize];
        fn c_tsl_usize(tag: u64, x: &[usize]) -> Result<&[usize]>;
        fn c_msl_usize(tag: u64, x: &mut [usize]) -> &mut [usize];
        fn c_tmsl_usize(tag: u64, x: &mut [usize]) -> Result<&mut [usize]>;
        fn c_sl_f64(tag: u64, x: &[f64]) -> &[f64];
        fn c_tsl_f64(tag: u64, x: &[f64]) -> Result<&[f64]>;
        fn c_msl_f64(tag: u64, x: &mut [f64]) -> &mut [f64];
        fn c_tmsl_f64(tag: u64, x: &mut [f64]) -> Result<&mut [f64]>;
        fn c_sl_robj(tag: u64, x: &[RObj]) -> &[RObj];
        fn c_tsl_robj(tag: u64, x: &[RObj]) -> Result<&[RObj]>;
        fn c_msl_robj(tag: u64, x: &mut [RObj]) -> &mut [RObj];
        fn c_tmsl_robj(tag: u64, x: &mut [RObj]) -> Result<&mut [RObj]>;
        fn c_sl_tok(tag: u64, x: &[Tok]) -> &[Tok];
        fn c_tsl_tok(tag: u64, x: &[Tok]) -> Result<&[Tok]>;
        fn c_msl_tok(tag: u64, x: &mut [Tok]) -> &mut [Tok];
        fn c_tmsl_tok(tag: u64, x: &mut [Tok]) -> Result<&mut [Tok]>;
        fn c_str(tag: u64, x: &str) -> &str;
        fn c_tstr(tag: u64, x: &str) -> Result<&str>;
        fn c_multi(tag: u64, a0: i8, a1: String, a2: Box<RObj>, a3: UniquePtr<Obj>, a4: Txt, a5: f64, a6: Vec<String>, a7: SharedPtr<Obj>, a8: Tok, a9: Color, a10: bool, a11: Rec, a12: f32, a13: Vec<Tok>, a14: u16, s: &str, r: &RObj, t: &Txt, sl: &[String]) -> Rec;
        fn c_tmulti(tag: u64, a0: i8, a1: String, a2: Box<RObj>, a3: UniquePtr<Obj>, a4: Txt, a5: f64, a6: Vec<String>, a7: SharedPtr<Obj>, a8: Tok, a9: Color, a10: bool, a11: Rec, a12: f32, a13: Vec<Tok>, a14: u16, s: &str, r: &RObj, t: &Txt, sl: &[String]) -> Result<Rec>;
    }
    extern "Rust" {
        #[derive(ExternType)]
        type RObj;
        fn robj_new(id: u64) -> Box<RObj>;
        fn robj_id(self: &RObj) -> u64;
        fn robj_set(self: &mut RObj, id: u64);
        fn robj_panic_on_drop(self: &mut RObj, tag: u64);
        fn vec_robj_new(id: u64) -> Vec<RObj>;
        fn r_raise(tag: u64) -> Result<()>;
        fn r_raise2(id: u64) -> Result<()>;
                fn r_x_u8(tag: u64, x: u8) -> u8;
        fn r_t_u8(tag: u64, x: u8) -> Result<u8>;
        fn r_take_u8(tag: u64, x: u8);
        fn r_ttake_u8(tag: u64, x: u8) -> Result<()>;
        fn r_ret_u8(tag: u64) -> u8;
        fn r_tret_u8(tag: u64) -> Result<u8>;
        fn r_x_i8(tag: u64, x: i8) -> i8;
        fn r_x_u16(tag: u64, x: u16) -> u16;
        fn r_x_i16(tag: u64, x: i16) -> i16;
        fn r_x_u32(tag: u64, x: u32) -> u32;
        fn r_x_i32(tag: u64, x: i32) -> i32;
        fn r_x_u64(tag: u64, x: u64) -> u64;
        fn r_x_i64(tag: u64, x: i64) -> i64;
        fn r_t_i64(tag: u64, x: i64) -> Result<i64>;
        fn r_take_i64(tag: u64, x: i64);
        fn r_ttake_i64(tag: u64, x: i64) -> Result<()>;
        fn r_ret_i64(tag: u64) -> i64;
        fn r_tret_i64(tag: u64) -> Result<i64>;
        fn r_x_usize(tag: u64, x: usize) -> usize;
        fn r_x_isize(tag: u64, x: isize) -> isize;
        fn r_x_f32(tag: u64, x: f32) -> f32;
        fn r_t_f32(tag: u64, x: f32) -> Result<f32>;
        fn r_take_f32(tag: u64, x: f32);
        fn r_ttake_f32(tag: u64, x: f32) -> Result<()>;
        fn r_ret_f32(tag: u64) -> f32;
        fn r_tret_f32(tag: u64) -> Result<f32>;
        fn r_x_f64(tag: u64, x: f64) -> f64;
        fn r_x_bool(tag: u64, x: bool) -> bool;
        fn r_t_bool(tag: u64, x: bool) -> Result<bool>;
        fn r_take_bool(tag: u64, x: bool);
        fn r_ttake_bool(tag: u64, x: bool) -> Result<()>;
        fn r_ret_bool(tag: u64) -> bool;
        fn r_tret_bool(tag: u64) -> Result<bool>;
        fn r_x_chr(tag: u64, x: c_char) -> c_char;
        fn r_x_pod(tag: u64, x: Pod) -> Pod;
        fn r_t_pod(tag: u64, x: Pod) -> Result<Pod>;
        fn r_take_pod(tag: u64, x: Pod);
        fn r_ttake_pod(tag: u64, x: Pod) -> Result<()>;
        fn r_ret_pod(tag: u64) -> Pod;
        fn r_tret_pod(tag: u64) -> Result<Pod>;
        fn r_x_color(tag: u64, x: Color) -> Color;
        fn r_t_color(tag: u64, x: Color) -> Result<Color>;
        fn r_take_color(tag: u64, x: Color);
        fn r_ttake_color(tag: u64, x: Color) -> Result<()>;
        fn r_ret_color(tag: u64) -> Color;
        fn r_tret_color(tag: u64) -> Result<Color>;
        fn r_x_txt(tag: u64, x: Txt) -> Txt;
        fn r_t_txt(tag: u64, x: Txt) -> Result<Txt>;
        fn r_take_txt(tag: u64, x: Txt);
        fn r_ttake_txt(tag: u64, x: Txt) -> Result<()>;
        fn r_ret_txt(tag: u64) -> Txt;
        fn r_tret_txt(tag: u64) -> Result<Txt>;
        fn r_x_rec(tag: u64, x: Rec) -> Rec;
        fn r_t_rec(tag: u64, x: Rec) -> Result<Rec>;
        fn r_take_rec(tag: u64, x: Rec);
        fn r_ttake_rec(tag: u64, x: Rec) -> Result<()>;
        fn r_ret_rec(tag: u64) -> Rec;
        fn r_tret_rec(tag: u64) -> Result<Rec>;
        fn r_x_tok(tag: u64, x: Tok) -> Tok;
        fn r_t_tok(tag: u64, x: Tok) -> Result<Tok>;
        fn r_take_tok(tag: u64, x: Tok);
        fn r_ttake_tok(tag: u64, x: Tok) -> Result<()>;
        fn r_ret_tok(tag: u64) -> Tok;
        fn r_tret_tok(tag: u64) -> Result<Tok>;
        fn r_x_box_robj(tag: u64, x: Box<RObj>) -> Box<RObj>;
        fn r_t_box_robj(tag: u64, x: Box<RObj>) -> Result<Box<RObj>>;
        fn r_take_box_robj(tag: u64, x: Box<RObj>);
        fn r_ttake_box_robj(tag: u64, x: Box<RObj>) -> Result<()>;
        fn r_ret_box_robj(tag: u64) -> Box<RObj>;
        fn r_tret_box_robj(tag: u64) -> Result<Box<RObj>>;
        fn r_x_box_txt(tag: u64, x: Box<Txt>) -> Box<Txt>;
        fn r_t_box_txt(tag: u64, x: Box<Txt>) -> Result<Box<Txt>>;
        fn r_take_box_txt(tag: u64, x: Box<Txt>);
        fn r_ttake_box_txt(tag: u64, x: Box<Txt>) -> Result<()>;
        fn r_ret_box_txt(tag: u64) -> Box<Txt>;
        fn r_tret_box_txt(tag: u64) -> Result<Box<Txt>>;
        fn r_x_up_obj(tag: u64, x: UniquePtr<Obj>) -> UniquePtr<Obj>;
        fn r_t_up_obj(tag: u64, x: UniquePtr<Obj>) -> Result<UniquePtr<Obj>>;
        fn r_take_up_obj(tag: u64, x: UniquePtr<Obj>);
        fn r_ttake_up_obj(tag: u64, x: UniquePtr<Obj>) -> Result<()>;
        fn r_ret_up_obj(tag: u64) -> UniquePtr<Obj>;
        fn r_tret_up_obj(tag: u64) -> Result<UniquePtr<Obj>>;
        fn r_x_up_str(tag: u64, x: UniquePtr<CxxString>) -> UniquePtr<CxxString>;
        fn r_t_up_str(tag: u64, x: UniquePtr<CxxString>) -> Result<UniquePtr<CxxString>>;
        fn r_take_up_str(tag: u64, x: UniquePtr<CxxString>);
        fn r_ttake_up_str(tag: u64, x: UniquePtr<CxxString>) -> Result<()>;
        fn r_ret_up_str(tag: u64) -> UniquePtr<CxxString>;
        fn r_tret_up_str(tag: u64) -> Result<UniquePtr<CxxString>>;
        fn r_x_up_pod(tag: u64, x: UniquePtr<Pod>) -> UniquePtr<Pod>;
        fn r_t_up_pod(tag: u64, x: UniquePtr<Pod>) -> Result<UniquePtr<Pod>>;
        fn r_take_up_pod(tag: u64, x: UniquePtr<Pod>);
        fn r_ttake_up_pod(tag: u64, x: UniquePtr<Pod>) -> Result<()>;
        fn r_ret_up_pod(tag: u64) -> UniquePtr<Pod>;
        fn r_tret_up_pod(tag: u64) -> Result<UniquePtr<Pod>>;
        fn r_x_up_txt(tag: u64, x: UniquePtr<Txt>) -> UniquePtr<Txt>;
        fn r_t_up_txt(tag: u64, x: UniquePtr<Txt>) -> Result<UniquePtr<Txt>>;
        fn r_take_up_txt(tag: u64, x: UniquePtr<Txt>);
        fn r_ttake_up_txt(tag: u64, x: UniquePtr<Txt>) -> Result<()>;
        fn r_ret_up_txt(tag: u64) -> UniquePtr<Txt>;
        fn r_tret_up_txt(tag: u64) -> Result<UniquePtr<Txt>>;
        fn r_x_up_vu8(tag: u64, x: UniquePtr<CxxVector<u8>>) -> UniquePtr<CxxVector<u8>>;
        fn r_t_up_vu8(tag: u64, x: UniquePtr<CxxVector<u8>>) -> Result<UniquePtr<CxxVector<u8>>>;
        fn r_take_up_vu8(tag: u64, x: UniquePtr<CxxVector<u8>>);
        fn r_ttake_up_vu8(tag: u64, x: UniquePtr<CxxVector<u8>>) -> Result<()>;
        fn r_ret_up_vu8(tag: u64) -> UniquePtr<CxxVector<u8>>;
        fn r_tret_up_vu8(tag: u64) -> Result<UniquePtr<CxxVector<u8>>>;
        fn r_x_up_vf64(tag: u64, x: UniquePtr<CxxVector<f64>>) -> UniquePtr<CxxVector<f64>>;
        fn r_t_up_vf64(tag: u64, x: UniquePtr<CxxVector<f64>>) -> Result<UniquePtr<CxxVector<f64>>>;
        fn r_take_up_vf64(tag: u64, x: UniquePtr<CxxVector<f64>>);
        fn r_ttake_up_vf64(tag: u64, x: UniquePtr<CxxVector<f64>>) -> Result<()>;
        fn r_ret_up_vf64(tag: u64) -> UniquePtr<CxxVector<f64>>;
        fn r_tret_up_vf64(tag: u64) -> Result<UniquePtr<CxxVector<f64>>>;
        fn r_x_up_vstr(tag: u64, x: UniquePtr<CxxVector<CxxString>>) -> UniquePtr<CxxVector<CxxString>>;
        fn r_t_up_vstr(tag: u64, x: UniquePtr<CxxVector<CxxString>>) -> Result<UniquePtr<CxxVector<CxxString>>>;
        fn r_take_up_vstr(tag: u64, x: UniquePtr<CxxVector<CxxString>>);
        fn r_ttake_up_vstr(tag: u64, x: UniquePtr<CxxVector<CxxString>>) -> Result<()>;
        fn r_ret_up_vstr(tag: u64) -> UniquePtr<CxxVector<CxxString>>;
        fn r_tret_up_vstr(tag: u64) -> Result<UniquePtr<CxxVector<CxxString>>>;
        fn r_x_up_vobj(tag: u64, x: UniquePtr<CxxVector<Obj>>) -> UniquePtr<CxxVector<Obj>>;
        fn r_t_up_vobj(tag: u64, x: UniquePtr<CxxVector<Obj>>) -> Result<UniquePtr<CxxVector<Obj>>>;
        fn r_take_up_vobj(tag: u64, x: UniquePtr<CxxVector<Obj>>);
        fn r_ttake_up_vobj(tag: u64, x: UniquePtr<CxxVector<Obj>>) -> Result<()>;
        fn r_ret_up_vobj(tag: u64) -> UniquePtr<CxxVector<Obj>>;
        fn r_tret_up_vobj(tag: u64) -> Result<UniquePtr<CxxVector<Obj>>>;
        fn r_x_up_vtxt(tag: u64, x: UniquePtr<CxxVector<Txt>>) -> UniquePtr<CxxVector<Txt>>;
        fn r_t_up_vtxt(tag: u64, x: UniquePtr<CxxVector<Txt>>) -> Result<UniquePtr<CxxVector<Txt>>>;
        fn r_take_up_vtxt(tag: u64, x: UniquePtr<CxxVector<Txt>>);
        fn r_ttake_up_vtxt(tag: u64, x: UniquePtr<CxxVector<Txt>>) -> Result<()>;
        fn r_ret_up_vtxt(tag: u64) -> UniquePtr<CxxVector<Txt>>;
        fn r_tret_up_vtxt(tag: u64) -> Result<UniquePtr<CxxVector<Txt>>>;
        fn r_x_sp_obj(tag: u64, x: SharedPtr<Obj>) -> SharedPtr<Obj>;
        fn r_t_sp_obj(tag: u64, x: SharedPtr<Obj>) -> Result<SharedPtr<Obj>>;
        fn r_take_sp_obj(tag: u64, x: SharedPtr<Obj>);
        fn r_ttake_sp_obj(tag: u64, x: SharedPtr<Obj>) -> Result<()>;
        fn r_ret_sp_obj(tag: u64) -> SharedPtr<Obj>;
        fn r_tret_sp_obj(tag: u64) -> Result<SharedPtr<Obj>>;
        fn r_x_sp_pod(tag: u64, x: SharedPtr<Pod>) -> SharedPtr<Pod>;
        fn r_t_sp_pod(tag: u64, x: SharedPtr<Pod>) -> Result<SharedPtr<Pod>>;
        fn r_take_sp_pod(tag: u64, x: SharedPtr<Pod>);
        fn r_ttake_sp_pod(tag: u64, x: SharedPtr<Pod>) -> Result<()>;
        fn r_ret_sp_pod(tag: u64) -> SharedPtr<Pod>;
        fn r_tret_sp_pod(tag: u64) -> Result<SharedPtr<Pod>>;
        fn r_x_sp_str(tag: u64, x: SharedPtr<CxxString>) -> SharedPtr<CxxString>;
        fn r_t_sp_str(tag: u64, x: SharedPtr<CxxString>) -> Result<SharedPtr<CxxString>>;
        fn r_take_sp_str(tag: u64, x: SharedPtr<CxxString>);
        fn r_ttake_sp_str(tag: u64, x: SharedPtr<CxxString>) -> Result<()>;
        fn r_ret_sp_str(tag: u64) -> SharedPtr<CxxString>;
        fn r_tret_sp_str(tag: u64) -> Result<SharedPtr<CxxString>>;
        fn r_x_sp_u64(tag: u64, x: SharedPtr<u64>) -> SharedPtr<u64>;
        fn r_t_sp_u64(tag: u64, x: SharedPtr<u64>) -> Result<SharedPtr<u64>>;
        fn r_take_sp_u64(tag: u64, x: SharedPtr<u64>);
        fn r_ttake_sp_u64(tag: u64, x: SharedPtr<u64>) -> Result<()>;
        fn r_ret_sp_u64(tag: u64) -> SharedPtr<u64>;
        fn r_tret_sp_u64(tag: u64) -> Result<SharedPtr<u64>>;
        fn r_x_wp_obj(tag: u64, x: WeakPtr<Obj>) -> WeakPtr<Obj>;
        fn r_t_wp_obj(tag: u64, x: WeakPtr<Obj>) -> Result<WeakPtr<Obj>>;
        fn r_take_wp_obj(tag: u64, x: WeakPtr<Obj>);
        fn r_ttake_wp_obj(tag: u64, x: WeakPtr<Obj>) -> Result<()>;
        fn r_ret_wp_obj(tag: u64) -> WeakPtr<Obj>;
        fn r_tret_wp_obj(tag: u64) -> Result<WeakPtr<Obj>>;
        fn r_x_string(tag: u64, x: String) -> String;
        fn r_t_string(tag: u64, x: String) -> Result<String>;
        fn r_take_string(tag: u64, x: String);
        fn r_ttake_string(tag: u64, x: String) -> Result<()>;
        fn r_ret_string(tag: u64) -> String;
        fn r_tret_string(tag: u64) -> Result<String>;
        fn r_x_vec_u8(tag: u64, x: Vec<u8>) -> Vec<u8>;
        fn r_t_vec_u8(tag: u64, x: Vec<u8>) -> Result<Vec<u8>>;
        fn r_take_vec_u8(tag: u64, x: Vec<u8>);
        fn r_ttake_vec_u8(tag: u64, x: Vec<u8>) -> Result<()>;
        fn r_ret_vec_u8(tag: u64) -> Vec<u8>;
        fn r_tret_vec_u8(tag: u64) -> Result<Vec<u8>>;
        fn r_x_vec_str(tag: u64, x: Vec<String>) -> Vec<String>;
        fn r_t_vec_str(tag: u64, x: Vec<String>) -> Result<Vec<String>>;
        fn r_take_vec_str(tag: u64, x: Vec<String>);
        fn r_ttake_vec_str(tag: u64, x: Vec<String>) -> Result<()>;
        fn r_ret_vec_str(tag: u64) -> Vec<String>;
        fn r_tret_vec_str(tag: u64) -> Result<Vec<String>>;
        fn r_x_vec_txt(tag: u64, x: Vec<Txt>) -> Vec<Txt>;
        fn r_t_vec_txt(tag: u64, x: Vec<Txt>) -> Result<Vec<Txt>>;
        fn r_take_vec_txt(tag: u64, x: Vec<Txt>);
        fn r_ttake_vec_txt(tag: u64, x: Vec<Txt>) -> Result<()>;
        fn r_ret_vec_txt(tag: u64) -> Vec<Txt>;
        fn r_tret_vec_txt(tag: u64) -> Result<Vec<Txt>>;
        fn r_x_vec_pod(tag: u64, x: Vec<Pod>) -> Vec<Pod>;
        fn r_t_vec_pod(tag: u64, x: Vec<Pod>) -> Result<Vec<Pod>>;
        fn r_take_vec_pod(tag: u64, x: Vec<Pod>);
        fn r_ttake_vec_pod(tag: u64, x: Vec<Pod>) -> Result<()>;
        fn r_ret_vec_pod(tag: u64) -> Vec<Pod>;
        fn r_tret_vec_pod(tag: u64) -> Result<Vec<Pod>>;
        fn r_x_vec_bool(tag: u64, x: Vec<bool>) -> Vec<bool>;
        fn r_t_vec_bool(tag: u64, x: Vec<bool>) -> Result<Vec<bool>>;
        fn r_take_vec_bool(tag: u64, x: Vec<bool>);
        fn r_ttake_vec_bool(tag: u64, x: Vec<bool>) -> Result<()>;
        fn r_ret_vec_bool(tag: u64) -> Vec<bool>;
        fn r_tret_vec_bool(tag: u64) -> Result<Vec<bool>>;
        fn r_x_vec_f64(tag: u64, x: Vec<f64>) -> Vec<f64>;
        fn r_t_vec_f64(tag: u64, x: Vec<f64>) -> Result<Vec<f64>>;
        fn r_take_vec_f64(tag: u64, x: Vec<f64>);
        fn r_ttake_vec_f64(tag: u64, x: Vec<f64>) -> Result<()>;
        fn r_ret_vec_f64(tag: u64) -> Vec<f64>;
        fn r_tret_vec_f64(tag: u64) -> Result<Vec<f64>>;
        fn r_x_vec_usize(tag: u64, x: Vec<usize>) -> Vec<usize>;
        fn r_t_vec_usize(tag: u64, x: Vec<usize>) -> Result<Vec<usize>>;
        fn r_take_vec_usize(tag: u64, x: Vec<usize>);
        fn r_ttake_vec_usize(tag: u64, x: Vec<usize>) -> Result<()>;
        fn r_ret_vec_usize(tag: u64) -> Vec<usize>;
        fn r_tret_vec_usize(tag: u64) -> Result<Vec<usize>>;
        fn r_x_vec_tok(tag: u64, x: Vec<Tok>) -> Vec<Tok>;
        fn r_t_vec_tok(tag: u64, x: Vec<Tok>) -> Result<Vec<Tok>>;
        fn r_take_vec_tok(tag: u64, x: Vec<Tok>);
        fn r_ttake_vec_tok(tag: u64, x: Vec<Tok>) -> Result<()>;
        fn r_ret_vec_tok(tag: u64) -> Vec<Tok>;
        fn r_tret_vec_tok(tag: u64) -> Result<Vec<Tok>>;
        fn r_x_vec_robj(tag: u64, x: Vec<RObj>) -> Vec<RObj>;
        fn r_t_vec_robj(tag: u64, x: Vec<RObj>) -> Result<Vec<RObj>>;
        fn r_take_vec_robj(tag: u64, x: Vec<RObj>);
        fn r_ttake_vec_robj(tag: u64, x: Vec<RObj>) -> Result<()>;
        fn r_ret_vec_robj(tag: u64) -> Vec<RObj>;
        fn r_tret_vec_robj(tag: u64) -> Result<Vec<RObj>>;
        fn rm_x_u32(self: &mut RObj, tag: u64, x: u32) -> u32;
        fn rm_t_u32(self: &RObj, tag: u64, x: u32) -> Result<u32>;
        fn rsm_t_u32(self: &mut Txt, tag: u64, x: u32) -> Result<u32>;
        fn rm_x_txt(self: &mut RObj, tag: u64, x: Txt) -> Txt;
        fn rm_t_txt(self: &RObj, tag: u64, x: Txt) -> Result<Txt>;
        fn rsm_t_txt(self: &mut Txt, tag: u64, x: Txt) -> Result<Txt>;
        fn rm_x_rec(self: &mut RObj, tag: u64, x: Rec) -> Rec;
        fn rm_t_rec(self: &RObj, tag: u64, x: Rec) -> Result<Rec>;
        fn rsm_t_rec(self: &mut Txt, tag: u64, x: Rec) -> Result<Rec>;
        fn rm_x_tok(self: &mut RObj, tag: u64, x: Tok) -> Tok;
        fn rm_t_tok(self: &RObj, tag: u64, x: Tok) -> Result<Tok>;
        fn rsm_t_tok(self: &mut Txt, tag: u64, x: Tok) -> Result<Tok>;
        fn rm_x_box_robj(self: &mut RObj, tag: u64, x: Box<RObj>) -> Box<RObj>;
        fn rm_t_box_robj(self: &RObj, tag: u64, x: Box<RObj>) -> Result<Box<RObj>>;
        fn rsm_t_box_robj(self: &mut Txt, tag: u64, x: Box<RObj>) -> Result<Box<RObj>>;
        fn rm_x_up_obj(self: &mut RObj, tag: u64, x: UniquePtr<Obj>) -> UniquePtr<Obj>;
        fn rm_t_up_obj(self: &RObj, tag: u64, x: UniquePtr<Obj>) -> Result<UniquePtr<Obj>>;
        fn rsm_t_up_obj(self: &mut Txt, tag: u64, x: UniquePtr<Obj>) -> Result<UniquePtr<Obj>>;
        fn rm_x_sp_obj(self: &mut RObj, tag: u64, x: SharedPtr<Obj>) -> SharedPtr<Obj>;
        fn rm_t_sp_obj(self: &RObj, tag: u64, x: SharedPtr<Obj>) -> Result<SharedPtr<Obj>>;
        fn rsm_t_sp_obj(self: &mut Txt, tag: u64, x: SharedPtr<Obj>) -> Result<SharedPtr<Obj>>;
        fn rm_x_string(self: &mut RObj, tag: u64, x: String) -> String;
        fn rm_t_string(self: &RObj, tag: u64, x: String) -> Result<String>;
        fn rsm_t_string(self: &mut Txt, tag: u64, x: String) -> Result<String>;
        fn rm_x_vec_txt(self: &mut RObj, tag: u64, x: Vec<Txt>) -> Vec<Txt>;
        fn rm_t_vec_txt(self: &RObj, tag: u64, x: Vec<Txt>) -> Result<Vec<Txt>>;
        fn rsm_t_vec_txt(self: &mut Txt, tag: u64, x: Vec<Txt>) -> Result<Vec<Txt>>;
        fn r_ref_txt(tag: u64, x: &Txt) -> &Txt;
        unsafe fn r_tref_txt<'a>(tag: u64, x: &'a Txt) -> Result<&'a Txt>;
        fn r_mut_txt(tag: u64, x: &mut Txt) -> &mut Txt;
        unsafe fn r_tmut_txt<'a>(tag: u64, x: &'a mut Txt) -> Result<&'a mut Txt>;
        fn r_ref_rec(tag: u64, x: &Rec) -> &Rec;
        unsafe fn r_tref_rec<'a>(tag: u64, x: &'a Rec) -> Result<&'a Rec>;
        fn r_mut_rec(tag: u64, x: &mut Rec) -> &mut Rec;
        unsafe fn r_tmut_rec<'a>(tag: u64, x: &'a mut Rec) -> Result<&'a mut Rec>;
        fn r_ref_pod(tag: u64, x: &Pod) -> &Pod;
        unsafe fn r_tref_pod<'a>(tag: u64, x: &'a Pod) -> Result<&'a Pod>;
        fn r_mut_pod(tag: u64, x: &mut Pod) -> &mut Pod;
        unsafe fn r_tmut_pod<'a>(tag: u64, x: &'a mut Pod) -> Result<&'a mut Pod>;
        fn r_ref_u64(tag: u64, x: &u64) -> &u64;
        unsafe fn r_tref_u64<'a>(tag: u64, x: &'a u64) -> Result<&'a u64>;
        fn r_mut_u64(tag: u64, x: &mut u64) -> &mut u64;
        unsafe fn r_tmut_u64<'a>(tag: u64, x: &'a mut u64) -> Result<&'a mut u64>;
        fn r_ref_robj(tag: u64, x: &RObj) -> &RObj;
        unsafe fn r_tref_robj<'a>(tag: u64, x: &'a RObj) -> Result<&'a RObj>;
        fn r_mut_robj(tag: u64, x: &mut RObj) -> &mut RObj;
        unsafe fn r_tmut_robj<'a>(tag: u64, x: &'a mut RObj) -> Result<&'a mut RObj>;
        fn r_ref_obj(tag: u64, x: &Obj) -> &Obj;
        unsafe fn r_tref_obj<'a>(tag: u64, x: &'a Obj) -> Result<&'a Obj>;
        fn r_mut_obj(tag: u64, x: Pin<&mut Obj>) -> Pin<&mut Obj>;
        unsafe fn r_tmut_obj<'a>(tag: u64, x: Pin<&'a mut Obj>) -> Result<Pin<&'a mut Obj>>;
        fn r_ref_string(tag: u64, x: &String) -> &String;
        unsafe fn r_tref_string<'a>(tag: u64, x: &'a String) -> Result<&'a String>;
        fn r_mut_string(tag: u64, x: &mut String) -> &mut String;
        unsafe fn r_tmut_string<'a>(tag: u64, x: &'a mut String) -> Result<&'a mut String>;
        fn r_ref_vec_u8(tag: u64, x: &Vec<u8>) -> &Vec<u8>;
        unsafe fn r_tref_vec_u8<'a>(tag: u64, x: &'a Vec<u8>) -> Result<&'a Vec<u8>>;
        fn r_mut_vec_u8(tag: u64, x: &mut Vec<u8>) -> &mut Vec<u8>;
        unsafe fn r_tmut_vec_u8<'a>(tag: u64, x: &'a mut Vec<u8>) -> Result<&'a mut Vec<u8>>;
        fn r_ref_vec_txt(tag: u64, x: &Vec<Txt>) -> &Vec<Txt>;
        unsafe fn r_tref_vec_txt<'a>(tag: u64, x: &'a Vec<Txt>) -> Result<&'a Vec<Txt>>;
        fn r_mut_vec_txt(tag: u64, x: &mut Vec<Txt>) -> &mut Vec<Txt>;
        unsafe fn r_tmut_vec_txt<'a>(tag: u64, x: &'a mut Vec<Txt>) -> Result<&'a mut Vec<Txt>>;
        fn r_ref_vec_str(tag: u64, x: &Vec<String>) -> &Vec<String>;
        unsafe fn r_tref_vec_str<'a>(tag: u64, x: &'a Vec<String>) -> Result<&'a Vec<String>>;
        fn r_mut_vec_str(tag: u64, x: &mut Vec<String>) -> &mut Vec<String>;
        unsafe fn r_tmut_vec_str<'a>(tag: u64, x: &'a mut Vec<String>) -> Result<&'a mut Vec<String>>;
        fn r_ref_cstr(tag: u64, x: &CxxString) -> &CxxString;
        unsafe fn r_tref_cstr<'a>(tag: u64, x: &'a CxxString) -> Result<&'a CxxString>;
        fn r_mut_cstr(tag: u64, x: Pin<&mut CxxString>) -> Pin<&mut CxxString>;
        unsafe fn r_tmut_cstr<'a>(tag: u64, x: Pin<&'a mut CxxString>) -> Result<Pin<&'a mut CxxString>>;
        fn r_ref_cvu8(tag: u64, x: &CxxVector<u8>) -> &CxxVector<u8>;
        unsafe fn r_tref_cvu8<'a>(tag: u64, x: &'a CxxVector<u8>) -> Result<&'a CxxVector<u8>>;
        fn r_mut_cvu8(tag: u64, x: Pin<&mut CxxVector<u8>>) -> Pin<&mut CxxVector<u8>>;
        unsafe fn r_tmut_cvu8<'a>(tag: u64, x: Pin<&'a mut CxxVector<u8>>) -> Result<Pin<&'a mut CxxVector<u8>>>;
        fn r_ref_cvstr(tag: u64, x: &CxxVector<CxxString>) -> &CxxVector<CxxString>;
        unsafe fn r_tref_cvstr<'a>(tag: u64, x: &'a CxxVector<CxxString>) -> Result<&'a CxxVector<CxxString>>;
        fn r_mut_cvstr(tag: u64, x: Pin<&mut CxxVector<CxxString>>) -> Pin<&mut CxxVector<CxxString>>;
        unsafe fn r_tmut_cvstr<'a>(tag: u64, x: Pin<&'a mut CxxVector<CxxString>>) -> Result<Pin<&'a mut CxxVector<CxxString>>>;
        fn r_ref_cvobj(tag: u64, x: &CxxVector<Obj>) -> &CxxVector<Obj>;
        unsafe fn r_tref_cvobj<'a>(tag: u64, x: &'a CxxVector<Obj>) -> Result<&'a CxxVector<Obj>>;
        fn r_mut_cvobj(tag: u64, x: Pin<&mut CxxVector<Obj>>) -> Pin<&mut CxxVector<Obj>>;
        unsafe fn r_tmut_cvobj<'a>(tag: u64, x: Pin<&'a mut CxxVector<Obj>>) -> Result<Pin<&'a mut CxxVector<Obj>>>;
        fn r_ref_sp_obj(tag: u64, x: &SharedPtr<Obj>) -> &SharedPtr<Obj>;
        unsafe fn r_tref_sp_obj<'a>(tag: u64, x: &'a SharedPtr<Obj>) -> Result<&'a SharedPtr<Obj>>;
        fn r_mut_sp_obj(tag: u64, x: &mut SharedPtr<Obj>) -> &mut SharedPtr<Obj>;
        unsafe fn r_tmut_sp_obj<'a>(tag: u64, x: &'a mut SharedPtr<Obj>) -> Result<&'a mut SharedPtr<Obj>>;
        fn r_ref_up_obj(tag: u64, x: &UniquePtr<Obj>) -> &UniquePtr<Obj>;
        unsafe fn r_tref_up_obj<'a>(tag: u64, x: &'a UniquePtr<Obj>) -> Result<&'a UniquePtr<Obj>>;
        fn r_mut_up_obj(tag: u64, x: &mut UniquePtr<Obj>) -> &mut UniquePtr<Obj>;
        unsafe fn r_tmut_up_obj<'a>(tag: u64, x: &'a mut UniquePtr<Obj>) -> Result<&'a mut UniquePtr<Obj>>;
        fn r_ref_box_robj(tag: u64, x: &Box<RObj>) -> &Box<RObj>;
        unsafe fn r_tref_box_robj<'a>(tag: u64, x: &'a Box<RObj>) -> Result<&'a Box<RObj>>;
        fn r_mut_box_robj(tag: u64, x: &mut Box<RObj>) -> &mut Box<RObj>;
        unsafe fn r_tmut_box_robj<'a>(tag: u64, x: &'a mut Box<RObj>) -> Result<&'a mut Box<RObj>>;
        fn r_ref_tok(tag: u64, x: &Tok) -> &Tok;
        unsafe fn r_tref_tok<'a>(tag: u64, x: &'a Tok) -> Result<&'a Tok>;
        fn r_mut_tok(tag: u64, x: &mut Tok) -> &mut Tok;
        unsafe fn r_tmut_tok<'a>(tag: u64, x: &'a mut Tok) -> Result<&'a mut Tok>;
        fn r_sl_u8(tag: u64, x: &[u8]) -> &[u8];
        unsafe fn r_tsl_u8<'a>(tag: u64, x: &'a [u8]) -> Result<&'a [u8]>;
        fn r_msl_u8(tag: u64, x: &mut [u8]) -> &mut [u8];
        unsafe fn r_tmsl_u8<'a>(tag: u64, x: &'a mut [u8]) -> Result<&'a mut [u8]>;
        fn r_sl_string(tag: u64, x: &[String]) -> &[String];
        unsafe fn r_tsl_string<'a>(tag: u64, x: &'a [String]) -> Result<&'a [String]>;
        fn r_msl_string(tag: u64, x: &mut [String]) -> &mut [String];
        unsafe fn r_tmsl_string<'a>(tag: u64, x: &'a mut [String]) -> Result<&'a mut [String]>;
        fn r_sl_txt(tag: u64, x: &[Txt]) -> &[Txt];
        unsafe fn r_tsl_txt<'a>(tag: u64, x: &'a [Txt]) -> Result<&'a [Txt]>;
        fn r_msl_txt(tag: u64, x: &mut [Txt]) -> &mut [Txt];
        unsafe fn r_tmsl_txt<'a>(tag: u64, x: &'a mut [Txt]) -> Result<&'a mut [Txt]>;
        fn r_sl_pod(tag: u64, x: &[Pod]) -> &[Pod];
        unsafe fn r_tsl_pod<'a>(tag: u64, x: &'a [Pod]) -> Result<&'a [Pod]>;
        fn r_msl_pod(tag: u64, x: &mut [Pod]) -> &mut [Pod];
        unsafe fn r_tmsl_pod<'a>(tag: u64, x: &'a mut [Pod]) -> Result<&'a mut [Pod]>;
        fn r_sl_usize(tag: u64, x: &[usize]) -> &[usize];
        unsafe fn r_tsl_usize<'a>(tag: u64, x: &'a [usize]) -> Result<&'a [usize]>;
        fn r_msl_usize(tag: u64, x: &mut [usize]) -> &mut [usize];
        unsafe fn r_tmsl_usize<'a>(tag: u64, x: &'a mut [usize]) -> Result<&'a mut [usize]>;
        fn r_sl_f64(tag: u64, x: &[f64]) -> &[f64];
        unsafe fn r_tsl_f64<'a>(tag: u64, x: &'a [f64]) -> Result<&'a [f64]>;
        fn r_msl_f64(tag: u64, x: &mut [f64]) -> &mut [f64];
        unsafe fn r_tmsl_f64<'a>(tag: u64, x: &'a mut [f64]) -> Result<&'a mut [f64]>;
        fn r_sl_robj(tag: u64, x: &[RObj]) -> &[RObj];
        unsafe fn r_tsl_robj<'a>(tag: u64, x: &'a [RObj]) -> Result<&'a [RObj]>;
        fn r_msl_robj(tag: u64, x: &mut [RObj]) -> &mut [RObj];
        unsafe fn r_tmsl_robj<'a>(tag: u64, x: &'a mut [RObj]) -> Result<&'a mut [RObj]>;
        fn r_sl_tok(tag: u64, x: &[Tok]) -> &[Tok];
        unsafe fn r_tsl_tok<'a>(tag: u64, x: &'a [Tok]) -> Result<&'a [Tok]>;
        fn r_msl_tok(tag: u64, x: &mut [Tok]) -> &mut [Tok];
        unsafe fn r_tmsl_tok<'a>(tag: u64, x: &'a mut [Tok]) -> Result<&'a mut [Tok]>;
        fn r_str(tag: u64, x: &str) -> &str;
        unsafe fn r_tstr<'a>(tag: u64, x: &'a str) -> Result<&'a str>;
        fn r_multi(tag: u64, a0: i8, a1: String, a2: Box<RObj>, a3: UniquePtr<Obj>, a4: Txt, a5: f64, a6: Vec<String>, a7: SharedPtr<Obj>, a8: Tok, a9: Color, a10: bool, a11: Rec, a12: f32, a13: Vec<Tok>, a14: u16, s: &str, r: &RObj, t: &Txt, sl: &[String]) -> Rec;
        fn r_tmulti(tag: u64, a0: i8, a1: String, a2: Box<RObj>, a3: UniquePtr<Obj>, a4: Txt, a5: f64, a6: Vec<String>, a7: SharedPtr<Obj>, a8: Tok, a9: Color, a10: bool, a11: Rec, a12: f32, a13: Vec<Tok>, a14: u16, s: &str, r: &RObj, t: &Txt, sl: &[String]) -> Result<Rec>;
    }
    impl CxxVector<Txt> {}
    impl CxxVector<Pod> {}
    impl Box<Txt> {}
    impl UniquePtr<Pod> {}
    impl UniquePtr<Txt> {}
    impl SharedPtr<Pod> {}
    impl WeakPtr<Pod> {}
    impl SharedPtr<Txt> {}
    impl WeakPtr<Txt> {}
    impl Vec<Txt> {}
    impl Vec<Tok> {}
}
