// generated by gen.py
use crate::user::*;
use crate::user::{RObj, Tok};
use crate::ffi::*;
use crate::calls::*;
use cxx::{CxxString, CxxVector, SharedPtr, UniquePtr, WeakPtr};
use std::pin::Pin;
use std::os::raw::c_char;
pub fn r_x_u8(tag: u64, x: u8) -> u8 { callee_x(tag, x) }
pub fn r_t_u8(tag: u64, x: u8) -> Result<u8, RErr> { callee_t(tag, x) }
pub fn r_take_u8(tag: u64, x: u8) { callee_take(tag, x) }
pub fn r_ttake_u8(tag: u64, x: u8) -> Result<(), RErr> { callee_ttake(tag, x) }
pub fn r_ret_u8(tag: u64) -> u8 { callee_ret(tag) }
pub fn r_tret_u8(tag: u64) -> Result<u8, RErr> { callee_tret(tag) }
pub fn r_x_i8(tag: u64, x: i8) -> i8 { callee_x(tag, x) }
pub fn r_x_u16(tag: u64, x: u16) -> u16 { callee_x(tag, x) }
pub fn r_x_i16(tag: u64, x: i16) -> i16 { callee_x(tag, x) }
pub fn r_x_u32(tag: u64, x: u32) -> u32 { callee_x(tag, x) }
pub fn r_x_i32(tag: u64, x: i32) -> i32 { callee_x(tag, x) }
pub fn r_x_u64(tag: u64, x: u64) -> u64 { callee_x(tag, x) }
pub fn r_x_i64(tag: u64, x: i64) -> i64 { callee_x(tag, x) }
pub fn r_t_i64(tag: u64, x: i64) -> Result<i64, RErr> { callee_t(tag, x) }
pub fn r_take_i64(tag: u64, x: i64) { callee_take(tag, x) }
pub fn r_ttake_i64(tag: u64, x: i64) -> Result<(), RErr> { callee_ttake(tag, x) }
pub fn r_ret_i64(tag: u64) -> i64 { callee_ret(tag) }
pub fn r_tret_i64(tag: u64) -> Result<i64, RErr> { callee_tret(tag) }
pub fn r_x_usize(tag: u64, x: usize) -> usize { callee_x(tag, x) }
pub fn r_x_isize(tag: u64, x: isize) -> isize { callee_x(tag, x) }
pub fn r_x_f32(tag: u64, x: f32) -> f32 { callee_x(tag, x) }
pub fn r_t_f32(tag: u64, x: f32) -> Result<f32, RErr> { callee_t(tag, x) }
pub fn r_take_f32(tag: u64, x: f32) { callee_take(tag, x) }
pub fn r_ttake_f32(tag: u64, x: f32) -> Result<(), RErr> { callee_ttake(tag, x) }
pub fn r_ret_f32(tag: u64) -> f32 { callee_ret(tag) }
pub fn r_tret_f32(tag: u64) -> Result<f32, RErr> { callee_tret(tag) }
pub fn r_x_f64(tag: u64, x: f64) -> f64 { callee_x(tag, x) }
pub fn r_x_bool(tag: u64, x: bool) -> bool { callee_x(tag, x) }
pub fn r_t_bool(tag: u64, x: bool) -> Result<bool, RErr> { callee_t(tag, x) }
pub fn r_take_bool(tag: u64, x: bool) { callee_take(tag, x) }
pub fn r_ttake_bool(tag: u64, x: bool) -> Result<(), RErr> { callee_ttake(tag, x) }
pub fn r_ret_bool(tag: u64) -> bool { callee_ret(tag) }
pub fn r_tret_bool(tag: u64) -> Result<bool, RErr> { callee_tret(tag) }
pub fn r_x_chr(tag: u64, x: c_char) -> c_char { callee_x(tag, x) }
pub fn r_x_pod(tag: u64, x: Pod) -> Pod { callee_x(tag, x) }
pub fn r_t_pod(tag: u64, x: Pod) -> Result<Pod, RErr> { callee_t(tag, x) }
pub fn r_take_pod(tag: u64, x: Pod) { callee_take(tag, x) }
pub fn r_ttake_pod(tag: u64, x: Pod) -> Result<(), RErr> { callee_ttake(tag, x) }
pub fn r_ret_pod(tag: u64) -> Pod { callee_ret(tag) }
pub fn r_tret_pod(tag: u64) -> Result<Pod, RErr> { callee_tret(tag) }
pub fn r_x_color(tag: u64, x: Color) -> Color { callee_x(tag, x) }
pub fn r_t_color(tag: u64, x: Color) -> Result<Color, RErr> { callee_t(tag, x) }
pub fn r_take_color(tag: u64, x: Color) { callee_take(tag, x) }
pub fn r_ttake_color(tag: u64, x: Color) -> Result<(), RErr> { callee_ttake(tag, x) }
pub fn r_ret_color(tag: u64) -> Color { callee_ret(tag) }
pub fn r_tret_color(tag: u64) -> Result<Color, RErr> { callee_tret(tag) }
pub fn r_x_txt(tag: u64, x: Txt) -> Txt { callee_x(tag, x) }
pub fn r_t_txt(tag: u64, x: Txt) -> Result<Txt, RErr> { callee_t(tag, x) }
pub fn r_take_txt(tag: u64, x: Txt) { callee_take(tag, x) }
pub fn r_ttake_txt(tag: u64, x: Txt) -> Result<(), RErr> { callee_ttake(tag, x) }
pub fn r_ret_txt(tag: u64) -> Txt { callee_ret(tag) }
pub fn r_tret_txt(tag: u64) -> Result<Txt, RErr> { callee_tret(tag) }
pub fn r_x_rec(tag: u64, x: Rec) -> Rec { callee_x(tag, x) }
pub fn r_t_rec(tag: u64, x: Rec) -> Result<Rec, RErr> { callee_t(tag, x) }
pub fn r_take_rec(tag: u64, x: Rec) { callee_take(tag, x) }
pub fn r_ttake_rec(tag: u64, x: Rec) -> Result<(), RErr> { callee_ttake(tag, x) }
pub fn r_ret_rec(tag: u64) -> Rec { callee_ret(tag) }
pub fn r_tret_rec(tag: u64) -> Result<Rec, RErr> { callee_tret(tag) }
pub fn r_x_tok(tag: u64, x: Tok) -> Tok { callee_x(tag, x) }
pub fn r_t_tok(tag: u64, x: Tok) -> Result<Tok, RErr> { callee_t(tag, x) }
pub fn r_take_tok(tag: u64, x: Tok) { callee_take(tag, x) }
pub fn r_ttake_tok(tag: u64, x: Tok) -> Result<(), RErr> { callee_ttake(tag, x) }
pub fn r_ret_tok(tag: u64) -> Tok { callee_ret(tag) }
pub fn r_tret_tok(tag: u64) -> Result<Tok, RErr> { callee_tret(tag) }
pub fn r_x_box_robj(tag: u64, x: Box<RObj>) -> Box<RObj> { callee_x(tag, x) }
pub fn r_t_box_robj(tag: u64, x: Box<RObj>) -> Result<Box<RObj>, RErr> { callee_t(tag, x) }
pub fn r_take_box_robj(tag: u64, x: Box<RObj>) { callee_take(tag, x) }
pub fn r_ttake_box_robj(tag: u64, x: Box<RObj>) -> Result<(), RErr> { callee_ttake(tag, x) }
pub fn r_ret_box_robj(tag: u64) -> Box<RObj> { callee_ret(tag) }
pub fn r_tret_box_robj(tag: u64) -> Result<Box<RObj>, RErr> { callee_tret(tag) }
pub fn r_x_box_txt(tag: u64, x: Box<Txt>) -> Box<Txt> { callee_x(tag, x) }
pub fn r_t_box_txt(tag: u64, x: Box<Txt>) -> Result<Box<Txt>, RErr> { callee_t(tag, x) }
pub fn r_take_box_txt(tag: u64, x: Box<Txt>) { callee_take(tag, x) }
pub fn r_ttake_box_txt(tag: u64, x: Box<Txt>) -> Result<(), RErr> { callee_ttake(tag, x) }
pub fn r_ret_box_txt(tag: u64) -> Box<Txt> { callee_ret(tag) }
pub fn r_tret_box_txt(tag: u64) -> Result<Box<Txt>, RErr> { callee_tret(tag) }
pub fn r_x_up_obj(tag: u64, x: UniquePtr<Obj>) -> UniquePtr<Obj> { callee_x(tag, x) }
pub fn r_t_up_obj(tag: u64, x: UniquePtr<Obj>) -> Result<UniquePtr<Obj>, RErr> { callee_t(tag, x) }
pub fn r_take_up_obj(tag: u64, x: UniquePtr<Obj>) { callee_take(tag, x) }
pub fn r_ttake_up_obj(tag: u64, x: UniquePtr<Obj>) -> Result<(), RErr> { callee_ttake(tag, x) }
pub fn r_ret_up_obj(tag: u64) -> UniquePtr<Obj> { callee_ret(tag) }
pub fn r_tret_up_obj(tag: u64) -> Result<UniquePtr<Obj>, RErr> { callee_tret(tag) }
pub fn r_x_up_str(tag: u64, x: UniquePtr<CxxString>) -> UniquePtr<CxxString> { callee_x(tag, x) }
pub fn r_t_up_str(tag: u64, x: UniquePtr<CxxString>) -> Result<UniquePtr<CxxString>, RErr> { callee_t(tag, x) }
pub fn r_take_up_str(tag: u64, x: UniquePtr<CxxString>) { callee_take(tag, x) }
pub fn r_ttake_up_str(tag: u64, x: UniquePtr<CxxString>) -> Result<(), RErr> { callee_ttake(tag, x) }
pub fn r_ret_up_str(tag: u64) -> UniquePtr<CxxString> { callee_ret(tag) }
pub fn r_tret_up_str(tag: u64) -> Result<UniquePtr<CxxString>, RErr> { callee_tret(tag) }
pub fn r_x_up_pod(tag: u64, x: UniquePtr<Pod>) -> UniquePtr<Pod> { callee_x(tag, x) }
pub fn r_t_up_pod(tag: u64, x: UniquePtr<Pod>) -> Result<UniquePtr<Pod>, RErr> { callee_t(tag, x) }
pub fn r_take_up_pod(tag: u64, x: UniquePtr<Pod>) { callee_take(tag, x) }
pub fn r_ttake_up_pod(tag: u64, x: UniquePtr<Pod>) -> Result<(), RErr> { callee_ttake(tag, x) }
pub fn r_ret_up_pod(tag: u64) -> UniquePtr<Pod> { callee_ret(tag) }
pub fn r_tret_up_pod(tag: u64) -> Result<UniquePtr<Pod>, RErr> { callee_tret(tag) }
pub fn r_x_up_txt(tag: u64, x: UniquePtr<Txt>) -> UniquePtr<Txt> { callee_x(tag, x) }
pub fn r_t_up_txt(tag: u64, x: UniquePtr<Txt>) -> Result<UniquePtr<Txt>, RErr> { callee_t(tag, x) }
pub fn r_take_up_txt(tag: u64, x: UniquePtr<Txt>) { callee_take(tag, x) }
pub fn r_ttake_up_txt(tag: u64, x: UniquePtr<Txt>) -> Result<(), RErr> { callee_ttake(tag, x) }
pub fn r_ret_up_txt(tag: u64) -> UniquePtr<Txt> { callee_ret(tag) }
pub fn r_tret_up_txt(tag: u64) -> Result<UniquePtr<Txt>, RErr> { callee_tret(tag) }
pub fn r_x_up_vu8(tag: u64, x: UniquePtr<CxxVector<u8>>) -> UniquePtr<CxxVector<u8>> { callee_x(tag, x) }
pub fn r_t_up_vu8(tag: u64, x: UniquePtr<CxxVector<u8>>) -> Result<UniquePtr<CxxVector<u8>>, RErr> { callee_t(tag, x) }
pub fn r_take_up_vu8(tag: u64, x: UniquePtr<CxxVector<u8>>) { callee_take(tag, x) }
pub fn r_ttake_up_vu8(tag: u64, x: UniquePtr<CxxVector<u8>>) -> Result<(), RErr> { callee_ttake(tag, x) }
pub fn r_ret_up_vu8(tag: u64) -> UniquePtr<CxxVector<u8>> { callee_ret(tag) }
pub fn r_tret_up_vu8(tag: u64) -> Result<UniquePtr<CxxVector<u8>>, RErr> { callee_tret(tag) }
pub fn r_x_up_vf64(tag: u64, x: UniquePtr<CxxVector<f64>>) -> UniquePtr<CxxVector<f64>> { callee_x(tag, x) }
pub fn r_t_up_vf64(tag: u64, x: UniquePtr<CxxVector<f64>>) -> Result<UniquePtr<CxxVector<f64>>, RErr> { callee_t(tag, x) }
pub fn r_take_up_vf64(tag: u64, x: UniquePtr<CxxVector<f64>>) { callee_take(tag, x) }
pub fn r_ttake_up_vf64(tag: u64, x: UniquePtr<CxxVector<f64>>) -> Result<(), RErr> { callee_ttake(tag, x) }
pub fn r_ret_up_vf64(tag: u64) -> UniquePtr<CxxVector<f64>> { callee_ret(tag) }
pub fn r_tret_up_vf64(tag: u64) -> Result<UniquePtr<CxxVector<f64>>, RErr> { callee_tret(tag) }
pub fn r_x_up_vstr(tag: u64, x: UniquePtr<CxxVector<CxxString>>) -> UniquePtr<CxxVector<CxxString>> { callee_x(tag, x) }
pub fn r_t_up_vstr(tag: u64, x: UniquePtr<CxxVector<CxxString>>) -> Result<UniquePtr<CxxVector<CxxString>>, RErr> { callee_t(tag, x) }
pub fn r_take_up_vstr(tag: u64, x: UniquePtr<CxxVector<CxxString>>) { callee_take(tag, x) }
pub fn r_ttake_up_vstr(tag: u64, x: UniquePtr<CxxVector<CxxString>>) -> Result<(), RErr> { callee_ttake(tag, x) }
pub fn r_ret_up_vstr(tag: u64) -> UniquePtr<CxxVector<CxxString>> { callee_ret(tag) }
pub fn r_tret_up_vstr(tag: u64) -> Result<UniquePtr<CxxVector<CxxString>>, RErr> { callee_tret(tag) }
pub fn r_x_up_vobj(tag: u64, x: UniquePtr<CxxVector<Obj>>) -> UniquePtr<CxxVector<Obj>> { callee_x(tag, x) }
pub fn r_t_up_vobj(tag: u64, x: UniquePtr<CxxVector<Obj>>) -> Result<UniquePtr<CxxVector<Obj>>, RErr> { callee_t(tag, x) }
pub fn r_take_up_vobj(tag: u64, x: UniquePtr<CxxVector<Obj>>) { callee_take(tag, x) }
pub fn r_ttake_up_vobj(tag: u64, x: UniquePtr<CxxVector<Obj>>) -> Result<(), RErr> { callee_ttake(tag, x) }
pub fn r_ret_up_vobj(tag: u64) -> UniquePtr<CxxVector<Obj>> { callee_ret(tag) }
pub fn r_tret_up_vobj(tag: u64) -> Result<UniquePtr<CxxVector<Obj>>, RErr> { callee_tret(tag) }
pub fn r_x_up_vtxt(tag: u64, x: UniquePtr<CxxVector<Txt>>) -> UniquePtr<CxxVector<Txt>> { callee_x(tag, x) }
pub fn r_t_up_vtxt(tag: u64, x: UniquePtr<CxxVector<Txt>>) -> Result<UniquePtr<CxxVector<Txt>>, RErr> { callee_t(tag, x) }
pub fn r_take_up_vtxt(tag: u64, x: UniquePtr<CxxVector<Txt>>) { callee_take(tag, x) }
pub fn r_ttake_up_vtxt(tag: u64, x: UniquePtr<CxxVector<Txt>>) -> Result<(), RErr> { callee_ttake(tag, x) }
pub fn r_ret_up_vtxt(tag: u64) -> UniquePtr<CxxVector<Txt>> { callee_ret(tag) }
pub fn r_tret_up_vtxt(tag: u64) -> Result<UniquePtr<CxxVector<Txt>>, RErr> { callee_tret(tag) }
pub fn r_x_sp_obj(tag: u64, x: SharedPtr<Obj>) -> SharedPtr<Obj> { callee_x(tag, x) }
pub fn r_t_sp_obj(tag: u64, x: SharedPtr<Obj>) -> Result<SharedPtr<Obj>, RErr> { callee_t(tag, x) }
pub fn r_take_sp_obj(tag: u64, x: SharedPtr<Obj>) { callee_take(tag, x) }
pub fn r_ttake_sp_obj(tag: u64, x: SharedPtr<Obj>) -> Result<(), RErr> { callee_ttake(tag, x) }
pub fn r_ret_sp_obj(tag: u64) -> SharedPtr<Obj> { callee_ret(tag) }
pub fn r_tret_sp_obj(tag: u64) -> Result<SharedPtr<Obj>, RErr> { callee_tret(tag) }
pub fn r_x_sp_pod(tag: u64, x: SharedPtr<Pod>) -> SharedPtr<Pod> { callee_x(tag, x) }
pub fn r_t_sp_pod(tag: u64, x: SharedPtr<Pod>) -> Result<SharedPtr<Pod>, RErr> { callee_t(tag, x) }
pub fn r_take_sp_pod(tag: u64, x: SharedPtr<Pod>) { callee_take(tag, x) }
pub fn r_ttake_sp_pod(tag: u64, x: SharedPtr<Pod>) -> Result<(), RErr> { callee_ttake(tag, x) }
pub fn r_ret_sp_pod(tag: u64) -> SharedPtr<Pod> { callee_ret(tag) }
pub fn r_tret_sp_pod(tag: u64) -> Result<SharedPtr<Pod>, RErr> { callee_tret(tag) }
pub fn r_x_sp_str(tag: u64, x: SharedPtr<CxxString>) -> SharedPtr<CxxString> { callee_x(tag, x) }
pub fn r_t_sp_str(tag: u64, x: SharedPtr<CxxString>) -> Result<SharedPtr<CxxString>, RErr> { callee_t(tag, x) }
pub fn r_take_sp_str(tag: u64, x: SharedPtr<CxxString>) { callee_take(tag, x) }
pub fn r_ttake_sp_str(tag: u64, x: SharedPtr<CxxString>) -> Result<(), RErr> { callee_ttake(tag, x) }
pub fn r_ret_sp_str(tag: u64) -> SharedPtr<CxxString> { callee_ret(tag) }
pub fn r_tret_sp_str(tag: u64) -> Result<SharedPtr<CxxString>, RErr> { callee_tret(tag) }
pub fn r_x_sp_u64(tag: u64, x: SharedPtr<u64>) -> SharedPtr<u64> { callee_x(tag, x) }
pub fn r_t_sp_u64(tag: u64, x: SharedPtr<u64>) -> Result<SharedPtr<u64>, RErr> { callee_t(tag, x) }
pub fn r_take_sp_u64(tag: u64, x: SharedPtr<u64>) { callee_take(tag, x) }
pub fn r_ttake_sp_u64(tag: u64, x: SharedPtr<u64>) -> Result<(), RErr> { callee_ttake(tag, x) }
pub fn r_ret_sp_u64(tag: u64) -> SharedPtr<u64> { callee_ret(tag) }
pub fn r_tret_sp_u64(tag: u64) -> Result<SharedPtr<u64>, RErr> { callee_tret(tag) }
pub fn r_x_wp_obj(tag: u64, x: WeakPtr<Obj>) -> WeakPtr<Obj> { callee_x(tag, x) }
pub fn r_t_wp_obj(tag: u64, x: WeakPtr<Obj>) -> Result<WeakPtr<Obj>, RErr> { callee_t(tag, x) }
pub fn r_take_wp_obj(tag: u64, x: WeakPtr<Obj>) { callee_take(tag, x) }
pub fn r_ttake_wp_obj(tag: u64, x: WeakPtr<Obj>) -> Result<(), RErr> { callee_ttake(tag, x) }
pub fn r_ret_wp_obj(tag: u64) -> WeakPtr<Obj> { callee_ret(tag) }
pub fn r_tret_wp_obj(tag: u64) -> Result<WeakPtr<Obj>, RErr> { callee_tret(tag) }
pub fn r_x_string(tag: u64, x: String) -> String { callee_x(tag, x) }
pub fn r_t_string(tag: u64, x: String) -> Result<String, RErr> { callee_t(tag, x) }
pub fn r_take_string(tag: u64, x: String) { callee_take(tag, x) }
pub fn r_ttake_string(tag: u64, x: String) -> Result<(), RErr> { callee_ttake(tag, x) }
pub fn r_ret_string(tag: u64) -> String { callee_ret(tag) }
pub fn r_tret_string(tag: u64) -> Result<String, RErr> { callee_tret(tag) }
pub fn r_x_vec_u8(tag: u64, x: Vec<u8>) -> Vec<u8> { callee_x(tag, x) }
pub fn r_t_vec_u8(tag: u64, x: Vec<u8>) -> Result<Vec<u8>, RErr> { callee_t(tag, x) }
pub fn r_take_vec_u8(tag: u64, x: Vec<u8>) { callee_take(tag, x) }
pub fn r_ttake_vec_u8(tag: u64, x: Vec<u8>) -> Result<(), RErr> { callee_ttake(tag, x) }
pub fn r_ret_vec_u8(tag: u64) -> Vec<u8> { callee_ret(tag) }
pub fn r_tret_vec_u8(tag: u64) -> Result<Vec<u8>, RErr> { callee_tret(tag) }
pub fn r_x_vec_str(tag: u64, x: Vec<String>) -> Vec<String> { callee_x(tag, x) }
pub fn r_t_vec_str(tag: u64, x: Vec<String>) -> Result<Vec<String>, RErr> { callee_t(tag, x) }
pub fn r_take_vec_str(tag: u64, x: Vec<String>) { callee_take(tag, x) }
pub fn r_ttake_vec_str(tag: u64, x: Vec<String>) -> Result<(), RErr> { callee_ttake(tag, x) }
pub fn r_ret_vec_str(tag: u64) -> Vec<String> { callee_ret(tag) }
pub fn r_tret_vec_str(tag: u64) -> Result<Vec<String>, RErr> { callee_tret(tag) }
pub fn r_x_vec_txt(tag: u64, x: Vec<Txt>) -> Vec<Txt> { callee_x(tag, x) }
pub fn r_t_vec_txt(tag: u64, x: Vec<Txt>) -> Result<Vec<Txt>, RErr> { callee_t(tag, x) }
pub fn r_take_vec_txt(tag: u64, x: Vec<Txt>) { callee_take(tag, x) }
pub fn r_ttake_vec_txt(tag: u64, x: Vec<Txt>) -> Result<(), RErr> { callee_ttake(tag, x) }
pub fn r_ret_vec_txt(tag: u64) -> Vec<Txt> { callee_ret(tag) }
pub fn r_tret_vec_txt(tag: u64) -> Result<Vec<Txt>, RErr> { callee_tret(tag) }
pub fn r_x_vec_pod(tag: u64, x: Vec<Pod>) -> Vec<Pod> { callee_x(tag, x) }
pub fn r_t_vec_pod(tag: u64, x: Vec<Pod>) -> Result<Vec<Pod>, RErr> { callee_t(tag, x) }
pub fn r_take_vec_pod(tag: u64, x: Vec<Pod>) { callee_take(tag, x) }
pub fn r_ttake_vec_pod(tag: u64, x: Vec<Pod>) -> Result<(), RErr> { callee_ttake(tag, x) }
pub fn r_ret_vec_pod(tag: u64) -> Vec<Pod> { callee_ret(tag) }
pub fn r_tret_vec_pod(tag: u64) -> Result<Vec<Pod>, RErr> { callee_tret(tag) }
pub fn r_x_vec_bool(tag: u64, x: Vec<bool>) -> Vec<bool> { callee_x(tag, x) }
pub fn r_t_vec_bool(tag: u64, x: Vec<bool>) -> Result<Vec<bool>, RErr> { callee_t(tag, x) }
pub fn r_take_vec_bool(tag: u64, x: Vec<bool>) { callee_take(tag, x) }
pub fn r_ttake_vec_bool(tag: u64, x: Vec<bool>) -> Result<(), RErr> { callee_ttake(tag, x) }
pub fn r_ret_vec_bool(tag: u64) -> Vec<bool> { callee_ret(tag) }
pub fn r_tret_vec_bool(tag: u64) -> Result<Vec<bool>, RErr> { callee_tret(tag) }
pub fn r_x_vec_f64(tag: u64, x: Vec<f64>) -> Vec<f64> { callee_x(tag, x) }
pub fn r_t_vec_f64(tag: u64, x: Vec<f64>) -> Result<Vec<f64>, RErr> { callee_t(tag, x) }
pub fn r_take_vec_f64(tag: u64, x: Vec<f64>) { callee_take(tag, x) }
pub fn r_ttake_vec_f64(tag: u64, x: Vec<f64>) -> Result<(), RErr> { callee_ttake(tag, x) }
pub fn r_ret_vec_f64(tag: u64) -> Vec<f64> { callee_ret(tag) }
pub fn r_tret_vec_f64(tag: u64) -> Result<Vec<f64>, RErr> { callee_tret(tag) }
pub fn r_x_vec_usize(tag: u64, x: Vec<usize>) -> Vec<usize> { callee_x(tag, x) }
pub fn r_t_vec_usize(tag: u64, x: Vec<usize>) -> Result<Vec<usize>, RErr> { callee_t(tag, x) }
pub fn r_take_vec_usize(tag: u64, x: Vec<usize>) { callee_take(tag, x) }
pub fn r_ttake_vec_usize(tag: u64, x: Vec<usize>) -> Result<(), RErr> { callee_ttake(tag, x) }
pub fn r_ret_vec_usize(tag: u64) -> Vec<usize> { callee_ret(tag) }
pub fn r_tret_vec_usize(tag: u64) -> Result<Vec<usize>, RErr> { callee_tret(tag) }
pub fn r_x_vec_tok(tag: u64, x: Vec<Tok>) -> Vec<Tok> { callee_x(tag, x) }
pub fn r_t_vec_tok(tag: u64, x: Vec<Tok>) -> Result<Vec<Tok>, RErr> { callee_t(tag, x) }
pub fn r_take_vec_tok(tag: u64, x: Vec<Tok>) { callee_take(tag, x) }
pub fn r_ttake_vec_tok(tag: u64, x: Vec<Tok>) -> Result<(), RErr> { callee_ttake(tag, x) }
pub fn r_ret_vec_tok(tag: u64) -> Vec<Tok> { callee_ret(tag) }
pub fn r_tret_vec_tok(tag: u64) -> Result<Vec<Tok>, RErr> { callee_tret(tag) }
pub fn r_x_vec_robj(tag: u64, x: Vec<RObj>) -> Vec<RObj> { callee_x(tag, x) }
pub fn r_t_vec_robj(tag: u64, x: Vec<RObj>) -> Result<Vec<RObj>, RErr> { callee_t(tag, x) }
pub fn r_take_vec_robj(tag: u64, x: Vec<RObj>) { callee_take(tag, x) }
pub fn r_ttake_vec_robj(tag: u64, x: Vec<RObj>) -> Result<(), RErr> { callee_ttake(tag, x) }
pub fn r_ret_vec_robj(tag: u64) -> Vec<RObj> { callee_ret(tag) }
pub fn r_tret_vec_robj(tag: u64) -> Result<Vec<RObj>, RErr> { callee_tret(tag) }
impl RObj { pub fn rm_x_u32(&mut self, tag: u64, x: u32) -> u32 { self.self_check(tag); callee_x(tag, x) } pub fn rm_t_u32(&self, tag: u64, x: u32) -> Result<u32, RErr> { self.self_check(tag); callee_t(tag, x) } }
impl Txt { pub fn rsm_t_u32(&mut self, tag: u64, x: u32) -> Result<u32, RErr> { check_at(self, opx(tag) + 5, tag, "self"); callee_t(tag, x) } }
impl RObj { pub fn rm_x_txt(&mut self, tag: u64, x: Txt) -> Txt { self.self_check(tag); callee_x(tag, x) } pub fn rm_t_txt(&self, tag: u64, x: Txt) -> Result<Txt, RErr> { self.self_check(tag); callee_t(tag, x) } }
impl Txt { pub fn rsm_t_txt(&mut self, tag: u64, x: Txt) -> Result<Txt, RErr> { check_at(self, opx(tag) + 5, tag, "self"); callee_t(tag, x) } }
impl RObj { pub fn rm_x_rec(&mut self, tag: u64, x: Rec) -> Rec { self.self_check(tag); callee_x(tag, x) } pub fn rm_t_rec(&self, tag: u64, x: Rec) -> Result<Rec, RErr> { self.self_check(tag); callee_t(tag, x) } }
impl Txt { pub fn rsm_t_rec(&mut self, tag: u64, x: Rec) -> Result<Rec, RErr> { check_at(self, opx(tag) + 5, tag, "self"); callee_t(tag, x) } }
impl RObj { pub fn rm_x_tok(&mut self, tag: u64, x: Tok) -> Tok { self.self_check(tag); callee_x(tag, x) } pub fn rm_t_tok(&self, tag: u64, x: Tok) -> Result<Tok, RErr> { self.self_check(tag); callee_t(tag, x) } }
impl Txt { pub fn rsm_t_tok(&mut self, tag: u64, x: Tok) -> Result<Tok, RErr> { check_at(self, opx(tag) + 5, tag, "self"); callee_t(tag, x) } }
impl RObj { pub fn rm_x_box_robj(&mut self, tag: u64, x: Box<RObj>) -> Box<RObj> { self.self_check(tag); callee_x(tag, x) } pub fn rm_t_box_robj(&self, tag: u64, x: Box<RObj>) -> Result<Box<RObj>, RErr> { self.self_check(tag); callee_t(tag, x) } }
impl Txt { pub fn rsm_t_box_robj(&mut self, tag: u64, x: Box<RObj>) -> Result<Box<RObj>, RErr> { check_at(self, opx(tag) + 5, tag, "self"); callee_t(tag, x) } }
impl RObj { pub fn rm_x_up_obj(&mut self, tag: u64, x: UniquePtr<Obj>) -> UniquePtr<Obj> { self.self_check(tag); callee_x(tag, x) } pub fn rm_t_up_obj(&self, tag: u64, x: UniquePtr<Obj>) -> Result<UniquePtr<Obj>, RErr> { self.self_check(tag); callee_t(tag, x) } }
impl Txt { pub fn rsm_t_up_obj(&mut self, tag: u64, x: UniquePtr<Obj>) -> Result<UniquePtr<Obj>, RErr> { check_at(self, opx(tag) + 5, tag, "self"); callee_t(tag, x) } }
impl RObj { pub fn rm_x_sp_obj(&mut self, tag: u64, x: SharedPtr<Obj>) -> SharedPtr<Obj> { self.self_check(tag); callee_x(tag, x) } pub fn rm_t_sp_obj(&self, tag: u64, x: SharedPtr<Obj>) -> Result<SharedPtr<Obj>, RErr> { self.self_check(tag); callee_t(tag, x) } }
impl Txt { pub fn rsm_t_sp_obj(&mut self, tag: u64, x: SharedPtr<Obj>) -> Result<SharedPtr<Obj>, RErr> { check_at(self, opx(tag) + 5, tag, "self"); callee_t(tag, x) } }
impl RObj { pub fn rm_x_string(&mut self, tag: u64, x: String) -> String { self.self_check(tag); callee_x(tag, x) } pub fn rm_t_string(&self, tag: u64, x: String) -> Result<String, RErr> { self.self_check(tag); callee_t(tag, x) } }
impl Txt { pub fn rsm_t_string(&mut self, tag: u64, x: String) -> Result<String, RErr> { check_at(self, opx(tag) + 5, tag, "self"); callee_t(tag, x) } }
impl RObj { pub fn rm_x_vec_txt(&mut self, tag: u64, x: Vec<Txt>) -> Vec<Txt> { self.self_check(tag); callee_x(tag, x) } pub fn rm_t_vec_txt(&self, tag: u64, x: Vec<Txt>) -> Result<Vec<Txt>, RErr> { self.self_check(tag); callee_t(tag, x) } }
impl Txt { pub fn rsm_t_vec_txt(&mut self, tag: u64, x: Vec<Txt>) -> Result<Vec<Txt>, RErr> { check_at(self, opx(tag) + 5, tag, "self"); callee_t(tag, x) } }
pub fn r_ref_txt(tag: u64, x: &Txt) -> &Txt { callee_ref(tag, x) }
pub fn r_tref_txt(tag: u64, x: &Txt) -> Result<&Txt, RErr> { callee_tref(tag, x) }
pub fn r_mut_txt(tag: u64, x: &mut Txt) -> &mut Txt { callee_mut(tag, x) }
pub fn r_tmut_txt(tag: u64, x: &mut Txt) -> Result<&mut Txt, RErr> { callee_tmut(tag, x) }
pub fn r_ref_rec(tag: u64, x: &Rec) -> &Rec { callee_ref(tag, x) }
pub fn r_tref_rec(tag: u64, x: &Rec) -> Result<&Rec, RErr> { callee_tref(tag, x) }
pub fn r_mut_rec(tag: u64, x: &mut Rec) -> &mut Rec { callee_mut(tag, x) }
pub fn r_tmut_rec(tag: u64, x: &mut Rec) -> Result<&mut Rec, RErr> { callee_tmut(tag, x) }
pub fn r_ref_pod(tag: u64, x: &Pod) -> &Pod { callee_ref(tag, x) }
pub fn r_tref_pod(tag: u64, x: &Pod) -> Result<&Pod, RErr> { callee_tref(tag, x) }
pub fn r_mut_pod(tag: u64, x: &mut Pod) -> &mut Pod { callee_mut(tag, x) }
pub fn r_tmut_pod(tag: u64, x: &mut Pod) -> Result<&mut Pod, RErr> { callee_tmut(tag, x) }
pub fn r_ref_u64(tag: u64, x: &u64) -> &u64 { callee_ref(tag, x) }
pub fn r_tref_u64(tag: u64, x: &u64) -> Result<&u64, RErr> { callee_tref(tag, x) }
pub fn r_mut_u64(tag: u64, x: &mut u64) -> &mut u64 { callee_mut(tag, x) }
pub fn r_tmut_u64(tag: u64, x: &mut u64) -> Result<&mut u64, RErr> { callee_tmut(tag, x) }
pub fn r_ref_robj(tag: u64, x: &RObj) -> &RObj { callee_ref(tag, x) }
pub fn r_tref_robj(tag: u64, x: &RObj) -> Result<&RObj, RErr> { callee_tref(tag, x) }
pub fn r_mut_robj(tag: u64, x: &mut RObj) -> &mut RObj { callee_mut(tag, x) }
pub fn r_tmut_robj(tag: u64, x: &mut RObj) -> Result<&mut RObj, RErr> { callee_tmut(tag, x) }
pub fn r_ref_obj(tag: u64, x: &Obj) -> &Obj { callee_ref(tag, x) }
pub fn r_tref_obj(tag: u64, x: &Obj) -> Result<&Obj, RErr> { callee_tref(tag, x) }
pub fn r_mut_obj(tag: u64, x: Pin<&mut Obj>) -> Pin<&mut Obj> { callee_pin(tag, x) }
pub fn r_tmut_obj(tag: u64, x: Pin<&mut Obj>) -> Result<Pin<&mut Obj>, RErr> { callee_tpin(tag, x) }
pub fn r_ref_string(tag: u64, x: &String) -> &String { callee_ref(tag, x) }
pub fn r_tref_string(tag: u64, x: &String) -> Result<&String, RErr> { callee_tref(tag, x) }
pub fn r_mut_string(tag: u64, x: &mut String) -> &mut String { callee_mut(tag, x) }
pub fn r_tmut_string(tag: u64, x: &mut String) -> Result<&mut String, RErr> { callee_tmut(tag, x) }
pub fn r_ref_vec_u8(tag: u64, x: &Vec<u8>) -> &Vec<u8> { callee_ref(tag, x) }
pub fn r_tref_vec_u8(tag: u64, x: &Vec<u8>) -> Result<&Vec<u8>, RErr> { callee_tref(tag, x) }
pub fn r_mut_vec_u8(tag: u64, x: &mut Vec<u8>) -> &mut Vec<u8> { callee_mut(tag, x) }
pub fn r_tmut_vec_u8(tag: u64, x: &mut Vec<u8>) -> Result<&mut Vec<u8>, RErr> { callee_tmut(tag, x) }
pub fn r_ref_vec_txt(tag: u64, x: &Vec<Txt>) -> &Vec<Txt> { callee_ref(tag, x) }
pub fn r_tref_vec_txt(tag: u64, x: &Vec<Txt>) -> Result<&Vec<Txt>, RErr> { callee_tref(tag, x) }
pub fn r_mut_vec_txt(tag: u64, x: &mut Vec<Txt>) -> &mut Vec<Txt> { callee_mut(tag, x) }
pub fn r_tmut_vec_txt(tag: u64, x: &mut Vec<Txt>) -> Result<&mut Vec<Txt>, RErr> { callee_tmut(tag, x) }
pub fn r_ref_vec_str(tag: u64, x: &Vec<String>) -> &Vec<String> { callee_ref(tag, x) }
pub fn r_tref_vec_str(tag: u64, x: &Vec<String>) -> Result<&Vec<String>, RErr> { callee_tref(tag, x) }
pub fn r_mut_vec_str(tag: u64, x: &mut Vec<String>) -> &mut Vec<String> { callee_mut(tag, x) }
pub fn r_tmut_vec_str(tag: u64, x: &mut Vec<String>) -> Result<&mut Vec<String>, RErr> { callee_tmut(tag, x) }
pub fn r_ref_cstr(tag: u64, x: &CxxString) -> &CxxString { callee_ref(tag, x) }
pub fn r_tref_cstr(tag: u64, x: &CxxString) -> Result<&CxxString, RErr> { callee_tref(tag, x) }
pub fn r_mut_cstr(tag: u64, x: Pin<&mut CxxString>) -> Pin<&mut CxxString> { callee_pin(tag, x) }
pub fn r_tmut_cstr(tag: u64, x: Pin<&mut CxxString>) -> Result<Pin<&mut CxxString>, RErr> { callee_tpin(tag, x) }
pub fn r_ref_cvu8(tag: u64, x: &CxxVector<u8>) -> &CxxVector<u8> { callee_ref(tag, x) }
pub fn r_tref_cvu8(tag: u64, x: &CxxVector<u8>) -> Result<&CxxVector<u8>, RErr> { callee_tref(tag, x) }
pub fn r_mut_cvu8(tag: u64, x: Pin<&mut CxxVector<u8>>) -> Pin<&mut CxxVector<u8>> { callee_pin(tag, x) }
pub fn r_tmut_cvu8(tag: u64, x: Pin<&mut CxxVector<u8>>) -> Result<Pin<&mut CxxVector<u8>>, RErr> { callee_tpin(tag, x) }
pub fn r_ref_cvstr(tag: u64, x: &CxxVector<CxxString>) -> &CxxVector<CxxString> { callee_ref(tag, x) }
pub fn r_tref_cvstr(tag: u64, x: &CxxVector<CxxString>) -> Result<&CxxVector<CxxString>, RErr> { callee_tref(tag, x) }
pub fn r_mut_cvstr(tag: u64, x: Pin<&mut CxxVector<CxxString>>) -> Pin<&mut CxxVector<CxxString>> { callee_pin(tag, x) }
pub fn r_tmut_cvstr(tag: u64, x: Pin<&mut CxxVector<CxxString>>) -> Result<Pin<&mut CxxVector<CxxString>>, RErr> { callee_tpin(tag, x) }
pub fn r_ref_cvobj(tag: u64, x: &CxxVector<Obj>) -> &CxxVector<Obj> { callee_ref(tag, x) }
pub fn r_tref_cvobj(tag: u64, x: &CxxVector<Obj>) -> Result<&CxxVector<Obj>, RErr> { callee_tref(tag, x) }
pub fn r_mut_cvobj(tag: u64, x: Pin<&mut CxxVector<Obj>>) -> Pin<&mut CxxVector<Obj>> { callee_pin(tag, x) }
pub fn r_tmut_cvobj(tag: u64, x: Pin<&mut CxxVector<Obj>>) -> Result<Pin<&mut CxxVector<Obj>>, RErr> { callee_tpin(tag, x) }
pub fn r_ref_sp_obj(tag: u64, x: &SharedPtr<Obj>) -> &SharedPtr<Obj> { callee_ref(tag, x) }
pub fn r_tref_sp_obj(tag: u64, x: &SharedPtr<Obj>) -> Result<&SharedPtr<Obj>, RErr> { callee_tref(tag, x) }
pub fn r_mut_sp_obj(tag: u64, x: &mut SharedPtr<Obj>) -> &mut SharedPtr<Obj> { callee_mut(tag, x) }
pub fn r_tmut_sp_obj(tag: u64, x: &mut SharedPtr<Obj>) -> Result<&mut SharedPtr<Obj>, RErr> { callee_tmut(tag, x) }
pub fn r_ref_up_obj(tag: u64, x: &UniquePtr<Obj>) -> &UniquePtr<Obj> { callee_ref(tag, x) }
pub fn r_tref_up_obj(tag: u64, x: &UniquePtr<Obj>) -> Result<&UniquePtr<Obj>, RErr> { callee_tref(tag, x) }
pub fn r_mut_up_obj(tag: u64, x: &mut UniquePtr<Obj>) -> &mut UniquePtr<Obj> { callee_mut(tag, x) }
pub fn r_tmut_up_obj(tag: u64, x: &mut UniquePtr<Obj>) -> Result<&mut UniquePtr<Obj>, RErr> { callee_tmut(tag, x) }
pub fn r_ref_box_robj(tag: u64, x: &Box<RObj>) -> &Box<RObj> { callee_ref(tag, x) }
pub fn r_tref_box_robj(tag: u64, x: &Box<RObj>) -> Result<&Box<RObj>, RErr> { callee_tref(tag, x) }
pub fn r_mut_box_robj(tag: u64, x: &mut Box<RObj>) -> &mut Box<RObj> { callee_mut(tag, x) }
pub fn r_tmut_box_robj(tag: u64, x: &mut Box<RObj>) -> Result<&mut Box<RObj>, RErr> { callee_tmut(tag, x) }
pub fn r_ref_tok(tag: u64, x: &Tok) -> &Tok { callee_ref(tag, x) }
pub fn r_tref_tok(tag: u64, x: &Tok) -> Result<&Tok, RErr> { callee_tref(tag, x) }
pub fn r_mut_tok(tag: u64, x: &mut Tok) -> &mut Tok { callee_mut(tag, x) }
pub fn r_tmut_tok(tag: u64, x: &mut Tok) -> Result<&mut Tok, RErr> { callee_tmut(tag, x) }
pub fn r_sl_u8(tag: u64, x: &[u8]) -> &[u8] { callee_sl(tag, x) }
pub fn r_tsl_u8(tag: u64, x: &[u8]) -> Result<&[u8], RErr> { callee_tsl(tag, x) }
pub fn r_msl_u8(tag: u64, x: &mut [u8]) -> &mut [u8] { callee_msl(tag, x) }
pub fn r_tmsl_u8(tag: u64, x: &mut [u8]) -> Result<&mut [u8], RErr> { callee_tmsl(tag, x) }
pub fn r_sl_string(tag: u64, x: &[String]) -> &[String] { callee_sl(tag, x) }
pub fn r_tsl_string(tag: u64, x: &[String]) -> Result<&[String], RErr> { callee_tsl(tag, x) }
pub fn r_msl_string(tag: u64, x: &mut [String]) -> &mut [String] { callee_msl(tag, x) }
pub fn r_tmsl_string(tag: u64, x: &mut [String]) -> Result<&mut [String], RErr> { callee_tmsl(tag, x) }
pub fn r_sl_txt(tag: u64, x: &[Txt]) -> &[Txt] { callee_sl(tag, x) }
pub fn r_tsl_txt(tag: u64, x: &[Txt]) -> Result<&[Txt], RErr> { callee_tsl(tag, x) }
pub fn r_msl_txt(tag: u64, x: &mut [Txt]) -> &mut [Txt] { callee_msl(tag, x) }
pub fn r_tmsl_txt(tag: u64, x: &mut [Txt]) -> Result<&mut [Txt], RErr> { callee_tmsl(tag, x) }
pub fn r_sl_pod(tag: u64, x: &[Pod]) -> &[Pod] { callee_sl(tag, x) }
pub fn r_tsl_pod(tag: u64, x: &[Pod]) -> Result<&[Pod], RErr> { callee_tsl(tag, x) }
pub fn r_msl_pod(tag: u64, x: &mut [Pod]) -> &mut [Pod] { callee_msl(tag, x) }
pub fn r_tmsl_pod(tag: u64, x: &mut [Pod]) -> Result<&mut [Pod], RErr> { callee_tmsl(tag, x) }
pub fn r_sl_usize(tag: u64, x: &[usize]) -> &[usize] { callee_sl(tag, x) }
pub fn r_tsl_usize(tag: u64, x: &[usize]) -> Result<&[usize], RErr> { callee_tsl(tag, x) }
pub fn r_msl_usize(tag: u64, x: &mut [usize]) -> &mut [usize] { callee_msl(tag, x) }
pub fn r_tmsl_usize(tag: u64, x: &mut [usize]) -> Result<&mut [usize], RErr> { callee_tmsl(tag, x) }
pub fn r_sl_f64(tag: u64, x: &[f64]) -> &[f64] { callee_sl(tag, x) }
pub fn r_tsl_f64(tag: u64, x: &[f64]) -> Result<&[f64], RErr> { callee_tsl(tag, x) }
pub fn r_msl_f64(tag: u64, x: &mut [f64]) -> &mut [f64] { callee_msl(tag, x) }
pub fn r_tmsl_f64(tag: u64, x: &mut [f64]) -> Result<&mut [f64], RErr> { callee_tmsl(tag, x) }
pub fn r_sl_robj(tag: u64, x: &[RObj]) -> &[RObj] { callee_sl(tag, x) }
pub fn r_tsl_robj(tag: u64, x: &[RObj]) -> Result<&[RObj], RErr> { callee_tsl(tag, x) }
pub fn r_msl_robj(tag: u64, x: &mut [RObj]) -> &mut [RObj] { callee_msl(tag, x) }
pub fn r_tmsl_robj(tag: u64, x: &mut [RObj]) -> Result<&mut [RObj], RErr> { callee_tmsl(tag, x) }
pub fn r_sl_tok(tag: u64, x: &[Tok]) -> &[Tok] { callee_sl(tag, x) }
pub fn r_tsl_tok(tag: u64, x: &[Tok]) -> Result<&[Tok], RErr> { callee_tsl(tag, x) }
pub fn r_msl_tok(tag: u64, x: &mut [Tok]) -> &mut [Tok] { callee_msl(tag, x) }
pub fn r_tmsl_tok(tag: u64, x: &mut [Tok]) -> Result<&mut [Tok], RErr> { callee_tmsl(tag, x) }
pub fn r_str(tag: u64, x: &str) -> &str { callee_str(tag, x) }
pub fn r_tstr(tag: u64, x: &str) -> Result<&str, RErr> { callee_tstr(tag, x) }
#[allow(clippy::too_many_arguments)] pub fn r_multi(tag: u64, a0: i8, a1: String, a2: Box<RObj>, a3: UniquePtr<Obj>, a4: Txt, a5: f64, a6: Vec<String>, a7: SharedPtr<Obj>, a8: Tok, a9: Color, a10: bool, a11: Rec, a12: f32, a13: Vec<Tok>, a14: u16, s: &str, r: &RObj, t: &Txt, sl: &[String]) -> Rec { let _f = Frame::new(tag); check_at(&a0, opid(tag) + 0, tag, "a0"); check_at(&a1, opid(tag) + 1, tag, "a1"); check_at(&a2, opid(tag) + 2, tag, "a2"); check_at(&a3, opid(tag) + 3, tag, "a3"); check_at(&a4, opid(tag) + 4, tag, "a4"); check_at(&a5, opid(tag) + 5, tag, "a5"); check_at(&a6, opid(tag) + 6, tag, "a6"); check_at(&a7, opid(tag) + 7, tag, "a7"); check_at(&a8, opid(tag) + 8, tag, "a8"); check_at(&a9, opid(tag) + 9, tag, "a9"); check_at(&a10, opid(tag) + 10, tag, "a10"); check_at(&a11, opid(tag) + 11, tag, "a11"); check_at(&a12, opid(tag) + 12, tag, "a12"); check_at(&a13, opid(tag) + 13, tag, "a13"); check_at(&a14, opid(tag) + 14, tag, "a14"); check_str(s, opid(tag) + 50, tag); check_at(r, opid(tag) + 51, tag, "r"); check_at(t, opid(tag) + 52, tag, "t"); check_slice(sl, opid(tag) + 53, tag); body0(tag); make_ret(tag) }
#[allow(clippy::too_many_arguments)] pub fn r_tmulti(tag: u64, a0: i8, a1: String, a2: Box<RObj>, a3: UniquePtr<Obj>, a4: Txt, a5: f64, a6: Vec<String>, a7: SharedPtr<Obj>, a8: Tok, a9: Color, a10: bool, a11: Rec, a12: f32, a13: Vec<Tok>, a14: u16, s: &str, r: &RObj, t: &Txt, sl: &[String]) -> Result<Rec, RErr> { let _f = Frame::new(tag); check_at(&a0, opid(tag) + 0, tag, "a0"); check_at(&a1, opid(tag) + 1, tag, "a1"); check_at(&a2, opid(tag) + 2, tag, "a2"); check_at(&a3, opid(tag) + 3, tag, "a3"); check_at(&a4, opid(tag) + 4, tag, "a4"); check_at(&a5, opid(tag) + 5, tag, "a5"); check_at(&a6, opid(tag) + 6, tag, "a6"); check_at(&a7, opid(tag) + 7, tag, "a7"); check_at(&a8, opid(tag) + 8, tag, "a8"); check_at(&a9, opid(tag) + 9, tag, "a9"); check_at(&a10, opid(tag) + 10, tag, "a10"); check_at(&a11, opid(tag) + 11, tag, "a11"); check_at(&a12, opid(tag) + 12, tag, "a12"); check_at(&a13, opid(tag) + 13, tag, "a13"); check_at(&a14, opid(tag) + 14, tag, "a14"); check_str(s, opid(tag) + 50, tag); check_at(r, opid(tag) + 51, tag, "r"); check_at(t, opid(tag) + 52, tag, "t"); check_slice(sl, opid(tag) + 53, tag); body(tag)?; Ok(make_ret(tag)) }
