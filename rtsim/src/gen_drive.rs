// generated by gen.py
use crate::gen_alt::alt;
use crate::calls::*;
use crate::ffi;
use crate::ffi::*;
use crate::user::*;
use crate::user::{RObj, Tok};
use cxx::{CxxString, CxxVector, SharedPtr, UniquePtr, WeakPtr};
use std::cell::RefCell;
pub struct Fun { pub name: &'static str, pub dir: u8, pub shape: &'static str, pub kind: &'static str, pub fallible: u8, pub idx: u32 }
pub static FUNS: &[Fun] = &[
    Fun { name: "c_x_u8", dir: 0, shape: "x", kind: "u8", fallible: 0, idx: 0 },
    Fun { name: "c_t_u8", dir: 0, shape: "x", kind: "u8", fallible: 1, idx: 1 },
    Fun { name: "c_take_u8", dir: 0, shape: "take", kind: "u8", fallible: 0, idx: 2 },
    Fun { name: "c_ttake_u8", dir: 0, shape: "take", kind: "u8", fallible: 1, idx: 3 },
    Fun { name: "c_ret_u8", dir: 0, shape: "ret", kind: "u8", fallible: 0, idx: 4 },
    Fun { name: "c_tret_u8", dir: 0, shape: "ret", kind: "u8", fallible: 1, idx: 5 },
    Fun { name: "c_x_i8", dir: 0, shape: "x", kind: "i8", fallible: 0, idx: 6 },
    Fun { name: "c_x_u16", dir: 0, shape: "x", kind: "u16", fallible: 0, idx: 7 },
    Fun { name: "c_x_i16", dir: 0, shape: "x", kind: "i16", fallible: 0, idx: 8 },
    Fun { name: "c_x_u32", dir: 0, shape: "x", kind: "u32", fallible: 0, idx: 9 },
    Fun { name: "c_x_i32", dir: 0, shape: "x", kind: "i32", fallible: 0, idx: 10 },
    Fun { name: "c_x_u64", dir: 0, shape: "x", kind: "u64", fallible: 0, idx: 11 },
    Fun { name: "c_x_i64", dir: 0, shape: "x", kind: "i64", fallible: 0, idx: 12 },
    Fun { name: "c_t_i64", dir: 0, shape: "x", kind: "i64", fallible: 1, idx: 13 },
    Fun { name: "c_take_i64", dir: 0, shape: "take", kind: "i64", fallible: 0, idx: 14 },
    Fun { name: "c_ttake_i64", dir: 0, shape: "take", kind: "i64", fallible: 1, idx: 15 },
    Fun { name: "c_ret_i64", dir: 0, shape: "ret", kind: "i64", fallible: 0, idx: 16 },
    Fun { name: "c_tret_i64", dir: 0, shape: "ret", kind: "i64", fallible: 1, idx: 17 },
    Fun { name: "c_x_usize", dir: 0, shape: "x", kind: "usize", fallible: 0, idx: 18 },
    Fun { name: "c_x_isize", dir: 0, shape: "x", kind: "isize", fallible: 0, idx: 19 },
    Fun { name: "c_x_f32", dir: 0, shape: "x", kind: "f32", fallible: 0, idx: 20 },
    Fun { name: "c_t_f32", dir: 0, shape: "x", kind: "f32", fallible: 1, idx: 21 },
    Fun { name: "c_take_f32", dir: 0, shape: "take", kind: "f32", fallible: 0, idx: 22 },
    Fun { name: "c_ttake_f32", dir: 0, shape: "take", kind: "f32", fallible: 1, idx: 23 },
    Fun { name: "c_ret_f32", dir: 0, shape: "ret", kind: "f32", fallible: 0, idx: 24 },
    Fun { name: "c_tret_f32", dir: 0, shape: "ret", kind: "f32", fallible: 1, idx: 25 },
    Fun { name: "c_x_f64", dir: 0, shape: "x", kind: "f64", fallible: 0, idx: 26 },
    Fun { name: "c_x_bool", dir: 0, shape: "x", kind: "bool", fallible: 0, idx: 27 },
    Fun { name: "c_t_bool", dir: 0, shape: "x", kind: "bool", fallible: 1, idx: 28 },
    Fun { name: "c_take_bool", dir: 0, shape: "take", kind: "bool", fallible: 0, idx: 29 },
    Fun { name: "c_ttake_bool", dir: 0, shape: "take", kind: "bool", fallible: 1, idx: 30 },
    Fun { name: "c_ret_bool", dir: 0, shape: "ret", kind: "bool", fallible: 0, idx: 31 },
    Fun { name: "c_tret_bool", dir: 0, shape: "ret", kind: "bool", fallible: 1, idx: 32 },
    Fun { name: "c_x_chr", dir: 0, shape: "x", kind: "chr", fallible: 0, idx: 33 },
    Fun { name: "c_x_pod", dir: 0, shape: "x", kind: "pod", fallible: 0, idx: 34 },
    Fun { name: "c_t_pod", dir: 0, shape: "x", kind: "pod", fallible: 1, idx: 35 },
    Fun { name: "c_take_pod", dir: 0, shape: "take", kind: "pod", fallible: 0, idx: 36 },
    Fun { name: "c_ttake_pod", dir: 0, shape: "take", kind: "pod", fallible: 1, idx: 37 },
    Fun { name: "c_ret_pod", dir: 0, shape: "ret", kind: "pod", fallible: 0, idx: 38 },
    Fun { name: "c_tret_pod", dir: 0, shape: "ret", kind: "pod", fallible: 1, idx: 39 },
    Fun { name: "c_x_color", dir: 0, shape: "x", kind: "color", fallible: 0, idx: 40 },
    Fun { name: "c_t_color", dir: 0, shape: "x", kind: "color", fallible: 1, idx: 41 },
    Fun { name: "c_take_color", dir: 0, shape: "take", kind: "color", fallible: 0, idx: 42 },
    Fun { name: "c_ttake_color", dir: 0, shape: "take", kind: "color", fallible: 1, idx: 43 },
    Fun { name: "c_ret_color", dir: 0, shape: "ret", kind: "color", fallible: 0, idx: 44 },
    Fun { name: "c_tret_color", dir: 0, shape: "ret", kind: "color", fallible: 1, idx: 45 },
    Fun { name: "c_x_txt", dir: 0, shape: "x", kind: "txt", fallible: 0, idx: 46 },
    Fun { name: "c_t_txt", dir: 0, shape: "x", kind: "txt", fallible: 1, idx: 47 },
    Fun { name: "c_take_txt", dir: 0, shape: "take", kind: "txt", fallible: 0, idx: 48 },
    Fun { name: "c_ttake_txt", dir: 0, shape: "take", kind: "txt", fallible: 1, idx: 49 },
    Fun { name: "c_ret_txt", dir: 0, shape: "ret", kind: "txt", fallible: 0, idx: 50 },
    Fun { name: "c_tret_txt", dir: 0, shape: "ret", kind: "txt", fallible: 1, idx: 51 },
    Fun { name: "c_x_rec", dir: 0, shape: "x", kind: "rec", fallible: 0, idx: 52 },
    Fun { name: "c_t_rec", dir: 0, shape: "x", kind: "rec", fallible: 1, idx: 53 },
    Fun { name: "c_take_rec", dir: 0, shape: "take", kind: "rec", fallible: 0, idx: 54 },
    Fun { name: "c_ttake_rec", dir: 0, shape: "take", kind: "rec", fallible: 1, idx: 55 },
    Fun { name: "c_ret_rec", dir: 0, shape: "ret", kind: "rec", fallible: 0, idx: 56 },
    Fun { name: "c_tret_rec", dir: 0, shape: "ret", kind: "rec", fallible: 1, idx: 57 },
    Fun { name: "c_x_tok", dir: 0, shape: "x", kind: "tok", fallible: 0, idx: 58 },
    Fun { name: "c_t_tok", dir: 0, shape: "x", kind: "tok", fallible: 1, idx: 59 },
    Fun { name: "c_take_tok", dir: 0, shape: "take", kind: "tok", fallible: 0, idx: 60 },
    Fun { name: "c_ttake_tok", dir: 0, shape: "take", kind: "tok", fallible: 1, idx: 61 },
    Fun { name: "c_ret_tok", dir: 0, shape: "ret", kind: "tok", fallible: 0, idx: 62 },
    Fun { name: "c_tret_tok", dir: 0, shape: "ret", kind: "tok", fallible: 1, idx: 63 },
    Fun { name: "c_x_box_robj", dir: 0, shape: "x", kind: "box_robj", fallible: 0, idx: 64 },
    Fun { name: "c_t_box_robj", dir: 0, shape: "x", kind: "box_robj", fallible: 1, idx: 65 },
    Fun { name: "c_take_box_robj", dir: 0, shape: "take", kind: "box_robj", fallible: 0, idx: 66 },
    Fun { name: "c_ttake_box_robj", dir: 0, shape: "take", kind: "box_robj", fallible: 1, idx: 67 },
    Fun { name: "c_ret_box_robj", dir: 0, shape: "ret", kind: "box_robj", fallible: 0, idx: 68 },
    Fun { name: "c_tret_box_robj", dir: 0, shape: "ret", kind: "box_robj", fallible: 1, idx: 69 },
    Fun { name: "c_x_box_txt", dir: 0, shape: "x", kind: "box_txt", fallible: 0, idx: 70 },
    Fun { name: "c_t_box_txt", dir: 0, shape: "x", kind: "box_txt", fallible: 1, idx: 71 },
    Fun { name: "c_take_box_txt", dir: 0, shape: "take", kind: "box_txt", fallible: 0, idx: 72 },
    Fun { name: "c_ttake_box_txt", dir: 0, shape: "take", kind: "box_txt", fallible: 1, idx: 73 },
    Fun { name: "c_ret_box_txt", dir: 0, shape: "ret", kind: "box_txt", fallible: 0, idx: 74 },
    Fun { name: "c_tret_box_txt", dir: 0, shape: "ret", kind: "box_txt", fallible: 1, idx: 75 },
    Fun { name: "c_x_up_obj", dir: 0, shape: "x", kind: "up_obj", fallible: 0, idx: 76 },
    Fun { name: "c_t_up_obj", dir: 0, shape: "x", kind: "up_obj", fallible: 1, idx: 77 },
    Fun { name: "c_take_up_obj", dir: 0, shape: "take", kind: "up_obj", fallible: 0, idx: 78 },
    Fun { name: "c_ttake_up_obj", dir: 0, shape: "take", kind: "up_obj", fallible: 1, idx: 79 },
    Fun { name: "c_ret_up_obj", dir: 0, shape: "ret", kind: "up_obj", fallible: 0, idx: 80 },
    Fun { name: "c_tret_up_obj", dir: 0, shape: "ret", kind: "up_obj", fallible: 1, idx: 81 },
    Fun { name: "c_x_up_str", dir: 0, shape: "x", kind: "up_str", fallible: 0, idx: 82 },
    Fun { name: "c_t_up_str", dir: 0, shape: "x", kind: "up_str", fallible: 1, idx: 83 },
    Fun { name: "c_take_up_str", dir: 0, shape: "take", kind: "up_str", fallible: 0, idx: 84 },
    Fun { name: "c_ttake_up_str", dir: 0, shape: "take", kind: "up_str", fallible: 1, idx: 85 },
    Fun { name: "c_ret_up_str", dir: 0, shape: "ret", kind: "up_str", fallible: 0, idx: 86 },
    Fun { name: "c_tret_up_str", dir: 0, shape: "ret", kind: "up_str", fallible: 1, idx: 87 },
    Fun { name: "c_x_up_pod", dir: 0, shape: "x", kind: "up_pod", fallible: 0, idx: 88 },
    Fun { name: "c_t_up_pod", dir: 0, shape: "x", kind: "up_pod", fallible: 1, idx: 89 },
    Fun { name: "c_take_up_pod", dir: 0, shape: "take", kind: "up_pod", fallible: 0, idx: 90 },
    Fun { name: "c_ttake_up_pod", dir: 0, shape: "take", kind: "up_pod", fallible: 1, idx: 91 },
    Fun { name: "c_ret_up_pod", dir: 0, shape: "ret", kind: "up_pod", fallible: 0, idx: 92 },
    Fun { name: "c_tret_up_pod", dir: 0, shape: "ret", kind: "up_pod", fallible: 1, idx: 93 },
    Fun { name: "c_x_up_txt", dir: 0, shape: "x", kind: "up_txt", fallible: 0, idx: 94 },
    Fun { name: "c_t_up_txt", dir: 0, shape: "x", kind: "up_txt", fallible: 1, idx: 95 },
    Fun { name: "c_take_up_txt", dir: 0, shape: "take", kind: "up_txt", fallible: 0, idx: 96 },
    Fun { name: "c_ttake_up_txt", dir: 0, shape: "take", kind: "up_txt", fallible: 1, idx: 97 },
    Fun { name: "c_ret_up_txt", dir: 0, shape: "ret", kind: "up_txt", fallible: 0, idx: 98 },
    Fun { name: "c_tret_up_txt", dir: 0, shape: "ret", kind: "up_txt", fallible: 1, idx: 99 },
    Fun { name: "c_x_up_vu8", dir: 0, shape: "x", kind: "up_vu8", fallible: 0, idx: 100 },
    Fun { name: "c_t_up_vu8", dir: 0, shape: "x", kind: "up_vu8", fallible: 1, idx: 101 },
    Fun { name: "c_take_up_vu8", dir: 0, shape: "take", kind: "up_vu8", fallible: 0, idx: 102 },
    Fun { name: "c_ttake_up_vu8", dir: 0, shape: "take", kind: "up_vu8", fallible: 1, idx: 103 },
    Fun { name: "c_ret_up_vu8", dir: 0, shape: "ret", kind: "up_vu8", fallible: 0, idx: 104 },
    Fun { name: "c_tret_up_vu8", dir: 0, shape: "ret", kind: "up_vu8", fallible: 1, idx: 105 },
    Fun { name: "c_x_up_vf64", dir: 0, shape: "x", kind: "up_vf64", fallible: 0, idx: 106 },
    Fun { name: "c_t_up_vf64", dir: 0, shape: "x", kind: "up_vf64", fallible: 1, idx: 107 },
    Fun { name: "c_take_up_vf64", dir: 0, shape: "take", kind: "up_vf64", fallible: 0, idx: 108 },
    Fun { name: "c_ttake_up_vf64", dir: 0, shape: "take", kind: "up_vf64", fallible: 1, idx: 109 },
    Fun { name: "c_ret_up_vf64", dir: 0, shape: "ret", kind: "up_vf64", fallible: 0, idx: 110 },
    Fun { name: "c_tret_up_vf64", dir: 0, shape: "ret", kind: "up_vf64", fallible: 1, idx: 111 },
    Fun { name: "c_x_up_vstr", dir: 0, shape: "x", kind: "up_vstr", fallible: 0, idx: 112 },
    Fun { name: "c_t_up_vstr", dir: 0, shape: "x", kind: "up_vstr", fallible: 1, idx: 113 },
    Fun { name: "c_take_up_vstr", dir: 0, shape: "take", kind: "up_vstr", fallible: 0, idx: 114 },
    Fun { name: "c_ttake_up_vstr", dir: 0, shape: "take", kind: "up_vstr", fallible: 1, idx: 115 },
    Fun { name: "c_ret_up_vstr", dir: 0, shape: "ret", kind: "up_vstr", fallible: 0, idx: 116 },
    Fun { name: "c_tret_up_vstr", dir: 0, shape: "ret", kind: "up_vstr", fallible: 1, idx: 117 },
    Fun { name: "c_x_up_vobj", dir: 0, shape: "x", kind: "up_vobj", fallible: 0, idx: 118 },
    Fun { name: "c_t_up_vobj", dir: 0, shape: "x", kind: "up_vobj", fallible: 1, idx: 119 },
    Fun { name: "c_take_up_vobj", dir: 0, shape: "take", kind: "up_vobj", fallible: 0, idx: 120 },
    Fun { name: "c_ttake_up_vobj", dir: 0, shape: "take", kind: "up_vobj", fallible: 1, idx: 121 },
    Fun { name: "c_ret_up_vobj", dir: 0, shape: "ret", kind: "up_vobj", fallible: 0, idx: 122 },
    Fun { name: "c_tret_up_vobj", dir: 0, shape: "ret", kind: "up_vobj", fallible: 1, idx: 123 },
    Fun { name: "c_x_up_vtxt", dir: 0, shape: "x", kind: "up_vtxt", fallible: 0, idx: 124 },
    Fun { name: "c_t_up_vtxt", dir: 0, shape: "x", kind: "up_vtxt", fallible: 1, idx: 125 },
    Fun { name: "c_take_up_vtxt", dir: 0, shape: "take", kind: "up_vtxt", fallible: 0, idx: 126 },
    Fun { name: "c_ttake_up_vtxt", dir: 0, shape: "take", kind: "up_vtxt", fallible: 1, idx: 127 },
    Fun { name: "c_ret_up_vtxt", dir: 0, shape: "ret", kind: "up_vtxt", fallible: 0, idx: 128 },
    Fun { name: "c_tret_up_vtxt", dir: 0, shape: "ret", kind: "up_vtxt", fallible: 1, idx: 129 },
    Fun { name: "c_x_sp_obj", dir: 0, shape: "x", kind: "sp_obj", fallible: 0, idx: 130 },
    Fun { name: "c_t_sp_obj", dir: 0, shape: "x", kind: "sp_obj", fallible: 1, idx: 131 },
    Fun { name: "c_take_sp_obj", dir: 0, shape: "take", kind: "sp_obj", fallible: 0, idx: 132 },
    Fun { name: "c_ttake_sp_obj", dir: 0, shape: "take", kind: "sp_obj", fallible: 1, idx: 133 },
    Fun { name: "c_ret_sp_obj", dir: 0, shape: "ret", kind: "sp_obj", fallible: 0, idx: 134 },
    Fun { name: "c_tret_sp_obj", dir: 0, shape: "ret", kind: "sp_obj", fallible: 1, idx: 135 },
    Fun { name: "c_x_sp_pod", dir: 0, shape: "x", kind: "sp_pod", fallible: 0, idx: 136 },
    Fun { name: "c_t_sp_pod", dir: 0, shape: "x", kind: "sp_pod", fallible: 1, idx: 137 },
    Fun { name: "c_take_sp_pod", dir: 0, shape: "take", kind: "sp_pod", fallible: 0, idx: 138 },
    Fun { name: "c_ttake_sp_pod", dir: 0, shape: "take", kind: "sp_pod", fallible: 1, idx: 139 },
    Fun { name: "c_ret_sp_pod", dir: 0, shape: "ret", kind: "sp_pod", fallible: 0, idx: 140 },
    Fun { name: "c_tret_sp_pod", dir: 0, shape: "ret", kind: "sp_pod", fallible: 1, idx: 141 },
    Fun { name: "c_x_sp_str", dir: 0, shape: "x", kind: "sp_str", fallible: 0, idx: 142 },
    Fun { name: "c_t_sp_str", dir: 0, shape: "x", kind: "sp_str", fallible: 1, idx: 143 },
    Fun { name: "c_take_sp_str", dir: 0, shape: "take", kind: "sp_str", fallible: 0, idx: 144 },
    Fun { name: "c_ttake_sp_str", dir: 0, shape: "take", kind: "sp_str", fallible: 1, idx: 145 },
    Fun { name: "c_ret_sp_str", dir: 0, shape: "ret", kind: "sp_str", fallible: 0, idx: 146 },
    Fun { name: "c_tret_sp_str", dir: 0, shape: "ret", kind: "sp_str", fallible: 1, idx: 147 },
    Fun { name: "c_x_sp_u64", dir: 0, shape: "x", kind: "sp_u64", fallible: 0, idx: 148 },
    Fun { name: "c_t_sp_u64", dir: 0, shape: "x", kind: "sp_u64", fallible: 1, idx: 149 },
    Fun { name: "c_take_sp_u64", dir: 0, shape: "take", kind: "sp_u64", fallible: 0, idx: 150 },
    Fun { name: "c_ttake_sp_u64", dir: 0, shape: "take", kind: "sp_u64", fallible: 1, idx: 151 },
    Fun { name: "c_ret_sp_u64", dir: 0, shape: "ret", kind: "sp_u64", fallible: 0, idx: 152 },
    Fun { name: "c_tret_sp_u64", dir: 0, shape: "ret", kind: "sp_u64", fallible: 1, idx: 153 },
    Fun { name: "c_x_wp_obj", dir: 0, shape: "x", kind: "wp_obj", fallible: 0, idx: 154 },
    Fun { name: "c_t_wp_obj", dir: 0, shape: "x", kind: "wp_obj", fallible: 1, idx: 155 },
    Fun { name: "c_take_wp_obj", dir: 0, shape: "take", kind: "wp_obj", fallible: 0, idx: 156 },
    Fun { name: "c_ttake_wp_obj", dir: 0, shape: "take", kind: "wp_obj", fallible: 1, idx: 157 },
    Fun { name: "c_ret_wp_obj", dir: 0, shape: "ret", kind: "wp_obj", fallible: 0, idx: 158 },
    Fun { name: "c_tret_wp_obj", dir: 0, shape: "ret", kind: "wp_obj", fallible: 1, idx: 159 },
    Fun { name: "c_x_string", dir: 0, shape: "x", kind: "string", fallible: 0, idx: 160 },
    Fun { name: "c_t_string", dir: 0, shape: "x", kind: "string", fallible: 1, idx: 161 },
    Fun { name: "c_take_string", dir: 0, shape: "take", kind: "string", fallible: 0, idx: 162 },
    Fun { name: "c_ttake_string", dir: 0, shape: "take", kind: "string", fallible: 1, idx: 163 },
    Fun { name: "c_ret_string", dir: 0, shape: "ret", kind: "string", fallible: 0, idx: 164 },
    Fun { name: "c_tret_string", dir: 0, shape: "ret", kind: "string", fallible: 1, idx: 165 },
    Fun { name: "c_x_vec_u8", dir: 0, shape: "x", kind: "vec_u8", fallible: 0, idx: 166 },
    Fun { name: "c_t_vec_u8", dir: 0, shape: "x", kind: "vec_u8", fallible: 1, idx: 167 },
    Fun { name: "c_take_vec_u8", dir: 0, shape: "take", kind: "vec_u8", fallible: 0, idx: 168 },
    Fun { name: "c_ttake_vec_u8", dir: 0, shape: "take", kind: "vec_u8", fallible: 1, idx: 169 },
    Fun { name: "c_ret_vec_u8", dir: 0, shape: "ret", kind: "vec_u8", fallible: 0, idx: 170 },
    Fun { name: "c_tret_vec_u8", dir: 0, shape: "ret", kind: "vec_u8", fallible: 1, idx: 171 },
    Fun { name: "c_x_vec_str", dir: 0, shape: "x", kind: "vec_str", fallible: 0, idx: 172 },
    Fun { name: "c_t_vec_str", dir: 0, shape: "x", kind: "vec_str", fallible: 1, idx: 173 },
    Fun { name: "c_take_vec_str", dir: 0, shape: "take", kind: "vec_str", fallible: 0, idx: 174 },
    Fun { name: "c_ttake_vec_str", dir: 0, shape: "take", kind: "vec_str", fallible: 1, idx: 175 },
    Fun { name: "c_ret_vec_str", dir: 0, shape: "ret", kind: "vec_str", fallible: 0, idx: 176 },
    Fun { name: "c_tret_vec_str", dir: 0, shape: "ret", kind: "vec_str", fallible: 1, idx: 177 },
    Fun { name: "c_x_vec_txt", dir: 0, shape: "x", kind: "vec_txt", fallible: 0, idx: 178 },
    Fun { name: "c_t_vec_txt", dir: 0, shape: "x", kind: "vec_txt", fallible: 1, idx: 179 },
    Fun { name: "c_take_vec_txt", dir: 0, shape: "take", kind: "vec_txt", fallible: 0, idx: 180 },
    Fun { name: "c_ttake_vec_txt", dir: 0, shape: "take", kind: "vec_txt", fallible: 1, idx: 181 },
    Fun { name: "c_ret_vec_txt", dir: 0, shape: "ret", kind: "vec_txt", fallible: 0, idx: 182 },
    Fun { name: "c_tret_vec_txt", dir: 0, shape: "ret", kind: "vec_txt", fallible: 1, idx: 183 },
    Fun { name: "c_x_vec_pod", dir: 0, shape: "x", kind: "vec_pod", fallible: 0, idx: 184 },
    Fun { name: "c_t_vec_pod", dir: 0, shape: "x", kind: "vec_pod", fallible: 1, idx: 185 },
    Fun { name: "c_take_vec_pod", dir: 0, shape: "take", kind: "vec_pod", fallible: 0, idx: 186 },
    Fun { name: "c_ttake_vec_pod", dir: 0, shape: "take", kind: "vec_pod", fallible: 1, idx: 187 },
    Fun { name: "c_ret_vec_pod", dir: 0, shape: "ret", kind: "vec_pod", fallible: 0, idx: 188 },
    Fun { name: "c_tret_vec_pod", dir: 0, shape: "ret", kind: "vec_pod", fallible: 1, idx: 189 },
    Fun { name: "c_x_vec_bool", dir: 0, shape: "x", kind: "vec_bool", fallible: 0, idx: 190 },
    Fun { name: "c_t_vec_bool", dir: 0, shape: "x", kind: "vec_bool", fallible: 1, idx: 191 },
    Fun { name: "c_take_vec_bool", dir: 0, shape: "take", kind: "vec_bool", fallible: 0, idx: 192 },
    Fun { name: "c_ttake_vec_bool", dir: 0, shape: "take", kind: "vec_bool", fallible: 1, idx: 193 },
    Fun { name: "c_ret_vec_bool", dir: 0, shape: "ret", kind: "vec_bool", fallible: 0, idx: 194 },
    Fun { name: "c_tret_vec_bool", dir: 0, shape: "ret", kind: "vec_bool", fallible: 1, idx: 195 },
    Fun { name: "c_x_vec_f64", dir: 0, shape: "x", kind: "vec_f64", fallible: 0, idx: 196 },
    Fun { name: "c_t_vec_f64", dir: 0, shape: "x", kind: "vec_f64", fallible: 1, idx: 197 },
    Fun { name: "c_take_vec_f64", dir: 0, shape: "take", kind: "vec_f64", fallible: 0, idx: 198 },
    Fun { name: "c_ttake_vec_f64", dir: 0, shape: "take", kind: "vec_f64", fallible: 1, idx: 199 },
    Fun { name: "c_ret_vec_f64", dir: 0, shape: "ret", kind: "vec_f64", fallible: 0, idx: 200 },
    Fun { name: "c_tret_vec_f64", dir: 0, shape: "ret", kind: "vec_f64", fallible: 1, idx: 201 },
    Fun { name: "c_x_vec_usize", dir: 0, shape: "x", kind: "vec_usize", fallible: 0, idx: 202 },
    Fun { name: "c_t_vec_usize", dir: 0, shape: "x", kind: "vec_usize", fallible: 1, idx: 203 },
    Fun { name: "c_take_vec_usize", dir: 0, shape: "take", kind: "vec_usize", fallible: 0, idx: 204 },
    Fun { name: "c_ttake_vec_usize", dir: 0, shape: "take", kind: "vec_usize", fallible: 1, idx: 205 },
    Fun { name: "c_ret_vec_usize", dir: 0, shape: "ret", kind: "vec_usize", fallible: 0, idx: 206 },
    Fun { name: "c_tret_vec_usize", dir: 0, shape: "ret", kind: "vec_usize", fallible: 1, idx: 207 },
    Fun { name: "c_x_vec_tok", dir: 0, shape: "x", kind: "vec_tok", fallible: 0, idx: 208 },
    Fun { name: "c_t_vec_tok", dir: 0, shape: "x", kind: "vec_tok", fallible: 1, idx: 209 },
    Fun { name: "c_take_vec_tok", dir: 0, shape: "take", kind: "vec_tok", fallible: 0, idx: 210 },
    Fun { name: "c_ttake_vec_tok", dir: 0, shape: "take", kind: "vec_tok", fallible: 1, idx: 211 },
    Fun { name: "c_ret_vec_tok", dir: 0, shape: "ret", kind: "vec_tok", fallible: 0, idx: 212 },
    Fun { name: "c_tret_vec_tok", dir: 0, shape: "ret", kind: "vec_tok", fallible: 1, idx: 213 },
    Fun { name: "c_x_vec_robj", dir: 0, shape: "x", kind: "vec_robj", fallible: 0, idx: 214 },
    Fun { name: "c_t_vec_robj", dir: 0, shape: "x", kind: "vec_robj", fallible: 1, idx: 215 },
    Fun { name: "c_take_vec_robj", dir: 0, shape: "take", kind: "vec_robj", fallible: 0, idx: 216 },
    Fun { name: "c_ttake_vec_robj", dir: 0, shape: "take", kind: "vec_robj", fallible: 1, idx: 217 },
    Fun { name: "c_ret_vec_robj", dir: 0, shape: "ret", kind: "vec_robj", fallible: 0, idx: 218 },
    Fun { name: "c_tret_vec_robj", dir: 0, shape: "ret", kind: "vec_robj", fallible: 1, idx: 219 },
    Fun { name: "c_cb_u32", dir: 0, shape: "cb", kind: "u32", fallible: 0, idx: 220 },
    Fun { name: "c_tcb_u32", dir: 0, shape: "cb", kind: "u32", fallible: 1, idx: 221 },
    Fun { name: "c_cbr_u32", dir: 0, shape: "cbr", kind: "u32", fallible: 0, idx: 222 },
    Fun { name: "c_cb_txt", dir: 0, shape: "cb", kind: "txt", fallible: 0, idx: 223 },
    Fun { name: "c_tcb_txt", dir: 0, shape: "cb", kind: "txt", fallible: 1, idx: 224 },
    Fun { name: "c_cbr_txt", dir: 0, shape: "cbr", kind: "txt", fallible: 0, idx: 225 },
    Fun { name: "c_cb_rec", dir: 0, shape: "cb", kind: "rec", fallible: 0, idx: 226 },
    Fun { name: "c_tcb_rec", dir: 0, shape: "cb", kind: "rec", fallible: 1, idx: 227 },
    Fun { name: "c_cbr_rec", dir: 0, shape: "cbr", kind: "rec", fallible: 0, idx: 228 },
    Fun { name: "c_cb_tok", dir: 0, shape: "cb", kind: "tok", fallible: 0, idx: 229 },
    Fun { name: "c_tcb_tok", dir: 0, shape: "cb", kind: "tok", fallible: 1, idx: 230 },
    Fun { name: "c_cbr_tok", dir: 0, shape: "cbr", kind: "tok", fallible: 0, idx: 231 },
    Fun { name: "c_cb_box_robj", dir: 0, shape: "cb", kind: "box_robj", fallible: 0, idx: 232 },
    Fun { name: "c_tcb_box_robj", dir: 0, shape: "cb", kind: "box_robj", fallible: 1, idx: 233 },
    Fun { name: "c_cbr_box_robj", dir: 0, shape: "cbr", kind: "box_robj", fallible: 0, idx: 234 },
    Fun { name: "c_cb_up_obj", dir: 0, shape: "cb", kind: "up_obj", fallible: 0, idx: 235 },
    Fun { name: "c_tcb_up_obj", dir: 0, shape: "cb", kind: "up_obj", fallible: 1, idx: 236 },
    Fun { name: "c_cbr_up_obj", dir: 0, shape: "cbr", kind: "up_obj", fallible: 0, idx: 237 },
    Fun { name: "c_cb_sp_obj", dir: 0, shape: "cb", kind: "sp_obj", fallible: 0, idx: 238 },
    Fun { name: "c_tcb_sp_obj", dir: 0, shape: "cb", kind: "sp_obj", fallible: 1, idx: 239 },
    Fun { name: "c_cbr_sp_obj", dir: 0, shape: "cbr", kind: "sp_obj", fallible: 0, idx: 240 },
    Fun { name: "c_cb_string", dir: 0, shape: "cb", kind: "string", fallible: 0, idx: 241 },
    Fun { name: "c_tcb_string", dir: 0, shape: "cb", kind: "string", fallible: 1, idx: 242 },
    Fun { name: "c_cbr_string", dir: 0, shape: "cbr", kind: "string", fallible: 0, idx: 243 },
    Fun { name: "c_cb_vec_str", dir: 0, shape: "cb", kind: "vec_str", fallible: 0, idx: 244 },
    Fun { name: "c_tcb_vec_str", dir: 0, shape: "cb", kind: "vec_str", fallible: 1, idx: 245 },
    Fun { name: "c_cbr_vec_str", dir: 0, shape: "cbr", kind: "vec_str", fallible: 0, idx: 246 },
    Fun { name: "c_cb_vec_tok", dir: 0, shape: "cb", kind: "vec_tok", fallible: 0, idx: 247 },
    Fun { name: "c_tcb_vec_tok", dir: 0, shape: "cb", kind: "vec_tok", fallible: 1, idx: 248 },
    Fun { name: "c_cbr_vec_tok", dir: 0, shape: "cbr", kind: "vec_tok", fallible: 0, idx: 249 },
    Fun { name: "c_cb_color", dir: 0, shape: "cb", kind: "color", fallible: 0, idx: 250 },
    Fun { name: "c_tcb_color", dir: 0, shape: "cb", kind: "color", fallible: 1, idx: 251 },
    Fun { name: "c_cbr_color", dir: 0, shape: "cbr", kind: "color", fallible: 0, idx: 252 },
    Fun { name: "m_x_u32", dir: 0, shape: "x", kind: "u32", fallible: 0, idx: 253 },
    Fun { name: "m_t_u32", dir: 0, shape: "x", kind: "u32", fallible: 1, idx: 254 },
    Fun { name: "sm_t_u32", dir: 0, shape: "x", kind: "u32", fallible: 1, idx: 255 },
    Fun { name: "m_x_txt", dir: 0, shape: "x", kind: "txt", fallible: 0, idx: 256 },
    Fun { name: "m_t_txt", dir: 0, shape: "x", kind: "txt", fallible: 1, idx: 257 },
    Fun { name: "sm_t_txt", dir: 0, shape: "x", kind: "txt", fallible: 1, idx: 258 },
    Fun { name: "m_x_rec", dir: 0, shape: "x", kind: "rec", fallible: 0, idx: 259 },
    Fun { name: "m_t_rec", dir: 0, shape: "x", kind: "rec", fallible: 1, idx: 260 },
    Fun { name: "sm_t_rec", dir: 0, shape: "x", kind: "rec", fallible: 1, idx: 261 },
    Fun { name: "m_x_tok", dir: 0, shape: "x", kind: "tok", fallible: 0, idx: 262 },
    Fun { name: "m_t_tok", dir: 0, shape: "x", kind: "tok", fallible: 1, idx: 263 },
    Fun { name: "sm_t_tok", dir: 0, shape: "x", kind: "tok", fallible: 1, idx: 264 },
    Fun { name: "m_x_box_robj", dir: 0, shape: "x", kind: "box_robj", fallible: 0, idx: 265 },
    Fun { name: "m_t_box_robj", dir: 0, shape: "x", kind: "box_robj", fallible: 1, idx: 266 },
    Fun { name: "sm_t_box_robj", dir: 0, shape: "x", kind: "box_robj", fallible: 1, idx: 267 },
    Fun { name: "m_x_up_obj", dir: 0, shape: "x", kind: "up_obj", fallible: 0, idx: 268 },
    Fun { name: "m_t_up_obj", dir: 0, shape: "x", kind: "up_obj", fallible: 1, idx: 269 },
    Fun { name: "sm_t_up_obj", dir: 0, shape: "x", kind: "up_obj", fallible: 1, idx: 270 },
    Fun { name: "m_x_sp_obj", dir: 0, shape: "x", kind: "sp_obj", fallible: 0, idx: 271 },
    Fun { name: "m_t_sp_obj", dir: 0, shape: "x", kind: "sp_obj", fallible: 1, idx: 272 },
    Fun { name: "sm_t_sp_obj", dir: 0, shape: "x", kind: "sp_obj", fallible: 1, idx: 273 },
    Fun { name: "m_x_string", dir: 0, shape: "x", kind: "string", fallible: 0, idx: 274 },
    Fun { name: "m_t_string", dir: 0, shape: "x", kind: "string", fallible: 1, idx: 275 },
    Fun { name: "sm_t_string", dir: 0, shape: "x", kind: "string", fallible: 1, idx: 276 },
    Fun { name: "m_x_vec_txt", dir: 0, shape: "x", kind: "vec_txt", fallible: 0, idx: 277 },
    Fun { name: "m_t_vec_txt", dir: 0, shape: "x", kind: "vec_txt", fallible: 1, idx: 278 },
    Fun { name: "sm_t_vec_txt", dir: 0, shape: "x", kind: "vec_txt", fallible: 1, idx: 279 },
    Fun { name: "c_ref_txt", dir: 0, shape: "ref", kind: "txt", fallible: 0, idx: 280 },
    Fun { name: "c_tref_txt", dir: 0, shape: "ref", kind: "txt", fallible: 1, idx: 281 },
    Fun { name: "c_mut_txt", dir: 0, shape: "mut", kind: "txt", fallible: 0, idx: 282 },
    Fun { name: "c_tmut_txt", dir: 0, shape: "mut", kind: "txt", fallible: 1, idx: 283 },
    Fun { name: "c_ref_rec", dir: 0, shape: "ref", kind: "rec", fallible: 0, idx: 284 },
    Fun { name: "c_tref_rec", dir: 0, shape: "ref", kind: "rec", fallible: 1, idx: 285 },
    Fun { name: "c_mut_rec", dir: 0, shape: "mut", kind: "rec", fallible: 0, idx: 286 },
    Fun { name: "c_tmut_rec", dir: 0, shape: "mut", kind: "rec", fallible: 1, idx: 287 },
    Fun { name: "c_ref_pod", dir: 0, shape: "ref", kind: "pod", fallible: 0, idx: 288 },
    Fun { name: "c_tref_pod", dir: 0, shape: "ref", kind: "pod", fallible: 1, idx: 289 },
    Fun { name: "c_mut_pod", dir: 0, shape: "mut", kind: "pod", fallible: 0, idx: 290 },
    Fun { name: "c_tmut_pod", dir: 0, shape: "mut", kind: "pod", fallible: 1, idx: 291 },
    Fun { name: "c_ref_u64", dir: 0, shape: "ref", kind: "u64", fallible: 0, idx: 292 },
    Fun { name: "c_tref_u64", dir: 0, shape: "ref", kind: "u64", fallible: 1, idx: 293 },
    Fun { name: "c_mut_u64", dir: 0, shape: "mut", kind: "u64", fallible: 0, idx: 294 },
    Fun { name: "c_tmut_u64", dir: 0, shape: "mut", kind: "u64", fallible: 1, idx: 295 },
    Fun { name: "c_ref_robj", dir: 0, shape: "ref", kind: "robj", fallible: 0, idx: 296 },
    Fun { name: "c_tref_robj", dir: 0, shape: "ref", kind: "robj", fallible: 1, idx: 297 },
    Fun { name: "c_mut_robj", dir: 0, shape: "mut", kind: "robj", fallible: 0, idx: 298 },
    Fun { name: "c_tmut_robj", dir: 0, shape: "mut", kind: "robj", fallible: 1, idx: 299 },
    Fun { name: "c_ref_obj", dir: 0, shape: "ref", kind: "obj", fallible: 0, idx: 300 },
    Fun { name: "c_tref_obj", dir: 0, shape: "ref", kind: "obj", fallible: 1, idx: 301 },
    Fun { name: "c_mut_obj", dir: 0, shape: "mut", kind: "obj", fallible: 0, idx: 302 },
    Fun { name: "c_tmut_obj", dir: 0, shape: "mut", kind: "obj", fallible: 1, idx: 303 },
    Fun { name: "c_ref_string", dir: 0, shape: "ref", kind: "string", fallible: 0, idx: 304 },
    Fun { name: "c_tref_string", dir: 0, shape: "ref", kind: "string", fallible: 1, idx: 305 },
    Fun { name: "c_mut_string", dir: 0, shape: "mut", kind: "string", fallible: 0, idx: 306 },
    Fun { name: "c_tmut_string", dir: 0, shape: "mut", kind: "string", fallible: 1, idx: 307 },
    Fun { name: "c_ref_vec_u8", dir: 0, shape: "ref", kind: "vec_u8", fallible: 0, idx: 308 },
    Fun { name: "c_tref_vec_u8", dir: 0, shape: "ref", kind: "vec_u8", fallible: 1, idx: 309 },
    Fun { name: "c_mut_vec_u8", dir: 0, shape: "mut", kind: "vec_u8", fallible: 0, idx: 310 },
    Fun { name: "c_tmut_vec_u8", dir: 0, shape: "mut", kind: "vec_u8", fallible: 1, idx: 311 },
    Fun { name: "c_ref_vec_txt", dir: 0, shape: "ref", kind: "vec_txt", fallible: 0, idx: 312 },
    Fun { name: "c_tref_vec_txt", dir: 0, shape: "ref", kind: "vec_txt", fallible: 1, idx: 313 },
    Fun { name: "c_mut_vec_txt", dir: 0, shape: "mut", kind: "vec_txt", fallible: 0, idx: 314 },
    Fun { name: "c_tmut_vec_txt", dir: 0, shape: "mut", kind: "vec_txt", fallible: 1, idx: 315 },
    Fun { name: "c_ref_vec_str", dir: 0, shape: "ref", kind: "vec_str", fallible: 0, idx: 316 },
    Fun { name: "c_tref_vec_str", dir: 0, shape: "ref", kind: "vec_str", fallible: 1, idx: 317 },
    Fun { name: "c_mut_vec_str", dir: 0, shape: "mut", kind: "vec_str", fallible: 0, idx: 318 },
    Fun { name: "c_tmut_vec_str", dir: 0, shape: "mut", kind: "vec_str", fallible: 1, idx: 319 },
    Fun { name: "c_ref_cstr", dir: 0, shape: "ref", kind: "cstr", fallible: 0, idx: 320 },
    Fun { name: "c_tref_cstr", dir: 0, shape: "ref", kind: "cstr", fallible: 1, idx: 321 },
    Fun { name: "c_mut_cstr", dir: 0, shape: "mut", kind: "cstr", fallible: 0, idx: 322 },
    Fun { name: "c_tmut_cstr", dir: 0, shape: "mut", kind: "cstr", fallible: 1, idx: 323 },
    Fun { name: "c_ref_cvu8", dir: 0, shape: "ref", kind: "cvu8", fallible: 0, idx: 324 },
    Fun { name: "c_tref_cvu8", dir: 0, shape: "ref", kind: "cvu8", fallible: 1, idx: 325 },
    Fun { name: "c_mut_cvu8", dir: 0, shape: "mut", kind: "cvu8", fallible: 0, idx: 326 },
    Fun { name: "c_tmut_cvu8", dir: 0, shape: "mut", kind: "cvu8", fallible: 1, idx: 327 },
    Fun { name: "c_ref_cvstr", dir: 0, shape: "ref", kind: "cvstr", fallible: 0, idx: 328 },
    Fun { name: "c_tref_cvstr", dir: 0, shape: "ref", kind: "cvstr", fallible: 1, idx: 329 },
    Fun { name: "c_mut_cvstr", dir: 0, shape: "mut", kind: "cvstr", fallible: 0, idx: 330 },
    Fun { name: "c_tmut_cvstr", dir: 0, shape: "mut", kind: "cvstr", fallible: 1, idx: 331 },
    Fun { name: "c_ref_cvobj", dir: 0, shape: "ref", kind: "cvobj", fallible: 0, idx: 332 },
    Fun { name: "c_tref_cvobj", dir: 0, shape: "ref", kind: "cvobj", fallible: 1, idx: 333 },
    Fun { name: "c_mut_cvobj", dir: 0, shape: "mut", kind: "cvobj", fallible: 0, idx: 334 },
    Fun { name: "c_tmut_cvobj", dir: 0, shape: "mut", kind: "cvobj", fallible: 1, idx: 335 },
    Fun { name: "c_ref_sp_obj", dir: 0, shape: "ref", kind: "sp_obj", fallible: 0, idx: 336 },
    Fun { name: "c_tref_sp_obj", dir: 0, shape: "ref", kind: "sp_obj", fallible: 1, idx: 337 },
    Fun { name: "c_mut_sp_obj", dir: 0, shape: "mut", kind: "sp_obj", fallible: 0, idx: 338 },
    Fun { name: "c_tmut_sp_obj", dir: 0, shape: "mut", kind: "sp_obj", fallible: 1, idx: 339 },
    Fun { name: "c_ref_up_obj", dir: 0, shape: "ref", kind: "up_obj", fallible: 0, idx: 340 },
    Fun { name: "c_tref_up_obj", dir: 0, shape: "ref", kind: "up_obj", fallible: 1, idx: 341 },
    Fun { name: "c_mut_up_obj", dir: 0, shape: "mut", kind: "up_obj", fallible: 0, idx: 342 },
    Fun { name: "c_tmut_up_obj", dir: 0, shape: "mut", kind: "up_obj", fallible: 1, idx: 343 },
    Fun { name: "c_ref_box_robj", dir: 0, shape: "ref", kind: "box_robj", fallible: 0, idx: 344 },
    Fun { name: "c_tref_box_robj", dir: 0, shape: "ref", kind: "box_robj", fallible: 1, idx: 345 },
    Fun { name: "c_mut_box_robj", dir: 0, shape: "mut", kind: "box_robj", fallible: 0, idx: 346 },
    Fun { name: "c_tmut_box_robj", dir: 0, shape: "mut", kind: "box_robj", fallible: 1, idx: 347 },
    Fun { name: "c_ref_tok", dir: 0, shape: "ref", kind: "tok", fallible: 0, idx: 348 },
    Fun { name: "c_tref_tok", dir: 0, shape: "ref", kind: "tok", fallible: 1, idx: 349 },
    Fun { name: "c_mut_tok", dir: 0, shape: "mut", kind: "tok", fallible: 0, idx: 350 },
    Fun { name: "c_tmut_tok", dir: 0, shape: "mut", kind: "tok", fallible: 1, idx: 351 },
    Fun { name: "c_sl_u8", dir: 0, shape: "sl", kind: "u8", fallible: 0, idx: 352 },
    Fun { name: "c_tsl_u8", dir: 0, shape: "sl", kind: "u8", fallible: 1, idx: 353 },
    Fun { name: "c_msl_u8", dir: 0, shape: "msl", kind: "u8", fallible: 0, idx: 354 },
    Fun { name: "c_tmsl_u8", dir: 0, shape: "msl", kind: "u8", fallible: 1, idx: 355 },
    Fun { name: "c_sl_string", dir: 0, shape: "sl", kind: "string", fallible: 0, idx: 356 },
    Fun { name: "c_tsl_string", dir: 0, shape: "sl", kind: "string", fallible: 1, idx: 357 },
    Fun { name: "c_msl_string", dir: 0, shape: "msl", kind: "string", fallible: 0, idx: 358 },
    Fun { name: "c_tmsl_string", dir: 0, shape: "msl", kind: "string", fallible: 1, idx: 359 },
    Fun { name: "c_sl_txt", dir: 0, shape: "sl", kind: "txt", fallible: 0, idx: 360 },
    Fun { name: "c_tsl_txt", dir: 0, shape: "sl", kind: "txt", fallible: 1, idx: 361 },
    Fun { name: "c_msl_txt", dir: 0, shape: "msl", kind: "txt", fallible: 0, idx: 362 },
    Fun { name: "c_tmsl_txt", dir: 0, shape: "msl", kind: "txt", fallible: 1, idx: 363 },
    Fun { name: "c_sl_pod", dir: 0, shape: "sl", kind: "pod", fallible: 0, idx: 364 },
    Fun { name: "c_tsl_pod", dir: 0, shape: "sl", kind: "pod", fallible: 1, idx: 365 },
    Fun { name: "c_msl_pod", dir: 0, shape: "msl", kind: "pod", fallible: 0, idx: 366 },
    Fun { name: "c_tmsl_pod", dir: 0, shape: "msl", kind: "pod", fallible: 1, idx: 367 },
    Fun { name: "c_sl_usize", dir: 0, shape: "sl", kind: "usize", fallible: 0, idx: 368 },
    Fun { name: "c_tsl_usize", dir: 0, shape: "sl", kind: "usize", fallible: 1, idx: 369 },
    Fun { name: "c_msl_usize", dir: 0, shape: "msl", kind: "usize", fallible: 0, idx: 370 },
    Fun { name: "c_tmsl_usize", dir: 0, shape: "msl", kind: "usize", fallible: 1, idx: 371 },
    Fun { name: "c_sl_f64", dir: 0, shape: "sl", kind: "f64", fallible: 0, idx: 372 },
    Fun { name: "c_tsl_f64", dir: 0, shape: "sl", kind: "f64", fallible: 1, idx: 373 },
    Fun { name: "c_msl_f64", dir: 0, shape: "msl", kind: "f64", fallible: 0, idx: 374 },
    Fun { name: "c_tmsl_f64", dir: 0, shape: "msl", kind: "f64", fallible: 1, idx: 375 },
    Fun { name: "c_sl_robj", dir: 0, shape: "sl", kind: "robj", fallible: 0, idx: 376 },
    Fun { name: "c_tsl_robj", dir: 0, shape: "sl", kind: "robj", fallible: 1, idx: 377 },
    Fun { name: "c_msl_robj", dir: 0, shape: "msl", kind: "robj", fallible: 0, idx: 378 },
    Fun { name: "c_tmsl_robj", dir: 0, shape: "msl", kind: "robj", fallible: 1, idx: 379 },
    Fun { name: "c_sl_tok", dir: 0, shape: "sl", kind: "tok", fallible: 0, idx: 380 },
    Fun { name: "c_tsl_tok", dir: 0, shape: "sl", kind: "tok", fallible: 1, idx: 381 },
    Fun { name: "c_msl_tok", dir: 0, shape: "msl", kind: "tok", fallible: 0, idx: 382 },
    Fun { name: "c_tmsl_tok", dir: 0, shape: "msl", kind: "tok", fallible: 1, idx: 383 },
    Fun { name: "c_str", dir: 0, shape: "str", kind: "str", fallible: 0, idx: 384 },
    Fun { name: "c_tstr", dir: 0, shape: "str", kind: "str", fallible: 1, idx: 385 },
    Fun { name: "c_multi", dir: 0, shape: "multi", kind: "rec", fallible: 0, idx: 386 },
    Fun { name: "c_tmulti", dir: 0, shape: "multi", kind: "rec", fallible: 1, idx: 387 },
    Fun { name: "rt_str_push", dir: 0, shape: "shim", kind: "str_push", fallible: 0, idx: 388 },
    Fun { name: "rt_str_reserve", dir: 0, shape: "shim", kind: "str_reserve", fallible: 0, idx: 389 },
    Fun { name: "rt_let_cxx_string", dir: 0, shape: "shim", kind: "let_cxx_string", fallible: 0, idx: 390 },
    Fun { name: "rt_str_write", dir: 0, shape: "shim", kind: "str_write", fallible: 0, idx: 391 },
    Fun { name: "rt_vec_new", dir: 0, shape: "shim", kind: "vec_new", fallible: 0, idx: 392 },
    Fun { name: "rt_vec_push", dir: 0, shape: "shim", kind: "vec_push", fallible: 0, idx: 393 },
    Fun { name: "rt_vec_push_tok", dir: 0, shape: "shim", kind: "vec_push_tok", fallible: 0, idx: 394 },
    Fun { name: "rt_vec_push_txt", dir: 0, shape: "shim", kind: "vec_push_txt", fallible: 0, idx: 395 },
    Fun { name: "rt_up_new", dir: 0, shape: "shim", kind: "up_new", fallible: 0, idx: 396 },
    Fun { name: "rt_up_new_txt", dir: 0, shape: "shim", kind: "up_new_txt", fallible: 0, idx: 397 },
    Fun { name: "rt_sp_new", dir: 0, shape: "shim", kind: "sp_new", fallible: 0, idx: 398 },
    Fun { name: "rt_sp_new_u64", dir: 0, shape: "shim", kind: "sp_new_u64", fallible: 0, idx: 399 },
    Fun { name: "rt_sp_new_txt", dir: 0, shape: "shim", kind: "sp_new_txt", fallible: 0, idx: 400 },
    Fun { name: "rt_vec_new_tok", dir: 0, shape: "shim", kind: "vec_new_tok", fallible: 0, idx: 401 },
    Fun { name: "rt_vec_new_txt", dir: 0, shape: "shim", kind: "vec_new_txt", fallible: 0, idx: 402 },
    Fun { name: "rt_vec_new_obj", dir: 0, shape: "shim", kind: "vec_new_obj", fallible: 0, idx: 403 },
    Fun { name: "d_t_u32", dir: 0, shape: "x", kind: "u32", fallible: 2, idx: 404 },
    Fun { name: "d_t_txt", dir: 0, shape: "x", kind: "txt", fallible: 2, idx: 405 },
    Fun { name: "d_t_box_txt", dir: 0, shape: "x", kind: "box_txt", fallible: 2, idx: 406 },
    Fun { name: "d_t_up_obj", dir: 0, shape: "x", kind: "up_obj", fallible: 2, idx: 407 },
    Fun { name: "d_t_string", dir: 0, shape: "x", kind: "string", fallible: 2, idx: 408 },
    Fun { name: "d_t_vec_str", dir: 0, shape: "x", kind: "vec_str", fallible: 2, idx: 409 },
    Fun { name: "d_t_rec", dir: 0, shape: "x", kind: "rec", fallible: 2, idx: 410 },
    Fun { name: "d_t_tok", dir: 0, shape: "x", kind: "tok", fallible: 2, idx: 411 },
    Fun { name: "r_x_u8", dir: 1, shape: "x", kind: "u8", fallible: 0, idx: 0 },
    Fun { name: "r_t_u8", dir: 1, shape: "x", kind: "u8", fallible: 1, idx: 1 },
    Fun { name: "r_take_u8", dir: 1, shape: "take", kind: "u8", fallible: 0, idx: 2 },
    Fun { name: "r_ttake_u8", dir: 1, shape: "take", kind: "u8", fallible: 1, idx: 3 },
    Fun { name: "r_ret_u8", dir: 1, shape: "ret", kind: "u8", fallible: 0, idx: 4 },
    Fun { name: "r_tret_u8", dir: 1, shape: "ret", kind: "u8", fallible: 1, idx: 5 },
    Fun { name: "r_x_i8", dir: 1, shape: "x", kind: "i8", fallible: 0, idx: 6 },
    Fun { name: "r_x_u16", dir: 1, shape: "x", kind: "u16", fallible: 0, idx: 7 },
    Fun { name: "r_x_i16", dir: 1, shape: "x", kind: "i16", fallible: 0, idx: 8 },
    Fun { name: "r_x_u32", dir: 1, shape: "x", kind: "u32", fallible: 0, idx: 9 },
    Fun { name: "r_x_i32", dir: 1, shape: "x", kind: "i32", fallible: 0, idx: 10 },
    Fun { name: "r_x_u64", dir: 1, shape: "x", kind: "u64", fallible: 0, idx: 11 },
    Fun { name: "r_x_i64", dir: 1, shape: "x", kind: "i64", fallible: 0, idx: 12 },
    Fun { name: "r_t_i64", dir: 1, shape: "x", kind: "i64", fallible: 1, idx: 13 },
    Fun { name: "r_take_i64", dir: 1, shape: "take", kind: "i64", fallible: 0, idx: 14 },
    Fun { name: "r_ttake_i64", dir: 1, shape: "take", kind: "i64", fallible: 1, idx: 15 },
    Fun { name: "r_ret_i64", dir: 1, shape: "ret", kind: "i64", fallible: 0, idx: 16 },
    Fun { name: "r_tret_i64", dir: 1, shape: "ret", kind: "i64", fallible: 1, idx: 17 },
    Fun { name: "r_x_usize", dir: 1, shape: "x", kind: "usize", fallible: 0, idx: 18 },
    Fun { name: "r_x_isize", dir: 1, shape: "x", kind: "isize", fallible: 0, idx: 19 },
    Fun { name: "r_x_f32", dir: 1, shape: "x", kind: "f32", fallible: 0, idx: 20 },
    Fun { name: "r_t_f32", dir: 1, shape: "x", kind: "f32", fallible: 1, idx: 21 },
    Fun { name: "r_take_f32", dir: 1, shape: "take", kind: "f32", fallible: 0, idx: 22 },
    Fun { name: "r_ttake_f32", dir: 1, shape: "take", kind: "f32", fallible: 1, idx: 23 },
    Fun { name: "r_ret_f32", dir: 1, shape: "ret", kind: "f32", fallible: 0, idx: 24 },
    Fun { name: "r_tret_f32", dir: 1, shape: "ret", kind: "f32", fallible: 1, idx: 25 },
    Fun { name: "r_x_f64", dir: 1, shape: "x", kind: "f64", fallible: 0, idx: 26 },
    Fun { name: "r_x_bool", dir: 1, shape: "x", kind: "bool", fallible: 0, idx: 27 },
    Fun { name: "r_t_bool", dir: 1, shape: "x", kind: "bool", fallible: 1, idx: 28 },
    Fun { name: "r_take_bool", dir: 1, shape: "take", kind: "bool", fallible: 0, idx: 29 },
    Fun { name: "r_ttake_bool", dir: 1, shape: "take", kind: "bool", fallible: 1, idx: 30 },
    Fun { name: "r_ret_bool", dir: 1, shape: "ret", kind: "bool", fallible: 0, idx: 31 },
    Fun { name: "r_tret_bool", dir: 1, shape: "ret", kind: "bool", fallible: 1, idx: 32 },
    Fun { name: "r_x_chr", dir: 1, shape: "x", kind: "chr", fallible: 0, idx: 33 },
    Fun { name: "r_x_pod", dir: 1, shape: "x", kind: "pod", fallible: 0, idx: 34 },
    Fun { name: "r_t_pod", dir: 1, shape: "x", kind: "pod", fallible: 1, idx: 35 },
    Fun { name: "r_take_pod", dir: 1, shape: "take", kind: "pod", fallible: 0, idx: 36 },
    Fun { name: "r_ttake_pod", dir: 1, shape: "take", kind: "pod", fallible: 1, idx: 37 },
    Fun { name: "r_ret_pod", dir: 1, shape: "ret", kind: "pod", fallible: 0, idx: 38 },
    Fun { name: "r_tret_pod", dir: 1, shape: "ret", kind: "pod", fallible: 1, idx: 39 },
    Fun { name: "r_x_color", dir: 1, shape: "x", kind: "color", fallible: 0, idx: 40 },
    Fun { name: "r_t_color", dir: 1, shape: "x", kind: "color", fallible: 1, idx: 41 },
    Fun { name: "r_take_color", dir: 1, shape: "take", kind: "color", fallible: 0, idx: 42 },
    Fun { name: "r_ttake_color", dir: 1, shape: "take", kind: "color", fallible: 1, idx: 43 },
    Fun { name: "r_ret_color", dir: 1, shape: "ret", kind: "color", fallible: 0, idx: 44 },
    Fun { name: "r_tret_color", dir: 1, shape: "ret", kind: "color", fallible: 1, idx: 45 },
    Fun { name: "r_x_txt", dir: 1, shape: "x", kind: "txt", fallible: 0, idx: 46 },
    Fun { name: "r_t_txt", dir: 1, shape: "x", kind: "txt", fallible: 1, idx: 47 },
    Fun { name: "r_take_txt", dir: 1, shape: "take", kind: "txt", fallible: 0, idx: 48 },
    Fun { name: "r_ttake_txt", dir: 1, shape: "take", kind: "txt", fallible: 1, idx: 49 },
    Fun { name: "r_ret_txt", dir: 1, shape: "ret", kind: "txt", fallible: 0, idx: 50 },
    Fun { name: "r_tret_txt", dir: 1, shape: "ret", kind: "txt", fallible: 1, idx: 51 },
    Fun { name: "r_x_rec", dir: 1, shape: "x", kind: "rec", fallible: 0, idx: 52 },
    Fun { name: "r_t_rec", dir: 1, shape: "x", kind: "rec", fallible: 1, idx: 53 },
    Fun { name: "r_take_rec", dir: 1, shape: "take", kind: "rec", fallible: 0, idx: 54 },
    Fun { name: "r_ttake_rec", dir: 1, shape: "take", kind: "rec", fallible: 1, idx: 55 },
    Fun { name: "r_ret_rec", dir: 1, shape: "ret", kind: "rec", fallible: 0, idx: 56 },
    Fun { name: "r_tret_rec", dir: 1, shape: "ret", kind: "rec", fallible: 1, idx: 57 },
    Fun { name: "r_x_tok", dir: 1, shape: "x", kind: "tok", fallible: 0, idx: 58 },
    Fun { name: "r_t_tok", dir: 1, shape: "x", kind: "tok", fallible: 1, idx: 59 },
    Fun { name: "r_take_tok", dir: 1, shape: "take", kind: "tok", fallible: 0, idx: 60 },
    Fun { name: "r_ttake_tok", dir: 1, shape: "take", kind: "tok", fallible: 1, idx: 61 },
    Fun { name: "r_ret_tok", dir: 1, shape: "ret", kind: "tok", fallible: 0, idx: 62 },
    Fun { name: "r_tret_tok", dir: 1, shape: "ret", kind: "tok", fallible: 1, idx: 63 },
    Fun { name: "r_x_box_robj", dir: 1, shape: "x", kind: "box_robj", fallible: 0, idx: 64 },
    Fun { name: "r_t_box_robj", dir: 1, shape: "x", kind: "box_robj", fallible: 1, idx: 65 },
    Fun { name: "r_take_box_robj", dir: 1, shape: "take", kind: "box_robj", fallible: 0, idx: 66 },
    Fun { name: "r_ttake_box_robj", dir: 1, shape: "take", kind: "box_robj", fallible: 1, idx: 67 },
    Fun { name: "r_ret_box_robj", dir: 1, shape: "ret", kind: "box_robj", fallible: 0, idx: 68 },
    Fun { name: "r_tret_box_robj", dir: 1, shape: "ret", kind: "box_robj", fallible: 1, idx: 69 },
    Fun { name: "r_x_box_txt", dir: 1, shape: "x", kind: "box_txt", fallible: 0, idx: 70 },
    Fun { name: "r_t_box_txt", dir: 1, shape: "x", kind: "box_txt", fallible: 1, idx: 71 },
    Fun { name: "r_take_box_txt", dir: 1, shape: "take", kind: "box_txt", fallible: 0, idx: 72 },
    Fun { name: "r_ttake_box_txt", dir: 1, shape: "take", kind: "box_txt", fallible: 1, idx: 73 },
    Fun { name: "r_ret_box_txt", dir: 1, shape: "ret", kind: "box_txt", fallible: 0, idx: 74 },
    Fun { name: "r_tret_box_txt", dir: 1, shape: "ret", kind: "box_txt", fallible: 1, idx: 75 },
    Fun { name: "r_x_up_obj", dir: 1, shape: "x", kind: "up_obj", fallible: 0, idx: 76 },
    Fun { name: "r_t_up_obj", dir: 1, shape: "x", kind: "up_obj", fallible: 1, idx: 77 },
    Fun { name: "r_take_up_obj", dir: 1, shape: "take", kind: "up_obj", fallible: 0, idx: 78 },
    Fun { name: "r_ttake_up_obj", dir: 1, shape: "take", kind: "up_obj", fallible: 1, idx: 79 },
    Fun { name: "r_ret_up_obj", dir: 1, shape: "ret", kind: "up_obj", fallible: 0, idx: 80 },
    Fun { name: "r_tret_up_obj", dir: 1, shape: "ret", kind: "up_obj", fallible: 1, idx: 81 },
    Fun { name: "r_x_up_str", dir: 1, shape: "x", kind: "up_str", fallible: 0, idx: 82 },
    Fun { name: "r_t_up_str", dir: 1, shape: "x", kind: "up_str", fallible: 1, idx: 83 },
    Fun { name: "r_take_up_str", dir: 1, shape: "take", kind: "up_str", fallible: 0, idx: 84 },
    Fun { name: "r_ttake_up_str", dir: 1, shape: "take", kind: "up_str", fallible: 1, idx: 85 },
    Fun { name: "r_ret_up_str", dir: 1, shape: "ret", kind: "up_str", fallible: 0, idx: 86 },
    Fun { name: "r_tret_up_str", dir: 1, shape: "ret", kind: "up_str", fallible: 1, idx: 87 },
    Fun { name: "r_x_up_pod", dir: 1, shape: "x", kind: "up_pod", fallible: 0, idx: 88 },
    Fun { name: "r_t_up_pod", dir: 1, shape: "x", kind: "up_pod", fallible: 1, idx: 89 },
    Fun { name: "r_take_up_pod", dir: 1, shape: "take", kind: "up_pod", fallible: 0, idx: 90 },
    Fun { name: "r_ttake_up_pod", dir: 1, shape: "take", kind: "up_pod", fallible: 1, idx: 91 },
    Fun { name: "r_ret_up_pod", dir: 1, shape: "ret", kind: "up_pod", fallible: 0, idx: 92 },
    Fun { name: "r_tret_up_pod", dir: 1, shape: "ret", kind: "up_pod", fallible: 1, idx: 93 },
    Fun { name: "r_x_up_txt", dir: 1, shape: "x", kind: "up_txt", fallible: 0, idx: 94 },
    Fun { name: "r_t_up_txt", dir: 1, shape: "x", kind: "up_txt", fallible: 1, idx: 95 },
    Fun { name: "r_take_up_txt", dir: 1, shape: "take", kind: "up_txt", fallible: 0, idx: 96 },
    Fun { name: "r_ttake_up_txt", dir: 1, shape: "take", kind: "up_txt", fallible: 1, idx: 97 },
    Fun { name: "r_ret_up_txt", dir: 1, shape: "ret", kind: "up_txt", fallible: 0, idx: 98 },
    Fun { name: "r_tret_up_txt", dir: 1, shape: "ret", kind: "up_txt", fallible: 1, idx: 99 },
    Fun { name: "r_x_up_vu8", dir: 1, shape: "x", kind: "up_vu8", fallible: 0, idx: 100 },
    Fun { name: "r_t_up_vu8", dir: 1, shape: "x", kind: "up_vu8", fallible: 1, idx: 101 },
    Fun { name: "r_take_up_vu8", dir: 1, shape: "take", kind: "up_vu8", fallible: 0, idx: 102 },
    Fun { name: "r_ttake_up_vu8", dir: 1, shape: "take", kind: "up_vu8", fallible: 1, idx: 103 },
    Fun { name: "r_ret_up_vu8", dir: 1, shape: "ret", kind: "up_vu8", fallible: 0, idx: 104 },
    Fun { name: "r_tret_up_vu8", dir: 1, shape: "ret", kind: "up_vu8", fallible: 1, idx: 105 },
    Fun { name: "r_x_up_vf64", dir: 1, shape: "x", kind: "up_vf64", fallible: 0, idx: 106 },
    Fun { name: "r_t_up_vf64", dir: 1, shape: "x", kind: "up_vf64", fallible: 1, idx: 107 },
    Fun { name: "r_take_up_vf64", dir: 1, shape: "take", kind: "up_vf64", fallible: 0, idx: 108 },
    Fun { name: "r_ttake_up_vf64", dir: 1, shape: "take", kind: "up_vf64", fallible: 1, idx: 109 },
    Fun { name: "r_ret_up_vf64", dir: 1, shape: "ret", kind: "up_vf64", fallible: 0, idx: 110 },
    Fun { name: "r_tret_up_vf64", dir: 1, shape: "ret", kind: "up_vf64", fallible: 1, idx: 111 },
    Fun { name: "r_x_up_vstr", dir: 1, shape: "x", kind: "up_vstr", fallible: 0, idx: 112 },
    Fun { name: "r_t_up_vstr", dir: 1, shape: "x", kind: "up_vstr", fallible: 1, idx: 113 },
    Fun { name: "r_take_up_vstr", dir: 1, shape: "take", kind: "up_vstr", fallible: 0, idx: 114 },
    Fun { name: "r_ttake_up_vstr", dir: 1, shape: "take", kind: "up_vstr", fallible: 1, idx: 115 },
    Fun { name: "r_ret_up_vstr", dir: 1, shape: "ret", kind: "up_vstr", fallible: 0, idx: 116 },
    Fun { name: "r_tret_up_vstr", dir: 1, shape: "ret", kind: "up_vstr", fallible: 1, idx: 117 },
    Fun { name: "r_x_up_vobj", dir: 1, shape: "x", kind: "up_vobj", fallible: 0, idx: 118 },
    Fun { name: "r_t_up_vobj", dir: 1, shape: "x", kind: "up_vobj", fallible: 1, idx: 119 },
    Fun { name: "r_take_up_vobj", dir: 1, shape: "take", kind: "up_vobj", fallible: 0, idx: 120 },
    Fun { name: "r_ttake_up_vobj", dir: 1, shape: "take", kind: "up_vobj", fallible: 1, idx: 121 },
    Fun { name: "r_ret_up_vobj", dir: 1, shape: "ret", kind: "up_vobj", fallible: 0, idx: 122 },
    Fun { name: "r_tret_up_vobj", dir: 1, shape: "ret", kind: "up_vobj", fallible: 1, idx: 123 },
    Fun { name: "r_x_up_vtxt", dir: 1, shape: "x", kind: "up_vtxt", fallible: 0, idx: 124 },
    Fun { name: "r_t_up_vtxt", dir: 1, shape: "x", kind: "up_vtxt", fallible: 1, idx: 125 },
    Fun { name: "r_take_up_vtxt", dir: 1, shape: "take", kind: "up_vtxt", fallible: 0, idx: 126 },
    Fun { name: "r_ttake_up_vtxt", dir: 1, shape: "take", kind: "up_vtxt", fallible: 1, idx: 127 },
    Fun { name: "r_ret_up_vtxt", dir: 1, shape: "ret", kind: "up_vtxt", fallible: 0, idx: 128 },
    Fun { name: "r_tret_up_vtxt", dir: 1, shape: "ret", kind: "up_vtxt", fallible: 1, idx: 129 },
    Fun { name: "r_x_sp_obj", dir: 1, shape: "x", kind: "sp_obj", fallible: 0, idx: 130 },
    Fun { name: "r_t_sp_obj", dir: 1, shape: "x", kind: "sp_obj", fallible: 1, idx: 131 },
    Fun { name: "r_take_sp_obj", dir: 1, shape: "take", kind: "sp_obj", fallible: 0, idx: 132 },
    Fun { name: "r_ttake_sp_obj", dir: 1, shape: "take", kind: "sp_obj", fallible: 1, idx: 133 },
    Fun { name: "r_ret_sp_obj", dir: 1, shape: "ret", kind: "sp_obj", fallible: 0, idx: 134 },
    Fun { name: "r_tret_sp_obj", dir: 1, shape: "ret", kind: "sp_obj", fallible: 1, idx: 135 },
    Fun { name: "r_x_sp_pod", dir: 1, shape: "x", kind: "sp_pod", fallible: 0, idx: 136 },
    Fun { name: "r_t_sp_pod", dir: 1, shape: "x", kind: "sp_pod", fallible: 1, idx: 137 },
    Fun { name: "r_take_sp_pod", dir: 1, shape: "take", kind: "sp_pod", fallible: 0, idx: 138 },
    Fun { name: "r_ttake_sp_pod", dir: 1, shape: "take", kind: "sp_pod", fallible: 1, idx: 139 },
    Fun { name: "r_ret_sp_pod", dir: 1, shape: "ret", kind: "sp_pod", fallible: 0, idx: 140 },
    Fun { name: "r_tret_sp_pod", dir: 1, shape: "ret", kind: "sp_pod", fallible: 1, idx: 141 },
    Fun { name: "r_x_sp_str", dir: 1, shape: "x", kind: "sp_str", fallible: 0, idx: 142 },
    Fun { name: "r_t_sp_str", dir: 1, shape: "x", kind: "sp_str", fallible: 1, idx: 143 },
    Fun { name: "r_take_sp_str", dir: 1, shape: "take", kind: "sp_str", fallible: 0, idx: 144 },
    Fun { name: "r_ttake_sp_str", dir: 1, shape: "take", kind: "sp_str", fallible: 1, idx: 145 },
    Fun { name: "r_ret_sp_str", dir: 1, shape: "ret", kind: "sp_str", fallible: 0, idx: 146 },
    Fun { name: "r_tret_sp_str", dir: 1, shape: "ret", kind: "sp_str", fallible: 1, idx: 147 },
    Fun { name: "r_x_sp_u64", dir: 1, shape: "x", kind: "sp_u64", fallible: 0, idx: 148 },
    Fun { name: "r_t_sp_u64", dir: 1, shape: "x", kind: "sp_u64", fallible: 1, idx: 149 },
    Fun { name: "r_take_sp_u64", dir: 1, shape: "take", kind: "sp_u64", fallible: 0, idx: 150 },
    Fun { name: "r_ttake_sp_u64", dir: 1, shape: "take", kind: "sp_u64", fallible: 1, idx: 151 },
    Fun { name: "r_ret_sp_u64", dir: 1, shape: "ret", kind: "sp_u64", fallible: 0, idx: 152 },
    Fun { name: "r_tret_sp_u64", dir: 1, shape: "ret", kind: "sp_u64", fallible: 1, idx: 153 },
    Fun { name: "r_x_wp_obj", dir: 1, shape: "x", kind: "wp_obj", fallible: 0, idx: 154 },
    Fun { name: "r_t_wp_obj", dir: 1, shape: "x", kind: "wp_obj", fallible: 1, idx: 155 },
    Fun { name: "r_take_wp_obj", dir: 1, shape: "take", kind: "wp_obj", fallible: 0, idx: 156 },
    Fun { name: "r_ttake_wp_obj", dir: 1, shape: "take", kind: "wp_obj", fallible: 1, idx: 157 },
    Fun { name: "r_ret_wp_obj", dir: 1, shape: "ret", kind: "wp_obj", fallible: 0, idx: 158 },
    Fun { name: "r_tret_wp_obj", dir: 1, shape: "ret", kind: "wp_obj", fallible: 1, idx: 159 },
    Fun { name: "r_x_string", dir: 1, shape: "x", kind: "string", fallible: 0, idx: 160 },
    Fun { name: "r_t_string", dir: 1, shape: "x", kind: "string", fallible: 1, idx: 161 },
    Fun { name: "r_take_string", dir: 1, shape: "take", kind: "string", fallible: 0, idx: 162 },
    Fun { name: "r_ttake_string", dir: 1, shape: "take", kind: "string", fallible: 1, idx: 163 },
    Fun { name: "r_ret_string", dir: 1, shape: "ret", kind: "string", fallible: 0, idx: 164 },
    Fun { name: "r_tret_string", dir: 1, shape: "ret", kind: "string", fallible: 1, idx: 165 },
    Fun { name: "r_x_vec_u8", dir: 1, shape: "x", kind: "vec_u8", fallible: 0, idx: 166 },
    Fun { name: "r_t_vec_u8", dir: 1, shape: "x", kind: "vec_u8", fallible: 1, idx: 167 },
    Fun { name: "r_take_vec_u8", dir: 1, shape: "take", kind: "vec_u8", fallible: 0, idx: 168 },
    Fun { name: "r_ttake_vec_u8", dir: 1, shape: "take", kind: "vec_u8", fallible: 1, idx: 169 },
    Fun { name: "r_ret_vec_u8", dir: 1, shape: "ret", kind: "vec_u8", fallible: 0, idx: 170 },
    Fun { name: "r_tret_vec_u8", dir: 1, shape: "ret", kind: "vec_u8", fallible: 1, idx: 171 },
    Fun { name: "r_x_vec_str", dir: 1, shape: "x", kind: "vec_str", fallible: 0, idx: 172 },
    Fun { name: "r_t_vec_str", dir: 1, shape: "x", kind: "vec_str", fallible: 1, idx: 173 },
    Fun { name: "r_take_vec_str", dir: 1, shape: "take", kind: "vec_str", fallible: 0, idx: 174 },
    Fun { name: "r_ttake_vec_str", dir: 1, shape: "take", kind: "vec_str", fallible: 1, idx: 175 },
    Fun { name: "r_ret_vec_str", dir: 1, shape: "ret", kind: "vec_str", fallible: 0, idx: 176 },
    Fun { name: "r_tret_vec_str", dir: 1, shape: "ret", kind: "vec_str", fallible: 1, idx: 177 },
    Fun { name: "r_x_vec_txt", dir: 1, shape: "x", kind: "vec_txt", fallible: 0, idx: 178 },
    Fun { name: "r_t_vec_txt", dir: 1, shape: "x", kind: "vec_txt", fallible: 1, idx: 179 },
    Fun { name: "r_take_vec_txt", dir: 1, shape: "take", kind: "vec_txt", fallible: 0, idx: 180 },
    Fun { name: "r_ttake_vec_txt", dir: 1, shape: "take", kind: "vec_txt", fallible: 1, idx: 181 },
    Fun { name: "r_ret_vec_txt", dir: 1, shape: "ret", kind: "vec_txt", fallible: 0, idx: 182 },
    Fun { name: "r_tret_vec_txt", dir: 1, shape: "ret", kind: "vec_txt", fallible: 1, idx: 183 },
    Fun { name: "r_x_vec_pod", dir: 1, shape: "x", kind: "vec_pod", fallible: 0, idx: 184 },
    Fun { name: "r_t_vec_pod", dir: 1, shape: "x", kind: "vec_pod", fallible: 1, idx: 185 },
    Fun { name: "r_take_vec_pod", dir: 1, shape: "take", kind: "vec_pod", fallible: 0, idx: 186 },
    Fun { name: "r_ttake_vec_pod", dir: 1, shape: "take", kind: "vec_pod", fallible: 1, idx: 187 },
    Fun { name: "r_ret_vec_pod", dir: 1, shape: "ret", kind: "vec_pod", fallible: 0, idx: 188 },
    Fun { name: "r_tret_vec_pod", dir: 1, shape: "ret", kind: "vec_pod", fallible: 1, idx: 189 },
    Fun { name: "r_x_vec_bool", dir: 1, shape: "x", kind: "vec_bool", fallible: 0, idx: 190 },
    Fun { name: "r_t_vec_bool", dir: 1, shape: "x", kind: "vec_bool", fallible: 1, idx: 191 },
    Fun { name: "r_take_vec_bool", dir: 1, shape: "take", kind: "vec_bool", fallible: 0, idx: 192 },
    Fun { name: "r_ttake_vec_bool", dir: 1, shape: "take", kind: "vec_bool", fallible: 1, idx: 193 },
    Fun { name: "r_ret_vec_bool", dir: 1, shape: "ret", kind: "vec_bool", fallible: 0, idx: 194 },
    Fun { name: "r_tret_vec_bool", dir: 1, shape: "ret", kind: "vec_bool", fallible: 1, idx: 195 },
    Fun { name: "r_x_vec_f64", dir: 1, shape: "x", kind: "vec_f64", fallible: 0, idx: 196 },
    Fun { name: "r_t_vec_f64", dir: 1, shape: "x", kind: "vec_f64", fallible: 1, idx: 197 },
    Fun { name: "r_take_vec_f64", dir: 1, shape: "take", kind: "vec_f64", fallible: 0, idx: 198 },
    Fun { name: "r_ttake_vec_f64", dir: 1, shape: "take", kind: "vec_f64", fallible: 1, idx: 199 },
    Fun { name: "r_ret_vec_f64", dir: 1, shape: "ret", kind: "vec_f64", fallible: 0, idx: 200 },
    Fun { name: "r_tret_vec_f64", dir: 1, shape: "ret", kind: "vec_f64", fallible: 1, idx: 201 },
    Fun { name: "r_x_vec_usize", dir: 1, shape: "x", kind: "vec_usize", fallible: 0, idx: 202 },
    Fun { name: "r_t_vec_usize", dir: 1, shape: "x", kind: "vec_usize", fallible: 1, idx: 203 },
    Fun { name: "r_take_vec_usize", dir: 1, shape: "take", kind: "vec_usize", fallible: 0, idx: 204 },
    Fun { name: "r_ttake_vec_usize", dir: 1, shape: "take", kind: "vec_usize", fallible: 1, idx: 205 },
    Fun { name: "r_ret_vec_usize", dir: 1, shape: "ret", kind: "vec_usize", fallible: 0, idx: 206 },
    Fun { name: "r_tret_vec_usize", dir: 1, shape: "ret", kind: "vec_usize", fallible: 1, idx: 207 },
    Fun { name: "r_x_vec_tok", dir: 1, shape: "x", kind: "vec_tok", fallible: 0, idx: 208 },
    Fun { name: "r_t_vec_tok", dir: 1, shape: "x", kind: "vec_tok", fallible: 1, idx: 209 },
    Fun { name: "r_take_vec_tok", dir: 1, shape: "take", kind: "vec_tok", fallible: 0, idx: 210 },
    Fun { name: "r_ttake_vec_tok", dir: 1, shape: "take", kind: "vec_tok", fallible: 1, idx: 211 },
    Fun { name: "r_ret_vec_tok", dir: 1, shape: "ret", kind: "vec_tok", fallible: 0, idx: 212 },
    Fun { name: "r_tret_vec_tok", dir: 1, shape: "ret", kind: "vec_tok", fallible: 1, idx: 213 },
    Fun { name: "r_x_vec_robj", dir: 1, shape: "x", kind: "vec_robj", fallible: 0, idx: 214 },
    Fun { name: "r_t_vec_robj", dir: 1, shape: "x", kind: "vec_robj", fallible: 1, idx: 215 },
    Fun { name: "r_take_vec_robj", dir: 1, shape: "take", kind: "vec_robj", fallible: 0, idx: 216 },
    Fun { name: "r_ttake_vec_robj", dir: 1, shape: "take", kind: "vec_robj", fallible: 1, idx: 217 },
    Fun { name: "r_ret_vec_robj", dir: 1, shape: "ret", kind: "vec_robj", fallible: 0, idx: 218 },
    Fun { name: "r_tret_vec_robj", dir: 1, shape: "ret", kind: "vec_robj", fallible: 1, idx: 219 },
    Fun { name: "rm_x_u32", dir: 1, shape: "x", kind: "u32", fallible: 0, idx: 220 },
    Fun { name: "rm_t_u32", dir: 1, shape: "x", kind: "u32", fallible: 1, idx: 221 },
    Fun { name: "rsm_t_u32", dir: 1, shape: "x", kind: "u32", fallible: 1, idx: 222 },
    Fun { name: "rm_x_txt", dir: 1, shape: "x", kind: "txt", fallible: 0, idx: 223 },
    Fun { name: "rm_t_txt", dir: 1, shape: "x", kind: "txt", fallible: 1, idx: 224 },
    Fun { name: "rsm_t_txt", dir: 1, shape: "x", kind: "txt", fallible: 1, idx: 225 },
    Fun { name: "rm_x_rec", dir: 1, shape: "x", kind: "rec", fallible: 0, idx: 226 },
    Fun { name: "rm_t_rec", dir: 1, shape: "x", kind: "rec", fallible: 1, idx: 227 },
    Fun { name: "rsm_t_rec", dir: 1, shape: "x", kind: "rec", fallible: 1, idx: 228 },
    Fun { name: "rm_x_tok", dir: 1, shape: "x", kind: "tok", fallible: 0, idx: 229 },
    Fun { name: "rm_t_tok", dir: 1, shape: "x", kind: "tok", fallible: 1, idx: 230 },
    Fun { name: "rsm_t_tok", dir: 1, shape: "x", kind: "tok", fallible: 1, idx: 231 },
    Fun { name: "rm_x_box_robj", dir: 1, shape: "x", kind: "box_robj", fallible: 0, idx: 232 },
    Fun { name: "rm_t_box_robj", dir: 1, shape: "x", kind: "box_robj", fallible: 1, idx: 233 },
    Fun { name: "rsm_t_box_robj", dir: 1, shape: "x", kind: "box_robj", fallible: 1, idx: 234 },
    Fun { name: "rm_x_up_obj", dir: 1, shape: "x", kind: "up_obj", fallible: 0, idx: 235 },
    Fun { name: "rm_t_up_obj", dir: 1, shape: "x", kind: "up_obj", fallible: 1, idx: 236 },
    Fun { name: "rsm_t_up_obj", dir: 1, shape: "x", kind: "up_obj", fallible: 1, idx: 237 },
    Fun { name: "rm_x_sp_obj", dir: 1, shape: "x", kind: "sp_obj", fallible: 0, idx: 238 },
    Fun { name: "rm_t_sp_obj", dir: 1, shape: "x", kind: "sp_obj", fallible: 1, idx: 239 },
    Fun { name: "rsm_t_sp_obj", dir: 1, shape: "x", kind: "sp_obj", fallible: 1, idx: 240 },
    Fun { name: "rm_x_string", dir: 1, shape: "x", kind: "string", fallible: 0, idx: 241 },
    Fun { name: "rm_t_string", dir: 1, shape: "x", kind: "string", fallible: 1, idx: 242 },
    Fun { name: "rsm_t_string", dir: 1, shape: "x", kind: "string", fallible: 1, idx: 243 },
    Fun { name: "rm_x_vec_txt", dir: 1, shape: "x", kind: "vec_txt", fallible: 0, idx: 244 },
    Fun { name: "rm_t_vec_txt", dir: 1, shape: "x", kind: "vec_txt", fallible: 1, idx: 245 },
    Fun { name: "rsm_t_vec_txt", dir: 1, shape: "x", kind: "vec_txt", fallible: 1, idx: 246 },
    Fun { name: "r_ref_txt", dir: 1, shape: "ref", kind: "txt", fallible: 0, idx: 247 },
    Fun { name: "r_tref_txt", dir: 1, shape: "ref", kind: "txt", fallible: 1, idx: 248 },
    Fun { name: "r_mut_txt", dir: 1, shape: "mut", kind: "txt", fallible: 0, idx: 249 },
    Fun { name: "r_tmut_txt", dir: 1, shape: "mut", kind: "txt", fallible: 1, idx: 250 },
    Fun { name: "r_ref_rec", dir: 1, shape: "ref", kind: "rec", fallible: 0, idx: 251 },
    Fun { name: "r_tref_rec", dir: 1, shape: "ref", kind: "rec", fallible: 1, idx: 252 },
    Fun { name: "r_mut_rec", dir: 1, shape: "mut", kind: "rec", fallible: 0, idx: 253 },
    Fun { name: "r_tmut_rec", dir: 1, shape: "mut", kind: "rec", fallible: 1, idx: 254 },
    Fun { name: "r_ref_pod", dir: 1, shape: "ref", kind: "pod", fallible: 0, idx: 255 },
    Fun { name: "r_tref_pod", dir: 1, shape: "ref", kind: "pod", fallible: 1, idx: 256 },
    Fun { name: "r_mut_pod", dir: 1, shape: "mut", kind: "pod", fallible: 0, idx: 257 },
    Fun { name: "r_tmut_pod", dir: 1, shape: "mut", kind: "pod", fallible: 1, idx: 258 },
    Fun { name: "r_ref_u64", dir: 1, shape: "ref", kind: "u64", fallible: 0, idx: 259 },
    Fun { name: "r_tref_u64", dir: 1, shape: "ref", kind: "u64", fallible: 1, idx: 260 },
    Fun { name: "r_mut_u64", dir: 1, shape: "mut", kind: "u64", fallible: 0, idx: 261 },
    Fun { name: "r_tmut_u64", dir: 1, shape: "mut", kind: "u64", fallible: 1, idx: 262 },
    Fun { name: "r_ref_robj", dir: 1, shape: "ref", kind: "robj", fallible: 0, idx: 263 },
    Fun { name: "r_tref_robj", dir: 1, shape: "ref", kind: "robj", fallible: 1, idx: 264 },
    Fun { name: "r_mut_robj", dir: 1, shape: "mut", kind: "robj", fallible: 0, idx: 265 },
    Fun { name: "r_tmut_robj", dir: 1, shape: "mut", kind: "robj", fallible: 1, idx: 266 },
    Fun { name: "r_ref_obj", dir: 1, shape: "ref", kind: "obj", fallible: 0, idx: 267 },
    Fun { name: "r_tref_obj", dir: 1, shape: "ref", kind: "obj", fallible: 1, idx: 268 },
    Fun { name: "r_mut_obj", dir: 1, shape: "mut", kind: "obj", fallible: 0, idx: 269 },
    Fun { name: "r_tmut_obj", dir: 1, shape: "mut", kind: "obj", fallible: 1, idx: 270 },
    Fun { name: "r_ref_string", dir: 1, shape: "ref", kind: "string", fallible: 0, idx: 271 },
    Fun { name: "r_tref_string", dir: 1, shape: "ref", kind: "string", fallible: 1, idx: 272 },
    Fun { name: "r_mut_string", dir: 1, shape: "mut", kind: "string", fallible: 0, idx: 273 },
    Fun { name: "r_tmut_string", dir: 1, shape: "mut", kind: "string", fallible: 1, idx: 274 },
    Fun { name: "r_ref_vec_u8", dir: 1, shape: "ref", kind: "vec_u8", fallible: 0, idx: 275 },
    Fun { name: "r_tref_vec_u8", dir: 1, shape: "ref", kind: "vec_u8", fallible: 1, idx: 276 },
    Fun { name: "r_mut_vec_u8", dir: 1, shape: "mut", kind: "vec_u8", fallible: 0, idx: 277 },
    Fun { name: "r_tmut_vec_u8", dir: 1, shape: "mut", kind: "vec_u8", fallible: 1, idx: 278 },
    Fun { name: "r_ref_vec_txt", dir: 1, shape: "ref", kind: "vec_txt", fallible: 0, idx: 279 },
    Fun { name: "r_tref_vec_txt", dir: 1, shape: "ref", kind: "vec_txt", fallible: 1, idx: 280 },
    Fun { name: "r_mut_vec_txt", dir: 1, shape: "mut", kind: "vec_txt", fallible: 0, idx: 281 },
    Fun { name: "r_tmut_vec_txt", dir: 1, shape: "mut", kind: "vec_txt", fallible: 1, idx: 282 },
    Fun { name: "r_ref_vec_str", dir: 1, shape: "ref", kind: "vec_str", fallible: 0, idx: 283 },
    Fun { name: "r_tref_vec_str", dir: 1, shape: "ref", kind: "vec_str", fallible: 1, idx: 284 },
    Fun { name: "r_mut_vec_str", dir: 1, shape: "mut", kind: "vec_str", fallible: 0, idx: 285 },
    Fun { name: "r_tmut_vec_str", dir: 1, shape: "mut", kind: "vec_str", fallible: 1, idx: 286 },
    Fun { name: "r_ref_cstr", dir: 1, shape: "ref", kind: "cstr", fallible: 0, idx: 287 },
    Fun { name: "r_tref_cstr", dir: 1, shape: "ref", kind: "cstr", fallible: 1, idx: 288 },
    Fun { name: "r_mut_cstr", dir: 1, shape: "mut", kind: "cstr", fallible: 0, idx: 289 },
    Fun { name: "r_tmut_cstr", dir: 1, shape: "mut", kind: "cstr", fallible: 1, idx: 290 },
    Fun { name: "r_ref_cvu8", dir: 1, shape: "ref", kind: "cvu8", fallible: 0, idx: 291 },
    Fun { name: "r_tref_cvu8", dir: 1, shape: "ref", kind: "cvu8", fallible: 1, idx: 292 },
    Fun { name: "r_mut_cvu8", dir: 1, shape: "mut", kind: "cvu8", fallible: 0, idx: 293 },
    Fun { name: "r_tmut_cvu8", dir: 1, shape: "mut", kind: "cvu8", fallible: 1, idx: 294 },
    Fun { name: "r_ref_cvstr", dir: 1, shape: "ref", kind: "cvstr", fallible: 0, idx: 295 },
    Fun { name: "r_tref_cvstr", dir: 1, shape: "ref", kind: "cvstr", fallible: 1, idx: 296 },
    Fun { name: "r_mut_cvstr", dir: 1, shape: "mut", kind: "cvstr", fallible: 0, idx: 297 },
    Fun { name: "r_tmut_cvstr", dir: 1, shape: "mut", kind: "cvstr", fallible: 1, idx: 298 },
    Fun { name: "r_ref_cvobj", dir: 1, shape: "ref", kind: "cvobj", fallible: 0, idx: 299 },
    Fun { name: "r_tref_cvobj", dir: 1, shape: "ref", kind: "cvobj", fallible: 1, idx: 300 },
    Fun { name: "r_mut_cvobj", dir: 1, shape: "mut", kind: "cvobj", fallible: 0, idx: 301 },
    Fun { name: "r_tmut_cvobj", dir: 1, shape: "mut", kind: "cvobj", fallible: 1, idx: 302 },
    Fun { name: "r_ref_sp_obj", dir: 1, shape: "ref", kind: "sp_obj", fallible: 0, idx: 303 },
    Fun { name: "r_tref_sp_obj", dir: 1, shape: "ref", kind: "sp_obj", fallible: 1, idx: 304 },
    Fun { name: "r_mut_sp_obj", dir: 1, shape: "mut", kind: "sp_obj", fallible: 0, idx: 305 },
    Fun { name: "r_tmut_sp_obj", dir: 1, shape: "mut", kind: "sp_obj", fallible: 1, idx: 306 },
    Fun { name: "r_ref_up_obj", dir: 1, shape: "ref", kind: "up_obj", fallible: 0, idx: 307 },
    Fun { name: "r_tref_up_obj", dir: 1, shape: "ref", kind: "up_obj", fallible: 1, idx: 308 },
    Fun { name: "r_mut_up_obj", dir: 1, shape: "mut", kind: "up_obj", fallible: 0, idx: 309 },
    Fun { name: "r_tmut_up_obj", dir: 1, shape: "mut", kind: "up_obj", fallible: 1, idx: 310 },
    Fun { name: "r_ref_box_robj", dir: 1, shape: "ref", kind: "box_robj", fallible: 0, idx: 311 },
    Fun { name: "r_tref_box_robj", dir: 1, shape: "ref", kind: "box_robj", fallible: 1, idx: 312 },
    Fun { name: "r_mut_box_robj", dir: 1, shape: "mut", kind: "box_robj", fallible: 0, idx: 313 },
    Fun { name: "r_tmut_box_robj", dir: 1, shape: "mut", kind: "box_robj", fallible: 1, idx: 314 },
    Fun { name: "r_ref_tok", dir: 1, shape: "ref", kind: "tok", fallible: 0, idx: 315 },
    Fun { name: "r_tref_tok", dir: 1, shape: "ref", kind: "tok", fallible: 1, idx: 316 },
    Fun { name: "r_mut_tok", dir: 1, shape: "mut", kind: "tok", fallible: 0, idx: 317 },
    Fun { name: "r_tmut_tok", dir: 1, shape: "mut", kind: "tok", fallible: 1, idx: 318 },
    Fun { name: "r_sl_u8", dir: 1, shape: "sl", kind: "u8", fallible: 0, idx: 319 },
    Fun { name: "r_tsl_u8", dir: 1, shape: "sl", kind: "u8", fallible: 1, idx: 320 },
    Fun { name: "r_msl_u8", dir: 1, shape: "msl", kind: "u8", fallible: 0, idx: 321 },
    Fun { name: "r_tmsl_u8", dir: 1, shape: "msl", kind: "u8", fallible: 1, idx: 322 },
    Fun { name: "r_sl_string", dir: 1, shape: "sl", kind: "string", fallible: 0, idx: 323 },
    Fun { name: "r_tsl_string", dir: 1, shape: "sl", kind: "string", fallible: 1, idx: 324 },
    Fun { name: "r_msl_string", dir: 1, shape: "msl", kind: "string", fallible: 0, idx: 325 },
    Fun { name: "r_tmsl_string", dir: 1, shape: "msl", kind: "string", fallible: 1, idx: 326 },
    Fun { name: "r_sl_txt", dir: 1, shape: "sl", kind: "txt", fallible: 0, idx: 327 },
    Fun { name: "r_tsl_txt", dir: 1, shape: "sl", kind: "txt", fallible: 1, idx: 328 },
    Fun { name: "r_msl_txt", dir: 1, shape: "msl", kind: "txt", fallible: 0, idx: 329 },
    Fun { name: "r_tmsl_txt", dir: 1, shape: "msl", kind: "txt", fallible: 1, idx: 330 },
    Fun { name: "r_sl_pod", dir: 1, shape: "sl", kind: "pod", fallible: 0, idx: 331 },
    Fun { name: "r_tsl_pod", dir: 1, shape: "sl", kind: "pod", fallible: 1, idx: 332 },
    Fun { name: "r_msl_pod", dir: 1, shape: "msl", kind: "pod", fallible: 0, idx: 333 },
    Fun { name: "r_tmsl_pod", dir: 1, shape: "msl", kind: "pod", fallible: 1, idx: 334 },
    Fun { name: "r_sl_usize", dir: 1, shape: "sl", kind: "usize", fallible: 0, idx: 335 },
    Fun { name: "r_tsl_usize", dir: 1, shape: "sl", kind: "usize", fallible: 1, idx: 336 },
    Fun { name: "r_msl_usize", dir: 1, shape: "msl", kind: "usize", fallible: 0, idx: 337 },
    Fun { name: "r_tmsl_usize", dir: 1, shape: "msl", kind: "usize", fallible: 1, idx: 338 },
    Fun { name: "r_sl_f64", dir: 1, shape: "sl", kind: "f64", fallible: 0, idx: 339 },
    Fun { name: "r_tsl_f64", dir: 1, shape: "sl", kind: "f64", fallible: 1, idx: 340 },
    Fun { name: "r_msl_f64", dir: 1, shape: "msl", kind: "f64", fallible: 0, idx: 341 },
    Fun { name: "r_tmsl_f64", dir: 1, shape: "msl", kind: "f64", fallible: 1, idx: 342 },
    Fun { name: "r_sl_robj", dir: 1, shape: "sl", kind: "robj", fallible: 0, idx: 343 },
    Fun { name: "r_tsl_robj", dir: 1, shape: "sl", kind: "robj", fallible: 1, idx: 344 },
    Fun { name: "r_msl_robj", dir: 1, shape: "msl", kind: "robj", fallible: 0, idx: 345 },
    Fun { name: "r_tmsl_robj", dir: 1, shape: "msl", kind: "robj", fallible: 1, idx: 346 },
    Fun { name: "r_sl_tok", dir: 1, shape: "sl", kind: "tok", fallible: 0, idx: 347 },
    Fun { name: "r_tsl_tok", dir: 1, shape: "sl", kind: "tok", fallible: 1, idx: 348 },
    Fun { name: "r_msl_tok", dir: 1, shape: "msl", kind: "tok", fallible: 0, idx: 349 },
    Fun { name: "r_tmsl_tok", dir: 1, shape: "msl", kind: "tok", fallible: 1, idx: 350 },
    Fun { name: "r_str", dir: 1, shape: "str", kind: "str", fallible: 0, idx: 351 },
    Fun { name: "r_tstr", dir: 1, shape: "str", kind: "str", fallible: 1, idx: 352 },
    Fun { name: "r_multi", dir: 1, shape: "multi", kind: "rec", fallible: 0, idx: 353 },
    Fun { name: "r_tmulti", dir: 1, shape: "multi", kind: "rec", fallible: 1, idx: 354 },
    Fun { name: "op_eq_key", dir: 1, shape: "op", kind: "key", fallible: 0, idx: 355 },
    Fun { name: "op_ne_key", dir: 1, shape: "op", kind: "key", fallible: 0, idx: 356 },
    Fun { name: "op_lt_key", dir: 1, shape: "op", kind: "key", fallible: 0, idx: 357 },
    Fun { name: "op_le_key", dir: 1, shape: "op", kind: "key", fallible: 0, idx: 358 },
    Fun { name: "op_gt_key", dir: 1, shape: "op", kind: "key", fallible: 0, idx: 359 },
    Fun { name: "op_ge_key", dir: 1, shape: "op", kind: "key", fallible: 0, idx: 360 },
    Fun { name: "op_eq_keyp", dir: 1, shape: "op", kind: "keyp", fallible: 0, idx: 361 },
    Fun { name: "op_ne_keyp", dir: 1, shape: "op", kind: "keyp", fallible: 0, idx: 362 },
    Fun { name: "op_lt_keyp", dir: 1, shape: "op", kind: "keyp", fallible: 0, idx: 363 },
    Fun { name: "op_le_keyp", dir: 1, shape: "op", kind: "keyp", fallible: 0, idx: 364 },
    Fun { name: "op_gt_keyp", dir: 1, shape: "op", kind: "keyp", fallible: 0, idx: 365 },
    Fun { name: "op_ge_keyp", dir: 1, shape: "op", kind: "keyp", fallible: 0, idx: 366 },
    Fun { name: "op_hash_key", dir: 1, shape: "op", kind: "key", fallible: 0, idx: 367 },
];
pub fn drive(idx: u32, tag: u64) {
    match idx {
        0 => drive_x(tag, ffi::c_x_u8),
        1 => drive_t(tag, ffi::c_t_u8),
        2 => drive_take(tag, ffi::c_take_u8),
        3 => drive_ttake(tag, ffi::c_ttake_u8),
        4 => drive_ret(tag, ffi::c_ret_u8),
        5 => drive_tret(tag, ffi::c_tret_u8),
        6 => drive_x(tag, ffi::c_x_i8),
        7 => drive_x(tag, ffi::c_x_u16),
        8 => drive_x(tag, ffi::c_x_i16),
        9 => drive_x(tag, ffi::c_x_u32),
        10 => drive_x(tag, ffi::c_x_i32),
        11 => drive_x(tag, ffi::c_x_u64),
        12 => drive_x(tag, ffi::c_x_i64),
        13 => drive_t(tag, ffi::c_t_i64),
        14 => drive_take(tag, ffi::c_take_i64),
        15 => drive_ttake(tag, ffi::c_ttake_i64),
        16 => drive_ret(tag, ffi::c_ret_i64),
        17 => drive_tret(tag, ffi::c_tret_i64),
        18 => drive_x(tag, ffi::c_x_usize),
        19 => drive_x(tag, ffi::c_x_isize),
        20 => drive_x(tag, ffi::c_x_f32),
        21 => drive_t(tag, ffi::c_t_f32),
        22 => drive_take(tag, ffi::c_take_f32),
        23 => drive_ttake(tag, ffi::c_ttake_f32),
        24 => drive_ret(tag, ffi::c_ret_f32),
        25 => drive_tret(tag, ffi::c_tret_f32),
        26 => drive_x(tag, ffi::c_x_f64),
        27 => drive_x(tag, ffi::c_x_bool),
        28 => drive_t(tag, ffi::c_t_bool),
        29 => drive_take(tag, ffi::c_take_bool),
        30 => drive_ttake(tag, ffi::c_ttake_bool),
        31 => drive_ret(tag, ffi::c_ret_bool),
        32 => drive_tret(tag, ffi::c_tret_bool),
        33 => drive_x(tag, ffi::c_x_chr),
        34 => drive_x(tag, ffi::c_x_pod),
        35 => drive_t(tag, ffi::c_t_pod),
        36 => drive_take(tag, ffi::c_take_pod),
        37 => drive_ttake(tag, ffi::c_ttake_pod),
        38 => drive_ret(tag, ffi::c_ret_pod),
        39 => drive_tret(tag, ffi::c_tret_pod),
        40 => drive_x(tag, ffi::c_x_color),
        41 => drive_t(tag, ffi::c_t_color),
        42 => drive_take(tag, ffi::c_take_color),
        43 => drive_ttake(tag, ffi::c_ttake_color),
        44 => drive_ret(tag, ffi::c_ret_color),
        45 => drive_tret(tag, ffi::c_tret_color),
        46 => drive_x(tag, ffi::c_x_txt),
        47 => drive_t(tag, ffi::c_t_txt),
        48 => drive_take(tag, ffi::c_take_txt),
        49 => drive_ttake(tag, ffi::c_ttake_txt),
        50 => drive_ret(tag, ffi::c_ret_txt),
        51 => drive_tret(tag, ffi::c_tret_txt),
        52 => drive_x(tag, ffi::c_x_rec),
        53 => drive_t(tag, ffi::c_t_rec),
        54 => drive_take(tag, ffi::c_take_rec),
        55 => drive_ttake(tag, ffi::c_ttake_rec),
        56 => drive_ret(tag, ffi::c_ret_rec),
        57 => drive_tret(tag, ffi::c_tret_rec),
        58 => drive_x(tag, ffi::c_x_tok),
        59 => drive_t(tag, ffi::c_t_tok),
        60 => drive_take(tag, ffi::c_take_tok),
        61 => drive_ttake(tag, ffi::c_ttake_tok),
        62 => drive_ret(tag, ffi::c_ret_tok),
        63 => drive_tret(tag, ffi::c_tret_tok),
        64 => drive_x(tag, ffi::c_x_box_robj),
        65 => drive_t(tag, ffi::c_t_box_robj),
        66 => drive_take(tag, ffi::c_take_box_robj),
        67 => drive_ttake(tag, ffi::c_ttake_box_robj),
        68 => drive_ret(tag, ffi::c_ret_box_robj),
        69 => drive_tret(tag, ffi::c_tret_box_robj),
        70 => drive_x(tag, ffi::c_x_box_txt),
        71 => drive_t(tag, ffi::c_t_box_txt),
        72 => drive_take(tag, ffi::c_take_box_txt),
        73 => drive_ttake(tag, ffi::c_ttake_box_txt),
        74 => drive_ret(tag, ffi::c_ret_box_txt),
        75 => drive_tret(tag, ffi::c_tret_box_txt),
        76 => drive_x(tag, ffi::c_x_up_obj),
        77 => drive_t(tag, ffi::c_t_up_obj),
        78 => drive_take(tag, ffi::c_take_up_obj),
        79 => drive_ttake(tag, ffi::c_ttake_up_obj),
        80 => drive_ret(tag, ffi::c_ret_up_obj),
        81 => drive_tret(tag, ffi::c_tret_up_obj),
        82 => drive_x(tag, ffi::c_x_up_str),
        83 => drive_t(tag, ffi::c_t_up_str),
        84 => drive_take(tag, ffi::c_take_up_str),
        85 => drive_ttake(tag, ffi::c_ttake_up_str),
        86 => drive_ret(tag, ffi::c_ret_up_str),
        87 => drive_tret(tag, ffi::c_tret_up_str),
        88 => drive_x(tag, ffi::c_x_up_pod),
        89 => drive_t(tag, ffi::c_t_up_pod),
        90 => drive_take(tag, ffi::c_take_up_pod),
        91 => drive_ttake(tag, ffi::c_ttake_up_pod),
        92 => drive_ret(tag, ffi::c_ret_up_pod),
        93 => drive_tret(tag, ffi::c_tret_up_pod),
        94 => drive_x(tag, ffi::c_x_up_txt),
        95 => drive_t(tag, ffi::c_t_up_txt),
        96 => drive_take(tag, ffi::c_take_up_txt),
        97 => drive_ttake(tag, ffi::c_ttake_up_txt),
        98 => drive_ret(tag, ffi::c_ret_up_txt),
        99 => drive_tret(tag, ffi::c_tret_up_txt),
        100 => drive_x(tag, ffi::c_x_up_vu8),
        101 => drive_t(tag, ffi::c_t_up_vu8),
        102 => drive_take(tag, ffi::c_take_up_vu8),
        103 => drive_ttake(tag, ffi::c_ttake_up_vu8),
        104 => drive_ret(tag, ffi::c_ret_up_vu8),
        105 => drive_tret(tag, ffi::c_tret_up_vu8),
        106 => drive_x(tag, ffi::c_x_up_vf64),
        107 => drive_t(tag, ffi::c_t_up_vf64),
        108 => drive_take(tag, ffi::c_take_up_vf64),
        109 => drive_ttake(tag, ffi::c_ttake_up_vf64),
        110 => drive_ret(tag, ffi::c_ret_up_vf64),
        111 => drive_tret(tag, ffi::c_tret_up_vf64),
        112 => drive_x(tag, ffi::c_x_up_vstr),
        113 => drive_t(tag, ffi::c_t_up_vstr),
        114 => drive_take(tag, ffi::c_take_up_vstr),
        115 => drive_ttake(tag, ffi::c_ttake_up_vstr),
        116 => drive_ret(tag, ffi::c_ret_up_vstr),
        117 => drive_tret(tag, ffi::c_tret_up_vstr),
        118 => drive_x(tag, ffi::c_x_up_vobj),
        119 => drive_t(tag, ffi::c_t_up_vobj),
        120 => drive_take(tag, ffi::c_take_up_vobj),
        121 => drive_ttake(tag, ffi::c_ttake_up_vobj),
        122 => drive_ret(tag, ffi::c_ret_up_vobj),
        123 => drive_tret(tag, ffi::c_tret_up_vobj),
        124 => drive_x(tag, ffi::c_x_up_vtxt),
        125 => drive_t(tag, ffi::c_t_up_vtxt),
        126 => drive_take(tag, ffi::c_take_up_vtxt),
        127 => drive_ttake(tag, ffi::c_ttake_up_vtxt),
        128 => drive_ret(tag, ffi::c_ret_up_vtxt),
        129 => drive_tret(tag, ffi::c_tret_up_vtxt),
        130 => drive_x(tag, ffi::c_x_sp_obj),
        131 => drive_t(tag, ffi::c_t_sp_obj),
        132 => drive_take(tag, ffi::c_take_sp_obj),
        133 => drive_ttake(tag, ffi::c_ttake_sp_obj),
        134 => drive_ret(tag, ffi::c_ret_sp_obj),
        135 => drive_tret(tag, ffi::c_tret_sp_obj),
        136 => drive_x(tag, ffi::c_x_sp_pod),
        137 => drive_t(tag, ffi::c_t_sp_pod),
        138 => drive_take(tag, ffi::c_take_sp_pod),
        139 => drive_ttake(tag, ffi::c_ttake_sp_pod),
        140 => drive_ret(tag, ffi::c_ret_sp_pod),
        141 => drive_tret(tag, ffi::c_tret_sp_pod),
        142 => drive_x(tag, ffi::c_x_sp_str),
        143 => drive_t(tag, ffi::c_t_sp_str),
        144 => drive_take(tag, ffi::c_take_sp_str),
        145 => drive_ttake(tag, ffi::c_ttake_sp_str),
        146 => drive_ret(tag, ffi::c_ret_sp_str),
        147 => drive_tret(tag, ffi::c_tret_sp_str),
        148 => drive_x(tag, ffi::c_x_sp_u64),
        149 => drive_t(tag, ffi::c_t_sp_u64),
        150 => drive_take(tag, ffi::c_take_sp_u64),
        151 => drive_ttake(tag, ffi::c_ttake_sp_u64),
        152 => drive_ret(tag, ffi::c_ret_sp_u64),
        153 => drive_tret(tag, ffi::c_tret_sp_u64),
        154 => drive_x(tag, ffi::c_x_wp_obj),
        155 => drive_t(tag, ffi::c_t_wp_obj),
        156 => drive_take(tag, ffi::c_take_wp_obj),
        157 => drive_ttake(tag, ffi::c_ttake_wp_obj),
        158 => drive_ret(tag, ffi::c_ret_wp_obj),
        159 => drive_tret(tag, ffi::c_tret_wp_obj),
        160 => drive_x(tag, ffi::c_x_string),
        161 => drive_t(tag, ffi::c_t_string),
        162 => drive_take(tag, ffi::c_take_string),
        163 => drive_ttake(tag, ffi::c_ttake_string),
        164 => drive_ret(tag, ffi::c_ret_string),
        165 => drive_tret(tag, ffi::c_tret_string),
        166 => drive_x(tag, ffi::c_x_vec_u8),
        167 => drive_t(tag, ffi::c_t_vec_u8),
        168 => drive_take(tag, ffi::c_take_vec_u8),
        169 => drive_ttake(tag, ffi::c_ttake_vec_u8),
        170 => drive_ret(tag, ffi::c_ret_vec_u8),
        171 => drive_tret(tag, ffi::c_tret_vec_u8),
        172 => drive_x(tag, ffi::c_x_vec_str),
        173 => drive_t(tag, ffi::c_t_vec_str),
        174 => drive_take(tag, ffi::c_take_vec_str),
        175 => drive_ttake(tag, ffi::c_ttake_vec_str),
        176 => drive_ret(tag, ffi::c_ret_vec_str),
        177 => drive_tret(tag, ffi::c_tret_vec_str),
        178 => drive_x(tag, ffi::c_x_vec_txt),
        179 => drive_t(tag, ffi::c_t_vec_txt),
        180 => drive_take(tag, ffi::c_take_vec_txt),
        181 => drive_ttake(tag, ffi::c_ttake_vec_txt),
        182 => drive_ret(tag, ffi::c_ret_vec_txt),
        183 => drive_tret(tag, ffi::c_tret_vec_txt),
        184 => drive_x(tag, ffi::c_x_vec_pod),
        185 => drive_t(tag, ffi::c_t_vec_pod),
        186 => drive_take(tag, ffi::c_take_vec_pod),
        187 => drive_ttake(tag, ffi::c_ttake_vec_pod),
        188 => drive_ret(tag, ffi::c_ret_vec_pod),
        189 => drive_tret(tag, ffi::c_tret_vec_pod),
        190 => drive_x(tag, ffi::c_x_vec_bool),
        191 => drive_t(tag, ffi::c_t_vec_bool),
        192 => drive_take(tag, ffi::c_take_vec_bool),
        193 => drive_ttake(tag, ffi::c_ttake_vec_bool),
        194 => drive_ret(tag, ffi::c_ret_vec_bool),
        195 => drive_tret(tag, ffi::c_tret_vec_bool),
        196 => drive_x(tag, ffi::c_x_vec_f64),
        197 => drive_t(tag, ffi::c_t_vec_f64),
        198 => drive_take(tag, ffi::c_take_vec_f64),
        199 => drive_ttake(tag, ffi::c_ttake_vec_f64),
        200 => drive_ret(tag, ffi::c_ret_vec_f64),
        201 => drive_tret(tag, ffi::c_tret_vec_f64),
        202 => drive_x(tag, ffi::c_x_vec_usize),
        203 => drive_t(tag, ffi::c_t_vec_usize),
        204 => drive_take(tag, ffi::c_take_vec_usize),
        205 => drive_ttake(tag, ffi::c_ttake_vec_usize),
        206 => drive_ret(tag, ffi::c_ret_vec_usize),
        207 => drive_tret(tag, ffi::c_tret_vec_usize),
        208 => drive_x(tag, ffi::c_x_vec_tok),
        209 => drive_t(tag, ffi::c_t_vec_tok),
        210 => drive_take(tag, ffi::c_take_vec_tok),
        211 => drive_ttake(tag, ffi::c_ttake_vec_tok),
        212 => drive_ret(tag, ffi::c_ret_vec_tok),
        213 => drive_tret(tag, ffi::c_tret_vec_tok),
        214 => drive_x(tag, ffi::c_x_vec_robj),
        215 => drive_t(tag, ffi::c_t_vec_robj),
        216 => drive_take(tag, ffi::c_take_vec_robj),
        217 => drive_ttake(tag, ffi::c_ttake_vec_robj),
        218 => drive_ret(tag, ffi::c_ret_vec_robj),
        219 => drive_tret(tag, ffi::c_tret_vec_robj),
        220 => drive_cb(tag, ffi::c_cb_u32),
        221 => drive_tcb(tag, ffi::c_tcb_u32),
        222 => drive_cbr(tag, ffi::c_cbr_u32),
        223 => drive_cb(tag, ffi::c_cb_txt),
        224 => drive_tcb(tag, ffi::c_tcb_txt),
        225 => drive_cbr(tag, ffi::c_cbr_txt),
        226 => drive_cb(tag, ffi::c_cb_rec),
        227 => drive_tcb(tag, ffi::c_tcb_rec),
        228 => drive_cbr(tag, ffi::c_cbr_rec),
        229 => drive_cb(tag, ffi::c_cb_tok),
        230 => drive_tcb(tag, ffi::c_tcb_tok),
        231 => drive_cbr(tag, ffi::c_cbr_tok),
        232 => drive_cb(tag, ffi::c_cb_box_robj),
        233 => drive_tcb(tag, ffi::c_tcb_box_robj),
        234 => drive_cbr(tag, ffi::c_cbr_box_robj),
        235 => drive_cb(tag, ffi::c_cb_up_obj),
        236 => drive_tcb(tag, ffi::c_tcb_up_obj),
        237 => drive_cbr(tag, ffi::c_cbr_up_obj),
        238 => drive_cb(tag, ffi::c_cb_sp_obj),
        239 => drive_tcb(tag, ffi::c_tcb_sp_obj),
        240 => drive_cbr(tag, ffi::c_cbr_sp_obj),
        241 => drive_cb(tag, ffi::c_cb_string),
        242 => drive_tcb(tag, ffi::c_tcb_string),
        243 => drive_cbr(tag, ffi::c_cbr_string),
        244 => drive_cb(tag, ffi::c_cb_vec_str),
        245 => drive_tcb(tag, ffi::c_tcb_vec_str),
        246 => drive_cbr(tag, ffi::c_cbr_vec_str),
        247 => drive_cb(tag, ffi::c_cb_vec_tok),
        248 => drive_tcb(tag, ffi::c_tcb_vec_tok),
        249 => drive_cbr(tag, ffi::c_cbr_vec_tok),
        250 => drive_cb(tag, ffi::c_cb_color),
        251 => drive_tcb(tag, ffi::c_tcb_color),
        252 => drive_cbr(tag, ffi::c_cbr_color),
        253 => { let o = RefCell::new(self_obj(tag)); drive_x(tag, |t, x| o.borrow_mut().pin_mut().m_x_u32(t, x)) },
        254 => { let o = self_obj(tag); drive_t(tag, |t, x| o.m_t_u32(t, x)) },
        255 => { let o = RefCell::new(Pod::make(opx(tag) + 5)); drive_t(tag, |t, x| o.borrow_mut().sm_t_u32(t, x)) },
        256 => { let o = RefCell::new(self_obj(tag)); drive_x(tag, |t, x| o.borrow_mut().pin_mut().m_x_txt(t, x)) },
        257 => { let o = self_obj(tag); drive_t(tag, |t, x| o.m_t_txt(t, x)) },
        258 => { let o = RefCell::new(Pod::make(opx(tag) + 5)); drive_t(tag, |t, x| o.borrow_mut().sm_t_txt(t, x)) },
        259 => { let o = RefCell::new(self_obj(tag)); drive_x(tag, |t, x| o.borrow_mut().pin_mut().m_x_rec(t, x)) },
        260 => { let o = self_obj(tag); drive_t(tag, |t, x| o.m_t_rec(t, x)) },
        261 => { let o = RefCell::new(Pod::make(opx(tag) + 5)); drive_t(tag, |t, x| o.borrow_mut().sm_t_rec(t, x)) },
        262 => { let o = RefCell::new(self_obj(tag)); drive_x(tag, |t, x| o.borrow_mut().pin_mut().m_x_tok(t, x)) },
        263 => { let o = self_obj(tag); drive_t(tag, |t, x| o.m_t_tok(t, x)) },
        264 => { let o = RefCell::new(Pod::make(opx(tag) + 5)); drive_t(tag, |t, x| o.borrow_mut().sm_t_tok(t, x)) },
        265 => { let o = RefCell::new(self_obj(tag)); drive_x(tag, |t, x| o.borrow_mut().pin_mut().m_x_box_robj(t, x)) },
        266 => { let o = self_obj(tag); drive_t(tag, |t, x| o.m_t_box_robj(t, x)) },
        267 => { let o = RefCell::new(Pod::make(opx(tag) + 5)); drive_t(tag, |t, x| o.borrow_mut().sm_t_box_robj(t, x)) },
        268 => { let o = RefCell::new(self_obj(tag)); drive_x(tag, |t, x| o.borrow_mut().pin_mut().m_x_up_obj(t, x)) },
        269 => { let o = self_obj(tag); drive_t(tag, |t, x| o.m_t_up_obj(t, x)) },
        270 => { let o = RefCell::new(Pod::make(opx(tag) + 5)); drive_t(tag, |t, x| o.borrow_mut().sm_t_up_obj(t, x)) },
        271 => { let o = RefCell::new(self_obj(tag)); drive_x(tag, |t, x| o.borrow_mut().pin_mut().m_x_sp_obj(t, x)) },
        272 => { let o = self_obj(tag); drive_t(tag, |t, x| o.m_t_sp_obj(t, x)) },
        273 => { let o = RefCell::new(Pod::make(opx(tag) + 5)); drive_t(tag, |t, x| o.borrow_mut().sm_t_sp_obj(t, x)) },
        274 => { let o = RefCell::new(self_obj(tag)); drive_x(tag, |t, x| o.borrow_mut().pin_mut().m_x_string(t, x)) },
        275 => { let o = self_obj(tag); drive_t(tag, |t, x| o.m_t_string(t, x)) },
        276 => { let o = RefCell::new(Pod::make(opx(tag) + 5)); drive_t(tag, |t, x| o.borrow_mut().sm_t_string(t, x)) },
        277 => { let o = RefCell::new(self_obj(tag)); drive_x(tag, |t, x| o.borrow_mut().pin_mut().m_x_vec_txt(t, x)) },
        278 => { let o = self_obj(tag); drive_t(tag, |t, x| o.m_t_vec_txt(t, x)) },
        279 => { let o = RefCell::new(Pod::make(opx(tag) + 5)); drive_t(tag, |t, x| o.borrow_mut().sm_t_vec_txt(t, x)) },
        280 => drive_ref::<Txt, Txt>(tag, |t, o| ffi::c_ref_txt(t, o), |o| o),
        281 => drive_tref::<Txt, Txt>(tag, |t, o| ffi::c_tref_txt(t, o), |o| o),
        282 => drive_mut::<Txt, Txt>(tag, |t, o| { let m = ffi::c_mut_txt(t, o); m }, |o| o),
        283 => drive_tmut::<Txt, Txt>(tag, |t, o| ffi::c_tmut_txt(t, o).map(|m| m), |o| o),
        284 => drive_ref::<Rec, Rec>(tag, |t, o| ffi::c_ref_rec(t, o), |o| o),
        285 => drive_tref::<Rec, Rec>(tag, |t, o| ffi::c_tref_rec(t, o), |o| o),
        286 => drive_mut::<Rec, Rec>(tag, |t, o| { let m = ffi::c_mut_rec(t, o); m }, |o| o),
        287 => drive_tmut::<Rec, Rec>(tag, |t, o| ffi::c_tmut_rec(t, o).map(|m| m), |o| o),
        288 => drive_ref::<Pod, Pod>(tag, |t, o| ffi::c_ref_pod(t, o), |o| o),
        289 => drive_tref::<Pod, Pod>(tag, |t, o| ffi::c_tref_pod(t, o), |o| o),
        290 => drive_mut::<Pod, Pod>(tag, |t, o| { let m = ffi::c_mut_pod(t, o); m }, |o| o),
        291 => drive_tmut::<Pod, Pod>(tag, |t, o| ffi::c_tmut_pod(t, o).map(|m| m), |o| o),
        292 => drive_ref::<u64, u64>(tag, |t, o| ffi::c_ref_u64(t, o), |o| o),
        293 => drive_tref::<u64, u64>(tag, |t, o| ffi::c_tref_u64(t, o), |o| o),
        294 => drive_mut::<u64, u64>(tag, |t, o| { let m = ffi::c_mut_u64(t, o); m }, |o| o),
        295 => drive_tmut::<u64, u64>(tag, |t, o| ffi::c_tmut_u64(t, o).map(|m| m), |o| o),
        296 => drive_ref::<Box<RObj>, RObj>(tag, |t, o| ffi::c_ref_robj(t, o.target()), |o| o.target()),
        297 => drive_tref::<Box<RObj>, RObj>(tag, |t, o| ffi::c_tref_robj(t, o.target()), |o| o.target()),
        298 => drive_mut::<Box<RObj>, RObj>(tag, |t, o| { let m = ffi::c_mut_robj(t, &mut **o); m }, |o| o.target()),
        299 => drive_tmut::<Box<RObj>, RObj>(tag, |t, o| ffi::c_tmut_robj(t, &mut **o).map(|m| m), |o| o.target()),
        300 => drive_ref::<UniquePtr<Obj>, Obj>(tag, |t, o| ffi::c_ref_obj(t, o.target()), |o| o.target()),
        301 => drive_tref::<UniquePtr<Obj>, Obj>(tag, |t, o| ffi::c_tref_obj(t, o.target()), |o| o.target()),
        302 => drive_mut::<UniquePtr<Obj>, Obj>(tag, |t, o| { let m = ffi::c_mut_obj(t, o.pin_mut()); unsafe { m.get_unchecked_mut() } }, |o| o.target()),
        303 => drive_tmut::<UniquePtr<Obj>, Obj>(tag, |t, o| ffi::c_tmut_obj(t, o.pin_mut()).map(|m| unsafe { m.get_unchecked_mut() }), |o| o.target()),
        304 => drive_ref::<String, String>(tag, |t, o| ffi::c_ref_string(t, o), |o| o),
        305 => drive_tref::<String, String>(tag, |t, o| ffi::c_tref_string(t, o), |o| o),
        306 => drive_mut::<String, String>(tag, |t, o| { let m = ffi::c_mut_string(t, o); m }, |o| o),
        307 => drive_tmut::<String, String>(tag, |t, o| ffi::c_tmut_string(t, o).map(|m| m), |o| o),
        308 => drive_ref::<Vec<u8>, Vec<u8>>(tag, |t, o| ffi::c_ref_vec_u8(t, o), |o| o),
        309 => drive_tref::<Vec<u8>, Vec<u8>>(tag, |t, o| ffi::c_tref_vec_u8(t, o), |o| o),
        310 => drive_mut::<Vec<u8>, Vec<u8>>(tag, |t, o| { let m = ffi::c_mut_vec_u8(t, o); m }, |o| o),
        311 => drive_tmut::<Vec<u8>, Vec<u8>>(tag, |t, o| ffi::c_tmut_vec_u8(t, o).map(|m| m), |o| o),
        312 => drive_ref::<Vec<Txt>, Vec<Txt>>(tag, |t, o| ffi::c_ref_vec_txt(t, o), |o| o),
        313 => drive_tref::<Vec<Txt>, Vec<Txt>>(tag, |t, o| ffi::c_tref_vec_txt(t, o), |o| o),
        314 => drive_mut::<Vec<Txt>, Vec<Txt>>(tag, |t, o| { let m = ffi::c_mut_vec_txt(t, o); m }, |o| o),
        315 => drive_tmut::<Vec<Txt>, Vec<Txt>>(tag, |t, o| ffi::c_tmut_vec_txt(t, o).map(|m| m), |o| o),
        316 => drive_ref::<Vec<String>, Vec<String>>(tag, |t, o| ffi::c_ref_vec_str(t, o), |o| o),
        317 => drive_tref::<Vec<String>, Vec<String>>(tag, |t, o| ffi::c_tref_vec_str(t, o), |o| o),
        318 => drive_mut::<Vec<String>, Vec<String>>(tag, |t, o| { let m = ffi::c_mut_vec_str(t, o); m }, |o| o),
        319 => drive_tmut::<Vec<String>, Vec<String>>(tag, |t, o| ffi::c_tmut_vec_str(t, o).map(|m| m), |o| o),
        320 => drive_ref::<UniquePtr<CxxString>, CxxString>(tag, |t, o| ffi::c_ref_cstr(t, o.target()), |o| o.target()),
        321 => drive_tref::<UniquePtr<CxxString>, CxxString>(tag, |t, o| ffi::c_tref_cstr(t, o.target()), |o| o.target()),
        322 => drive_mut::<UniquePtr<CxxString>, CxxString>(tag, |t, o| { let m = ffi::c_mut_cstr(t, o.pin_mut()); unsafe { m.get_unchecked_mut() } }, |o| o.target()),
        323 => drive_tmut::<UniquePtr<CxxString>, CxxString>(tag, |t, o| ffi::c_tmut_cstr(t, o.pin_mut()).map(|m| unsafe { m.get_unchecked_mut() }), |o| o.target()),
        324 => drive_ref::<UniquePtr<CxxVector<u8>>, CxxVector<u8>>(tag, |t, o| ffi::c_ref_cvu8(t, o.target()), |o| o.target()),
        325 => drive_tref::<UniquePtr<CxxVector<u8>>, CxxVector<u8>>(tag, |t, o| ffi::c_tref_cvu8(t, o.target()), |o| o.target()),
        326 => drive_mut::<UniquePtr<CxxVector<u8>>, CxxVector<u8>>(tag, |t, o| { let m = ffi::c_mut_cvu8(t, o.pin_mut()); unsafe { m.get_unchecked_mut() } }, |o| o.target()),
        327 => drive_tmut::<UniquePtr<CxxVector<u8>>, CxxVector<u8>>(tag, |t, o| ffi::c_tmut_cvu8(t, o.pin_mut()).map(|m| unsafe { m.get_unchecked_mut() }), |o| o.target()),
        328 => drive_ref::<UniquePtr<CxxVector<CxxString>>, CxxVector<CxxString>>(tag, |t, o| ffi::c_ref_cvstr(t, o.target()), |o| o.target()),
        329 => drive_tref::<UniquePtr<CxxVector<CxxString>>, CxxVector<CxxString>>(tag, |t, o| ffi::c_tref_cvstr(t, o.target()), |o| o.target()),
        330 => drive_mut::<UniquePtr<CxxVector<CxxString>>, CxxVector<CxxString>>(tag, |t, o| { let m = ffi::c_mut_cvstr(t, o.pin_mut()); unsafe { m.get_unchecked_mut() } }, |o| o.target()),
        331 => drive_tmut::<UniquePtr<CxxVector<CxxString>>, CxxVector<CxxString>>(tag, |t, o| ffi::c_tmut_cvstr(t, o.pin_mut()).map(|m| unsafe { m.get_unchecked_mut() }), |o| o.target()),
        332 => drive_ref::<UniquePtr<CxxVector<Obj>>, CxxVector<Obj>>(tag, |t, o| ffi::c_ref_cvobj(t, o.target()), |o| o.target()),
        333 => drive_tref::<UniquePtr<CxxVector<Obj>>, CxxVector<Obj>>(tag, |t, o| ffi::c_tref_cvobj(t, o.target()), |o| o.target()),
        334 => drive_mut::<UniquePtr<CxxVector<Obj>>, CxxVector<Obj>>(tag, |t, o| { let m = ffi::c_mut_cvobj(t, o.pin_mut()); unsafe { m.get_unchecked_mut() } }, |o| o.target()),
        335 => drive_tmut::<UniquePtr<CxxVector<Obj>>, CxxVector<Obj>>(tag, |t, o| ffi::c_tmut_cvobj(t, o.pin_mut()).map(|m| unsafe { m.get_unchecked_mut() }), |o| o.target()),
        336 => drive_ref::<SharedPtr<Obj>, SharedPtr<Obj>>(tag, |t, o| ffi::c_ref_sp_obj(t, o), |o| o),
        337 => drive_tref::<SharedPtr<Obj>, SharedPtr<Obj>>(tag, |t, o| ffi::c_tref_sp_obj(t, o), |o| o),
        338 => drive_mut::<SharedPtr<Obj>, SharedPtr<Obj>>(tag, |t, o| { let m = ffi::c_mut_sp_obj(t, o); m }, |o| o),
        339 => drive_tmut::<SharedPtr<Obj>, SharedPtr<Obj>>(tag, |t, o| ffi::c_tmut_sp_obj(t, o).map(|m| m), |o| o),
        340 => drive_ref::<UniquePtr<Obj>, UniquePtr<Obj>>(tag, |t, o| ffi::c_ref_up_obj(t, o), |o| o),
        341 => drive_tref::<UniquePtr<Obj>, UniquePtr<Obj>>(tag, |t, o| ffi::c_tref_up_obj(t, o), |o| o),
        342 => drive_mut::<UniquePtr<Obj>, UniquePtr<Obj>>(tag, |t, o| { let m = ffi::c_mut_up_obj(t, o); m }, |o| o),
        343 => drive_tmut::<UniquePtr<Obj>, UniquePtr<Obj>>(tag, |t, o| ffi::c_tmut_up_obj(t, o).map(|m| m), |o| o),
        344 => drive_ref::<Box<RObj>, Box<RObj>>(tag, |t, o| ffi::c_ref_box_robj(t, o), |o| o),
        345 => drive_tref::<Box<RObj>, Box<RObj>>(tag, |t, o| ffi::c_tref_box_robj(t, o), |o| o),
        346 => drive_mut::<Box<RObj>, Box<RObj>>(tag, |t, o| { let m = ffi::c_mut_box_robj(t, o); m }, |o| o),
        347 => drive_tmut::<Box<RObj>, Box<RObj>>(tag, |t, o| ffi::c_tmut_box_robj(t, o).map(|m| m), |o| o),
        348 => drive_ref::<Tok, Tok>(tag, |t, o| ffi::c_ref_tok(t, o), |o| o),
        349 => drive_tref::<Tok, Tok>(tag, |t, o| ffi::c_tref_tok(t, o), |o| o),
        350 => drive_mut::<Tok, Tok>(tag, |t, o| { let m = ffi::c_mut_tok(t, o); m }, |o| o),
        351 => drive_tmut::<Tok, Tok>(tag, |t, o| ffi::c_tmut_tok(t, o).map(|m| m), |o| o),
        352 => drive_sl(tag, |t, s| ffi::c_sl_u8(t, s)),
        353 => drive_tsl(tag, |t, s| ffi::c_tsl_u8(t, s)),
        354 => drive_msl(tag, |t, s| ffi::c_msl_u8(t, s)),
        355 => drive_tmsl(tag, |t, s| ffi::c_tmsl_u8(t, s)),
        356 => drive_sl(tag, |t, s| ffi::c_sl_string(t, s)),
        357 => drive_tsl(tag, |t, s| ffi::c_tsl_string(t, s)),
        358 => drive_msl(tag, |t, s| ffi::c_msl_string(t, s)),
        359 => drive_tmsl(tag, |t, s| ffi::c_tmsl_string(t, s)),
        360 => drive_sl(tag, |t, s| ffi::c_sl_txt(t, s)),
        361 => drive_tsl(tag, |t, s| ffi::c_tsl_txt(t, s)),
        362 => drive_msl(tag, |t, s| ffi::c_msl_txt(t, s)),
        363 => drive_tmsl(tag, |t, s| ffi::c_tmsl_txt(t, s)),
        364 => drive_sl(tag, |t, s| ffi::c_sl_pod(t, s)),
        365 => drive_tsl(tag, |t, s| ffi::c_tsl_pod(t, s)),
        366 => drive_msl(tag, |t, s| ffi::c_msl_pod(t, s)),
        367 => drive_tmsl(tag, |t, s| ffi::c_tmsl_pod(t, s)),
        368 => drive_sl(tag, |t, s| ffi::c_sl_usize(t, s)),
        369 => drive_tsl(tag, |t, s| ffi::c_tsl_usize(t, s)),
        370 => drive_msl(tag, |t, s| ffi::c_msl_usize(t, s)),
        371 => drive_tmsl(tag, |t, s| ffi::c_tmsl_usize(t, s)),
        372 => drive_sl(tag, |t, s| ffi::c_sl_f64(t, s)),
        373 => drive_tsl(tag, |t, s| ffi::c_tsl_f64(t, s)),
        374 => drive_msl(tag, |t, s| ffi::c_msl_f64(t, s)),
        375 => drive_tmsl(tag, |t, s| ffi::c_tmsl_f64(t, s)),
        376 => drive_sl(tag, |t, s| ffi::c_sl_robj(t, s)),
        377 => drive_tsl(tag, |t, s| ffi::c_tsl_robj(t, s)),
        378 => drive_msl(tag, |t, s| ffi::c_msl_robj(t, s)),
        379 => drive_tmsl(tag, |t, s| ffi::c_tmsl_robj(t, s)),
        380 => drive_sl(tag, |t, s| ffi::c_sl_tok(t, s)),
        381 => drive_tsl(tag, |t, s| ffi::c_tsl_tok(t, s)),
        382 => drive_msl(tag, |t, s| ffi::c_msl_tok(t, s)),
        383 => drive_tmsl(tag, |t, s| ffi::c_tmsl_tok(t, s)),
        384 => drive_str(tag, |t, s| ffi::c_str(t, s)),
        385 => drive_tstr(tag, |t, s| ffi::c_tstr(t, s)),
        386 => drive_ret(tag, |t| { let s = text(opid(t) + 50); let r = Box::<RObj>::make(opid(t) + 51); let x = Txt::make(opid(t) + 52); let sl = Vec::<String>::make(opid(t) + 53); ffi::c_multi(t, Kind::make(opid(t) + 0), Kind::make(opid(t) + 1), Kind::make(opid(t) + 2), Kind::make(opid(t) + 3), Kind::make(opid(t) + 4), Kind::make(opid(t) + 5), Kind::make(opid(t) + 6), Kind::make(opid(t) + 7), Kind::make(opid(t) + 8), Kind::make(opid(t) + 9), Kind::make(opid(t) + 10), Kind::make(opid(t) + 11), Kind::make(opid(t) + 12), Kind::make(opid(t) + 13), Kind::make(opid(t) + 14), &s, &r, &x, &sl) }),
        387 => drive_tret(tag, |t| { let s = text(opid(t) + 50); let r = Box::<RObj>::make(opid(t) + 51); let x = Txt::make(opid(t) + 52); let sl = Vec::<String>::make(opid(t) + 53); ffi::c_tmulti(t, Kind::make(opid(t) + 0), Kind::make(opid(t) + 1), Kind::make(opid(t) + 2), Kind::make(opid(t) + 3), Kind::make(opid(t) + 4), Kind::make(opid(t) + 5), Kind::make(opid(t) + 6), Kind::make(opid(t) + 7), Kind::make(opid(t) + 8), Kind::make(opid(t) + 9), Kind::make(opid(t) + 10), Kind::make(opid(t) + 11), Kind::make(opid(t) + 12), Kind::make(opid(t) + 13), Kind::make(opid(t) + 14), &s, &r, &x, &sl) }),
        388 => drive_shim(tag, 0),
        389 => drive_shim(tag, 1),
        390 => drive_shim(tag, 2),
        391 => drive_shim(tag, 3),
        392 => drive_shim(tag, 4),
        393 => drive_shim(tag, 5),
        394 => drive_shim(tag, 6),
        395 => drive_shim(tag, 7),
        396 => drive_shim(tag, 8),
        397 => drive_shim(tag, 9),
        398 => drive_shim(tag, 10),
        399 => drive_shim(tag, 11),
        400 => drive_shim(tag, 12),
        401 => drive_shim(tag, 13),
        402 => drive_shim(tag, 14),
        403 => drive_shim(tag, 15),
        404 => drive_t(tag, alt::d_t_u32),
        405 => drive_t(tag, alt::d_t_txt),
        406 => drive_t(tag, alt::d_t_box_txt),
        407 => drive_t(tag, alt::d_t_up_obj),
        408 => drive_t(tag, alt::d_t_string),
        409 => drive_t(tag, alt::d_t_vec_str),
        410 => drive_t(tag, alt::d_t_rec),
        411 => drive_t(tag, alt::d_t_tok),
        _ => unreachable!(),
    }
}
