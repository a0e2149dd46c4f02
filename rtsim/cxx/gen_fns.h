// generated by gen.py
#pragma once
#include "rtsim/cxx/types.h"
namespace rt {
uint8_t c_x_u8(uint64_t tag, uint8_t x);
uint8_t c_t_u8(uint64_t tag, uint8_t x);
void c_take_u8(uint64_t tag, uint8_t x);
void c_ttake_u8(uint64_t tag, uint8_t x);
uint8_t c_ret_u8(uint64_t tag);
uint8_t c_tret_u8(uint64_t tag);
int8_t c_x_i8(uint64_t tag, int8_t x);
uint16_t c_x_u16(uint64_t tag, uint16_t x);
int16_t c_x_i16(uint64_t tag, int16_t x);
uint32_t c_x_u32(uint64_t tag, uint32_t x);
int32_t c_x_i32(uint64_t tag, int32_t x);
uint64_t c_x_u64(uint64_t tag, uint64_t x);
int64_t c_x_i64(uint64_t tag, int64_t x);
int64_t c_t_i64(uint64_t tag, int64_t x);
void c_take_i64(uint64_t tag, int64_t x);
void c_ttake_i64(uint64_t tag, int64_t x);
int64_t c_ret_i64(uint64_t tag);
int64_t c_tret_i64(uint64_t tag);
size_t c_x_usize(uint64_t tag, size_t x);
rust::isize c_x_isize(uint64_t tag, rust::isize x);
float c_x_f32(uint64_t tag, float x);
float c_t_f32(uint64_t tag, float x);
void c_take_f32(uint64_t tag, float x);
void c_ttake_f32(uint64_t tag, float x);
float c_ret_f32(uint64_t tag);
float c_tret_f32(uint64_t tag);
double c_x_f64(uint64_t tag, double x);
bool c_x_bool(uint64_t tag, bool x);
bool c_t_bool(uint64_t tag, bool x);
void c_take_bool(uint64_t tag, bool x);
void c_ttake_bool(uint64_t tag, bool x);
bool c_ret_bool(uint64_t tag);
bool c_tret_bool(uint64_t tag);
char c_x_chr(uint64_t tag, char x);
Pod c_x_pod(uint64_t tag, Pod x);
Pod c_t_pod(uint64_t tag, Pod x);
void c_take_pod(uint64_t tag, Pod x);
void c_ttake_pod(uint64_t tag, Pod x);
Pod c_ret_pod(uint64_t tag);
Pod c_tret_pod(uint64_t tag);
Color c_x_color(uint64_t tag, Color x);
Color c_t_color(uint64_t tag, Color x);
void c_take_color(uint64_t tag, Color x);
void c_ttake_color(uint64_t tag, Color x);
Color c_ret_color(uint64_t tag);
Color c_tret_color(uint64_t tag);
Txt c_x_txt(uint64_t tag, Txt x);
Txt c_t_txt(uint64_t tag, Txt x);
void c_take_txt(uint64_t tag, Txt x);
void c_ttake_txt(uint64_t tag, Txt x);
Txt c_ret_txt(uint64_t tag);
Txt c_tret_txt(uint64_t tag);
Rec c_x_rec(uint64_t tag, Rec x);
Rec c_t_rec(uint64_t tag, Rec x);
void c_take_rec(uint64_t tag, Rec x);
void c_ttake_rec(uint64_t tag, Rec x);
Rec c_ret_rec(uint64_t tag);
Rec c_tret_rec(uint64_t tag);
Tok c_x_tok(uint64_t tag, Tok x);
Tok c_t_tok(uint64_t tag, Tok x);
void c_take_tok(uint64_t tag, Tok x);
void c_ttake_tok(uint64_t tag, Tok x);
Tok c_ret_tok(uint64_t tag);
Tok c_tret_tok(uint64_t tag);
rust::Box<RObj> c_x_box_robj(uint64_t tag, rust::Box<RObj> x);
rust::Box<RObj> c_t_box_robj(uint64_t tag, rust::Box<RObj> x);
void c_take_box_robj(uint64_t tag, rust::Box<RObj> x);
void c_ttake_box_robj(uint64_t tag, rust::Box<RObj> x);
rust::Box<RObj> c_ret_box_robj(uint64_t tag);
rust::Box<RObj> c_tret_box_robj(uint64_t tag);
rust::Box<Txt> c_x_box_txt(uint64_t tag, rust::Box<Txt> x);
rust::Box<Txt> c_t_box_txt(uint64_t tag, rust::Box<Txt> x);
void c_take_box_txt(uint64_t tag, rust::Box<Txt> x);
void c_ttake_box_txt(uint64_t tag, rust::Box<Txt> x);
rust::Box<Txt> c_ret_box_txt(uint64_t tag);
rust::Box<Txt> c_tret_box_txt(uint64_t tag);
std::unique_ptr<Obj> c_x_up_obj(uint64_t tag, std::unique_ptr<Obj> x);
std::unique_ptr<Obj> c_t_up_obj(uint64_t tag, std::unique_ptr<Obj> x);
void c_take_up_obj(uint64_t tag, std::unique_ptr<Obj> x);
void c_ttake_up_obj(uint64_t tag, std::unique_ptr<Obj> x);
std::unique_ptr<Obj> c_ret_up_obj(uint64_t tag);
std::unique_ptr<Obj> c_tret_up_obj(uint64_t tag);
std::unique_ptr<std::string> c_x_up_str(uint64_t tag, std::unique_ptr<std::string> x);
std::unique_ptr<std::string> c_t_up_str(uint64_t tag, std::unique_ptr<std::string> x);
void c_take_up_str(uint64_t tag, std::unique_ptr<std::string> x);
void c_ttake_up_str(uint64_t tag, std::unique_ptr<std::string> x);
std::unique_ptr<std::string> c_ret_up_str(uint64_t tag);
std::unique_ptr<std::string> c_tret_up_str(uint64_t tag);
std::unique_ptr<Pod> c_x_up_pod(uint64_t tag, std::unique_ptr<Pod> x);
std::unique_ptr<Pod> c_t_up_pod(uint64_t tag, std::unique_ptr<Pod> x);
void c_take_up_pod(uint64_t tag, std::unique_ptr<Pod> x);
void c_ttake_up_pod(uint64_t tag, std::unique_ptr<Pod> x);
std::unique_ptr<Pod> c_ret_up_pod(uint64_t tag);
std::unique_ptr<Pod> c_tret_up_pod(uint64_t tag);
std::unique_ptr<Txt> c_x_up_txt(uint64_t tag, std::unique_ptr<Txt> x);
std::unique_ptr<Txt> c_t_up_txt(uint64_t tag, std::unique_ptr<Txt> x);
void c_take_up_txt(uint64_t tag, std::unique_ptr<Txt> x);
void c_ttake_up_txt(uint64_t tag, std::unique_ptr<Txt> x);
std::unique_ptr<Txt> c_ret_up_txt(uint64_t tag);
std::unique_ptr<Txt> c_tret_up_txt(uint64_t tag);
std::unique_ptr<std::vector<uint8_t>> c_x_up_vu8(uint64_t tag, std::unique_ptr<std::vector<uint8_t>> x);
std::unique_ptr<std::vector<uint8_t>> c_t_up_vu8(uint64_t tag, std::unique_ptr<std::vector<uint8_t>> x);
void c_take_up_vu8(uint64_t tag, std::unique_ptr<std::vector<uint8_t>> x);
void c_ttake_up_vu8(uint64_t tag, std::unique_ptr<std::vector<uint8_t>> x);
std::unique_ptr<std::vector<uint8_t>> c_ret_up_vu8(uint64_t tag);
std::unique_ptr<std::vector<uint8_t>> c_tret_up_vu8(uint64_t tag);
std::unique_ptr<std::vector<double>> c_x_up_vf64(uint64_t tag, std::unique_ptr<std::vector<double>> x);
std::unique_ptr<std::vector<double>> c_t_up_vf64(uint64_t tag, std::unique_ptr<std::vector<double>> x);
void c_take_up_vf64(uint64_t tag, std::unique_ptr<std::vector<double>> x);
void c_ttake_up_vf64(uint64_t tag, std::unique_ptr<std::vector<double>> x);
std::unique_ptr<std::vector<double>> c_ret_up_vf64(uint64_t tag);
std::unique_ptr<std::vector<double>> c_tret_up_vf64(uint64_t tag);
std::unique_ptr<std::vector<std::string>> c_x_up_vstr(uint64_t tag, std::unique_ptr<std::vector<std::string>> x);
std::unique_ptr<std::vector<std::string>> c_t_up_vstr(uint64_t tag, std::unique_ptr<std::vector<std::string>> x);
void c_take_up_vstr(uint64_t tag, std::unique_ptr<std::vector<std::string>> x);
void c_ttake_up_vstr(uint64_t tag, std::unique_ptr<std::vector<std::string>> x);
std::unique_ptr<std::vector<std::string>> c_ret_up_vstr(uint64_t tag);
std::unique_ptr<std::vector<std::string>> c_tret_up_vstr(uint64_t tag);
std::unique_ptr<std::vector<Obj>> c_x_up_vobj(uint64_t tag, std::unique_ptr<std::vector<Obj>> x);
std::unique_ptr<std::vector<Obj>> c_t_up_vobj(uint64_t tag, std::unique_ptr<std::vector<Obj>> x);
void c_take_up_vobj(uint64_t tag, std::unique_ptr<std::vector<Obj>> x);
void c_ttake_up_vobj(uint64_t tag, std::unique_ptr<std::vector<Obj>> x);
std::unique_ptr<std::vector<Obj>> c_ret_up_vobj(uint64_t tag);
std::unique_ptr<std::vector<Obj>> c_tret_up_vobj(uint64_t tag);
std::unique_ptr<std::vector<Txt>> c_x_up_vtxt(uint64_t tag, std::unique_ptr<std::vector<Txt>> x);
std::unique_ptr<std::vector<Txt>> c_t_up_vtxt(uint64_t tag, std::unique_ptr<std::vector<Txt>> x);
void c_take_up_vtxt(uint64_t tag, std::unique_ptr<std::vector<Txt>> x);
void c_ttake_up_vtxt(uint64_t tag, std::unique_ptr<std::vector<Txt>> x);
std::unique_ptr<std::vector<Txt>> c_ret_up_vtxt(uint64_t tag);
std::unique_ptr<std::vector<Txt>> c_tret_up_vtxt(uint64_t tag);
std::shared_ptr<Obj> c_x_sp_obj(uint64_t tag, std::shared_ptr<Obj> x);
std::shared_ptr<Obj> c_t_sp_obj(uint64_t tag, std::shared_ptr<Obj> x);
void c_take_sp_obj(uint64_t tag, std::shared_ptr<Obj> x);
void c_ttake_sp_obj(uint64_t tag, std::shared_ptr<Obj> x);
std::shared_ptr<Obj> c_ret_sp_obj(uint64_t tag);
std::shared_ptr<Obj> c_tret_sp_obj(uint64_t tag);
std::shared_ptr<Pod> c_x_sp_pod(uint64_t tag, std::shared_ptr<Pod> x);
std::shared_ptr<Pod> c_t_sp_pod(uint64_t tag, std::shared_ptr<Pod> x);
void c_take_sp_pod(uint64_t tag, std::shared_ptr<Pod> x);
void c_ttake_sp_pod(uint64_t tag, std::shared_ptr<Pod> x);
std::shared_ptr<Pod> c_ret_sp_pod(uint64_t tag);
std::shared_ptr<Pod> c_tret_sp_pod(uint64_t tag);
std::shared_ptr<std::string> c_x_sp_str(uint64_t tag, std::shared_ptr<std::string> x);
std::shared_ptr<std::string> c_t_sp_str(uint64_t tag, std::shared_ptr<std::string> x);
void c_take_sp_str(uint64_t tag, std::shared_ptr<std::string> x);
void c_ttake_sp_str(uint64_t tag, std::shared_ptr<std::string> x);
std::shared_ptr<std::string> c_ret_sp_str(uint64_t tag);
std::shared_ptr<std::string> c_tret_sp_str(uint64_t tag);
std::shared_ptr<uint64_t> c_x_sp_u64(uint64_t tag, std::shared_ptr<uint64_t> x);
std::shared_ptr<uint64_t> c_t_sp_u64(uint64_t tag, std::shared_ptr<uint64_t> x);
void c_take_sp_u64(uint64_t tag, std::shared_ptr<uint64_t> x);
void c_ttake_sp_u64(uint64_t tag, std::shared_ptr<uint64_t> x);
std::shared_ptr<uint64_t> c_ret_sp_u64(uint64_t tag);
std::shared_ptr<uint64_t> c_tret_sp_u64(uint64_t tag);
std::weak_ptr<Obj> c_x_wp_obj(uint64_t tag, std::weak_ptr<Obj> x);
std::weak_ptr<Obj> c_t_wp_obj(uint64_t tag, std::weak_ptr<Obj> x);
void c_take_wp_obj(uint64_t tag, std::weak_ptr<Obj> x);
void c_ttake_wp_obj(uint64_t tag, std::weak_ptr<Obj> x);
std::weak_ptr<Obj> c_ret_wp_obj(uint64_t tag);
std::weak_ptr<Obj> c_tret_wp_obj(uint64_t tag);
rust::String c_x_string(uint64_t tag, rust::String x);
rust::String c_t_string(uint64_t tag, rust::String x);
void c_take_string(uint64_t tag, rust::String x);
void c_ttake_string(uint64_t tag, rust::String x);
rust::String c_ret_string(uint64_t tag);
rust::String c_tret_string(uint64_t tag);
rust::Vec<uint8_t> c_x_vec_u8(uint64_t tag, rust::Vec<uint8_t> x);
rust::Vec<uint8_t> c_t_vec_u8(uint64_t tag, rust::Vec<uint8_t> x);
void c_take_vec_u8(uint64_t tag, rust::Vec<uint8_t> x);
void c_ttake_vec_u8(uint64_t tag, rust::Vec<uint8_t> x);
rust::Vec<uint8_t> c_ret_vec_u8(uint64_t tag);
rust::Vec<uint8_t> c_tret_vec_u8(uint64_t tag);
rust::Vec<rust::String> c_x_vec_str(uint64_t tag, rust::Vec<rust::String> x);
rust::Vec<rust::String> c_t_vec_str(uint64_t tag, rust::Vec<rust::String> x);
void c_take_vec_str(uint64_t tag, rust::Vec<rust::String> x);
void c_ttake_vec_str(uint64_t tag, rust::Vec<rust::String> x);
rust::Vec<rust::String> c_ret_vec_str(uint64_t tag);
rust::Vec<rust::String> c_tret_vec_str(uint64_t tag);
rust::Vec<Txt> c_x_vec_txt(uint64_t tag, rust::Vec<Txt> x);
rust::Vec<Txt> c_t_vec_txt(uint64_t tag, rust::Vec<Txt> x);
void c_take_vec_txt(uint64_t tag, rust::Vec<Txt> x);
void c_ttake_vec_txt(uint64_t tag, rust::Vec<Txt> x);
rust::Vec<Txt> c_ret_vec_txt(uint64_t tag);
rust::Vec<Txt> c_tret_vec_txt(uint64_t tag);
rust::Vec<Pod> c_x_vec_pod(uint64_t tag, rust::Vec<Pod> x);
rust::Vec<Pod> c_t_vec_pod(uint64_t tag, rust::Vec<Pod> x);
void c_take_vec_pod(uint64_t tag, rust::Vec<Pod> x);
void c_ttake_vec_pod(uint64_t tag, rust::Vec<Pod> x);
rust::Vec<Pod> c_ret_vec_pod(uint64_t tag);
rust::Vec<Pod> c_tret_vec_pod(uint64_t tag);
rust::Vec<bool> c_x_vec_bool(uint64_t tag, rust::Vec<bool> x);
rust::Vec<bool> c_t_vec_bool(uint64_t tag, rust::Vec<bool> x);
void c_take_vec_bool(uint64_t tag, rust::Vec<bool> x);
void c_ttake_vec_bool(uint64_t tag, rust::Vec<bool> x);
rust::Vec<bool> c_ret_vec_bool(uint64_t tag);
rust::Vec<bool> c_tret_vec_bool(uint64_t tag);
rust::Vec<double> c_x_vec_f64(uint64_t tag, rust::Vec<double> x);
rust::Vec<double> c_t_vec_f64(uint64_t tag, rust::Vec<double> x);
void c_take_vec_f64(uint64_t tag, rust::Vec<double> x);
void c_ttake_vec_f64(uint64_t tag, rust::Vec<double> x);
rust::Vec<double> c_ret_vec_f64(uint64_t tag);
rust::Vec<double> c_tret_vec_f64(uint64_t tag);
rust::Vec<size_t> c_x_vec_usize(uint64_t tag, rust::Vec<size_t> x);
rust::Vec<size_t> c_t_vec_usize(uint64_t tag, rust::Vec<size_t> x);
void c_take_vec_usize(uint64_t tag, rust::Vec<size_t> x);
void c_ttake_vec_usize(uint64_t tag, rust::Vec<size_t> x);
rust::Vec<size_t> c_ret_vec_usize(uint64_t tag);
rust::Vec<size_t> c_tret_vec_usize(uint64_t tag);
rust::Vec<Tok> c_x_vec_tok(uint64_t tag, rust::Vec<Tok> x);
rust::Vec<Tok> c_t_vec_tok(uint64_t tag, rust::Vec<Tok> x);
void c_take_vec_tok(uint64_t tag, rust::Vec<Tok> x);
void c_ttake_vec_tok(uint64_t tag, rust::Vec<Tok> x);
rust::Vec<Tok> c_ret_vec_tok(uint64_t tag);
rust::Vec<Tok> c_tret_vec_tok(uint64_t tag);
rust::Vec<RObj> c_x_vec_robj(uint64_t tag, rust::Vec<RObj> x);
rust::Vec<RObj> c_t_vec_robj(uint64_t tag, rust::Vec<RObj> x);
void c_take_vec_robj(uint64_t tag, rust::Vec<RObj> x);
void c_ttake_vec_robj(uint64_t tag, rust::Vec<RObj> x);
rust::Vec<RObj> c_ret_vec_robj(uint64_t tag);
rust::Vec<RObj> c_tret_vec_robj(uint64_t tag);
uint32_t c_cb_u32(uint64_t tag, uint32_t x, rust::Fn<uint32_t(uint64_t, uint32_t)> f);
uint32_t c_tcb_u32(uint64_t tag, uint32_t x, rust::Fn<uint32_t(uint64_t, uint32_t)> f);
void c_cbr_u32(uint64_t tag, const uint32_t &x, rust::Fn<void(uint64_t, const uint32_t &)> f);
Txt c_cb_txt(uint64_t tag, Txt x, rust::Fn<Txt(uint64_t, Txt)> f);
Txt c_tcb_txt(uint64_t tag, Txt x, rust::Fn<Txt(uint64_t, Txt)> f);
void c_cbr_txt(uint64_t tag, const Txt &x, rust::Fn<void(uint64_t, const Txt &)> f);
Rec c_cb_rec(uint64_t tag, Rec x, rust::Fn<Rec(uint64_t, Rec)> f);
Rec c_tcb_rec(uint64_t tag, Rec x, rust::Fn<Rec(uint64_t, Rec)> f);
void c_cbr_rec(uint64_t tag, const Rec &x, rust::Fn<void(uint64_t, const Rec &)> f);
Tok c_cb_tok(uint64_t tag, Tok x, rust::Fn<Tok(uint64_t, Tok)> f);
Tok c_tcb_tok(uint64_t tag, Tok x, rust::Fn<Tok(uint64_t, Tok)> f);
void c_cbr_tok(uint64_t tag, const Tok &x, rust::Fn<void(uint64_t, const Tok &)> f);
rust::Box<RObj> c_cb_box_robj(uint64_t tag, rust::Box<RObj> x, rust::Fn<rust::Box<RObj>(uint64_t, rust::Box<RObj>)> f);
rust::Box<RObj> c_tcb_box_robj(uint64_t tag, rust::Box<RObj> x, rust::Fn<rust::Box<RObj>(uint64_t, rust::Box<RObj>)> f);
void c_cbr_box_robj(uint64_t tag, const rust::Box<RObj> &x, rust::Fn<void(uint64_t, const rust::Box<RObj> &)> f);
std::unique_ptr<Obj> c_cb_up_obj(uint64_t tag, std::unique_ptr<Obj> x, rust::Fn<std::unique_ptr<Obj>(uint64_t, std::unique_ptr<Obj>)> f);
std::unique_ptr<Obj> c_tcb_up_obj(uint64_t tag, std::unique_ptr<Obj> x, rust::Fn<std::unique_ptr<Obj>(uint64_t, std::unique_ptr<Obj>)> f);
void c_cbr_up_obj(uint64_t tag, const std::unique_ptr<Obj> &x, rust::Fn<void(uint64_t, const std::unique_ptr<Obj> &)> f);
std::shared_ptr<Obj> c_cb_sp_obj(uint64_t tag, std::shared_ptr<Obj> x, rust::Fn<std::shared_ptr<Obj>(uint64_t, std::shared_ptr<Obj>)> f);
std::shared_ptr<Obj> c_tcb_sp_obj(uint64_t tag, std::shared_ptr<Obj> x, rust::Fn<std::shared_ptr<Obj>(uint64_t, std::shared_ptr<Obj>)> f);
void c_cbr_sp_obj(uint64_t tag, const std::shared_ptr<Obj> &x, rust::Fn<void(uint64_t, const std::shared_ptr<Obj> &)> f);
rust::String c_cb_string(uint64_t tag, rust::String x, rust::Fn<rust::String(uint64_t, rust::String)> f);
rust::String c_tcb_string(uint64_t tag, rust::String x, rust::Fn<rust::String(uint64_t, rust::String)> f);
void c_cbr_string(uint64_t tag, const rust::String &x, rust::Fn<void(uint64_t, const rust::String &)> f);
rust::Vec<rust::String> c_cb_vec_str(uint64_t tag, rust::Vec<rust::String> x, rust::Fn<rust::Vec<rust::String>(uint64_t, rust::Vec<rust::String>)> f);
rust::Vec<rust::String> c_tcb_vec_str(uint64_t tag, rust::Vec<rust::String> x, rust::Fn<rust::Vec<rust::String>(uint64_t, rust::Vec<rust::String>)> f);
void c_cbr_vec_str(uint64_t tag, const rust::Vec<rust::String> &x, rust::Fn<void(uint64_t, const rust::Vec<rust::String> &)> f);
rust::Vec<Tok> c_cb_vec_tok(uint64_t tag, rust::Vec<Tok> x, rust::Fn<rust::Vec<Tok>(uint64_t, rust::Vec<Tok>)> f);
rust::Vec<Tok> c_tcb_vec_tok(uint64_t tag, rust::Vec<Tok> x, rust::Fn<rust::Vec<Tok>(uint64_t, rust::Vec<Tok>)> f);
void c_cbr_vec_tok(uint64_t tag, const rust::Vec<Tok> &x, rust::Fn<void(uint64_t, const rust::Vec<Tok> &)> f);
Color c_cb_color(uint64_t tag, Color x, rust::Fn<Color(uint64_t, Color)> f);
Color c_tcb_color(uint64_t tag, Color x, rust::Fn<Color(uint64_t, Color)> f);
void c_cbr_color(uint64_t tag, const Color &x, rust::Fn<void(uint64_t, const Color &)> f);
const Txt &c_ref_txt(uint64_t tag, const Txt &x);
const Txt &c_tref_txt(uint64_t tag, const Txt &x);
Txt &c_mut_txt(uint64_t tag, Txt &x);
Txt &c_tmut_txt(uint64_t tag, Txt &x);
const Rec &c_ref_rec(uint64_t tag, const Rec &x);
const Rec &c_tref_rec(uint64_t tag, const Rec &x);
Rec &c_mut_rec(uint64_t tag, Rec &x);
Rec &c_tmut_rec(uint64_t tag, Rec &x);
const Pod &c_ref_pod(uint64_t tag, const Pod &x);
const Pod &c_tref_pod(uint64_t tag, const Pod &x);
Pod &c_mut_pod(uint64_t tag, Pod &x);
Pod &c_tmut_pod(uint64_t tag, Pod &x);
const uint64_t &c_ref_u64(uint64_t tag, const uint64_t &x);
const uint64_t &c_tref_u64(uint64_t tag, const uint64_t &x);
uint64_t &c_mut_u64(uint64_t tag, uint64_t &x);
uint64_t &c_tmut_u64(uint64_t tag, uint64_t &x);
const RObj &c_ref_robj(uint64_t tag, const RObj &x);
const RObj &c_tref_robj(uint64_t tag, const RObj &x);
RObj &c_mut_robj(uint64_t tag, RObj &x);
RObj &c_tmut_robj(uint64_t tag, RObj &x);
const Obj &c_ref_obj(uint64_t tag, const Obj &x);
const Obj &c_tref_obj(uint64_t tag, const Obj &x);
Obj &c_mut_obj(uint64_t tag, Obj &x);
Obj &c_tmut_obj(uint64_t tag, Obj &x);
const rust::String &c_ref_string(uint64_t tag, const rust::String &x);
const rust::String &c_tref_string(uint64_t tag, const rust::String &x);
rust::String &c_mut_string(uint64_t tag, rust::String &x);
rust::String &c_tmut_string(uint64_t tag, rust::String &x);
const rust::Vec<uint8_t> &c_ref_vec_u8(uint64_t tag, const rust::Vec<uint8_t> &x);
const rust::Vec<uint8_t> &c_tref_vec_u8(uint64_t tag, const rust::Vec<uint8_t> &x);
rust::Vec<uint8_t> &c_mut_vec_u8(uint64_t tag, rust::Vec<uint8_t> &x);
rust::Vec<uint8_t> &c_tmut_vec_u8(uint64_t tag, rust::Vec<uint8_t> &x);
const rust::Vec<Txt> &c_ref_vec_txt(uint64_t tag, const rust::Vec<Txt> &x);
const rust::Vec<Txt> &c_tref_vec_txt(uint64_t tag, const rust::Vec<Txt> &x);
rust::Vec<Txt> &c_mut_vec_txt(uint64_t tag, rust::Vec<Txt> &x);
rust::Vec<Txt> &c_tmut_vec_txt(uint64_t tag, rust::Vec<Txt> &x);
const rust::Vec<rust::String> &c_ref_vec_str(uint64_t tag, const rust::Vec<rust::String> &x);
const rust::Vec<rust::String> &c_tref_vec_str(uint64_t tag, const rust::Vec<rust::String> &x);
rust::Vec<rust::String> &c_mut_vec_str(uint64_t tag, rust::Vec<rust::String> &x);
rust::Vec<rust::String> &c_tmut_vec_str(uint64_t tag, rust::Vec<rust::String> &x);
const std::string &c_ref_cstr(uint64_t tag, const std::string &x);
const std::string &c_tref_cstr(uint64_t tag, const std::string &x);
std::string &c_mut_cstr(uint64_t tag, std::string &x);
std::string &c_tmut_cstr(uint64_t tag, std::string &x);
const std::vector<uint8_t> &c_ref_cvu8(uint64_t tag, const std::vector<uint8_t> &x);
const std::vector<uint8_t> &c_tref_cvu8(uint64_t tag, const std::vector<uint8_t> &x);
std::vector<uint8_t> &c_mut_cvu8(uint64_t tag, std::vector<uint8_t> &x);
std::vector<uint8_t> &c_tmut_cvu8(uint64_t tag, std::vector<uint8_t> &x);
const std::vector<std::string> &c_ref_cvstr(uint64_t tag, const std::vector<std::string> &x);
const std::vector<std::string> &c_tref_cvstr(uint64_t tag, const std::vector<std::string> &x);
std::vector<std::string> &c_mut_cvstr(uint64_t tag, std::vector<std::string> &x);
std::vector<std::string> &c_tmut_cvstr(uint64_t tag, std::vector<std::string> &x);
const std::vector<Obj> &c_ref_cvobj(uint64_t tag, const std::vector<Obj> &x);
const std::vector<Obj> &c_tref_cvobj(uint64_t tag, const std::vector<Obj> &x);
std::vector<Obj> &c_mut_cvobj(uint64_t tag, std::vector<Obj> &x);
std::vector<Obj> &c_tmut_cvobj(uint64_t tag, std::vector<Obj> &x);
const std::shared_ptr<Obj> &c_ref_sp_obj(uint64_t tag, const std::shared_ptr<Obj> &x);
const std::shared_ptr<Obj> &c_tref_sp_obj(uint64_t tag, const std::shared_ptr<Obj> &x);
std::shared_ptr<Obj> &c_mut_sp_obj(uint64_t tag, std::shared_ptr<Obj> &x);
std::shared_ptr<Obj> &c_tmut_sp_obj(uint64_t tag, std::shared_ptr<Obj> &x);
const std::unique_ptr<Obj> &c_ref_up_obj(uint64_t tag, const std::unique_ptr<Obj> &x);
const std::unique_ptr<Obj> &c_tref_up_obj(uint64_t tag, const std::unique_ptr<Obj> &x);
std::unique_ptr<Obj> &c_mut_up_obj(uint64_t tag, std::unique_ptr<Obj> &x);
std::unique_ptr<Obj> &c_tmut_up_obj(uint64_t tag, std::unique_ptr<Obj> &x);
const rust::Box<RObj> &c_ref_box_robj(uint64_t tag, const rust::Box<RObj> &x);
const rust::Box<RObj> &c_tref_box_robj(uint64_t tag, const rust::Box<RObj> &x);
rust::Box<RObj> &c_mut_box_robj(uint64_t tag, rust::Box<RObj> &x);
rust::Box<RObj> &c_tmut_box_robj(uint64_t tag, rust::Box<RObj> &x);
const Tok &c_ref_tok(uint64_t tag, const Tok &x);
const Tok &c_tref_tok(uint64_t tag, const Tok &x);
Tok &c_mut_tok(uint64_t tag, Tok &x);
Tok &c_tmut_tok(uint64_t tag, Tok &x);
rust::Slice<const uint8_t> c_sl_u8(uint64_t tag, rust::Slice<const uint8_t> x);
rust::Slice<const uint8_t> c_tsl_u8(uint64_t tag, rust::Slice<const uint8_t> x);
rust::Slice<uint8_t> c_msl_u8(uint64_t tag, rust::Slice<uint8_t> x);
rust::Slice<uint8_t> c_tmsl_u8(uint64_t tag, rust::Slice<uint8_t> x);
rust::Slice<const rust::String> c_sl_string(uint64_t tag, rust::Slice<const rust::String> x);
rust::Slice<const rust::String> c_tsl_string(uint64_t tag, rust::Slice<const rust::String> x);
rust::Slice<rust::String> c_msl_string(uint64_t tag, rust::Slice<rust::String> x);
rust::Slice<rust::String> c_tmsl_string(uint64_t tag, rust::Slice<rust::String> x);
rust::Slice<const Txt> c_sl_txt(uint64_t tag, rust::Slice<const Txt> x);
rust::Slice<const Txt> c_tsl_txt(uint64_t tag, rust::Slice<const Txt> x);
rust::Slice<Txt> c_msl_txt(uint64_t tag, rust::Slice<Txt> x);
rust::Slice<Txt> c_tmsl_txt(uint64_t tag, rust::Slice<Txt> x);
rust::Slice<const Pod> c_sl_pod(uint64_t tag, rust::Slice<const Pod> x);
rust::Slice<const Pod> c_tsl_pod(uint64_t tag, rust::Slice<const Pod> x);
rust::Slice<Pod> c_msl_pod(uint64_t tag, rust::Slice<Pod> x);
rust::Slice<Pod> c_tmsl_pod(uint64_t tag, rust::Slice<Pod> x);
rust::Slice<const size_t> c_sl_usize(uint64_t tag, rust::Slice<const size_t> x);
rust::Slice<const size_t> c_tsl_usize(uint64_t tag, rust::Slice<const size_t> x);
rust::Slice<size_t> c_msl_usize(uint64_t tag, rust::Slice<size_t> x);
rust::Slice<size_t> c_tmsl_usize(uint64_t tag, rust::Slice<size_t> x);
rust::Slice<const double> c_sl_f64(uint64_t tag, rust::Slice<const double> x);
rust::Slice<const double> c_tsl_f64(uint64_t tag, rust::Slice<const double> x);
rust::Slice<double> c_msl_f64(uint64_t tag, rust::Slice<double> x);
rust::Slice<double> c_tmsl_f64(uint64_t tag, rust::Slice<double> x);
rust::Slice<const RObj> c_sl_robj(uint64_t tag, rust::Slice<const RObj> x);
rust::Slice<const RObj> c_tsl_robj(uint64_t tag, rust::Slice<const RObj> x);
rust::Slice<RObj> c_msl_robj(uint64_t tag, rust::Slice<RObj> x);
rust::Slice<RObj> c_tmsl_robj(uint64_t tag, rust::Slice<RObj> x);
rust::Slice<const Tok> c_sl_tok(uint64_t tag, rust::Slice<const Tok> x);
rust::Slice<const Tok> c_tsl_tok(uint64_t tag, rust::Slice<const Tok> x);
rust::Slice<Tok> c_msl_tok(uint64_t tag, rust::Slice<Tok> x);
rust::Slice<Tok> c_tmsl_tok(uint64_t tag, rust::Slice<Tok> x);
rust::Str c_str(uint64_t tag, rust::Str x);
rust::Str c_tstr(uint64_t tag, rust::Str x);
Rec c_multi(uint64_t tag, int8_t a0, rust::String a1, rust::Box<RObj> a2, std::unique_ptr<Obj> a3, Txt a4, double a5, rust::Vec<rust::String> a6, std::shared_ptr<Obj> a7, Tok a8, Color a9, bool a10, Rec a11, float a12, rust::Vec<Tok> a13, uint16_t a14, rust::Str s, const RObj &r, const Txt &t, rust::Slice<const rust::String> sl);
Rec c_tmulti(uint64_t tag, int8_t a0, rust::String a1, rust::Box<RObj> a2, std::unique_ptr<Obj> a3, Txt a4, double a5, rust::Vec<rust::String> a6, std::shared_ptr<Obj> a7, Tok a8, Color a9, bool a10, Rec a11, float a12, rust::Vec<Tok> a13, uint16_t a14, rust::Str s, const RObj &r, const Txt &t, rust::Slice<const rust::String> sl);
}
