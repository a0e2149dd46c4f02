// generated by gen.py
#include "rtsim/cxx/calls.h"
namespace rt {
uint8_t c_x_u8(uint64_t tag, uint8_t x) { return callee_x<uint8_t>(tag, std::move(x)); }
uint8_t c_ret_u8(uint64_t tag) { return callee_ret<uint8_t>(tag); }
int16_t c_x_i16(uint64_t tag, int16_t x) { return callee_x<int16_t>(tag, std::move(x)); }
int64_t c_x_i64(uint64_t tag, int64_t x) { return callee_x<int64_t>(tag, std::move(x)); }
int64_t c_ret_i64(uint64_t tag) { return callee_ret<int64_t>(tag); }
float c_x_f32(uint64_t tag, float x) { return callee_x<float>(tag, std::move(x)); }
float c_ret_f32(uint64_t tag) { return callee_ret<float>(tag); }
bool c_t_bool(uint64_t tag, bool x) { return callee_x<bool>(tag, std::move(x)); }
bool c_tret_bool(uint64_t tag) { return callee_ret<bool>(tag); }
void c_take_pod(uint64_t tag, Pod x) { callee_take<Pod>(tag, std::move(x)); }
Color c_x_color(uint64_t tag, Color x) { return callee_x<Color>(tag, std::move(x)); }
Color c_ret_color(uint64_t tag) { return callee_ret<Color>(tag); }
void c_take_txt(uint64_t tag, Txt x) { callee_take<Txt>(tag, std::move(x)); }
Rec c_x_rec(uint64_t tag, Rec x) { return callee_x<Rec>(tag, std::move(x)); }
Rec c_ret_rec(uint64_t tag) { return callee_ret<Rec>(tag); }
void c_take_tok(uint64_t tag, Tok x) { callee_take<Tok>(tag, std::move(x)); }
rust::Box<RObj> c_x_box_robj(uint64_t tag, rust::Box<RObj> x) { return callee_x<rust::Box<RObj>>(tag, std::move(x)); }
rust::Box<RObj> c_ret_box_robj(uint64_t tag) { return callee_ret<rust::Box<RObj>>(tag); }
void c_take_box_txt(uint64_t tag, rust::Box<Txt> x) { callee_take<rust::Box<Txt>>(tag, std::move(x)); }
std::unique_ptr<Obj> c_x_up_obj(uint64_t tag, std::unique_ptr<Obj> x) { return callee_x<std::unique_ptr<Obj>>(tag, std::move(x)); }
std::unique_ptr<Obj> c_ret_up_obj(uint64_t tag) { return callee_ret<std::unique_ptr<Obj>>(tag); }
void c_take_up_str(uint64_t tag, std::unique_ptr<std::string> x) { callee_take<std::unique_ptr<std::string>>(tag, std::move(x)); }
std::unique_ptr<Pod> c_x_up_pod(uint64_t tag, std::unique_ptr<Pod> x) { return callee_x<std::unique_ptr<Pod>>(tag, std::move(x)); }
std::unique_ptr<Pod> c_ret_up_pod(uint64_t tag) { return callee_ret<std::unique_ptr<Pod>>(tag); }
void c_take_up_txt(uint64_t tag, std::unique_ptr<Txt> x) { callee_take<std::unique_ptr<Txt>>(tag, std::move(x)); }
std::unique_ptr<std::vector<uint8_t>> c_x_up_vu8(uint64_t tag, std::unique_ptr<std::vector<uint8_t>> x) { return callee_x<std::unique_ptr<std::vector<uint8_t>>>(tag, std::move(x)); }
std::unique_ptr<std::vector<uint8_t>> c_ret_up_vu8(uint64_t tag) { return callee_ret<std::unique_ptr<std::vector<uint8_t>>>(tag); }
void c_take_up_vf64(uint64_t tag, std::unique_ptr<std::vector<double>> x) { callee_take<std::unique_ptr<std::vector<double>>>(tag, std::move(x)); }
std::unique_ptr<std::vector<std::string>> c_x_up_vstr(uint64_t tag, std::unique_ptr<std::vector<std::string>> x) { return callee_x<std::unique_ptr<std::vector<std::string>>>(tag, std::move(x)); }
std::unique_ptr<std::vector<std::string>> c_ret_up_vstr(uint64_t tag) { return callee_ret<std::unique_ptr<std::vector<std::string>>>(tag); }
void c_take_up_vobj(uint64_t tag, std::unique_ptr<std::vector<Obj>> x) { callee_take<std::unique_ptr<std::vector<Obj>>>(tag, std::move(x)); }
std::unique_ptr<std::vector<Txt>> c_x_up_vtxt(uint64_t tag, std::unique_ptr<std::vector<Txt>> x) { return callee_x<std::unique_ptr<std::vector<Txt>>>(tag, std::move(x)); }
std::unique_ptr<std::vector<Txt>> c_ret_up_vtxt(uint64_t tag) { return callee_ret<std::unique_ptr<std::vector<Txt>>>(tag); }
void c_take_sp_obj(uint64_t tag, std::shared_ptr<Obj> x) { callee_take<std::shared_ptr<Obj>>(tag, std::move(x)); }
std::shared_ptr<Pod> c_x_sp_pod(uint64_t tag, std::shared_ptr<Pod> x) { return callee_x<std::shared_ptr<Pod>>(tag, std::move(x)); }
std::shared_ptr<Pod> c_ret_sp_pod(uint64_t tag) { return callee_ret<std::shared_ptr<Pod>>(tag); }
void c_take_sp_str(uint64_t tag, std::shared_ptr<std::string> x) { callee_take<std::shared_ptr<std::string>>(tag, std::move(x)); }
std::shared_ptr<uint64_t> c_x_sp_u64(uint64_t tag, std::shared_ptr<uint64_t> x) { return callee_x<std::shared_ptr<uint64_t>>(tag, std::move(x)); }
std::shared_ptr<uint64_t> c_ret_sp_u64(uint64_t tag) { return callee_ret<std::shared_ptr<uint64_t>>(tag); }
void c_take_wp_obj(uint64_t tag, std::weak_ptr<Obj> x) { callee_take<std::weak_ptr<Obj>>(tag, std::move(x)); }
rust::String c_x_string(uint64_t tag, rust::String x) { return callee_x<rust::String>(tag, std::move(x)); }
rust::String c_ret_string(uint64_t tag) { return callee_ret<rust::String>(tag); }
void c_take_vec_u8(uint64_t tag, rust::Vec<uint8_t> x) { callee_take<rust::Vec<uint8_t>>(tag, std::move(x)); }
rust::Vec<rust::String> c_x_vec_str(uint64_t tag, rust::Vec<rust::String> x) { return callee_x<rust::Vec<rust::String>>(tag, std::move(x)); }
rust::Vec<rust::String> c_ret_vec_str(uint64_t tag) { return callee_ret<rust::Vec<rust::String>>(tag); }
void c_take_vec_txt(uint64_t tag, rust::Vec<Txt> x) { callee_take<rust::Vec<Txt>>(tag, std::move(x)); }
rust::Vec<Pod> c_x_vec_pod(uint64_t tag, rust::Vec<Pod> x) { return callee_x<rust::Vec<Pod>>(tag, std::move(x)); }
rust::Vec<Pod> c_ret_vec_pod(uint64_t tag) { return callee_ret<rust::Vec<Pod>>(tag); }
void c_take_vec_bool(uint64_t tag, rust::Vec<bool> x) { callee_take<rust::Vec<bool>>(tag, std::move(x)); }
rust::Vec<double> c_x_vec_f64(uint64_t tag, rust::Vec<double> x) { return callee_x<rust::Vec<double>>(tag, std::move(x)); }
rust::Vec<double> c_ret_vec_f64(uint64_t tag) { return callee_ret<rust::Vec<double>>(tag); }
void c_take_vec_usize(uint64_t tag, rust::Vec<size_t> x) { callee_take<rust::Vec<size_t>>(tag, std::move(x)); }
rust::Vec<Tok> c_x_vec_tok(uint64_t tag, rust::Vec<Tok> x) { return callee_x<rust::Vec<Tok>>(tag, std::move(x)); }
rust::Vec<Tok> c_ret_vec_tok(uint64_t tag) { return callee_ret<rust::Vec<Tok>>(tag); }
void c_take_vec_robj(uint64_t tag, rust::Vec<RObj> x) { callee_take<rust::Vec<RObj>>(tag, std::move(x)); }
uint32_t c_cb_u32(uint64_t tag, uint32_t x, rust::Fn<uint32_t(uint64_t, uint32_t)> f) { return callee_cb<uint32_t>(tag, std::move(x), f); }
Txt c_tcb_txt(uint64_t tag, Txt x, rust::Fn<Txt(uint64_t, Txt)> f) { return callee_cb<Txt>(tag, std::move(x), f); }
void c_cbr_rec(uint64_t tag, const Rec &x, rust::Fn<void(uint64_t, const Rec &)> f) { callee_cbr<Rec>(tag, x, f); }
rust::Box<RObj> c_cb_box_robj(uint64_t tag, rust::Box<RObj> x, rust::Fn<rust::Box<RObj>(uint64_t, rust::Box<RObj>)> f) { return callee_cb<rust::Box<RObj>>(tag, std::move(x), f); }
std::unique_ptr<Obj> c_tcb_up_obj(uint64_t tag, std::unique_ptr<Obj> x, rust::Fn<std::unique_ptr<Obj>(uint64_t, std::unique_ptr<Obj>)> f) { return callee_cb<std::unique_ptr<Obj>>(tag, std::move(x), f); }
void c_cbr_sp_obj(uint64_t tag, const std::shared_ptr<Obj> &x, rust::Fn<void(uint64_t, const std::shared_ptr<Obj> &)> f) { callee_cbr<std::shared_ptr<Obj>>(tag, x, f); }
rust::Vec<rust::String> c_cb_vec_str(uint64_t tag, rust::Vec<rust::String> x, rust::Fn<rust::Vec<rust::String>(uint64_t, rust::Vec<rust::String>)> f) { return callee_cb<rust::Vec<rust::String>>(tag, std::move(x), f); }
rust::Vec<Tok> c_tcb_vec_tok(uint64_t tag, rust::Vec<Tok> x, rust::Fn<rust::Vec<Tok>(uint64_t, rust::Vec<Tok>)> f) { return callee_cb<rust::Vec<Tok>>(tag, std::move(x), f); }
void c_cbr_color(uint64_t tag, const Color &x, rust::Fn<void(uint64_t, const Color &)> f) { callee_cbr<Color>(tag, x, f); }
Txt Obj::m_x_txt(uint64_t tag, Txt x) { self_check(tag); return callee_x<Txt>(tag, std::move(x)); }
Rec Obj::m_t_rec(uint64_t tag, Rec x) const { self_check(tag); return callee_x<Rec>(tag, std::move(x)); }
Tok Pod::sm_t_tok(uint64_t tag, Tok x) { check_at(*this, opx(tag) + 5, tag, "this"); return callee_x<Tok>(tag, std::move(x)); }
std::unique_ptr<Obj> Obj::m_x_up_obj(uint64_t tag, std::unique_ptr<Obj> x) { self_check(tag); return callee_x<std::unique_ptr<Obj>>(tag, std::move(x)); }
std::shared_ptr<Obj> Obj::m_t_sp_obj(uint64_t tag, std::shared_ptr<Obj> x) const { self_check(tag); return callee_x<std::shared_ptr<Obj>>(tag, std::move(x)); }
rust::String Pod::sm_t_string(uint64_t tag, rust::String x) { check_at(*this, opx(tag) + 5, tag, "this"); return callee_x<rust::String>(tag, std::move(x)); }
const Txt &c_ref_txt(uint64_t tag, const Txt &x) { return callee_ref<Txt>(tag, x); }
const Rec &c_ref_rec(uint64_t tag, const Rec &x) { return callee_ref<Rec>(tag, x); }
const Pod &c_ref_pod(uint64_t tag, const Pod &x) { return callee_ref<Pod>(tag, x); }
const uint64_t &c_ref_u64(uint64_t tag, const uint64_t &x) { return callee_ref<uint64_t>(tag, x); }
const RObj &c_ref_robj(uint64_t tag, const RObj &x) { return callee_ref<RObj>(tag, x); }
const Obj &c_ref_obj(uint64_t tag, const Obj &x) { return callee_ref<Obj>(tag, x); }
const rust::String &c_ref_string(uint64_t tag, const rust::String &x) { return callee_ref<rust::String>(tag, x); }
const rust::Vec<uint8_t> &c_ref_vec_u8(uint64_t tag, const rust::Vec<uint8_t> &x) { return callee_ref<rust::Vec<uint8_t>>(tag, x); }
const rust::Vec<Txt> &c_ref_vec_txt(uint64_t tag, const rust::Vec<Txt> &x) { return callee_ref<rust::Vec<Txt>>(tag, x); }
const rust::Vec<rust::String> &c_ref_vec_str(uint64_t tag, const rust::Vec<rust::String> &x) { return callee_ref<rust::Vec<rust::String>>(tag, x); }
const std::string &c_ref_cstr(uint64_t tag, const std::string &x) { return callee_ref<std::string>(tag, x); }
const std::vector<uint8_t> &c_ref_cvu8(uint64_t tag, const std::vector<uint8_t> &x) { return callee_ref<std::vector<uint8_t>>(tag, x); }
const std::vector<std::string> &c_ref_cvstr(uint64_t tag, const std::vector<std::string> &x) { return callee_ref<std::vector<std::string>>(tag, x); }
const std::vector<Obj> &c_ref_cvobj(uint64_t tag, const std::vector<Obj> &x) { return callee_ref<std::vector<Obj>>(tag, x); }
const std::shared_ptr<Obj> &c_ref_sp_obj(uint64_t tag, const std::shared_ptr<Obj> &x) { return callee_ref<std::shared_ptr<Obj>>(tag, x); }
const std::unique_ptr<Obj> &c_ref_up_obj(uint64_t tag, const std::unique_ptr<Obj> &x) { return callee_ref<std::unique_ptr<Obj>>(tag, x); }
const rust::Box<RObj> &c_ref_box_robj(uint64_t tag, const rust::Box<RObj> &x) { return callee_ref<rust::Box<RObj>>(tag, x); }
const Tok &c_ref_tok(uint64_t tag, const Tok &x) { return callee_ref<Tok>(tag, x); }
rust::Slice<const uint8_t> c_sl_u8(uint64_t tag, rust::Slice<const uint8_t> x) { return callee_sl<uint8_t>(tag, x); }
rust::Slice<const rust::String> c_sl_string(uint64_t tag, rust::Slice<const rust::String> x) { return callee_sl<rust::String>(tag, x); }
rust::Slice<const Txt> c_sl_txt(uint64_t tag, rust::Slice<const Txt> x) { return callee_sl<Txt>(tag, x); }
rust::Slice<const Pod> c_sl_pod(uint64_t tag, rust::Slice<const Pod> x) { return callee_sl<Pod>(tag, x); }
rust::Slice<const size_t> c_sl_usize(uint64_t tag, rust::Slice<const size_t> x) { return callee_sl<size_t>(tag, x); }
rust::Slice<const double> c_sl_f64(uint64_t tag, rust::Slice<const double> x) { return callee_sl<double>(tag, x); }
rust::Slice<const RObj> c_sl_robj(uint64_t tag, rust::Slice<const RObj> x) { return callee_sl<RObj>(tag, x); }
rust::Slice<const Tok> c_sl_tok(uint64_t tag, rust::Slice<const Tok> x) { return callee_sl<Tok>(tag, x); }
rust::Str c_str(uint64_t tag, rust::Str x) { return callee_str(tag, x); }
}
