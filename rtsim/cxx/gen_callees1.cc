// generated by gen.py
#include "rtsim/cxx/calls.h"
namespace rt {
uint8_t c_t_u8(uint64_t tag, uint8_t x) { return callee_x<uint8_t>(tag, std::move(x)); }
uint8_t c_tret_u8(uint64_t tag) { return callee_ret<uint8_t>(tag); }
uint32_t c_x_u32(uint64_t tag, uint32_t x) { return callee_x<uint32_t>(tag, std::move(x)); }
int64_t c_t_i64(uint64_t tag, int64_t x) { return callee_x<int64_t>(tag, std::move(x)); }
int64_t c_tret_i64(uint64_t tag) { return callee_ret<int64_t>(tag); }
float c_t_f32(uint64_t tag, float x) { return callee_x<float>(tag, std::move(x)); }
float c_tret_f32(uint64_t tag) { return callee_ret<float>(tag); }
void c_take_bool(uint64_t tag, bool x) { callee_take<bool>(tag, std::move(x)); }
char c_x_chr(uint64_t tag, char x) { return callee_x<char>(tag, std::move(x)); }
void c_ttake_pod(uint64_t tag, Pod x) { callee_take<Pod>(tag, std::move(x)); }
Color c_t_color(uint64_t tag, Color x) { return callee_x<Color>(tag, std::move(x)); }
Color c_tret_color(uint64_t tag) { return callee_ret<Color>(tag); }
void c_ttake_txt(uint64_t tag, Txt x) { callee_take<Txt>(tag, std::move(x)); }
Rec c_t_rec(uint64_t tag, Rec x) { return callee_x<Rec>(tag, std::move(x)); }
Rec c_tret_rec(uint64_t tag) { return callee_ret<Rec>(tag); }
void c_ttake_tok(uint64_t tag, Tok x) { callee_take<Tok>(tag, std::move(x)); }
rust::Box<RObj> c_t_box_robj(uint64_t tag, rust::Box<RObj> x) { return callee_x<rust::Box<RObj>>(tag, std::move(x)); }
rust::Box<RObj> c_tret_box_robj(uint64_t tag) { return callee_ret<rust::Box<RObj>>(tag); }
void c_ttake_box_txt(uint64_t tag, rust::Box<Txt> x) { callee_take<rust::Box<Txt>>(tag, std::move(x)); }
std::unique_ptr<Obj> c_t_up_obj(uint64_t tag, std::unique_ptr<Obj> x) { return callee_x<std::unique_ptr<Obj>>(tag, std::move(x)); }
std::unique_ptr<Obj> c_tret_up_obj(uint64_t tag) { return callee_ret<std::unique_ptr<Obj>>(tag); }
void c_ttake_up_str(uint64_t tag, std::unique_ptr<std::string> x) { callee_take<std::unique_ptr<std::string>>(tag, std::move(x)); }
std::unique_ptr<Pod> c_t_up_pod(uint64_t tag, std::unique_ptr<Pod> x) { return callee_x<std::unique_ptr<Pod>>(tag, std::move(x)); }
std::unique_ptr<Pod> c_tret_up_pod(uint64_t tag) { return callee_ret<std::unique_ptr<Pod>>(tag); }
void c_ttake_up_txt(uint64_t tag, std::unique_ptr<Txt> x) { callee_take<std::unique_ptr<Txt>>(tag, std::move(x)); }
std::unique_ptr<std::vector<uint8_t>> c_t_up_vu8(uint64_t tag, std::unique_ptr<std::vector<uint8_t>> x) { return callee_x<std::unique_ptr<std::vector<uint8_t>>>(tag, std::move(x)); }
std::unique_ptr<std::vector<uint8_t>> c_tret_up_vu8(uint64_t tag) { return callee_ret<std::unique_ptr<std::vector<uint8_t>>>(tag); }
void c_ttake_up_vf64(uint64_t tag, std::unique_ptr<std::vector<double>> x) { callee_take<std::unique_ptr<std::vector<double>>>(tag, std::move(x)); }
std::unique_ptr<std::vector<std::string>> c_t_up_vstr(uint64_t tag, std::unique_ptr<std::vector<std::string>> x) { return callee_x<std::unique_ptr<std::vector<std::string>>>(tag, std::move(x)); }
std::unique_ptr<std::vector<std::string>> c_tret_up_vstr(uint64_t tag) { return callee_ret<std::unique_ptr<std::vector<std::string>>>(tag); }
void c_ttake_up_vobj(uint64_t tag, std::unique_ptr<std::vector<Obj>> x) { callee_take<std::unique_ptr<std::vector<Obj>>>(tag, std::move(x)); }
std::unique_ptr<std::vector<Txt>> c_t_up_vtxt(uint64_t tag, std::unique_ptr<std::vector<Txt>> x) { return callee_x<std::unique_ptr<std::vector<Txt>>>(tag, std::move(x)); }
std::unique_ptr<std::vector<Txt>> c_tret_up_vtxt(uint64_t tag) { return callee_ret<std::unique_ptr<std::vector<Txt>>>(tag); }
void c_ttake_sp_obj(uint64_t tag, std::shared_ptr<Obj> x) { callee_take<std::shared_ptr<Obj>>(tag, std::move(x)); }
std::shared_ptr<Pod> c_t_sp_pod(uint64_t tag, std::shared_ptr<Pod> x) { return callee_x<std::shared_ptr<Pod>>(tag, std::move(x)); }
std::shared_ptr<Pod> c_tret_sp_pod(uint64_t tag) { return callee_ret<std::shared_ptr<Pod>>(tag); }
void c_ttake_sp_str(uint64_t tag, std::shared_ptr<std::string> x) { callee_take<std::shared_ptr<std::string>>(tag, std::move(x)); }
std::shared_ptr<uint64_t> c_t_sp_u64(uint64_t tag, std::shared_ptr<uint64_t> x) { return callee_x<std::shared_ptr<uint64_t>>(tag, std::move(x)); }
std::shared_ptr<uint64_t> c_tret_sp_u64(uint64_t tag) { return callee_ret<std::shared_ptr<uint64_t>>(tag); }
void c_ttake_wp_obj(uint64_t tag, std::weak_ptr<Obj> x) { callee_take<std::weak_ptr<Obj>>(tag, std::move(x)); }
rust::String c_t_string(uint64_t tag, rust::String x) { return callee_x<rust::String>(tag, std::move(x)); }
rust::String c_tret_string(uint64_t tag) { return callee_ret<rust::String>(tag); }
void c_ttake_vec_u8(uint64_t tag, rust::Vec<uint8_t> x) { callee_take<rust::Vec<uint8_t>>(tag, std::move(x)); }
rust::Vec<rust::String> c_t_vec_str(uint64_t tag, rust::Vec<rust::String> x) { return callee_x<rust::Vec<rust::String>>(tag, std::move(x)); }
rust::Vec<rust::String> c_tret_vec_str(uint64_t tag) { return callee_ret<rust::Vec<rust::String>>(tag); }
void c_ttake_vec_txt(uint64_t tag, rust::Vec<Txt> x) { callee_take<rust::Vec<Txt>>(tag, std::move(x)); }
rust::Vec<Pod> c_t_vec_pod(uint64_t tag, rust::Vec<Pod> x) { return callee_x<rust::Vec<Pod>>(tag, std::move(x)); }
rust::Vec<Pod> c_tret_vec_pod(uint64_t tag) { return callee_ret<rust::Vec<Pod>>(tag); }
void c_ttake_vec_bool(uint64_t tag, rust::Vec<bool> x) { callee_take<rust::Vec<bool>>(tag, std::move(x)); }
rust::Vec<double> c_t_vec_f64(uint64_t tag, rust::Vec<double> x) { return callee_x<rust::Vec<double>>(tag, std::move(x)); }
rust::Vec<double> c_tret_vec_f64(uint64_t tag) { return callee_ret<rust::Vec<double>>(tag); }
void c_ttake_vec_usize(uint64_t tag, rust::Vec<size_t> x) { callee_take<rust::Vec<size_t>>(tag, std::move(x)); }
rust::Vec<Tok> c_t_vec_tok(uint64_t tag, rust::Vec<Tok> x) { return callee_x<rust::Vec<Tok>>(tag, std::move(x)); }
rust::Vec<Tok> c_tret_vec_tok(uint64_t tag) { return callee_ret<rust::Vec<Tok>>(tag); }
void c_ttake_vec_robj(uint64_t tag, rust::Vec<RObj> x) { callee_take<rust::Vec<RObj>>(tag, std::move(x)); }
uint32_t c_tcb_u32(uint64_t tag, uint32_t x, rust::Fn<uint32_t(uint64_t, uint32_t)> f) { return callee_cb<uint32_t>(tag, std::move(x), f); }
void c_cbr_txt(uint64_t tag, const Txt &x, rust::Fn<void(uint64_t, const Txt &)> f) { callee_cbr<Txt>(tag, x, f); }
Tok c_cb_tok(uint64_t tag, Tok x, rust::Fn<Tok(uint64_t, Tok)> f) { return callee_cb<Tok>(tag, std::move(x), f); }
rust::Box<RObj> c_tcb_box_robj(uint64_t tag, rust::Box<RObj> x, rust::Fn<rust::Box<RObj>(uint64_t, rust::Box<RObj>)> f) { return callee_cb<rust::Box<RObj>>(tag, std::move(x), f); }
void c_cbr_up_obj(uint64_t tag, const std::unique_ptr<Obj> &x, rust::Fn<void(uint64_t, const std::unique_ptr<Obj> &)> f) { callee_cbr<std::unique_ptr<Obj>>(tag, x, f); }
rust::String c_cb_string(uint64_t tag, rust::String x, rust::Fn<rust::String(uint64_t, rust::String)> f) { return callee_cb<rust::String>(tag, std::move(x), f); }
rust::Vec<rust::String> c_tcb_vec_str(uint64_t tag, rust::Vec<rust::String> x, rust::Fn<rust::Vec<rust::String>(uint64_t, rust::Vec<rust::String>)> f) { return callee_cb<rust::Vec<rust::String>>(tag, std::move(x), f); }
void c_cbr_vec_tok(uint64_t tag, const rust::Vec<Tok> &x, rust::Fn<void(uint64_t, const rust::Vec<Tok> &)> f) { callee_cbr<rust::Vec<Tok>>(tag, x, f); }
uint32_t Obj::m_x_u32(uint64_t tag, uint32_t x) { self_check(tag); return callee_x<uint32_t>(tag, std::move(x)); }
Txt Obj::m_t_txt(uint64_t tag, Txt x) const { self_check(tag); return callee_x<Txt>(tag, std::move(x)); }
Rec Pod::sm_t_rec(uint64_t tag, Rec x) { check_at(*this, opx(tag) + 5, tag, "this"); return callee_x<Rec>(tag, std::move(x)); }
rust::Box<RObj> Obj::m_x_box_robj(uint64_t tag, rust::Box<RObj> x) { self_check(tag); return callee_x<rust::Box<RObj>>(tag, std::move(x)); }
std::unique_ptr<Obj> Obj::m_t_up_obj(uint64_t tag, std::unique_ptr<Obj> x) const { self_check(tag); return callee_x<std::unique_ptr<Obj>>(tag, std::move(x)); }
std::shared_ptr<Obj> Pod::sm_t_sp_obj(uint64_t tag, std::shared_ptr<Obj> x) { check_at(*this, opx(tag) + 5, tag, "this"); return callee_x<std::shared_ptr<Obj>>(tag, std::move(x)); }
rust::Vec<Txt> Obj::m_x_vec_txt(uint64_t tag, rust::Vec<Txt> x) { self_check(tag); return callee_x<rust::Vec<Txt>>(tag, std::move(x)); }
const Txt &c_tref_txt(uint64_t tag, const Txt &x) { return callee_ref<Txt>(tag, x); }
const Rec &c_tref_rec(uint64_t tag, const Rec &x) { return callee_ref<Rec>(tag, x); }
const Pod &c_tref_pod(uint64_t tag, const Pod &x) { return callee_ref<Pod>(tag, x); }
const uint64_t &c_tref_u64(uint64_t tag, const uint64_t &x) { return callee_ref<uint64_t>(tag, x); }
const RObj &c_tref_robj(uint64_t tag, const RObj &x) { return callee_ref<RObj>(tag, x); }
const Obj &c_tref_obj(uint64_t tag, const Obj &x) { return callee_ref<Obj>(tag, x); }
const rust::String &c_tref_string(uint64_t tag, const rust::String &x) { return callee_ref<rust::String>(tag, x); }
const rust::Vec<uint8_t> &c_tref_vec_u8(uint64_t tag, const rust::Vec<uint8_t> &x) { return callee_ref<rust::Vec<uint8_t>>(tag, x); }
const rust::Vec<Txt> &c_tref_vec_txt(uint64_t tag, const rust::Vec<Txt> &x) { return callee_ref<rust::Vec<Txt>>(tag, x); }
const rust::Vec<rust::String> &c_tref_vec_str(uint64_t tag, const rust::Vec<rust::String> &x) { return callee_ref<rust::Vec<rust::String>>(tag, x); }
const std::string &c_tref_cstr(uint64_t tag, const std::string &x) { return callee_ref<std::string>(tag, x); }
const std::vector<uint8_t> &c_tref_cvu8(uint64_t tag, const std::vector<uint8_t> &x) { return callee_ref<std::vector<uint8_t>>(tag, x); }
const std::vector<std::string> &c_tref_cvstr(uint64_t tag, const std::vector<std::string> &x) { return callee_ref<std::vector<std::string>>(tag, x); }
const std::vector<Obj> &c_tref_cvobj(uint64_t tag, const std::vector<Obj> &x) { return callee_ref<std::vector<Obj>>(tag, x); }
const std::shared_ptr<Obj> &c_tref_sp_obj(uint64_t tag, const std::shared_ptr<Obj> &x) { return callee_ref<std::shared_ptr<Obj>>(tag, x); }
const std::unique_ptr<Obj> &c_tref_up_obj(uint64_t tag, const std::unique_ptr<Obj> &x) { return callee_ref<std::unique_ptr<Obj>>(tag, x); }
const rust::Box<RObj> &c_tref_box_robj(uint64_t tag, const rust::Box<RObj> &x) { return callee_ref<rust::Box<RObj>>(tag, x); }
const Tok &c_tref_tok(uint64_t tag, const Tok &x) { return callee_ref<Tok>(tag, x); }
rust::Slice<const uint8_t> c_tsl_u8(uint64_t tag, rust::Slice<const uint8_t> x) { return callee_sl<uint8_t>(tag, x); }
rust::Slice<const rust::String> c_tsl_string(uint64_t tag, rust::Slice<const rust::String> x) { return callee_sl<rust::String>(tag, x); }
rust::Slice<const Txt> c_tsl_txt(uint64_t tag, rust::Slice<const Txt> x) { return callee_sl<Txt>(tag, x); }
rust::Slice<const Pod> c_tsl_pod(uint64_t tag, rust::Slice<const Pod> x) { return callee_sl<Pod>(tag, x); }
rust::Slice<const size_t> c_tsl_usize(uint64_t tag, rust::Slice<const size_t> x) { return callee_sl<size_t>(tag, x); }
rust::Slice<const double> c_tsl_f64(uint64_t tag, rust::Slice<const double> x) { return callee_sl<double>(tag, x); }
rust::Slice<const RObj> c_tsl_robj(uint64_t tag, rust::Slice<const RObj> x) { return callee_sl<RObj>(tag, x); }
rust::Slice<const Tok> c_tsl_tok(uint64_t tag, rust::Slice<const Tok> x) { return callee_sl<Tok>(tag, x); }
rust::Str c_tstr(uint64_t tag, rust::Str x) { return callee_str(tag, x); }
}
