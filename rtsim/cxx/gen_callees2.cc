// generated by gen.py
#include "rtsim/cxx/calls.h"
namespace rt {
void c_take_u8(uint64_t tag, uint8_t x) { callee_take<uint8_t>(tag, std::move(x)); }
int8_t c_x_i8(uint64_t tag, int8_t x) { return callee_x<int8_t>(tag, std::move(x)); }
int32_t c_x_i32(uint64_t tag, int32_t x) { return callee_x<int32_t>(tag, std::move(x)); }
void c_take_i64(uint64_t tag, int64_t x) { callee_take<int64_t>(tag, std::move(x)); }
size_t c_x_usize(uint64_t tag, size_t x) { return callee_x<size_t>(tag, std::move(x)); }
void c_take_f32(uint64_t tag, float x) { callee_take<float>(tag, std::move(x)); }
double c_x_f64(uint64_t tag, double x) { return callee_x<double>(tag, std::move(x)); }
void c_ttake_bool(uint64_t tag, bool x) { callee_take<bool>(tag, std::move(x)); }
Pod c_x_pod(uint64_t tag, Pod x) { return callee_x<Pod>(tag, std::move(x)); }
Pod c_ret_pod(uint64_t tag) { return callee_ret<Pod>(tag); }
void c_take_color(uint64_t tag, Color x) { callee_take<Color>(tag, std::move(x)); }
Txt c_x_txt(uint64_t tag, Txt x) { return callee_x<Txt>(tag, std::move(x)); }
Txt c_ret_txt(uint64_t tag) { return callee_ret<Txt>(tag); }
void c_take_rec(uint64_t tag, Rec x) { callee_take<Rec>(tag, std::move(x)); }
Tok c_x_tok(uint64_t tag, Tok x) { return callee_x<Tok>(tag, std::move(x)); }
Tok c_ret_tok(uint64_t tag) { return callee_ret<Tok>(tag); }
void c_take_box_robj(uint64_t tag, rust::Box<RObj> x) { callee_take<rust::Box<RObj>>(tag, std::move(x)); }
rust::Box<Txt> c_x_box_txt(uint64_t tag, rust::Box<Txt> x) { return callee_x<rust::Box<Txt>>(tag, std::move(x)); }
rust::Box<Txt> c_ret_box_txt(uint64_t tag) { return callee_ret<rust::Box<Txt>>(tag); }
void c_take_up_obj(uint64_t tag, std::unique_ptr<Obj> x) { callee_take<std::unique_ptr<Obj>>(tag, std::move(x)); }
std::unique_ptr<std::string> c_x_up_str(uint64_t tag, std::unique_ptr<std::string> x) { return callee_x<std::unique_ptr<std::string>>(tag, std::move(x)); }
std::unique_ptr<std::string> c_ret_up_str(uint64_t tag) { return callee_ret<std::unique_ptr<std::string>>(tag); }
void c_take_up_pod(uint64_t tag, std::unique_ptr<Pod> x) { callee_take<std::unique_ptr<Pod>>(tag, std::move(x)); }
std::unique_ptr<Txt> c_x_up_txt(uint64_t tag, std::unique_ptr<Txt> x) { return callee_x<std::unique_ptr<Txt>>(tag, std::move(x)); }
std::unique_ptr<Txt> c_ret_up_txt(uint64_t tag) { return callee_ret<std::unique_ptr<Txt>>(tag); }
void c_take_up_vu8(uint64_t tag, std::unique_ptr<std::vector<uint8_t>> x) { callee_take<std::unique_ptr<std::vector<uint8_t>>>(tag, std::move(x)); }
std::unique_ptr<std::vector<double>> c_x_up_vf64(uint64_t tag, std::unique_ptr<std::vector<double>> x) { return callee_x<std::unique_ptr<std::vector<double>>>(tag, std::move(x)); }
std::unique_ptr<std::vector<double>> c_ret_up_vf64(uint64_t tag) { return callee_ret<std::unique_ptr<std::vector<double>>>(tag); }
void c_take_up_vstr(uint64_t tag, std::unique_ptr<std::vector<std::string>> x) { callee_take<std::unique_ptr<std::vector<std::string>>>(tag, std::move(x)); }
std::unique_ptr<std::vector<Obj>> c_x_up_vobj(uint64_t tag, std::unique_ptr<std::vector<Obj>> x) { return callee_x<std::unique_ptr<std::vector<Obj>>>(tag, std::move(x)); }
std::unique_ptr<std::vector<Obj>> c_ret_up_vobj(uint64_t tag) { return callee_ret<std::unique_ptr<std::vector<Obj>>>(tag); }
void c_take_up_vtxt(uint64_t tag, std::unique_ptr<std::vector<Txt>> x) { callee_take<std::unique_ptr<std::vector<Txt>>>(tag, std::move(x)); }
std::shared_ptr<Obj> c_x_sp_obj(uint64_t tag, std::shared_ptr<Obj> x) { return callee_x<std::shared_ptr<Obj>>(tag, std::move(x)); }
std::shared_ptr<Obj> c_ret_sp_obj(uint64_t tag) { return callee_ret<std::shared_ptr<Obj>>(tag); }
void c_take_sp_pod(uint64_t tag, std::shared_ptr<Pod> x) { callee_take<std::shared_ptr<Pod>>(tag, std::move(x)); }
std::shared_ptr<std::string> c_x_sp_str(uint64_t tag, std::shared_ptr<std::string> x) { return callee_x<std::shared_ptr<std::string>>(tag, std::move(x)); }
std::shared_ptr<std::string> c_ret_sp_str(uint64_t tag) { return callee_ret<std::shared_ptr<std::string>>(tag); }
void c_take_sp_u64(uint64_t tag, std::shared_ptr<uint64_t> x) { callee_take<std::shared_ptr<uint64_t>>(tag, std::move(x)); }
std::weak_ptr<Obj> c_x_wp_obj(uint64_t tag, std::weak_ptr<Obj> x) { return callee_x<std::weak_ptr<Obj>>(tag, std::move(x)); }
std::weak_ptr<Obj> c_ret_wp_obj(uint64_t tag) { return callee_ret<std::weak_ptr<Obj>>(tag); }
void c_take_string(uint64_t tag, rust::String x) { callee_take<rust::String>(tag, std::move(x)); }
rust::Vec<uint8_t> c_x_vec_u8(uint64_t tag, rust::Vec<uint8_t> x) { return callee_x<rust::Vec<uint8_t>>(tag, std::move(x)); }
rust::Vec<uint8_t> c_ret_vec_u8(uint64_t tag) { return callee_ret<rust::Vec<uint8_t>>(tag); }
void c_take_vec_str(uint64_t tag, rust::Vec<rust::String> x) { callee_take<rust::Vec<rust::String>>(tag, std::move(x)); }
rust::Vec<Txt> c_x_vec_txt(uint64_t tag, rust::Vec<Txt> x) { return callee_x<rust::Vec<Txt>>(tag, std::move(x)); }
rust::Vec<Txt> c_ret_vec_txt(uint64_t tag) { return callee_ret<rust::Vec<Txt>>(tag); }
void c_take_vec_pod(uint64_t tag, rust::Vec<Pod> x) { callee_take<rust::Vec<Pod>>(tag, std::move(x)); }
rust::Vec<bool> c_x_vec_bool(uint64_t tag, rust::Vec<bool> x) { return callee_x<rust::Vec<bool>>(tag, std::move(x)); }
rust::Vec<bool> c_ret_vec_bool(uint64_t tag) { return callee_ret<rust::Vec<bool>>(tag); }
void c_take_vec_f64(uint64_t tag, rust::Vec<double> x) { callee_take<rust::Vec<double>>(tag, std::move(x)); }
rust::Vec<size_t> c_x_vec_usize(uint64_t tag, rust::Vec<size_t> x) { return callee_x<rust::Vec<size_t>>(tag, std::move(x)); }
rust::Vec<size_t> c_ret_vec_usize(uint64_t tag) { return callee_ret<rust::Vec<size_t>>(tag); }
void c_take_vec_tok(uint64_t tag, rust::Vec<Tok> x) { callee_take<rust::Vec<Tok>>(tag, std::move(x)); }
rust::Vec<RObj> c_x_vec_robj(uint64_t tag, rust::Vec<RObj> x) { return callee_x<rust::Vec<RObj>>(tag, std::move(x)); }
rust::Vec<RObj> c_ret_vec_robj(uint64_t tag) { return callee_ret<rust::Vec<RObj>>(tag); }
void c_cbr_u32(uint64_t tag, const uint32_t &x, rust::Fn<void(uint64_t, const uint32_t &)> f) { callee_cbr<uint32_t>(tag, x, f); }
Rec c_cb_rec(uint64_t tag, Rec x, rust::Fn<Rec(uint64_t, Rec)> f) { return callee_cb<Rec>(tag, std::move(x), f); }
Tok c_tcb_tok(uint64_t tag, Tok x, rust::Fn<Tok(uint64_t, Tok)> f) { return callee_cb<Tok>(tag, std::move(x), f); }
void c_cbr_box_robj(uint64_t tag, const rust::Box<RObj> &x, rust::Fn<void(uint64_t, const rust::Box<RObj> &)> f) { callee_cbr<rust::Box<RObj>>(tag, x, f); }
std::shared_ptr<Obj> c_cb_sp_obj(uint64_t tag, std::shared_ptr<Obj> x, rust::Fn<std::shared_ptr<Obj>(uint64_t, std::shared_ptr<Obj>)> f) { return callee_cb<std::shared_ptr<Obj>>(tag, std::move(x), f); }
rust::String c_tcb_string(uint64_t tag, rust::String x, rust::Fn<rust::String(uint64_t, rust::String)> f) { return callee_cb<rust::String>(tag, std::move(x), f); }
void c_cbr_vec_str(uint64_t tag, const rust::Vec<rust::String> &x, rust::Fn<void(uint64_t, const rust::Vec<rust::String> &)> f) { callee_cbr<rust::Vec<rust::String>>(tag, x, f); }
Color c_cb_color(uint64_t tag, Color x, rust::Fn<Color(uint64_t, Color)> f) { return callee_cb<Color>(tag, std::move(x), f); }
uint32_t Obj::m_t_u32(uint64_t tag, uint32_t x) const { self_check(tag); return callee_x<uint32_t>(tag, std::move(x)); }
Txt Pod::sm_t_txt(uint64_t tag, Txt x) { check_at(*this, opx(tag) + 5, tag, "this"); return callee_x<Txt>(tag, std::move(x)); }
Tok Obj::m_x_tok(uint64_t tag, Tok x) { self_check(tag); return callee_x<Tok>(tag, std::move(x)); }
rust::Box<RObj> Obj::m_t_box_robj(uint64_t tag, rust::Box<RObj> x) const { self_check(tag); return callee_x<rust::Box<RObj>>(tag, std::move(x)); }
std::unique_ptr<Obj> Pod::sm_t_up_obj(uint64_t tag, std::unique_ptr<Obj> x) { check_at(*this, opx(tag) + 5, tag, "this"); return callee_x<std::unique_ptr<Obj>>(tag, std::move(x)); }
rust::String Obj::m_x_string(uint64_t tag, rust::String x) { self_check(tag); return callee_x<rust::String>(tag, std::move(x)); }
rust::Vec<Txt> Obj::m_t_vec_txt(uint64_t tag, rust::Vec<Txt> x) const { self_check(tag); return callee_x<rust::Vec<Txt>>(tag, std::move(x)); }
Txt &c_mut_txt(uint64_t tag, Txt &x) { return callee_mut<Txt>(tag, x); }
Rec &c_mut_rec(uint64_t tag, Rec &x) { return callee_mut<Rec>(tag, x); }
Pod &c_mut_pod(uint64_t tag, Pod &x) { return callee_mut<Pod>(tag, x); }
uint64_t &c_mut_u64(uint64_t tag, uint64_t &x) { return callee_mut<uint64_t>(tag, x); }
RObj &c_mut_robj(uint64_t tag, RObj &x) { return callee_mut<RObj>(tag, x); }
Obj &c_mut_obj(uint64_t tag, Obj &x) { return callee_mut<Obj>(tag, x); }
rust::String &c_mut_string(uint64_t tag, rust::String &x) { return callee_mut<rust::String>(tag, x); }
rust::Vec<uint8_t> &c_mut_vec_u8(uint64_t tag, rust::Vec<uint8_t> &x) { return callee_mut<rust::Vec<uint8_t>>(tag, x); }
rust::Vec<Txt> &c_mut_vec_txt(uint64_t tag, rust::Vec<Txt> &x) { return callee_mut<rust::Vec<Txt>>(tag, x); }
rust::Vec<rust::String> &c_mut_vec_str(uint64_t tag, rust::Vec<rust::String> &x) { return callee_mut<rust::Vec<rust::String>>(tag, x); }
std::string &c_mut_cstr(uint64_t tag, std::string &x) { return callee_mut<std::string>(tag, x); }
std::vector<uint8_t> &c_mut_cvu8(uint64_t tag, std::vector<uint8_t> &x) { return callee_mut<std::vector<uint8_t>>(tag, x); }
std::vector<std::string> &c_mut_cvstr(uint64_t tag, std::vector<std::string> &x) { return callee_mut<std::vector<std::string>>(tag, x); }
std::vector<Obj> &c_mut_cvobj(uint64_t tag, std::vector<Obj> &x) { return callee_mut<std::vector<Obj>>(tag, x); }
std::shared_ptr<Obj> &c_mut_sp_obj(uint64_t tag, std::shared_ptr<Obj> &x) { return callee_mut<std::shared_ptr<Obj>>(tag, x); }
std::unique_ptr<Obj> &c_mut_up_obj(uint64_t tag, std::unique_ptr<Obj> &x) { return callee_mut<std::unique_ptr<Obj>>(tag, x); }
rust::Box<RObj> &c_mut_box_robj(uint64_t tag, rust::Box<RObj> &x) { return callee_mut<rust::Box<RObj>>(tag, x); }
Tok &c_mut_tok(uint64_t tag, Tok &x) { return callee_mut<Tok>(tag, x); }
rust::Slice<uint8_t> c_msl_u8(uint64_t tag, rust::Slice<uint8_t> x) { return callee_msl<uint8_t>(tag, x); }
rust::Slice<rust::String> c_msl_string(uint64_t tag, rust::Slice<rust::String> x) { return callee_msl<rust::String>(tag, x); }
rust::Slice<Txt> c_msl_txt(uint64_t tag, rust::Slice<Txt> x) { return callee_msl<Txt>(tag, x); }
rust::Slice<Pod> c_msl_pod(uint64_t tag, rust::Slice<Pod> x) { return callee_msl<Pod>(tag, x); }
rust::Slice<size_t> c_msl_usize(uint64_t tag, rust::Slice<size_t> x) { return callee_msl<size_t>(tag, x); }
rust::Slice<double> c_msl_f64(uint64_t tag, rust::Slice<double> x) { return callee_msl<double>(tag, x); }
rust::Slice<RObj> c_msl_robj(uint64_t tag, rust::Slice<RObj> x) { return callee_msl<RObj>(tag, x); }
rust::Slice<Tok> c_msl_tok(uint64_t tag, rust::Slice<Tok> x) { return callee_msl<Tok>(tag, x); }
Rec c_multi(uint64_t tag, int8_t a0, rust::String a1, rust::Box<RObj> a2, std::unique_ptr<Obj> a3, Txt a4, double a5, rust::Vec<rust::String> a6, std::shared_ptr<Obj> a7, Tok a8, Color a9, bool a10, Rec a11, float a12, rust::Vec<Tok> a13, uint16_t a14, rust::Str s, const RObj &r, const Txt &t, rust::Slice<const rust::String> sl) { Frame fr(tag); check_at(a0, opid(tag) + 0, tag, "a0"); check_at(a1, opid(tag) + 1, tag, "a1"); check_at(a2, opid(tag) + 2, tag, "a2"); check_at(a3, opid(tag) + 3, tag, "a3"); check_at(a4, opid(tag) + 4, tag, "a4"); check_at(a5, opid(tag) + 5, tag, "a5"); check_at(a6, opid(tag) + 6, tag, "a6"); check_at(a7, opid(tag) + 7, tag, "a7"); check_at(a8, opid(tag) + 8, tag, "a8"); check_at(a9, opid(tag) + 9, tag, "a9"); check_at(a10, opid(tag) + 10, tag, "a10"); check_at(a11, opid(tag) + 11, tag, "a11"); check_at(a12, opid(tag) + 12, tag, "a12"); check_at(a13, opid(tag) + 13, tag, "a13"); check_at(a14, opid(tag) + 14, tag, "a14"); check_str(s, opid(tag) + 50, tag); check_at(r, opid(tag) + 51, tag, "r"); check_at(t, opid(tag) + 52, tag, "t"); check_slice<rust::String>(sl, opid(tag) + 53, tag); body(tag, false); return make_ret<Rec>(tag); }
}
