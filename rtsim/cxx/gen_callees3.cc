// generated by gen.py
#include "rtsim/cxx/calls.h"
namespace rt {
void c_ttake_u8(uint64_t tag, uint8_t x) { callee_take<uint8_t>(tag, std::move(x)); }
uint16_t c_x_u16(uint64_t tag, uint16_t x) { return callee_x<uint16_t>(tag, std::move(x)); }
uint64_t c_x_u64(uint64_t tag, uint64_t x) { return callee_x<uint64_t>(tag, std::move(x)); }
void c_ttake_i64(uint64_t tag, int64_t x) { callee_take<int64_t>(tag, std::move(x)); }
rust::isize c_x_isize(uint64_t tag, rust::isize x) { return callee_x<rust::isize>(tag, std::move(x)); }
void c_ttake_f32(uint64_t tag, float x) { callee_take<float>(tag, std::move(x)); }
bool c_x_bool(uint64_t tag, bool x) { return callee_x<bool>(tag, std::move(x)); }
bool c_ret_bool(uint64_t tag) { return callee_ret<bool>(tag); }
Pod c_t_pod(uint64_t tag, Pod x) { return callee_x<Pod>(tag, std::move(x)); }
Pod c_tret_pod(uint64_t tag) { return callee_ret<Pod>(tag); }
void c_ttake_color(uint64_t tag, Color x) { callee_take<Color>(tag, std::move(x)); }
Txt c_t_txt(uint64_t tag, Txt x) { return callee_x<Txt>(tag, std::move(x)); }
Txt c_tret_txt(uint64_t tag) { return callee_ret<Txt>(tag); }
void c_ttake_rec(uint64_t tag, Rec x) { callee_take<Rec>(tag, std::move(x)); }
Tok c_t_tok(uint64_t tag, Tok x) { return callee_x<Tok>(tag, std::move(x)); }
Tok c_tret_tok(uint64_t tag) { return callee_ret<Tok>(tag); }
void c_ttake_box_robj(uint64_t tag, rust::Box<RObj> x) { callee_take<rust::Box<RObj>>(tag, std::move(x)); }
rust::Box<Txt> c_t_box_txt(uint64_t tag, rust::Box<Txt> x) { return callee_x<rust::Box<Txt>>(tag, std::move(x)); }
rust::Box<Txt> c_tret_box_txt(uint64_t tag) { return callee_ret<rust::Box<Txt>>(tag); }
void c_ttake_up_obj(uint64_t tag, std::unique_ptr<Obj> x) { callee_take<std::unique_ptr<Obj>>(tag, std::move(x)); }
std::unique_ptr<std::string> c_t_up_str(uint64_t tag, std::unique_ptr<std::string> x) { return callee_x<std::unique_ptr<std::string>>(tag, std::move(x)); }
std::unique_ptr<std::string> c_tret_up_str(uint64_t tag) { return callee_ret<std::unique_ptr<std::string>>(tag); }
void c_ttake_up_pod(uint64_t tag, std::unique_ptr<Pod> x) { callee_take<std::unique_ptr<Pod>>(tag, std::move(x)); }
std::unique_ptr<Txt> c_t_up_txt(uint64_t tag, std::unique_ptr<Txt> x) { return callee_x<std::unique_ptr<Txt>>(tag, std::move(x)); }
std::unique_ptr<Txt> c_tret_up_txt(uint64_t tag) { return callee_ret<std::unique_ptr<Txt>>(tag); }
void c_ttake_up_vu8(uint64_t tag, std::unique_ptr<std::vector<uint8_t>> x) { callee_take<std::unique_ptr<std::vector<uint8_t>>>(tag, std::move(x)); }
std::unique_ptr<std::vector<double>> c_t_up_vf64(uint64_t tag, std::unique_ptr<std::vector<double>> x) { return callee_x<std::unique_ptr<std::vector<double>>>(tag, std::move(x)); }
std::unique_ptr<std::vector<double>> c_tret_up_vf64(uint64_t tag) { return callee_ret<std::unique_ptr<std::vector<double>>>(tag); }
void c_ttake_up_vstr(uint64_t tag, std::unique_ptr<std::vector<std::string>> x) { callee_take<std::unique_ptr<std::vector<std::string>>>(tag, std::move(x)); }
std::unique_ptr<std::vector<Obj>> c_t_up_vobj(uint64_t tag, std::unique_ptr<std::vector<Obj>> x) { return callee_x<std::unique_ptr<std::vector<Obj>>>(tag, std::move(x)); }
std::unique_ptr<std::vector<Obj>> c_tret_up_vobj(uint64_t tag) { return callee_ret<std::unique_ptr<std::vector<Obj>>>(tag); }
void c_ttake_up_vtxt(uint64_t tag, std::unique_ptr<std::vector<Txt>> x) { callee_take<std::unique_ptr<std::vector<Txt>>>(tag, std::move(x)); }
std::shared_ptr<Obj> c_t_sp_obj(uint64_t tag, std::shared_ptr<Obj> x) { return callee_x<std::shared_ptr<Obj>>(tag, std::move(x)); }
std::shared_ptr<Obj> c_tret_sp_obj(uint64_t tag) { return callee_ret<std::shared_ptr<Obj>>(tag); }
void c_ttake_sp_pod(uint64_t tag, std::shared_ptr<Pod> x) { callee_take<std::shared_ptr<Pod>>(tag, std::move(x)); }
std::shared_ptr<std::string> c_t_sp_str(uint64_t tag, std::shared_ptr<std::string> x) { return callee_x<std::shared_ptr<std::string>>(tag, std::move(x)); }
std::shared_ptr<std::string> c_tret_sp_str(uint64_t tag) { return callee_ret<std::shared_ptr<std::string>>(tag); }
void c_ttake_sp_u64(uint64_t tag, std::shared_ptr<uint64_t> x) { callee_take<std::shared_ptr<uint64_t>>(tag, std::move(x)); }
std::weak_ptr<Obj> c_t_wp_obj(uint64_t tag, std::weak_ptr<Obj> x) { return callee_x<std::weak_ptr<Obj>>(tag, std::move(x)); }
std::weak_ptr<Obj> c_tret_wp_obj(uint64_t tag) { return callee_ret<std::weak_ptr<Obj>>(tag); }
void c_ttake_string(uint64_t tag, rust::String x) { callee_take<rust::String>(tag, std::move(x)); }
rust::Vec<uint8_t> c_t_vec_u8(uint64_t tag, rust::Vec<uint8_t> x) { return callee_x<rust::Vec<uint8_t>>(tag, std::move(x)); }
rust::Vec<uint8_t> c_tret_vec_u8(uint64_t tag) { return callee_ret<rust::Vec<uint8_t>>(tag); }
void c_ttake_vec_str(uint64_t tag, rust::Vec<rust::String> x) { callee_take<rust::Vec<rust::String>>(tag, std::move(x)); }
rust::Vec<Txt> c_t_vec_txt(uint64_t tag, rust::Vec<Txt> x) { return callee_x<rust::Vec<Txt>>(tag, std::move(x)); }
rust::Vec<Txt> c_tret_vec_txt(uint64_t tag) { return callee_ret<rust::Vec<Txt>>(tag); }
void c_ttake_vec_pod(uint64_t tag, rust::Vec<Pod> x) { callee_take<rust::Vec<Pod>>(tag, std::move(x)); }
rust::Vec<bool> c_t_vec_bool(uint64_t tag, rust::Vec<bool> x) { return callee_x<rust::Vec<bool>>(tag, std::move(x)); }
rust::Vec<bool> c_tret_vec_bool(uint64_t tag) { return callee_ret<rust::Vec<bool>>(tag); }
void c_ttake_vec_f64(uint64_t tag, rust::Vec<double> x) { callee_take<rust::Vec<double>>(tag, std::move(x)); }
rust::Vec<size_t> c_t_vec_usize(uint64_t tag, rust::Vec<size_t> x) { return callee_x<rust::Vec<size_t>>(tag, std::move(x)); }
rust::Vec<size_t> c_tret_vec_usize(uint64_t tag) { return callee_ret<rust::Vec<size_t>>(tag); }
void c_ttake_vec_tok(uint64_t tag, rust::Vec<Tok> x) { callee_take<rust::Vec<Tok>>(tag, std::move(x)); }
rust::Vec<RObj> c_t_vec_robj(uint64_t tag, rust::Vec<RObj> x) { return callee_x<rust::Vec<RObj>>(tag, std::move(x)); }
rust::Vec<RObj> c_tret_vec_robj(uint64_t tag) { return callee_ret<rust::Vec<RObj>>(tag); }
Txt c_cb_txt(uint64_t tag, Txt x, rust::Fn<Txt(uint64_t, Txt)> f) { return callee_cb<Txt>(tag, std::move(x), f); }
Rec c_tcb_rec(uint64_t tag, Rec x, rust::Fn<Rec(uint64_t, Rec)> f) { return callee_cb<Rec>(tag, std::move(x), f); }
void c_cbr_tok(uint64_t tag, const Tok &x, rust::Fn<void(uint64_t, const Tok &)> f) { callee_cbr<Tok>(tag, x, f); }
std::unique_ptr<Obj> c_cb_up_obj(uint64_t tag, std::unique_ptr<Obj> x, rust::Fn<std::unique_ptr<Obj>(uint64_t, std::unique_ptr<Obj>)> f) { return callee_cb<std::unique_ptr<Obj>>(tag, std::move(x), f); }
std::shared_ptr<Obj> c_tcb_sp_obj(uint64_t tag, std::shared_ptr<Obj> x, rust::Fn<std::shared_ptr<Obj>(uint64_t, std::shared_ptr<Obj>)> f) { return callee_cb<std::shared_ptr<Obj>>(tag, std::move(x), f); }
void c_cbr_string(uint64_t tag, const rust::String &x, rust::Fn<void(uint64_t, const rust::String &)> f) { callee_cbr<rust::String>(tag, x, f); }
rust::Vec<Tok> c_cb_vec_tok(uint64_t tag, rust::Vec<Tok> x, rust::Fn<rust::Vec<Tok>(uint64_t, rust::Vec<Tok>)> f) { return callee_cb<rust::Vec<Tok>>(tag, std::move(x), f); }
Color c_tcb_color(uint64_t tag, Color x, rust::Fn<Color(uint64_t, Color)> f) { return callee_cb<Color>(tag, std::move(x), f); }
uint32_t Pod::sm_t_u32(uint64_t tag, uint32_t x) { check_at(*this, opx(tag) + 5, tag, "this"); return callee_x<uint32_t>(tag, std::move(x)); }
Rec Obj::m_x_rec(uint64_t tag, Rec x) { self_check(tag); return callee_x<Rec>(tag, std::move(x)); }
Tok Obj::m_t_tok(uint64_t tag, Tok x) const { self_check(tag); return callee_x<Tok>(tag, std::move(x)); }
rust::Box<RObj> Pod::sm_t_box_robj(uint64_t tag, rust::Box<RObj> x) { check_at(*this, opx(tag) + 5, tag, "this"); return callee_x<rust::Box<RObj>>(tag, std::move(x)); }
std::shared_ptr<Obj> Obj::m_x_sp_obj(uint64_t tag, std::shared_ptr<Obj> x) { self_check(tag); return callee_x<std::shared_ptr<Obj>>(tag, std::move(x)); }
rust::String Obj::m_t_string(uint64_t tag, rust::String x) const { self_check(tag); return callee_x<rust::String>(tag, std::move(x)); }
rust::Vec<Txt> Pod::sm_t_vec_txt(uint64_t tag, rust::Vec<Txt> x) { check_at(*this, opx(tag) + 5, tag, "this"); return callee_x<rust::Vec<Txt>>(tag, std::move(x)); }
Txt &c_tmut_txt(uint64_t tag, Txt &x) { return callee_mut<Txt>(tag, x); }
Rec &c_tmut_rec(uint64_t tag, Rec &x) { return callee_mut<Rec>(tag, x); }
Pod &c_tmut_pod(uint64_t tag, Pod &x) { return callee_mut<Pod>(tag, x); }
uint64_t &c_tmut_u64(uint64_t tag, uint64_t &x) { return callee_mut<uint64_t>(tag, x); }
RObj &c_tmut_robj(uint64_t tag, RObj &x) { return callee_mut<RObj>(tag, x); }
Obj &c_tmut_obj(uint64_t tag, Obj &x) { return callee_mut<Obj>(tag, x); }
rust::String &c_tmut_string(uint64_t tag, rust::String &x) { return callee_mut<rust::String>(tag, x); }
rust::Vec<uint8_t> &c_tmut_vec_u8(uint64_t tag, rust::Vec<uint8_t> &x) { return callee_mut<rust::Vec<uint8_t>>(tag, x); }
rust::Vec<Txt> &c_tmut_vec_txt(uint64_t tag, rust::Vec<Txt> &x) { return callee_mut<rust::Vec<Txt>>(tag, x); }
rust::Vec<rust::String> &c_tmut_vec_str(uint64_t tag, rust::Vec<rust::String> &x) { return callee_mut<rust::Vec<rust::String>>(tag, x); }
std::string &c_tmut_cstr(uint64_t tag, std::string &x) { return callee_mut<std::string>(tag, x); }
std::vector<uint8_t> &c_tmut_cvu8(uint64_t tag, std::vector<uint8_t> &x) { return callee_mut<std::vector<uint8_t>>(tag, x); }
std::vector<std::string> &c_tmut_cvstr(uint64_t tag, std::vector<std::string> &x) { return callee_mut<std::vector<std::string>>(tag, x); }
std::vector<Obj> &c_tmut_cvobj(uint64_t tag, std::vector<Obj> &x) { return callee_mut<std::vector<Obj>>(tag, x); }
std::shared_ptr<Obj> &c_tmut_sp_obj(uint64_t tag, std::shared_ptr<Obj> &x) { return callee_mut<std::shared_ptr<Obj>>(tag, x); }
std::unique_ptr<Obj> &c_tmut_up_obj(uint64_t tag, std::unique_ptr<Obj> &x) { return callee_mut<std::unique_ptr<Obj>>(tag, x); }
rust::Box<RObj> &c_tmut_box_robj(uint64_t tag, rust::Box<RObj> &x) { return callee_mut<rust::Box<RObj>>(tag, x); }
Tok &c_tmut_tok(uint64_t tag, Tok &x) { return callee_mut<Tok>(tag, x); }
rust::Slice<uint8_t> c_tmsl_u8(uint64_t tag, rust::Slice<uint8_t> x) { return callee_msl<uint8_t>(tag, x); }
rust::Slice<rust::String> c_tmsl_string(uint64_t tag, rust::Slice<rust::String> x) { return callee_msl<rust::String>(tag, x); }
rust::Slice<Txt> c_tmsl_txt(uint64_t tag, rust::Slice<Txt> x) { return callee_msl<Txt>(tag, x); }
rust::Slice<Pod> c_tmsl_pod(uint64_t tag, rust::Slice<Pod> x) { return callee_msl<Pod>(tag, x); }
rust::Slice<size_t> c_tmsl_usize(uint64_t tag, rust::Slice<size_t> x) { return callee_msl<size_t>(tag, x); }
rust::Slice<double> c_tmsl_f64(uint64_t tag, rust::Slice<double> x) { return callee_msl<double>(tag, x); }
rust::Slice<RObj> c_tmsl_robj(uint64_t tag, rust::Slice<RObj> x) { return callee_msl<RObj>(tag, x); }
rust::Slice<Tok> c_tmsl_tok(uint64_t tag, rust::Slice<Tok> x) { return callee_msl<Tok>(tag, x); }
Rec c_tmulti(uint64_t tag, int8_t a0, rust::String a1, rust::Box<RObj> a2, std::unique_ptr<Obj> a3, Txt a4, double a5, rust::Vec<rust::String> a6, std::shared_ptr<Obj> a7, Tok a8, Color a9, bool a10, Rec a11, float a12, rust::Vec<Tok> a13, uint16_t a14, rust::Str s, const RObj &r, const Txt &t, rust::Slice<const rust::String> sl) { Frame fr(tag); check_at(a0, opid(tag) + 0, tag, "a0"); check_at(a1, opid(tag) + 1, tag, "a1"); check_at(a2, opid(tag) + 2, tag, "a2"); check_at(a3, opid(tag) + 3, tag, "a3"); check_at(a4, opid(tag) + 4, tag, "a4"); check_at(a5, opid(tag) + 5, tag, "a5"); check_at(a6, opid(tag) + 6, tag, "a6"); check_at(a7, opid(tag) + 7, tag, "a7"); check_at(a8, opid(tag) + 8, tag, "a8"); check_at(a9, opid(tag) + 9, tag, "a9"); check_at(a10, opid(tag) + 10, tag, "a10"); check_at(a11, opid(tag) + 11, tag, "a11"); check_at(a12, opid(tag) + 12, tag, "a12"); check_at(a13, opid(tag) + 13, tag, "a13"); check_at(a14, opid(tag) + 14, tag, "a14"); check_str(s, opid(tag) + 50, tag); check_at(r, opid(tag) + 51, tag, "r"); check_at(t, opid(tag) + 52, tag, "t"); check_slice<rust::String>(sl, opid(tag) + 53, tag); body(tag, false); return make_ret<Rec>(tag); }
}
