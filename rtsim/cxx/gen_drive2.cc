// generated by gen.py
#include "rtsim/cxx/calls.h"
namespace rt {
void drive_part2(uint32_t idx, uint64_t tag) {
  switch (idx) {
  case 2: drive_take<uint8_t>(tag, r_take_u8); break;
  case 6: drive_x<int8_t>(tag, r_x_i8); break;
  case 10: drive_x<int32_t>(tag, r_x_i32); break;
  case 14: drive_take<int64_t>(tag, r_take_i64); break;
  case 18: drive_x<size_t>(tag, r_x_usize); break;
  case 22: drive_take<float>(tag, r_take_f32); break;
  case 26: drive_x<double>(tag, r_x_f64); break;
  case 30: drive_ttake<bool>(tag, r_ttake_bool); break;
  case 34: drive_x<Pod>(tag, r_x_pod); break;
  case 38: drive_ret<Pod>(tag, r_ret_pod); break;
  case 42: drive_take<Color>(tag, r_take_color); break;
  case 46: drive_x<Txt>(tag, r_x_txt); break;
  case 50: drive_ret<Txt>(tag, r_ret_txt); break;
  case 54: drive_take<Rec>(tag, r_take_rec); break;
  case 58: drive_x<Tok>(tag, r_x_tok); break;
  case 62: drive_ret<Tok>(tag, r_ret_tok); break;
  case 66: drive_take<rust::Box<RObj>>(tag, r_take_box_robj); break;
  case 70: drive_x<rust::Box<Txt>>(tag, r_x_box_txt); break;
  case 74: drive_ret<rust::Box<Txt>>(tag, r_ret_box_txt); break;
  case 78: drive_take<std::unique_ptr<Obj>>(tag, r_take_up_obj); break;
  case 82: drive_x<std::unique_ptr<std::string>>(tag, r_x_up_str); break;
  case 86: drive_ret<std::unique_ptr<std::string>>(tag, r_ret_up_str); break;
  case 90: drive_take<std::unique_ptr<Pod>>(tag, r_take_up_pod); break;
  case 94: drive_x<std::unique_ptr<Txt>>(tag, r_x_up_txt); break;
  case 98: drive_ret<std::unique_ptr<Txt>>(tag, r_ret_up_txt); break;
  case 102: drive_take<std::unique_ptr<std::vector<uint8_t>>>(tag, r_take_up_vu8); break;
  case 106: drive_x<std::unique_ptr<std::vector<double>>>(tag, r_x_up_vf64); break;
  case 110: drive_ret<std::unique_ptr<std::vector<double>>>(tag, r_ret_up_vf64); break;
  case 114: drive_take<std::unique_ptr<std::vector<std::string>>>(tag, r_take_up_vstr); break;
  case 118: drive_x<std::unique_ptr<std::vector<Obj>>>(tag, r_x_up_vobj); break;
  case 122: drive_ret<std::unique_ptr<std::vector<Obj>>>(tag, r_ret_up_vobj); break;
  case 126: drive_take<std::unique_ptr<std::vector<Txt>>>(tag, r_take_up_vtxt); break;
  case 130: drive_x<std::shared_ptr<Obj>>(tag, r_x_sp_obj); break;
  case 134: drive_ret<std::shared_ptr<Obj>>(tag, r_ret_sp_obj); break;
  case 138: drive_take<std::shared_ptr<Pod>>(tag, r_take_sp_pod); break;
  case 142: drive_x<std::shared_ptr<std::string>>(tag, r_x_sp_str); break;
  case 146: drive_ret<std::shared_ptr<std::string>>(tag, r_ret_sp_str); break;
  case 150: drive_take<std::shared_ptr<uint64_t>>(tag, r_take_sp_u64); break;
  case 154: drive_x<std::weak_ptr<Obj>>(tag, r_x_wp_obj); break;
  case 158: drive_ret<std::weak_ptr<Obj>>(tag, r_ret_wp_obj); break;
  case 162: drive_take<rust::String>(tag, r_take_string); break;
  case 166: drive_x<rust::Vec<uint8_t>>(tag, r_x_vec_u8); break;
  case 170: drive_ret<rust::Vec<uint8_t>>(tag, r_ret_vec_u8); break;
  case 174: drive_take<rust::Vec<rust::String>>(tag, r_take_vec_str); break;
  case 178: drive_x<rust::Vec<Txt>>(tag, r_x_vec_txt); break;
  case 182: drive_ret<rust::Vec<Txt>>(tag, r_ret_vec_txt); break;
  case 186: drive_take<rust::Vec<Pod>>(tag, r_take_vec_pod); break;
  case 190: drive_x<rust::Vec<bool>>(tag, r_x_vec_bool); break;
  case 194: drive_ret<rust::Vec<bool>>(tag, r_ret_vec_bool); break;
  case 198: drive_take<rust::Vec<double>>(tag, r_take_vec_f64); break;
  case 202: drive_x<rust::Vec<size_t>>(tag, r_x_vec_usize); break;
  case 206: drive_ret<rust::Vec<size_t>>(tag, r_ret_vec_usize); break;
  case 210: drive_take<rust::Vec<Tok>>(tag, r_take_vec_tok); break;
  case 214: drive_x<rust::Vec<RObj>>(tag, r_x_vec_robj); break;
  case 218: drive_ret<rust::Vec<RObj>>(tag, r_ret_vec_robj); break;
  case 222: { Txt o = make<Txt>(opx(tag) + 5); drive_t<uint32_t>(tag, [&](uint64_t t, uint32_t x) { return o.rsm_t_u32(t, std::move(x)); }); } break;
  case 226: { auto o = self_robj(tag); drive_x<Rec>(tag, [&](uint64_t t, Rec x) { return o->rm_x_rec(t, std::move(x)); }); } break;
  case 230: { auto o = self_robj(tag); drive_t<Tok>(tag, [&](uint64_t t, Tok x) { return o->rm_t_tok(t, std::move(x)); }); } break;
  case 234: { Txt o = make<Txt>(opx(tag) + 5); drive_t<rust::Box<RObj>>(tag, [&](uint64_t t, rust::Box<RObj> x) { return o.rsm_t_box_robj(t, std::move(x)); }); } break;
  case 238: { auto o = self_robj(tag); drive_x<std::shared_ptr<Obj>>(tag, [&](uint64_t t, std::shared_ptr<Obj> x) { return o->rm_x_sp_obj(t, std::move(x)); }); } break;
  case 242: { auto o = self_robj(tag); drive_t<rust::String>(tag, [&](uint64_t t, rust::String x) { return o->rm_t_string(t, std::move(x)); }); } break;
  case 246: { Txt o = make<Txt>(opx(tag) + 5); drive_t<rust::Vec<Txt>>(tag, [&](uint64_t t, rust::Vec<Txt> x) { return o.rsm_t_vec_txt(t, std::move(x)); }); } break;
  case 250: drive_tmut<Txt, Txt>(tag, r_tmut_txt, [](Txt &o) -> Txt & { return o; }); break;
  case 254: drive_tmut<Rec, Rec>(tag, r_tmut_rec, [](Rec &o) -> Rec & { return o; }); break;
  case 258: drive_tmut<Pod, Pod>(tag, r_tmut_pod, [](Pod &o) -> Pod & { return o; }); break;
  case 262: drive_tmut<uint64_t, uint64_t>(tag, r_tmut_u64, [](uint64_t &o) -> uint64_t & { return o; }); break;
  case 266: drive_tmut<rust::Box<RObj>, RObj>(tag, r_tmut_robj, [](rust::Box<RObj> &o) -> RObj & { return *o; }); break;
  case 270: drive_tmut<std::unique_ptr<Obj>, Obj>(tag, r_tmut_obj, [](std::unique_ptr<Obj> &o) -> Obj & { return *o; }); break;
  case 274: drive_tmut<rust::String, rust::String>(tag, r_tmut_string, [](rust::String &o) -> rust::String & { return o; }); break;
  case 278: drive_tmut<rust::Vec<uint8_t>, rust::Vec<uint8_t>>(tag, r_tmut_vec_u8, [](rust::Vec<uint8_t> &o) -> rust::Vec<uint8_t> & { return o; }); break;
  case 282: drive_tmut<rust::Vec<Txt>, rust::Vec<Txt>>(tag, r_tmut_vec_txt, [](rust::Vec<Txt> &o) -> rust::Vec<Txt> & { return o; }); break;
  case 286: drive_tmut<rust::Vec<rust::String>, rust::Vec<rust::String>>(tag, r_tmut_vec_str, [](rust::Vec<rust::String> &o) -> rust::Vec<rust::String> & { return o; }); break;
  case 290: drive_tmut<std::unique_ptr<std::string>, std::string>(tag, r_tmut_cstr, [](std::unique_ptr<std::string> &o) -> std::string & { return *o; }); break;
  case 294: drive_tmut<std::unique_ptr<std::vector<uint8_t>>, std::vector<uint8_t>>(tag, r_tmut_cvu8, [](std::unique_ptr<std::vector<uint8_t>> &o) -> std::vector<uint8_t> & { return *o; }); break;
  case 298: drive_tmut<std::unique_ptr<std::vector<std::string>>, std::vector<std::string>>(tag, r_tmut_cvstr, [](std::unique_ptr<std::vector<std::string>> &o) -> std::vector<std::string> & { return *o; }); break;
  case 302: drive_tmut<std::unique_ptr<std::vector<Obj>>, std::vector<Obj>>(tag, r_tmut_cvobj, [](std::unique_ptr<std::vector<Obj>> &o) -> std::vector<Obj> & { return *o; }); break;
  case 306: drive_tmut<std::shared_ptr<Obj>, std::shared_ptr<Obj>>(tag, r_tmut_sp_obj, [](std::shared_ptr<Obj> &o) -> std::shared_ptr<Obj> & { return o; }); break;
  case 310: drive_tmut<std::unique_ptr<Obj>, std::unique_ptr<Obj>>(tag, r_tmut_up_obj, [](std::unique_ptr<Obj> &o) -> std::unique_ptr<Obj> & { return o; }); break;
  case 314: drive_tmut<rust::Box<RObj>, rust::Box<RObj>>(tag, r_tmut_box_robj, [](rust::Box<RObj> &o) -> rust::Box<RObj> & { return o; }); break;
  case 318: drive_tmut<Tok, Tok>(tag, r_tmut_tok, [](Tok &o) -> Tok & { return o; }); break;
  case 322: drive_tmsl<rust::Vec<uint8_t>, uint8_t>(tag, r_tmsl_u8); break;
  case 326: drive_tmsl<rust::Vec<rust::String>, rust::String>(tag, r_tmsl_string); break;
  case 330: drive_tmsl<rust::Vec<Txt>, Txt>(tag, r_tmsl_txt); break;
  case 334: drive_tmsl<rust::Vec<Pod>, Pod>(tag, r_tmsl_pod); break;
  case 338: drive_tmsl<rust::Vec<size_t>, size_t>(tag, r_tmsl_usize); break;
  case 342: drive_tmsl<rust::Vec<double>, double>(tag, r_tmsl_f64); break;
  case 346: drive_tmsl<rust::Vec<RObj>, RObj>(tag, r_tmsl_robj); break;
  case 350: drive_tmsl<rust::Vec<Tok>, Tok>(tag, r_tmsl_tok); break;
  case 354: drive_tret<Rec>(tag, [](uint64_t tag) { auto s = text(opid(tag) + 50); auto r = make<rust::Box<RObj>>(opid(tag) + 51); auto x = make<Txt>(opid(tag) + 52); auto sl = make<rust::Vec<rust::String>>(opid(tag) + 53); auto a0 = make<int8_t>(opid(tag) + 0); auto a1 = make<rust::String>(opid(tag) + 1); auto a2 = make<rust::Box<RObj>>(opid(tag) + 2); auto a3 = make<std::unique_ptr<Obj>>(opid(tag) + 3); auto a4 = make<Txt>(opid(tag) + 4); auto a5 = make<double>(opid(tag) + 5); auto a6 = make<rust::Vec<rust::String>>(opid(tag) + 6); auto a7 = make<std::shared_ptr<Obj>>(opid(tag) + 7); auto a8 = make<Tok>(opid(tag) + 8); auto a9 = make<Color>(opid(tag) + 9); auto a10 = make<bool>(opid(tag) + 10); auto a11 = make<Rec>(opid(tag) + 11); auto a12 = make<float>(opid(tag) + 12); auto a13 = make<rust::Vec<Tok>>(opid(tag) + 13); auto a14 = make<uint16_t>(opid(tag) + 14);  return r_tmulti(tag, std::move(a0), std::move(a1), std::move(a2), std::move(a3), std::move(a4), std::move(a5), std::move(a6), std::move(a7), std::move(a8), std::move(a9), std::move(a10), std::move(a11), std::move(a12), std::move(a13), std::move(a14), rust::Str(s), *r, x, rust::Slice<const rust::String>(sl)); }); break;
  case 358: drive_op<Key>(tag, 3); break;
  case 362: drive_op<KeyP>(tag, 1); break;
  case 366: drive_op<KeyP>(tag, 5); break;
  default: abort();
  }
}
}
