// generated by gen.py
#include "rtsim/cxx/calls.h"
namespace rt {
void drive_part1(uint32_t idx, uint64_t tag) {
  switch (idx) {
  case 1: drive_t<uint8_t>(tag, r_t_u8); break;
  case 5: drive_tret<uint8_t>(tag, r_tret_u8); break;
  case 9: drive_x<uint32_t>(tag, r_x_u32); break;
  case 13: drive_t<int64_t>(tag, r_t_i64); break;
  case 17: drive_tret<int64_t>(tag, r_tret_i64); break;
  case 21: drive_t<float>(tag, r_t_f32); break;
  case 25: drive_tret<float>(tag, r_tret_f32); break;
  case 29: drive_take<bool>(tag, r_take_bool); break;
  case 33: drive_x<char>(tag, r_x_chr); break;
  case 37: drive_ttake<Pod>(tag, r_ttake_pod); break;
  case 41: drive_t<Color>(tag, r_t_color); break;
  case 45: drive_tret<Color>(tag, r_tret_color); break;
  case 49: drive_ttake<Txt>(tag, r_ttake_txt); break;
  case 53: drive_t<Rec>(tag, r_t_rec); break;
  case 57: drive_tret<Rec>(tag, r_tret_rec); break;
  case 61: drive_ttake<Tok>(tag, r_ttake_tok); break;
  case 65: drive_t<rust::Box<RObj>>(tag, r_t_box_robj); break;
  case 69: drive_tret<rust::Box<RObj>>(tag, r_tret_box_robj); break;
  case 73: drive_ttake<rust::Box<Txt>>(tag, r_ttake_box_txt); break;
  case 77: drive_t<std::unique_ptr<Obj>>(tag, r_t_up_obj); break;
  case 81: drive_tret<std::unique_ptr<Obj>>(tag, r_tret_up_obj); break;
  case 85: drive_ttake<std::unique_ptr<std::string>>(tag, r_ttake_up_str); break;
  case 89: drive_t<std::unique_ptr<Pod>>(tag, r_t_up_pod); break;
  case 93: drive_tret<std::unique_ptr<Pod>>(tag, r_tret_up_pod); break;
  case 97: drive_ttake<std::unique_ptr<Txt>>(tag, r_ttake_up_txt); break;
  case 101: drive_t<std::unique_ptr<std::vector<uint8_t>>>(tag, r_t_up_vu8); break;
  case 105: drive_tret<std::unique_ptr<std::vector<uint8_t>>>(tag, r_tret_up_vu8); break;
  case 109: drive_ttake<std::unique_ptr<std::vector<double>>>(tag, r_ttake_up_vf64); break;
  case 113: drive_t<std::unique_ptr<std::vector<std::string>>>(tag, r_t_up_vstr); break;
  case 117: drive_tret<std::unique_ptr<std::vector<std::string>>>(tag, r_tret_up_vstr); break;
  case 121: drive_ttake<std::unique_ptr<std::vector<Obj>>>(tag, r_ttake_up_vobj); break;
  case 125: drive_t<std::unique_ptr<std::vector<Txt>>>(tag, r_t_up_vtxt); break;
  case 129: drive_tret<std::unique_ptr<std::vector<Txt>>>(tag, r_tret_up_vtxt); break;
  case 133: drive_ttake<std::shared_ptr<Obj>>(tag, r_ttake_sp_obj); break;
  case 137: drive_t<std::shared_ptr<Pod>>(tag, r_t_sp_pod); break;
  case 141: drive_tret<std::shared_ptr<Pod>>(tag, r_tret_sp_pod); break;
  case 145: drive_ttake<std::shared_ptr<std::string>>(tag, r_ttake_sp_str); break;
  case 149: drive_t<std::shared_ptr<uint64_t>>(tag, r_t_sp_u64); break;
  case 153: drive_tret<std::shared_ptr<uint64_t>>(tag, r_tret_sp_u64); break;
  case 157: drive_ttake<std::weak_ptr<Obj>>(tag, r_ttake_wp_obj); break;
  case 161: drive_t<rust::String>(tag, r_t_string); break;
  case 165: drive_tret<rust::String>(tag, r_tret_string); break;
  case 169: drive_ttake<rust::Vec<uint8_t>>(tag, r_ttake_vec_u8); break;
  case 173: drive_t<rust::Vec<rust::String>>(tag, r_t_vec_str); break;
  case 177: drive_tret<rust::Vec<rust::String>>(tag, r_tret_vec_str); break;
  case 181: drive_ttake<rust::Vec<Txt>>(tag, r_ttake_vec_txt); break;
  case 185: drive_t<rust::Vec<Pod>>(tag, r_t_vec_pod); break;
  case 189: drive_tret<rust::Vec<Pod>>(tag, r_tret_vec_pod); break;
  case 193: drive_ttake<rust::Vec<bool>>(tag, r_ttake_vec_bool); break;
  case 197: drive_t<rust::Vec<double>>(tag, r_t_vec_f64); break;
  case 201: drive_tret<rust::Vec<double>>(tag, r_tret_vec_f64); break;
  case 205: drive_ttake<rust::Vec<size_t>>(tag, r_ttake_vec_usize); break;
  case 209: drive_t<rust::Vec<Tok>>(tag, r_t_vec_tok); break;
  case 213: drive_tret<rust::Vec<Tok>>(tag, r_tret_vec_tok); break;
  case 217: drive_ttake<rust::Vec<RObj>>(tag, r_ttake_vec_robj); break;
  case 221: { auto o = self_robj(tag); drive_t<uint32_t>(tag, [&](uint64_t t, uint32_t x) { return o->rm_t_u32(t, std::move(x)); }); } break;
  case 225: { Txt o = make<Txt>(opx(tag) + 5); drive_t<Txt>(tag, [&](uint64_t t, Txt x) { return o.rsm_t_txt(t, std::move(x)); }); } break;
  case 229: { auto o = self_robj(tag); drive_x<Tok>(tag, [&](uint64_t t, Tok x) { return o->rm_x_tok(t, std::move(x)); }); } break;
  case 233: { auto o = self_robj(tag); drive_t<rust::Box<RObj>>(tag, [&](uint64_t t, rust::Box<RObj> x) { return o->rm_t_box_robj(t, std::move(x)); }); } break;
  case 237: { Txt o = make<Txt>(opx(tag) + 5); drive_t<std::unique_ptr<Obj>>(tag, [&](uint64_t t, std::unique_ptr<Obj> x) { return o.rsm_t_up_obj(t, std::move(x)); }); } break;
  case 241: { auto o = self_robj(tag); drive_x<rust::String>(tag, [&](uint64_t t, rust::String x) { return o->rm_x_string(t, std::move(x)); }); } break;
  case 245: { auto o = self_robj(tag); drive_t<rust::Vec<Txt>>(tag, [&](uint64_t t, rust::Vec<Txt> x) { return o->rm_t_vec_txt(t, std::move(x)); }); } break;
  case 249: drive_mut<Txt, Txt>(tag, r_mut_txt, [](Txt &o) -> Txt & { return o; }); break;
  case 253: drive_mut<Rec, Rec>(tag, r_mut_rec, [](Rec &o) -> Rec & { return o; }); break;
  case 257: drive_mut<Pod, Pod>(tag, r_mut_pod, [](Pod &o) -> Pod & { return o; }); break;
  case 261: drive_mut<uint64_t, uint64_t>(tag, r_mut_u64, [](uint64_t &o) -> uint64_t & { return o; }); break;
  case 265: drive_mut<rust::Box<RObj>, RObj>(tag, r_mut_robj, [](rust::Box<RObj> &o) -> RObj & { return *o; }); break;
  case 269: drive_mut<std::unique_ptr<Obj>, Obj>(tag, r_mut_obj, [](std::unique_ptr<Obj> &o) -> Obj & { return *o; }); break;
  case 273: drive_mut<rust::String, rust::String>(tag, r_mut_string, [](rust::String &o) -> rust::String & { return o; }); break;
  case 277: drive_mut<rust::Vec<uint8_t>, rust::Vec<uint8_t>>(tag, r_mut_vec_u8, [](rust::Vec<uint8_t> &o) -> rust::Vec<uint8_t> & { return o; }); break;
  case 281: drive_mut<rust::Vec<Txt>, rust::Vec<Txt>>(tag, r_mut_vec_txt, [](rust::Vec<Txt> &o) -> rust::Vec<Txt> & { return o; }); break;
  case 285: drive_mut<rust::Vec<rust::String>, rust::Vec<rust::String>>(tag, r_mut_vec_str, [](rust::Vec<rust::String> &o) -> rust::Vec<rust::String> & { return o; }); break;
  case 289: drive_mut<std::unique_ptr<std::string>, std::string>(tag, r_mut_cstr, [](std::unique_ptr<std::string> &o) -> std::string & { return *o; }); break;
  case 293: drive_mut<std::unique_ptr<std::vector<uint8_t>>, std::vector<uint8_t>>(tag, r_mut_cvu8, [](std::unique_ptr<std::vector<uint8_t>> &o) -> std::vector<uint8_t> & { return *o; }); break;
  case 297: drive_mut<std::unique_ptr<std::vector<std::string>>, std::vector<std::string>>(tag, r_mut_cvstr, [](std::unique_ptr<std::vector<std::string>> &o) -> std::vector<std::string> & { return *o; }); break;
  case 301: drive_mut<std::unique_ptr<std::vector<Obj>>, std::vector<Obj>>(tag, r_mut_cvobj, [](std::unique_ptr<std::vector<Obj>> &o) -> std::vector<Obj> & { return *o; }); break;
  case 305: drive_mut<std::shared_ptr<Obj>, std::shared_ptr<Obj>>(tag, r_mut_sp_obj, [](std::shared_ptr<Obj> &o) -> std::shared_ptr<Obj> & { return o; }); break;
  case 309: drive_mut<std::unique_ptr<Obj>, std::unique_ptr<Obj>>(tag, r_mut_up_obj, [](std::unique_ptr<Obj> &o) -> std::unique_ptr<Obj> & { return o; }); break;
  case 313: drive_mut<rust::Box<RObj>, rust::Box<RObj>>(tag, r_mut_box_robj, [](rust::Box<RObj> &o) -> rust::Box<RObj> & { return o; }); break;
  case 317: drive_mut<Tok, Tok>(tag, r_mut_tok, [](Tok &o) -> Tok & { return o; }); break;
  case 321: drive_msl<rust::Vec<uint8_t>, uint8_t>(tag, r_msl_u8); break;
  case 325: drive_msl<rust::Vec<rust::String>, rust::String>(tag, r_msl_string); break;
  case 329: drive_msl<rust::Vec<Txt>, Txt>(tag, r_msl_txt); break;
  case 333: drive_msl<rust::Vec<Pod>, Pod>(tag, r_msl_pod); break;
  case 337: drive_msl<rust::Vec<size_t>, size_t>(tag, r_msl_usize); break;
  case 341: drive_msl<rust::Vec<double>, double>(tag, r_msl_f64); break;
  case 345: drive_msl<rust::Vec<RObj>, RObj>(tag, r_msl_robj); break;
  case 349: drive_msl<rust::Vec<Tok>, Tok>(tag, r_msl_tok); break;
  case 353: drive_ret<Rec>(tag, [](uint64_t tag) { auto s = text(opid(tag) + 50); auto r = make<rust::Box<RObj>>(opid(tag) + 51); auto x = make<Txt>(opid(tag) + 52); auto sl = make<rust::Vec<rust::String>>(opid(tag) + 53); auto a0 = make<int8_t>(opid(tag) + 0); auto a1 = make<rust::String>(opid(tag) + 1); auto a2 = make<rust::Box<RObj>>(opid(tag) + 2); auto a3 = make<std::unique_ptr<Obj>>(opid(tag) + 3); auto a4 = make<Txt>(opid(tag) + 4); auto a5 = make<double>(opid(tag) + 5); auto a6 = make<rust::Vec<rust::String>>(opid(tag) + 6); auto a7 = make<std::shared_ptr<Obj>>(opid(tag) + 7); auto a8 = make<Tok>(opid(tag) + 8); auto a9 = make<Color>(opid(tag) + 9); auto a10 = make<bool>(opid(tag) + 10); auto a11 = make<Rec>(opid(tag) + 11); auto a12 = make<float>(opid(tag) + 12); auto a13 = make<rust::Vec<Tok>>(opid(tag) + 13); auto a14 = make<uint16_t>(opid(tag) + 14);  return r_multi(tag, std::move(a0), std::move(a1), std::move(a2), std::move(a3), std::move(a4), std::move(a5), std::move(a6), std::move(a7), std::move(a8), std::move(a9), std::move(a10), std::move(a11), std::move(a12), std::move(a13), std::move(a14), rust::Str(s), *r, x, rust::Slice<const rust::String>(sl)); }); break;
  case 357: drive_op<Key>(tag, 2); break;
  case 361: drive_op<KeyP>(tag, 0); break;
  case 365: drive_op<KeyP>(tag, 4); break;
  default: abort();
  }
}
}
