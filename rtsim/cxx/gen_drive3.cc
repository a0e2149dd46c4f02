// generated by gen.py
#include "rtsim/cxx/calls.h"
namespace rt {
void drive_part3(uint32_t idx, uint64_t tag) {
  switch (idx) {
  case 3: drive_ttake<uint8_t>(tag, r_ttake_u8); break;
  case 7: drive_x<uint16_t>(tag, r_x_u16); break;
  case 11: drive_x<uint64_t>(tag, r_x_u64); break;
  case 15: drive_ttake<int64_t>(tag, r_ttake_i64); break;
  case 19: drive_x<rust::isize>(tag, r_x_isize); break;
  case 23: drive_ttake<float>(tag, r_ttake_f32); break;
  case 27: drive_x<bool>(tag, r_x_bool); break;
  case 31: drive_ret<bool>(tag, r_ret_bool); break;
  case 35: drive_t<Pod>(tag, r_t_pod); break;
  case 39: drive_tret<Pod>(tag, r_tret_pod); break;
  case 43: drive_ttake<Color>(tag, r_ttake_color); break;
  case 47: drive_t<Txt>(tag, r_t_txt); break;
  case 51: drive_tret<Txt>(tag, r_tret_txt); break;
  case 55: drive_ttake<Rec>(tag, r_ttake_rec); break;
  case 59: drive_t<Tok>(tag, r_t_tok); break;
  case 63: drive_tret<Tok>(tag, r_tret_tok); break;
  case 67: drive_ttake<rust::Box<RObj>>(tag, r_ttake_box_robj); break;
  case 71: drive_t<rust::Box<Txt>>(tag, r_t_box_txt); break;
  case 75: drive_tret<rust::Box<Txt>>(tag, r_tret_box_txt); break;
  case 79: drive_ttake<std::unique_ptr<Obj>>(tag, r_ttake_up_obj); break;
  case 83: drive_t<std::unique_ptr<std::string>>(tag, r_t_up_str); break;
  case 87: drive_tret<std::unique_ptr<std::string>>(tag, r_tret_up_str); break;
  case 91: drive_ttake<std::unique_ptr<Pod>>(tag, r_ttake_up_pod); break;
  case 95: drive_t<std::unique_ptr<Txt>>(tag, r_t_up_txt); break;
  case 99: drive_tret<std::unique_ptr<Txt>>(tag, r_tret_up_txt); break;
  case 103: drive_ttake<std::unique_ptr<std::vector<uint8_t>>>(tag, r_ttake_up_vu8); break;
  case 107: drive_t<std::unique_ptr<std::vector<double>>>(tag, r_t_up_vf64); break;
  case 111: drive_tret<std::unique_ptr<std::vector<double>>>(tag, r_tret_up_vf64); break;
  case 115: drive_ttake<std::unique_ptr<std::vector<std::string>>>(tag, r_ttake_up_vstr); break;
  case 119: drive_t<std::unique_ptr<std::vector<Obj>>>(tag, r_t_up_vobj); break;
  case 123: drive_tret<std::unique_ptr<std::vector<Obj>>>(tag, r_tret_up_vobj); break;
  case 127: drive_ttake<std::unique_ptr<std::vector<Txt>>>(tag, r_ttake_up_vtxt); break;
  case 131: drive_t<std::shared_ptr<Obj>>(tag, r_t_sp_obj); break;
  case 135: drive_tret<std::shared_ptr<Obj>>(tag, r_tret_sp_obj); break;
  case 139: drive_ttake<std::shared_ptr<Pod>>(tag, r_ttake_sp_pod); break;
  case 143: drive_t<std::shared_ptr<std::string>>(tag, r_t_sp_str); break;
  case 147: drive_tret<std::shared_ptr<std::string>>(tag, r_tret_sp_str); break;
  case 151: drive_ttake<std::shared_ptr<uint64_t>>(tag, r_ttake_sp_u64); break;
  case 155: drive_t<std::weak_ptr<Obj>>(tag, r_t_wp_obj); break;
  case 159: drive_tret<std::weak_ptr<Obj>>(tag, r_tret_wp_obj); break;
  case 163: drive_ttake<rust::String>(tag, r_ttake_string); break;
  case 167: drive_t<rust::Vec<uint8_t>>(tag, r_t_vec_u8); break;
  case 171: drive_tret<rust::Vec<uint8_t>>(tag, r_tret_vec_u8); break;
  case 175: drive_ttake<rust::Vec<rust::String>>(tag, r_ttake_vec_str); break;
  case 179: drive_t<rust::Vec<Txt>>(tag, r_t_vec_txt); break;
  case 183: drive_tret<rust::Vec<Txt>>(tag, r_tret_vec_txt); break;
  case 187: drive_ttake<rust::Vec<Pod>>(tag, r_ttake_vec_pod); break;
  case 191: drive_t<rust::Vec<bool>>(tag, r_t_vec_bool); break;
  case 195: drive_tret<rust::Vec<bool>>(tag, r_tret_vec_bool); break;
  case 199: drive_ttake<rust::Vec<double>>(tag, r_ttake_vec_f64); break;
  case 203: drive_t<rust::Vec<size_t>>(tag, r_t_vec_usize); break;
  case 207: drive_tret<rust::Vec<size_t>>(tag, r_tret_vec_usize); break;
  case 211: drive_ttake<rust::Vec<Tok>>(tag, r_ttake_vec_tok); break;
  case 215: drive_t<rust::Vec<RObj>>(tag, r_t_vec_robj); break;
  case 219: drive_tret<rust::Vec<RObj>>(tag, r_tret_vec_robj); break;
  case 223: { auto o = self_robj(tag); drive_x<Txt>(tag, [&](uint64_t t, Txt x) { return o->rm_x_txt(t, std::move(x)); }); } break;
  case 227: { auto o = self_robj(tag); drive_t<Rec>(tag, [&](uint64_t t, Rec x) { return o->rm_t_rec(t, std::move(x)); }); } break;
  case 231: { Txt o = make<Txt>(opx(tag) + 5); drive_t<Tok>(tag, [&](uint64_t t, Tok x) { return o.rsm_t_tok(t, std::move(x)); }); } break;
  case 235: { auto o = self_robj(tag); drive_x<std::unique_ptr<Obj>>(tag, [&](uint64_t t, std::unique_ptr<Obj> x) { return o->rm_x_up_obj(t, std::move(x)); }); } break;
  case 239: { auto o = self_robj(tag); drive_t<std::shared_ptr<Obj>>(tag, [&](uint64_t t, std::shared_ptr<Obj> x) { return o->rm_t_sp_obj(t, std::move(x)); }); } break;
  case 243: { Txt o = make<Txt>(opx(tag) + 5); drive_t<rust::String>(tag, [&](uint64_t t, rust::String x) { return o.rsm_t_string(t, std::move(x)); }); } break;
  case 247: drive_ref<Txt, Txt>(tag, r_ref_txt, [](Txt &o) -> Txt & { return o; }); break;
  case 251: drive_ref<Rec, Rec>(tag, r_ref_rec, [](Rec &o) -> Rec & { return o; }); break;
  case 255: drive_ref<Pod, Pod>(tag, r_ref_pod, [](Pod &o) -> Pod & { return o; }); break;
  case 259: drive_ref<uint64_t, uint64_t>(tag, r_ref_u64, [](uint64_t &o) -> uint64_t & { return o; }); break;
  case 263: drive_ref<rust::Box<RObj>, RObj>(tag, r_ref_robj, [](rust::Box<RObj> &o) -> RObj & { return *o; }); break;
  case 267: drive_ref<std::unique_ptr<Obj>, Obj>(tag, r_ref_obj, [](std::unique_ptr<Obj> &o) -> Obj & { return *o; }); break;
  case 271: drive_ref<rust::String, rust::String>(tag, r_ref_string, [](rust::String &o) -> rust::String & { return o; }); break;
  case 275: drive_ref<rust::Vec<uint8_t>, rust::Vec<uint8_t>>(tag, r_ref_vec_u8, [](rust::Vec<uint8_t> &o) -> rust::Vec<uint8_t> & { return o; }); break;
  case 279: drive_ref<rust::Vec<Txt>, rust::Vec<Txt>>(tag, r_ref_vec_txt, [](rust::Vec<Txt> &o) -> rust::Vec<Txt> & { return o; }); break;
  case 283: drive_ref<rust::Vec<rust::String>, rust::Vec<rust::String>>(tag, r_ref_vec_str, [](rust::Vec<rust::String> &o) -> rust::Vec<rust::String> & { return o; }); break;
  case 287: drive_ref<std::unique_ptr<std::string>, std::string>(tag, r_ref_cstr, [](std::unique_ptr<std::string> &o) -> std::string & { return *o; }); break;
  case 291: drive_ref<std::unique_ptr<std::vector<uint8_t>>, std::vector<uint8_t>>(tag, r_ref_cvu8, [](std::unique_ptr<std::vector<uint8_t>> &o) -> std::vector<uint8_t> & { return *o; }); break;
  case 295: drive_ref<std::unique_ptr<std::vector<std::string>>, std::vector<std::string>>(tag, r_ref_cvstr, [](std::unique_ptr<std::vector<std::string>> &o) -> std::vector<std::string> & { return *o; }); break;
  case 299: drive_ref<std::unique_ptr<std::vector<Obj>>, std::vector<Obj>>(tag, r_ref_cvobj, [](std::unique_ptr<std::vector<Obj>> &o) -> std::vector<Obj> & { return *o; }); break;
  case 303: drive_ref<std::shared_ptr<Obj>, std::shared_ptr<Obj>>(tag, r_ref_sp_obj, [](std::shared_ptr<Obj> &o) -> std::shared_ptr<Obj> & { return o; }); break;
  case 307: drive_ref<std::unique_ptr<Obj>, std::unique_ptr<Obj>>(tag, r_ref_up_obj, [](std::unique_ptr<Obj> &o) -> std::unique_ptr<Obj> & { return o; }); break;
  case 311: drive_ref<rust::Box<RObj>, rust::Box<RObj>>(tag, r_ref_box_robj, [](rust::Box<RObj> &o) -> rust::Box<RObj> & { return o; }); break;
  case 315: drive_ref<Tok, Tok>(tag, r_ref_tok, [](Tok &o) -> Tok & { return o; }); break;
  case 319: drive_sl<rust::Vec<uint8_t>, uint8_t>(tag, r_sl_u8); break;
  case 323: drive_sl<rust::Vec<rust::String>, rust::String>(tag, r_sl_string); break;
  case 327: drive_sl<rust::Vec<Txt>, Txt>(tag, r_sl_txt); break;
  case 331: drive_sl<rust::Vec<Pod>, Pod>(tag, r_sl_pod); break;
  case 335: drive_sl<rust::Vec<size_t>, size_t>(tag, r_sl_usize); break;
  case 339: drive_sl<rust::Vec<double>, double>(tag, r_sl_f64); break;
  case 343: drive_sl<rust::Vec<RObj>, RObj>(tag, r_sl_robj); break;
  case 347: drive_sl<rust::Vec<Tok>, Tok>(tag, r_sl_tok); break;
  case 351: drive_str(tag, r_str); break;
  case 355: drive_op<Key>(tag, 0); break;
  case 359: drive_op<Key>(tag, 4); break;
  case 363: drive_op<KeyP>(tag, 2); break;
  case 367: drive_hash(tag); break;
  default: abort();
  }
}
}
