// generated by gen.py
#include "rtsim/cxx/calls.h"
namespace rt {
void drive_part0(uint32_t idx, uint64_t tag) {
  switch (idx) {
  case 0: drive_x<uint8_t>(tag, r_x_u8); break;
  case 4: drive_ret<uint8_t>(tag, r_ret_u8); break;
  case 8: drive_x<int16_t>(tag, r_x_i16); break;
  case 12: drive_x<int64_t>(tag, r_x_i64); break;
  case 16: drive_ret<int64_t>(tag, r_ret_i64); break;
  case 20: drive_x<float>(tag, r_x_f32); break;
  case 24: drive_ret<float>(tag, r_ret_f32); break;
  case 28: drive_t<bool>(tag, r_t_bool); break;
  case 32: drive_tret<bool>(tag, r_tret_bool); break;
  case 36: drive_take<Pod>(tag, r_take_pod); break;
  case 40: drive_x<Color>(tag, r_x_color); break;
  case 44: drive_ret<Color>(tag, r_ret_color); break;
  case 48: drive_take<Txt>(tag, r_take_txt); break;
  case 52: drive_x<Rec>(tag, r_x_rec); break;
  case 56: drive_ret<Rec>(tag, r_ret_rec); break;
  case 60: drive_take<Tok>(tag, r_take_tok); break;
  case 64: drive_x<rust::Box<RObj>>(tag, r_x_box_robj); break;
  case 68: drive_ret<rust::Box<RObj>>(tag, r_ret_box_robj); break;
  case 72: drive_take<rust::Box<Txt>>(tag, r_take_box_txt); break;
  case 76: drive_x<std::unique_ptr<Obj>>(tag, r_x_up_obj); break;
  case 80: drive_ret<std::unique_ptr<Obj>>(tag, r_ret_up_obj); break;
  case 84: drive_take<std::unique_ptr<std::string>>(tag, r_take_up_str); break;
  case 88: drive_x<std::unique_ptr<Pod>>(tag, r_x_up_pod); break;
  case 92: drive_ret<std::unique_ptr<Pod>>(tag, r_ret_up_pod); break;
  case 96: drive_take<std::unique_ptr<Txt>>(tag, r_take_up_txt); break;
  case 100: drive_x<std::unique_ptr<std::vector<uint8_t>>>(tag, r_x_up_vu8); break;
  case 104: drive_ret<std::unique_ptr<std::vector<uint8_t>>>(tag, r_ret_up_vu8); break;
  case 108: drive_take<std::unique_ptr<std::vector<double>>>(tag, r_take_up_vf64); break;
  case 112: drive_x<std::unique_ptr<std::vector<std::string>>>(tag, r_x_up_vstr); break;
  case 116: drive_ret<std::unique_ptr<std::vector<std::string>>>(tag, r_ret_up_vstr); break;
  case 120: drive_take<std::unique_ptr<std::vector<Obj>>>(tag, r_take_up_vobj); break;
  case 124: drive_x<std::unique_ptr<std::vector<Txt>>>(tag, r_x_up_vtxt); break;
  case 128: drive_ret<std::unique_ptr<std::vector<Txt>>>(tag, r_ret_up_vtxt); break;
  case 132: drive_take<std::shared_ptr<Obj>>(tag, r_take_sp_obj); break;
  case 136: drive_x<std::shared_ptr<Pod>>(tag, r_x_sp_pod); break;
  case 140: drive_ret<std::shared_ptr<Pod>>(tag, r_ret_sp_pod); break;
  case 144: drive_take<std::shared_ptr<std::string>>(tag, r_take_sp_str); break;
  case 148: drive_x<std::shared_ptr<uint64_t>>(tag, r_x_sp_u64); break;
  case 152: drive_ret<std::shared_ptr<uint64_t>>(tag, r_ret_sp_u64); break;
  case 156: drive_take<std::weak_ptr<Obj>>(tag, r_take_wp_obj); break;
  case 160: drive_x<rust::String>(tag, r_x_string); break;
  case 164: drive_ret<rust::String>(tag, r_ret_string); break;
  case 168: drive_take<rust::Vec<uint8_t>>(tag, r_take_vec_u8); break;
  case 172: drive_x<rust::Vec<rust::String>>(tag, r_x_vec_str); break;
  case 176: drive_ret<rust::Vec<rust::String>>(tag, r_ret_vec_str); break;
  case 180: drive_take<rust::Vec<Txt>>(tag, r_take_vec_txt); break;
  case 184: drive_x<rust::Vec<Pod>>(tag, r_x_vec_pod); break;
  case 188: drive_ret<rust::Vec<Pod>>(tag, r_ret_vec_pod); break;
  case 192: drive_take<rust::Vec<bool>>(tag, r_take_vec_bool); break;
  case 196: drive_x<rust::Vec<double>>(tag, r_x_vec_f64); break;
  case 200: drive_ret<rust::Vec<double>>(tag, r_ret_vec_f64); break;
  case 204: drive_take<rust::Vec<size_t>>(tag, r_take_vec_usize); break;
  case 208: drive_x<rust::Vec<Tok>>(tag, r_x_vec_tok); break;
  case 212: drive_ret<rust::Vec<Tok>>(tag, r_ret_vec_tok); break;
  case 216: drive_take<rust::Vec<RObj>>(tag, r_take_vec_robj); break;
  case 220: { auto o = self_robj(tag); drive_x<uint32_t>(tag, [&](uint64_t t, uint32_t x) { return o->rm_x_u32(t, std::move(x)); }); } break;
  case 224: { auto o = self_robj(tag); drive_t<Txt>(tag, [&](uint64_t t, Txt x) { return o->rm_t_txt(t, std::move(x)); }); } break;
  case 228: { Txt o = make<Txt>(opx(tag) + 5); drive_t<Rec>(tag, [&](uint64_t t, Rec x) { return o.rsm_t_rec(t, std::move(x)); }); } break;
  case 232: { auto o = self_robj(tag); drive_x<rust::Box<RObj>>(tag, [&](uint64_t t, rust::Box<RObj> x) { return o->rm_x_box_robj(t, std::move(x)); }); } break;
  case 236: { auto o = self_robj(tag); drive_t<std::unique_ptr<Obj>>(tag, [&](uint64_t t, std::unique_ptr<Obj> x) { return o->rm_t_up_obj(t, std::move(x)); }); } break;
  case 240: { Txt o = make<Txt>(opx(tag) + 5); drive_t<std::shared_ptr<Obj>>(tag, [&](uint64_t t, std::shared_ptr<Obj> x) { return o.rsm_t_sp_obj(t, std::move(x)); }); } break;
  case 244: { auto o = self_robj(tag); drive_x<rust::Vec<Txt>>(tag, [&](uint64_t t, rust::Vec<Txt> x) { return o->rm_x_vec_txt(t, std::move(x)); }); } break;
  case 248: drive_tref<Txt, Txt>(tag, r_tref_txt, [](Txt &o) -> Txt & { return o; }); break;
  case 252: drive_tref<Rec, Rec>(tag, r_tref_rec, [](Rec &o) -> Rec & { return o; }); break;
  case 256: drive_tref<Pod, Pod>(tag, r_tref_pod, [](Pod &o) -> Pod & { return o; }); break;
  case 260: drive_tref<uint64_t, uint64_t>(tag, r_tref_u64, [](uint64_t &o) -> uint64_t & { return o; }); break;
  case 264: drive_tref<rust::Box<RObj>, RObj>(tag, r_tref_robj, [](rust::Box<RObj> &o) -> RObj & { return *o; }); break;
  case 268: drive_tref<std::unique_ptr<Obj>, Obj>(tag, r_tref_obj, [](std::unique_ptr<Obj> &o) -> Obj & { return *o; }); break;
  case 272: drive_tref<rust::String, rust::String>(tag, r_tref_string, [](rust::String &o) -> rust::String & { return o; }); break;
  case 276: drive_tref<rust::Vec<uint8_t>, rust::Vec<uint8_t>>(tag, r_tref_vec_u8, [](rust::Vec<uint8_t> &o) -> rust::Vec<uint8_t> & { return o; }); break;
  case 280: drive_tref<rust::Vec<Txt>, rust::Vec<Txt>>(tag, r_tref_vec_txt, [](rust::Vec<Txt> &o) -> rust::Vec<Txt> & { return o; }); break;
  case 284: drive_tref<rust::Vec<rust::String>, rust::Vec<rust::String>>(tag, r_tref_vec_str, [](rust::Vec<rust::String> &o) -> rust::Vec<rust::String> & { return o; }); break;
  case 288: drive_tref<std::unique_ptr<std::string>, std::string>(tag, r_tref_cstr, [](std::unique_ptr<std::string> &o) -> std::string & { return *o; }); break;
  case 292: drive_tref<std::unique_ptr<std::vector<uint8_t>>, std::vector<uint8_t>>(tag, r_tref_cvu8, [](std::unique_ptr<std::vector<uint8_t>> &o) -> std::vector<uint8_t> & { return *o; }); break;
  case 296: drive_tref<std::unique_ptr<std::vector<std::string>>, std::vector<std::string>>(tag, r_tref_cvstr, [](std::unique_ptr<std::vector<std::string>> &o) -> std::vector<std::string> & { return *o; }); break;
  case 300: drive_tref<std::unique_ptr<std::vector<Obj>>, std::vector<Obj>>(tag, r_tref_cvobj, [](std::unique_ptr<std::vector<Obj>> &o) -> std::vector<Obj> & { return *o; }); break;
  case 304: drive_tref<std::shared_ptr<Obj>, std::shared_ptr<Obj>>(tag, r_tref_sp_obj, [](std::shared_ptr<Obj> &o) -> std::shared_ptr<Obj> & { return o; }); break;
  case 308: drive_tref<std::unique_ptr<Obj>, std::unique_ptr<Obj>>(tag, r_tref_up_obj, [](std::unique_ptr<Obj> &o) -> std::unique_ptr<Obj> & { return o; }); break;
  case 312: drive_tref<rust::Box<RObj>, rust::Box<RObj>>(tag, r_tref_box_robj, [](rust::Box<RObj> &o) -> rust::Box<RObj> & { return o; }); break;
  case 316: drive_tref<Tok, Tok>(tag, r_tref_tok, [](Tok &o) -> Tok & { return o; }); break;
  case 320: drive_tsl<rust::Vec<uint8_t>, uint8_t>(tag, r_tsl_u8); break;
  case 324: drive_tsl<rust::Vec<rust::String>, rust::String>(tag, r_tsl_string); break;
  case 328: drive_tsl<rust::Vec<Txt>, Txt>(tag, r_tsl_txt); break;
  case 332: drive_tsl<rust::Vec<Pod>, Pod>(tag, r_tsl_pod); break;
  case 336: drive_tsl<rust::Vec<size_t>, size_t>(tag, r_tsl_usize); break;
  case 340: drive_tsl<rust::Vec<double>, double>(tag, r_tsl_f64); break;
  case 344: drive_tsl<rust::Vec<RObj>, RObj>(tag, r_tsl_robj); break;
  case 348: drive_tsl<rust::Vec<Tok>, Tok>(tag, r_tsl_tok); break;
  case 352: drive_tstr(tag, r_tstr); break;
  case 356: drive_op<Key>(tag, 1); break;
  case 360: drive_op<Key>(tag, 5); break;
  case 364: drive_op<KeyP>(tag, 3); break;
  default: abort();
  }
}
}
