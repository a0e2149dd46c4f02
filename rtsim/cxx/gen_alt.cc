// generated by gen.py
#include "rtsim/cxx/calls.h"
#include "rtsim/cxx/alt.h"
namespace rt {
uint32_t d_t_u32(uint64_t tag, uint32_t x) { return callee_x<uint32_t>(tag, std::move(x)); }
Txt d_t_txt(uint64_t tag, Txt x) { return callee_x<Txt>(tag, std::move(x)); }
rust::Box<Txt> d_t_box_txt(uint64_t tag, rust::Box<Txt> x) { return callee_x<rust::Box<Txt>>(tag, std::move(x)); }
std::unique_ptr<Obj> d_t_up_obj(uint64_t tag, std::unique_ptr<Obj> x) { return callee_x<std::unique_ptr<Obj>>(tag, std::move(x)); }
rust::String d_t_string(uint64_t tag, rust::String x) { return callee_x<rust::String>(tag, std::move(x)); }
rust::Vec<rust::String> d_t_vec_str(uint64_t tag, rust::Vec<rust::String> x) { return callee_x<rust::Vec<rust::String>>(tag, std::move(x)); }
Rec d_t_rec(uint64_t tag, Rec x) { return callee_x<Rec>(tag, std::move(x)); }
Tok d_t_tok(uint64_t tag, Tok x) { return callee_x<Tok>(tag, std::move(x)); }
}
