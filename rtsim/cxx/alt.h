// generated by gen.py
#pragma once
#include "rtsim/cxx/types.h"
#include "rtsim/cxx/trycatch.h"
#include "rtsim/src/gen_bridge.rs.h"
namespace rt {
uint32_t d_t_u32(uint64_t tag, uint32_t x);
Txt d_t_txt(uint64_t tag, Txt x);
rust::Box<Txt> d_t_box_txt(uint64_t tag, rust::Box<Txt> x);
std::unique_ptr<Obj> d_t_up_obj(uint64_t tag, std::unique_ptr<Obj> x);
rust::String d_t_string(uint64_t tag, rust::String x);
rust::Vec<rust::String> d_t_vec_str(uint64_t tag, rust::Vec<rust::String> x);
Rec d_t_rec(uint64_t tag, Rec x);
Tok d_t_tok(uint64_t tag, Tok x);
}
