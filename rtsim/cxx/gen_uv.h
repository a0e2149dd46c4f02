// generated by gen_uv.py
#pragma once
#include "rtsim/cxx/types.h"
#include "rtsim/src/gen_bridge.rs.h"
namespace rt {
uint64_t uv_digest_u8(const std::vector<uint8_t> &v);
void uv_push_u8(std::vector<uint8_t> &v, uint64_t id);
void uv_insert_u8(std::vector<uint8_t> &v, size_t at, uint64_t id);
void uv_erase_u8(std::vector<uint8_t> &v, size_t at);
void uv_fill_u8(std::vector<uint8_t> &v, uint64_t id, size_t n, size_t fail);
void uv_clear_u8(std::vector<uint8_t> &v);
void uv_shrink_u8(std::vector<uint8_t> &v);
void uv_swap_u8(std::vector<uint8_t> &v, std::vector<uint8_t> &w);
std::unique_ptr<std::vector<uint8_t>> uv_make_u8(uint64_t id, size_t n);
std::unique_ptr<std::vector<uint8_t>> uv_pass_u8(std::unique_ptr<std::vector<uint8_t>> v);
uint64_t uv_eat_u8(std::unique_ptr<std::vector<uint8_t>> v);
uint64_t uv_edig_u8(const uint8_t &e);
void uv_eset_u8(uint8_t &e, uint64_t id);
uint64_t uv_digest_i32(const std::vector<int32_t> &v);
void uv_push_i32(std::vector<int32_t> &v, uint64_t id);
void uv_insert_i32(std::vector<int32_t> &v, size_t at, uint64_t id);
void uv_erase_i32(std::vector<int32_t> &v, size_t at);
void uv_fill_i32(std::vector<int32_t> &v, uint64_t id, size_t n, size_t fail);
void uv_clear_i32(std::vector<int32_t> &v);
void uv_shrink_i32(std::vector<int32_t> &v);
void uv_swap_i32(std::vector<int32_t> &v, std::vector<int32_t> &w);
std::unique_ptr<std::vector<int32_t>> uv_make_i32(uint64_t id, size_t n);
std::unique_ptr<std::vector<int32_t>> uv_pass_i32(std::unique_ptr<std::vector<int32_t>> v);
uint64_t uv_eat_i32(std::unique_ptr<std::vector<int32_t>> v);
uint64_t uv_edig_i32(const int32_t &e);
void uv_eset_i32(int32_t &e, uint64_t id);
uint64_t uv_digest_f64(const std::vector<double> &v);
void uv_push_f64(std::vector<double> &v, uint64_t id);
void uv_insert_f64(std::vector<double> &v, size_t at, uint64_t id);
void uv_erase_f64(std::vector<double> &v, size_t at);
void uv_fill_f64(std::vector<double> &v, uint64_t id, size_t n, size_t fail);
void uv_clear_f64(std::vector<double> &v);
void uv_shrink_f64(std::vector<double> &v);
void uv_swap_f64(std::vector<double> &v, std::vector<double> &w);
std::unique_ptr<std::vector<double>> uv_make_f64(uint64_t id, size_t n);
std::unique_ptr<std::vector<double>> uv_pass_f64(std::unique_ptr<std::vector<double>> v);
uint64_t uv_eat_f64(std::unique_ptr<std::vector<double>> v);
uint64_t uv_edig_f64(const double &e);
void uv_eset_f64(double &e, uint64_t id);
uint64_t uv_digest_usize(const std::vector<size_t> &v);
void uv_push_usize(std::vector<size_t> &v, uint64_t id);
void uv_insert_usize(std::vector<size_t> &v, size_t at, uint64_t id);
void uv_erase_usize(std::vector<size_t> &v, size_t at);
void uv_fill_usize(std::vector<size_t> &v, uint64_t id, size_t n, size_t fail);
void uv_clear_usize(std::vector<size_t> &v);
void uv_shrink_usize(std::vector<size_t> &v);
void uv_swap_usize(std::vector<size_t> &v, std::vector<size_t> &w);
std::unique_ptr<std::vector<size_t>> uv_make_usize(uint64_t id, size_t n);
std::unique_ptr<std::vector<size_t>> uv_pass_usize(std::unique_ptr<std::vector<size_t>> v);
uint64_t uv_eat_usize(std::unique_ptr<std::vector<size_t>> v);
uint64_t uv_edig_usize(const size_t &e);
void uv_eset_usize(size_t &e, uint64_t id);
uint64_t uv_digest_tok(const std::vector<Tok> &v);
void uv_push_tok(std::vector<Tok> &v, uint64_t id);
void uv_insert_tok(std::vector<Tok> &v, size_t at, uint64_t id);
void uv_erase_tok(std::vector<Tok> &v, size_t at);
void uv_fill_tok(std::vector<Tok> &v, uint64_t id, size_t n, size_t fail);
void uv_clear_tok(std::vector<Tok> &v);
void uv_shrink_tok(std::vector<Tok> &v);
void uv_swap_tok(std::vector<Tok> &v, std::vector<Tok> &w);
std::unique_ptr<std::vector<Tok>> uv_make_tok(uint64_t id, size_t n);
std::unique_ptr<std::vector<Tok>> uv_pass_tok(std::unique_ptr<std::vector<Tok>> v);
uint64_t uv_eat_tok(std::unique_ptr<std::vector<Tok>> v);
uint64_t uv_edig_tok(const Tok &e);
void uv_eset_tok(Tok &e, uint64_t id);
uint64_t uv_digest_txt(const std::vector<Txt> &v);
void uv_push_txt(std::vector<Txt> &v, uint64_t id);
void uv_insert_txt(std::vector<Txt> &v, size_t at, uint64_t id);
void uv_erase_txt(std::vector<Txt> &v, size_t at);
void uv_fill_txt(std::vector<Txt> &v, uint64_t id, size_t n, size_t fail);
void uv_clear_txt(std::vector<Txt> &v);
void uv_shrink_txt(std::vector<Txt> &v);
void uv_swap_txt(std::vector<Txt> &v, std::vector<Txt> &w);
std::unique_ptr<std::vector<Txt>> uv_make_txt(uint64_t id, size_t n);
std::unique_ptr<std::vector<Txt>> uv_pass_txt(std::unique_ptr<std::vector<Txt>> v);
uint64_t uv_eat_txt(std::unique_ptr<std::vector<Txt>> v);
uint64_t uv_edig_txt(const Txt &e);
void uv_eset_txt(Txt &e, uint64_t id);
uint64_t uv_digest_pod(const std::vector<Pod> &v);
void uv_push_pod(std::vector<Pod> &v, uint64_t id);
void uv_insert_pod(std::vector<Pod> &v, size_t at, uint64_t id);
void uv_erase_pod(std::vector<Pod> &v, size_t at);
void uv_fill_pod(std::vector<Pod> &v, uint64_t id, size_t n, size_t fail);
void uv_clear_pod(std::vector<Pod> &v);
void uv_shrink_pod(std::vector<Pod> &v);
void uv_swap_pod(std::vector<Pod> &v, std::vector<Pod> &w);
std::unique_ptr<std::vector<Pod>> uv_make_pod(uint64_t id, size_t n);
std::unique_ptr<std::vector<Pod>> uv_pass_pod(std::unique_ptr<std::vector<Pod>> v);
uint64_t uv_eat_pod(std::unique_ptr<std::vector<Pod>> v);
uint64_t uv_edig_pod(const Pod &e);
void uv_eset_pod(Pod &e, uint64_t id);
uint64_t uv_digest_cstr(const std::vector<std::string> &v);
void uv_push_cstr(std::vector<std::string> &v, uint64_t id);
void uv_insert_cstr(std::vector<std::string> &v, size_t at, uint64_t id);
void uv_erase_cstr(std::vector<std::string> &v, size_t at);
void uv_fill_cstr(std::vector<std::string> &v, uint64_t id, size_t n, size_t fail);
void uv_clear_cstr(std::vector<std::string> &v);
void uv_shrink_cstr(std::vector<std::string> &v);
void uv_swap_cstr(std::vector<std::string> &v, std::vector<std::string> &w);
std::unique_ptr<std::vector<std::string>> uv_make_cstr(uint64_t id, size_t n);
std::unique_ptr<std::vector<std::string>> uv_pass_cstr(std::unique_ptr<std::vector<std::string>> v);
uint64_t uv_eat_cstr(std::unique_ptr<std::vector<std::string>> v);
uint64_t uv_edig_cstr(const std::string &e);
void uv_eset_cstr(std::string &e, uint64_t id);
uint64_t uv_digest_obj(const std::vector<Obj> &v);
void uv_push_obj(std::vector<Obj> &v, uint64_t id);
void uv_insert_obj(std::vector<Obj> &v, size_t at, uint64_t id);
void uv_erase_obj(std::vector<Obj> &v, size_t at);
void uv_fill_obj(std::vector<Obj> &v, uint64_t id, size_t n, size_t fail);
void uv_clear_obj(std::vector<Obj> &v);
void uv_shrink_obj(std::vector<Obj> &v);
void uv_swap_obj(std::vector<Obj> &v, std::vector<Obj> &w);
std::unique_ptr<std::vector<Obj>> uv_make_obj(uint64_t id, size_t n);
std::unique_ptr<std::vector<Obj>> uv_pass_obj(std::unique_ptr<std::vector<Obj>> v);
uint64_t uv_eat_obj(std::unique_ptr<std::vector<Obj>> v);
uint64_t uv_edig_obj(const Obj &e);
void uv_eset_obj(Obj &e, uint64_t id);
uint64_t uv_digest_i8(const std::vector<int8_t> &v);
void uv_push_i8(std::vector<int8_t> &v, uint64_t id);
void uv_insert_i8(std::vector<int8_t> &v, size_t at, uint64_t id);
void uv_erase_i8(std::vector<int8_t> &v, size_t at);
void uv_fill_i8(std::vector<int8_t> &v, uint64_t id, size_t n, size_t fail);
void uv_clear_i8(std::vector<int8_t> &v);
void uv_shrink_i8(std::vector<int8_t> &v);
void uv_swap_i8(std::vector<int8_t> &v, std::vector<int8_t> &w);
std::unique_ptr<std::vector<int8_t>> uv_make_i8(uint64_t id, size_t n);
std::unique_ptr<std::vector<int8_t>> uv_pass_i8(std::unique_ptr<std::vector<int8_t>> v);
uint64_t uv_eat_i8(std::unique_ptr<std::vector<int8_t>> v);
uint64_t uv_edig_i8(const int8_t &e);
void uv_eset_i8(int8_t &e, uint64_t id);
uint64_t uv_digest_u16(const std::vector<uint16_t> &v);
void uv_push_u16(std::vector<uint16_t> &v, uint64_t id);
void uv_insert_u16(std::vector<uint16_t> &v, size_t at, uint64_t id);
void uv_erase_u16(std::vector<uint16_t> &v, size_t at);
void uv_fill_u16(std::vector<uint16_t> &v, uint64_t id, size_t n, size_t fail);
void uv_clear_u16(std::vector<uint16_t> &v);
void uv_shrink_u16(std::vector<uint16_t> &v);
void uv_swap_u16(std::vector<uint16_t> &v, std::vector<uint16_t> &w);
std::unique_ptr<std::vector<uint16_t>> uv_make_u16(uint64_t id, size_t n);
std::unique_ptr<std::vector<uint16_t>> uv_pass_u16(std::unique_ptr<std::vector<uint16_t>> v);
uint64_t uv_eat_u16(std::unique_ptr<std::vector<uint16_t>> v);
uint64_t uv_edig_u16(const uint16_t &e);
void uv_eset_u16(uint16_t &e, uint64_t id);
uint64_t uv_digest_i16(const std::vector<int16_t> &v);
void uv_push_i16(std::vector<int16_t> &v, uint64_t id);
void uv_insert_i16(std::vector<int16_t> &v, size_t at, uint64_t id);
void uv_erase_i16(std::vector<int16_t> &v, size_t at);
void uv_fill_i16(std::vector<int16_t> &v, uint64_t id, size_t n, size_t fail);
void uv_clear_i16(std::vector<int16_t> &v);
void uv_shrink_i16(std::vector<int16_t> &v);
void uv_swap_i16(std::vector<int16_t> &v, std::vector<int16_t> &w);
std::unique_ptr<std::vector<int16_t>> uv_make_i16(uint64_t id, size_t n);
std::unique_ptr<std::vector<int16_t>> uv_pass_i16(std::unique_ptr<std::vector<int16_t>> v);
uint64_t uv_eat_i16(std::unique_ptr<std::vector<int16_t>> v);
uint64_t uv_edig_i16(const int16_t &e);
void uv_eset_i16(int16_t &e, uint64_t id);
uint64_t uv_digest_u32(const std::vector<uint32_t> &v);
void uv_push_u32(std::vector<uint32_t> &v, uint64_t id);
void uv_insert_u32(std::vector<uint32_t> &v, size_t at, uint64_t id);
void uv_erase_u32(std::vector<uint32_t> &v, size_t at);
void uv_fill_u32(std::vector<uint32_t> &v, uint64_t id, size_t n, size_t fail);
void uv_clear_u32(std::vector<uint32_t> &v);
void uv_shrink_u32(std::vector<uint32_t> &v);
void uv_swap_u32(std::vector<uint32_t> &v, std::vector<uint32_t> &w);
std::unique_ptr<std::vector<uint32_t>> uv_make_u32(uint64_t id, size_t n);
std::unique_ptr<std::vector<uint32_t>> uv_pass_u32(std::unique_ptr<std::vector<uint32_t>> v);
uint64_t uv_eat_u32(std::unique_ptr<std::vector<uint32_t>> v);
uint64_t uv_edig_u32(const uint32_t &e);
void uv_eset_u32(uint32_t &e, uint64_t id);
uint64_t uv_digest_u64(const std::vector<uint64_t> &v);
void uv_push_u64(std::vector<uint64_t> &v, uint64_t id);
void uv_insert_u64(std::vector<uint64_t> &v, size_t at, uint64_t id);
void uv_erase_u64(std::vector<uint64_t> &v, size_t at);
void uv_fill_u64(std::vector<uint64_t> &v, uint64_t id, size_t n, size_t fail);
void uv_clear_u64(std::vector<uint64_t> &v);
void uv_shrink_u64(std::vector<uint64_t> &v);
void uv_swap_u64(std::vector<uint64_t> &v, std::vector<uint64_t> &w);
std::unique_ptr<std::vector<uint64_t>> uv_make_u64(uint64_t id, size_t n);
std::unique_ptr<std::vector<uint64_t>> uv_pass_u64(std::unique_ptr<std::vector<uint64_t>> v);
uint64_t uv_eat_u64(std::unique_ptr<std::vector<uint64_t>> v);
uint64_t uv_edig_u64(const uint64_t &e);
void uv_eset_u64(uint64_t &e, uint64_t id);
uint64_t uv_digest_i64(const std::vector<int64_t> &v);
void uv_push_i64(std::vector<int64_t> &v, uint64_t id);
void uv_insert_i64(std::vector<int64_t> &v, size_t at, uint64_t id);
void uv_erase_i64(std::vector<int64_t> &v, size_t at);
void uv_fill_i64(std::vector<int64_t> &v, uint64_t id, size_t n, size_t fail);
void uv_clear_i64(std::vector<int64_t> &v);
void uv_shrink_i64(std::vector<int64_t> &v);
void uv_swap_i64(std::vector<int64_t> &v, std::vector<int64_t> &w);
std::unique_ptr<std::vector<int64_t>> uv_make_i64(uint64_t id, size_t n);
std::unique_ptr<std::vector<int64_t>> uv_pass_i64(std::unique_ptr<std::vector<int64_t>> v);
uint64_t uv_eat_i64(std::unique_ptr<std::vector<int64_t>> v);
uint64_t uv_edig_i64(const int64_t &e);
void uv_eset_i64(int64_t &e, uint64_t id);
uint64_t uv_digest_f32(const std::vector<float> &v);
void uv_push_f32(std::vector<float> &v, uint64_t id);
void uv_insert_f32(std::vector<float> &v, size_t at, uint64_t id);
void uv_erase_f32(std::vector<float> &v, size_t at);
void uv_fill_f32(std::vector<float> &v, uint64_t id, size_t n, size_t fail);
void uv_clear_f32(std::vector<float> &v);
void uv_shrink_f32(std::vector<float> &v);
void uv_swap_f32(std::vector<float> &v, std::vector<float> &w);
std::unique_ptr<std::vector<float>> uv_make_f32(uint64_t id, size_t n);
std::unique_ptr<std::vector<float>> uv_pass_f32(std::unique_ptr<std::vector<float>> v);
uint64_t uv_eat_f32(std::unique_ptr<std::vector<float>> v);
uint64_t uv_edig_f32(const float &e);
void uv_eset_f32(float &e, uint64_t id);
uint64_t uv_digest_isize(const std::vector<rust::isize> &v);
void uv_push_isize(std::vector<rust::isize> &v, uint64_t id);
void uv_insert_isize(std::vector<rust::isize> &v, size_t at, uint64_t id);
void uv_erase_isize(std::vector<rust::isize> &v, size_t at);
void uv_fill_isize(std::vector<rust::isize> &v, uint64_t id, size_t n, size_t fail);
void uv_clear_isize(std::vector<rust::isize> &v);
void uv_shrink_isize(std::vector<rust::isize> &v);
void uv_swap_isize(std::vector<rust::isize> &v, std::vector<rust::isize> &w);
std::unique_ptr<std::vector<rust::isize>> uv_make_isize(uint64_t id, size_t n);
std::unique_ptr<std::vector<rust::isize>> uv_pass_isize(std::unique_ptr<std::vector<rust::isize>> v);
uint64_t uv_eat_isize(std::unique_ptr<std::vector<rust::isize>> v);
uint64_t uv_edig_isize(const rust::isize &e);
void uv_eset_isize(rust::isize &e, uint64_t id);
uint64_t us_digest(const std::string &s);
void us_append(std::string &s, uint64_t id);
void us_resize(std::string &s, size_t n);
void us_erase(std::string &s, size_t at, size_t n);
void us_swap(std::string &s, std::string &t);
std::unique_ptr<std::string> us_pass(std::unique_ptr<std::string> s);
std::shared_ptr<std::string> us_shared(const std::string &s);
uint64_t us_eat(std::unique_ptr<std::string> s);
size_t us_capacity(const std::string &s);
void us_fail(std::string &s, uint64_t id);
}
