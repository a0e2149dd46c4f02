// generated by gen_uv.py
#include "rtsim/cxx/uv.h"
namespace rt {
uint64_t uv_digest_u8(const std::vector<uint8_t> &v) { return uv_digest<uint8_t>(v); }
void uv_push_u8(std::vector<uint8_t> &v, uint64_t id) { return uv_push<uint8_t>(v, id); }
void uv_insert_u8(std::vector<uint8_t> &v, size_t at, uint64_t id) { return uv_insert<uint8_t>(v, at, id); }
void uv_erase_u8(std::vector<uint8_t> &v, size_t at) { return uv_erase<uint8_t>(v, at); }
void uv_fill_u8(std::vector<uint8_t> &v, uint64_t id, size_t n, size_t fail) { return uv_fill<uint8_t>(v, id, n, fail); }
void uv_clear_u8(std::vector<uint8_t> &v) { return uv_clear<uint8_t>(v); }
void uv_shrink_u8(std::vector<uint8_t> &v) { return uv_shrink<uint8_t>(v); }
void uv_swap_u8(std::vector<uint8_t> &v, std::vector<uint8_t> &w) { return uv_swap<uint8_t>(v, w); }
std::unique_ptr<std::vector<uint8_t>> uv_make_u8(uint64_t id, size_t n) { return uv_make<uint8_t>(id, n); }
std::unique_ptr<std::vector<uint8_t>> uv_pass_u8(std::unique_ptr<std::vector<uint8_t>> v) { return uv_pass<uint8_t>(std::move(v)); }
uint64_t uv_eat_u8(std::unique_ptr<std::vector<uint8_t>> v) { return uv_eat<uint8_t>(std::move(v)); }
uint64_t uv_edig_u8(const uint8_t &e) { return uv_edig<uint8_t>(e); }
void uv_eset_u8(uint8_t &e, uint64_t id) { return uv_eset<uint8_t>(e, id); }
uint64_t uv_digest_i32(const std::vector<int32_t> &v) { return uv_digest<int32_t>(v); }
void uv_push_i32(std::vector<int32_t> &v, uint64_t id) { return uv_push<int32_t>(v, id); }
void uv_insert_i32(std::vector<int32_t> &v, size_t at, uint64_t id) { return uv_insert<int32_t>(v, at, id); }
void uv_erase_i32(std::vector<int32_t> &v, size_t at) { return uv_erase<int32_t>(v, at); }
void uv_fill_i32(std::vector<int32_t> &v, uint64_t id, size_t n, size_t fail) { return uv_fill<int32_t>(v, id, n, fail); }
void uv_clear_i32(std::vector<int32_t> &v) { return uv_clear<int32_t>(v); }
void uv_shrink_i32(std::vector<int32_t> &v) { return uv_shrink<int32_t>(v); }
void uv_swap_i32(std::vector<int32_t> &v, std::vector<int32_t> &w) { return uv_swap<int32_t>(v, w); }
std::unique_ptr<std::vector<int32_t>> uv_make_i32(uint64_t id, size_t n) { return uv_make<int32_t>(id, n); }
std::unique_ptr<std::vector<int32_t>> uv_pass_i32(std::unique_ptr<std::vector<int32_t>> v) { return uv_pass<int32_t>(std::move(v)); }
uint64_t uv_eat_i32(std::unique_ptr<std::vector<int32_t>> v) { return uv_eat<int32_t>(std::move(v)); }
uint64_t uv_edig_i32(const int32_t &e) { return uv_edig<int32_t>(e); }
void uv_eset_i32(int32_t &e, uint64_t id) { return uv_eset<int32_t>(e, id); }
uint64_t uv_digest_f64(const std::vector<double> &v) { return uv_digest<double>(v); }
void uv_push_f64(std::vector<double> &v, uint64_t id) { return uv_push<double>(v, id); }
void uv_insert_f64(std::vector<double> &v, size_t at, uint64_t id) { return uv_insert<double>(v, at, id); }
void uv_erase_f64(std::vector<double> &v, size_t at) { return uv_erase<double>(v, at); }
void uv_fill_f64(std::vector<double> &v, uint64_t id, size_t n, size_t fail) { return uv_fill<double>(v, id, n, fail); }
void uv_clear_f64(std::vector<double> &v) { return uv_clear<double>(v); }
void uv_shrink_f64(std::vector<double> &v) { return uv_shrink<double>(v); }
void uv_swap_f64(std::vector<double> &v, std::vector<double> &w) { return uv_swap<double>(v, w); }
std::unique_ptr<std::vector<double>> uv_make_f64(uint64_t id, size_t n) { return uv_make<double>(id, n); }
std::unique_ptr<std::vector<double>> uv_pass_f64(std::unique_ptr<std::vector<double>> v) { return uv_pass<double>(std::move(v)); }
uint64_t uv_eat_f64(std::unique_ptr<std::vector<double>> v) { return uv_eat<double>(std::move(v)); }
uint64_t uv_edig_f64(const double &e) { return uv_edig<double>(e); }
void uv_eset_f64(double &e, uint64_t id) { return uv_eset<double>(e, id); }
uint64_t uv_digest_usize(const std::vector<size_t> &v) { return uv_digest<size_t>(v); }
void uv_push_usize(std::vector<size_t> &v, uint64_t id) { return uv_push<size_t>(v, id); }
void uv_insert_usize(std::vector<size_t> &v, size_t at, uint64_t id) { return uv_insert<size_t>(v, at, id); }
void uv_erase_usize(std::vector<size_t> &v, size_t at) { return uv_erase<size_t>(v, at); }
void uv_fill_usize(std::vector<size_t> &v, uint64_t id, size_t n, size_t fail) { return uv_fill<size_t>(v, id, n, fail); }
void uv_clear_usize(std::vector<size_t> &v) { return uv_clear<size_t>(v); }
void uv_shrink_usize(std::vector<size_t> &v) { return uv_shrink<size_t>(v); }
void uv_swap_usize(std::vector<size_t> &v, std::vector<size_t> &w) { return uv_swap<size_t>(v, w); }
std::unique_ptr<std::vector<size_t>> uv_make_usize(uint64_t id, size_t n) { return uv_make<size_t>(id, n); }
std::unique_ptr<std::vector<size_t>> uv_pass_usize(std::unique_ptr<std::vector<size_t>> v) { return uv_pass<size_t>(std::move(v)); }
uint64_t uv_eat_usize(std::unique_ptr<std::vector<size_t>> v) { return uv_eat<size_t>(std::move(v)); }
uint64_t uv_edig_usize(const size_t &e) { return uv_edig<size_t>(e); }
void uv_eset_usize(size_t &e, uint64_t id) { return uv_eset<size_t>(e, id); }
uint64_t uv_digest_tok(const std::vector<Tok> &v) { return uv_digest<Tok>(v); }
void uv_push_tok(std::vector<Tok> &v, uint64_t id) { return uv_push<Tok>(v, id); }
void uv_insert_tok(std::vector<Tok> &v, size_t at, uint64_t id) { return uv_insert<Tok>(v, at, id); }
void uv_erase_tok(std::vector<Tok> &v, size_t at) { return uv_erase<Tok>(v, at); }
void uv_fill_tok(std::vector<Tok> &v, uint64_t id, size_t n, size_t fail) { return uv_fill<Tok>(v, id, n, fail); }
void uv_clear_tok(std::vector<Tok> &v) { return uv_clear<Tok>(v); }
void uv_shrink_tok(std::vector<Tok> &v) { return uv_shrink<Tok>(v); }
void uv_swap_tok(std::vector<Tok> &v, std::vector<Tok> &w) { return uv_swap<Tok>(v, w); }
std::unique_ptr<std::vector<Tok>> uv_make_tok(uint64_t id, size_t n) { return uv_make<Tok>(id, n); }
std::unique_ptr<std::vector<Tok>> uv_pass_tok(std::unique_ptr<std::vector<Tok>> v) { return uv_pass<Tok>(std::move(v)); }
uint64_t uv_eat_tok(std::unique_ptr<std::vector<Tok>> v) { return uv_eat<Tok>(std::move(v)); }
uint64_t uv_edig_tok(const Tok &e) { return uv_edig<Tok>(e); }
void uv_eset_tok(Tok &e, uint64_t id) { return uv_eset<Tok>(e, id); }
uint64_t uv_digest_txt(const std::vector<Txt> &v) { return uv_digest<Txt>(v); }
void uv_push_txt(std::vector<Txt> &v, uint64_t id) { return uv_push<Txt>(v, id); }
void uv_insert_txt(std::vector<Txt> &v, size_t at, uint64_t id) { return uv_insert<Txt>(v, at, id); }
void uv_erase_txt(std::vector<Txt> &v, size_t at) { return uv_erase<Txt>(v, at); }
void uv_fill_txt(std::vector<Txt> &v, uint64_t id, size_t n, size_t fail) { return uv_fill<Txt>(v, id, n, fail); }
void uv_clear_txt(std::vector<Txt> &v) { return uv_clear<Txt>(v); }
void uv_shrink_txt(std::vector<Txt> &v) { return uv_shrink<Txt>(v); }
void uv_swap_txt(std::vector<Txt> &v, std::vector<Txt> &w) { return uv_swap<Txt>(v, w); }
std::unique_ptr<std::vector<Txt>> uv_make_txt(uint64_t id, size_t n) { return uv_make<Txt>(id, n); }
std::unique_ptr<std::vector<Txt>> uv_pass_txt(std::unique_ptr<std::vector<Txt>> v) { return uv_pass<Txt>(std::move(v)); }
uint64_t uv_eat_txt(std::unique_ptr<std::vector<Txt>> v) { return uv_eat<Txt>(std::move(v)); }
uint64_t uv_edig_txt(const Txt &e) { return uv_edig<Txt>(e); }
void uv_eset_txt(Txt &e, uint64_t id) { return uv_eset<Txt>(e, id); }
uint64_t uv_digest_pod(const std::vector<Pod> &v) { return uv_digest<Pod>(v); }
void uv_push_pod(std::vector<Pod> &v, uint64_t id) { return uv_push<Pod>(v, id); }
void uv_insert_pod(std::vector<Pod> &v, size_t at, uint64_t id) { return uv_insert<Pod>(v, at, id); }
void uv_erase_pod(std::vector<Pod> &v, size_t at) { return uv_erase<Pod>(v, at); }
void uv_fill_pod(std::vector<Pod> &v, uint64_t id, size_t n, size_t fail) { return uv_fill<Pod>(v, id, n, fail); }
void uv_clear_pod(std::vector<Pod> &v) { return uv_clear<Pod>(v); }
void uv_shrink_pod(std::vector<Pod> &v) { return uv_shrink<Pod>(v); }
void uv_swap_pod(std::vector<Pod> &v, std::vector<Pod> &w) { return uv_swap<Pod>(v, w); }
std::unique_ptr<std::vector<Pod>> uv_make_pod(uint64_t id, size_t n) { return uv_make<Pod>(id, n); }
std::unique_ptr<std::vector<Pod>> uv_pass_pod(std::unique_ptr<std::vector<Pod>> v) { return uv_pass<Pod>(std::move(v)); }
uint64_t uv_eat_pod(std::unique_ptr<std::vector<Pod>> v) { return uv_eat<Pod>(std::move(v)); }
uint64_t uv_edig_pod(const Pod &e) { return uv_edig<Pod>(e); }
void uv_eset_pod(Pod &e, uint64_t id) { return uv_eset<Pod>(e, id); }
uint64_t uv_digest_cstr(const std::vector<std::string> &v) { return uv_digest<std::string>(v); }
void uv_push_cstr(std::vector<std::string> &v, uint64_t id) { return uv_push<std::string>(v, id); }
void uv_insert_cstr(std::vector<std::string> &v, size_t at, uint64_t id) { return uv_insert<std::string>(v, at, id); }
void uv_erase_cstr(std::vector<std::string> &v, size_t at) { return uv_erase<std::string>(v, at); }
void uv_fill_cstr(std::vector<std::string> &v, uint64_t id, size_t n, size_t fail) { return uv_fill<std::string>(v, id, n, fail); }
void uv_clear_cstr(std::vector<std::string> &v) { return uv_clear<std::string>(v); }
void uv_shrink_cstr(std::vector<std::string> &v) { return uv_shrink<std::string>(v); }
void uv_swap_cstr(std::vector<std::string> &v, std::vector<std::string> &w) { return uv_swap<std::string>(v, w); }
std::unique_ptr<std::vector<std::string>> uv_make_cstr(uint64_t id, size_t n) { return uv_make<std::string>(id, n); }
std::unique_ptr<std::vector<std::string>> uv_pass_cstr(std::unique_ptr<std::vector<std::string>> v) { return uv_pass<std::string>(std::move(v)); }
uint64_t uv_eat_cstr(std::unique_ptr<std::vector<std::string>> v) { return uv_eat<std::string>(std::move(v)); }
uint64_t uv_edig_cstr(const std::string &e) { return uv_edig<std::string>(e); }
void uv_eset_cstr(std::string &e, uint64_t id) { return uv_eset<std::string>(e, id); }
uint64_t uv_digest_obj(const std::vector<Obj> &v) { return uv_digest<Obj>(v); }
void uv_push_obj(std::vector<Obj> &v, uint64_t id) { return uv_push<Obj>(v, id); }
void uv_insert_obj(std::vector<Obj> &v, size_t at, uint64_t id) { return uv_insert<Obj>(v, at, id); }
void uv_erase_obj(std::vector<Obj> &v, size_t at) { return uv_erase<Obj>(v, at); }
void uv_fill_obj(std::vector<Obj> &v, uint64_t id, size_t n, size_t fail) { return uv_fill<Obj>(v, id, n, fail); }
void uv_clear_obj(std::vector<Obj> &v) { return uv_clear<Obj>(v); }
void uv_shrink_obj(std::vector<Obj> &v) { return uv_shrink<Obj>(v); }
void uv_swap_obj(std::vector<Obj> &v, std::vector<Obj> &w) { return uv_swap<Obj>(v, w); }
std::unique_ptr<std::vector<Obj>> uv_make_obj(uint64_t id, size_t n) { return uv_make<Obj>(id, n); }
std::unique_ptr<std::vector<Obj>> uv_pass_obj(std::unique_ptr<std::vector<Obj>> v) { return uv_pass<Obj>(std::move(v)); }
uint64_t uv_eat_obj(std::unique_ptr<std::vector<Obj>> v) { return uv_eat<Obj>(std::move(v)); }
uint64_t uv_edig_obj(const Obj &e) { return uv_edig<Obj>(e); }
void uv_eset_obj(Obj &e, uint64_t id) { return uv_eset<Obj>(e, id); }
uint64_t uv_digest_i8(const std::vector<int8_t> &v) { return uv_digest<int8_t>(v); }
void uv_push_i8(std::vector<int8_t> &v, uint64_t id) { return uv_push<int8_t>(v, id); }
void uv_insert_i8(std::vector<int8_t> &v, size_t at, uint64_t id) { return uv_insert<int8_t>(v, at, id); }
void uv_erase_i8(std::vector<int8_t> &v, size_t at) { return uv_erase<int8_t>(v, at); }
void uv_fill_i8(std::vector<int8_t> &v, uint64_t id, size_t n, size_t fail) { return uv_fill<int8_t>(v, id, n, fail); }
void uv_clear_i8(std::vector<int8_t> &v) { return uv_clear<int8_t>(v); }
void uv_shrink_i8(std::vector<int8_t> &v) { return uv_shrink<int8_t>(v); }
void uv_swap_i8(std::vector<int8_t> &v, std::vector<int8_t> &w) { return uv_swap<int8_t>(v, w); }
std::unique_ptr<std::vector<int8_t>> uv_make_i8(uint64_t id, size_t n) { return uv_make<int8_t>(id, n); }
std::unique_ptr<std::vector<int8_t>> uv_pass_i8(std::unique_ptr<std::vector<int8_t>> v) { return uv_pass<int8_t>(std::move(v)); }
uint64_t uv_eat_i8(std::unique_ptr<std::vector<int8_t>> v) { return uv_eat<int8_t>(std::move(v)); }
uint64_t uv_edig_i8(const int8_t &e) { return uv_edig<int8_t>(e); }
void uv_eset_i8(int8_t &e, uint64_t id) { return uv_eset<int8_t>(e, id); }
uint64_t uv_digest_u16(const std::vector<uint16_t> &v) { return uv_digest<uint16_t>(v); }
void uv_push_u16(std::vector<uint16_t> &v, uint64_t id) { return uv_push<uint16_t>(v, id); }
void uv_insert_u16(std::vector<uint16_t> &v, size_t at, uint64_t id) { return uv_insert<uint16_t>(v, at, id); }
void uv_erase_u16(std::vector<uint16_t> &v, size_t at) { return uv_erase<uint16_t>(v, at); }
void uv_fill_u16(std::vector<uint16_t> &v, uint64_t id, size_t n, size_t fail) { return uv_fill<uint16_t>(v, id, n, fail); }
void uv_clear_u16(std::vector<uint16_t> &v) { return uv_clear<uint16_t>(v); }
void uv_shrink_u16(std::vector<uint16_t> &v) { return uv_shrink<uint16_t>(v); }
void uv_swap_u16(std::vector<uint16_t> &v, std::vector<uint16_t> &w) { return uv_swap<uint16_t>(v, w); }
std::unique_ptr<std::vector<uint16_t>> uv_make_u16(uint64_t id, size_t n) { return uv_make<uint16_t>(id, n); }
std::unique_ptr<std::vector<uint16_t>> uv_pass_u16(std::unique_ptr<std::vector<uint16_t>> v) { return uv_pass<uint16_t>(std::move(v)); }
uint64_t uv_eat_u16(std::unique_ptr<std::vector<uint16_t>> v) { return uv_eat<uint16_t>(std::move(v)); }
uint64_t uv_edig_u16(const uint16_t &e) { return uv_edig<uint16_t>(e); }
void uv_eset_u16(uint16_t &e, uint64_t id) { return uv_eset<uint16_t>(e, id); }
uint64_t uv_digest_i16(const std::vector<int16_t> &v) { return uv_digest<int16_t>(v); }
void uv_push_i16(std::vector<int16_t> &v, uint64_t id) { return uv_push<int16_t>(v, id); }
void uv_insert_i16(std::vector<int16_t> &v, size_t at, uint64_t id) { return uv_insert<int16_t>(v, at, id); }
void uv_erase_i16(std::vector<int16_t> &v, size_t at) { return uv_erase<int16_t>(v, at); }
void uv_fill_i16(std::vector<int16_t> &v, uint64_t id, size_t n, size_t fail) { return uv_fill<int16_t>(v, id, n, fail); }
void uv_clear_i16(std::vector<int16_t> &v) { return uv_clear<int16_t>(v); }
void uv_shrink_i16(std::vector<int16_t> &v) { return uv_shrink<int16_t>(v); }
void uv_swap_i16(std::vector<int16_t> &v, std::vector<int16_t> &w) { return uv_swap<int16_t>(v, w); }
std::unique_ptr<std::vector<int16_t>> uv_make_i16(uint64_t id, size_t n) { return uv_make<int16_t>(id, n); }
std::unique_ptr<std::vector<int16_t>> uv_pass_i16(std::unique_ptr<std::vector<int16_t>> v) { return uv_pass<int16_t>(std::move(v)); }
uint64_t uv_eat_i16(std::unique_ptr<std::vector<int16_t>> v) { return uv_eat<int16_t>(std::move(v)); }
uint64_t uv_edig_i16(const int16_t &e) { return uv_edig<int16_t>(e); }
void uv_eset_i16(int16_t &e, uint64_t id) { return uv_eset<int16_t>(e, id); }
uint64_t uv_digest_u32(const std::vector<uint32_t> &v) { return uv_digest<uint32_t>(v); }
void uv_push_u32(std::vector<uint32_t> &v, uint64_t id) { return uv_push<uint32_t>(v, id); }
void uv_insert_u32(std::vector<uint32_t> &v, size_t at, uint64_t id) { return uv_insert<uint32_t>(v, at, id); }
void uv_erase_u32(std::vector<uint32_t> &v, size_t at) { return uv_erase<uint32_t>(v, at); }
void uv_fill_u32(std::vector<uint32_t> &v, uint64_t id, size_t n, size_t fail) { return uv_fill<uint32_t>(v, id, n, fail); }
void uv_clear_u32(std::vector<uint32_t> &v) { return uv_clear<uint32_t>(v); }
void uv_shrink_u32(std::vector<uint32_t> &v) { return uv_shrink<uint32_t>(v); }
void uv_swap_u32(std::vector<uint32_t> &v, std::vector<uint32_t> &w) { return uv_swap<uint32_t>(v, w); }
std::unique_ptr<std::vector<uint32_t>> uv_make_u32(uint64_t id, size_t n) { return uv_make<uint32_t>(id, n); }
std::unique_ptr<std::vector<uint32_t>> uv_pass_u32(std::unique_ptr<std::vector<uint32_t>> v) { return uv_pass<uint32_t>(std::move(v)); }
uint64_t uv_eat_u32(std::unique_ptr<std::vector<uint32_t>> v) { return uv_eat<uint32_t>(std::move(v)); }
uint64_t uv_edig_u32(const uint32_t &e) { return uv_edig<uint32_t>(e); }
void uv_eset_u32(uint32_t &e, uint64_t id) { return uv_eset<uint32_t>(e, id); }
uint64_t uv_digest_u64(const std::vector<uint64_t> &v) { return uv_digest<uint64_t>(v); }
void uv_push_u64(std::vector<uint64_t> &v, uint64_t id) { return uv_push<uint64_t>(v, id); }
void uv_insert_u64(std::vector<uint64_t> &v, size_t at, uint64_t id) { return uv_insert<uint64_t>(v, at, id); }
void uv_erase_u64(std::vector<uint64_t> &v, size_t at) { return uv_erase<uint64_t>(v, at); }
void uv_fill_u64(std::vector<uint64_t> &v, uint64_t id, size_t n, size_t fail) { return uv_fill<uint64_t>(v, id, n, fail); }
void uv_clear_u64(std::vector<uint64_t> &v) { return uv_clear<uint64_t>(v); }
void uv_shrink_u64(std::vector<uint64_t> &v) { return uv_shrink<uint64_t>(v); }
void uv_swap_u64(std::vector<uint64_t> &v, std::vector<uint64_t> &w) { return uv_swap<uint64_t>(v, w); }
std::unique_ptr<std::vector<uint64_t>> uv_make_u64(uint64_t id, size_t n) { return uv_make<uint64_t>(id, n); }
std::unique_ptr<std::vector<uint64_t>> uv_pass_u64(std::unique_ptr<std::vector<uint64_t>> v) { return uv_pass<uint64_t>(std::move(v)); }
uint64_t uv_eat_u64(std::unique_ptr<std::vector<uint64_t>> v) { return uv_eat<uint64_t>(std::move(v)); }
uint64_t uv_edig_u64(const uint64_t &e) { return uv_edig<uint64_t>(e); }
void uv_eset_u64(uint64_t &e, uint64_t id) { return uv_eset<uint64_t>(e, id); }
uint64_t uv_digest_i64(const std::vector<int64_t> &v) { return uv_digest<int64_t>(v); }
void uv_push_i64(std::vector<int64_t> &v, uint64_t id) { return uv_push<int64_t>(v, id); }
void uv_insert_i64(std::vector<int64_t> &v, size_t at, uint64_t id) { return uv_insert<int64_t>(v, at, id); }
void uv_erase_i64(std::vector<int64_t> &v, size_t at) { return uv_erase<int64_t>(v, at); }
void uv_fill_i64(std::vector<int64_t> &v, uint64_t id, size_t n, size_t fail) { return uv_fill<int64_t>(v, id, n, fail); }
void uv_clear_i64(std::vector<int64_t> &v) { return uv_clear<int64_t>(v); }
void uv_shrink_i64(std::vector<int64_t> &v) { return uv_shrink<int64_t>(v); }
void uv_swap_i64(std::vector<int64_t> &v, std::vector<int64_t> &w) { return uv_swap<int64_t>(v, w); }
std::unique_ptr<std::vector<int64_t>> uv_make_i64(uint64_t id, size_t n) { return uv_make<int64_t>(id, n); }
std::unique_ptr<std::vector<int64_t>> uv_pass_i64(std::unique_ptr<std::vector<int64_t>> v) { return uv_pass<int64_t>(std::move(v)); }
uint64_t uv_eat_i64(std::unique_ptr<std::vector<int64_t>> v) { return uv_eat<int64_t>(std::move(v)); }
uint64_t uv_edig_i64(const int64_t &e) { return uv_edig<int64_t>(e); }
void uv_eset_i64(int64_t &e, uint64_t id) { return uv_eset<int64_t>(e, id); }
uint64_t uv_digest_f32(const std::vector<float> &v) { return uv_digest<float>(v); }
void uv_push_f32(std::vector<float> &v, uint64_t id) { return uv_push<float>(v, id); }
void uv_insert_f32(std::vector<float> &v, size_t at, uint64_t id) { return uv_insert<float>(v, at, id); }
void uv_erase_f32(std::vector<float> &v, size_t at) { return uv_erase<float>(v, at); }
void uv_fill_f32(std::vector<float> &v, uint64_t id, size_t n, size_t fail) { return uv_fill<float>(v, id, n, fail); }
void uv_clear_f32(std::vector<float> &v) { return uv_clear<float>(v); }
void uv_shrink_f32(std::vector<float> &v) { return uv_shrink<float>(v); }
void uv_swap_f32(std::vector<float> &v, std::vector<float> &w) { return uv_swap<float>(v, w); }
std::unique_ptr<std::vector<float>> uv_make_f32(uint64_t id, size_t n) { return uv_make<float>(id, n); }
std::unique_ptr<std::vector<float>> uv_pass_f32(std::unique_ptr<std::vector<float>> v) { return uv_pass<float>(std::move(v)); }
uint64_t uv_eat_f32(std::unique_ptr<std::vector<float>> v) { return uv_eat<float>(std::move(v)); }
uint64_t uv_edig_f32(const float &e) { return uv_edig<float>(e); }
void uv_eset_f32(float &e, uint64_t id) { return uv_eset<float>(e, id); }
uint64_t uv_digest_isize(const std::vector<rust::isize> &v) { return uv_digest<rust::isize>(v); }
void uv_push_isize(std::vector<rust::isize> &v, uint64_t id) { return uv_push<rust::isize>(v, id); }
void uv_insert_isize(std::vector<rust::isize> &v, size_t at, uint64_t id) { return uv_insert<rust::isize>(v, at, id); }
void uv_erase_isize(std::vector<rust::isize> &v, size_t at) { return uv_erase<rust::isize>(v, at); }
void uv_fill_isize(std::vector<rust::isize> &v, uint64_t id, size_t n, size_t fail) { return uv_fill<rust::isize>(v, id, n, fail); }
void uv_clear_isize(std::vector<rust::isize> &v) { return uv_clear<rust::isize>(v); }
void uv_shrink_isize(std::vector<rust::isize> &v) { return uv_shrink<rust::isize>(v); }
void uv_swap_isize(std::vector<rust::isize> &v, std::vector<rust::isize> &w) { return uv_swap<rust::isize>(v, w); }
std::unique_ptr<std::vector<rust::isize>> uv_make_isize(uint64_t id, size_t n) { return uv_make<rust::isize>(id, n); }
std::unique_ptr<std::vector<rust::isize>> uv_pass_isize(std::unique_ptr<std::vector<rust::isize>> v) { return uv_pass<rust::isize>(std::move(v)); }
uint64_t uv_eat_isize(std::unique_ptr<std::vector<rust::isize>> v) { return uv_eat<rust::isize>(std::move(v)); }
uint64_t uv_edig_isize(const rust::isize &e) { return uv_edig<rust::isize>(e); }
void uv_eset_isize(rust::isize &e, uint64_t id) { return uv_eset<rust::isize>(e, id); }
}
