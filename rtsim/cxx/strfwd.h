#pragma once
#include "rust/cxx.h"
namespace rt {
rust::String zc_pass(rust::String s);
rust::Str zc_pass_str(rust::Str s);
void zc_append(rust::String &s, uint64_t id);
uint64_t zc_digest(const rust::String &s);
rust::String zc_parse(rust::Slice<const uint8_t> bytes);
rust::Str zc_view(rust::Slice<const uint8_t> bytes);
} // namespace rt
