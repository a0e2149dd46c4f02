#pragma once
#include "rust/cxx.h"
#include <exception>
#include <string>
namespace rt {
struct NotStd {
  std::string text; // may contain anything, also NUL
};
} // namespace rt
namespace rust {
namespace behavior {
template <typename Try, typename Fail>
static void trycatch(Try &&func, Fail &&fail) noexcept try {
  func();
} catch (const rt::NotStd &e) {
  fail(e.text);
} catch (const std::exception &e) {
  fail(e.what());
}
} // namespace behavior
} // namespace rust
