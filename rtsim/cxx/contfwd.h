#pragma once
#include "rtsim/cxx/types.h"
#include "rtsim/src/gen_bridge.rs.h"
namespace rt {
struct Rec2;
struct Pod2;
} // namespace rt
