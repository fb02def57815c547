// A catalogue of generators built of (almost) every combinator of the library,
// with stateful functors whose state lives on the heap. Pure and deterministic.
#pragma once
#include "mon.hpp"
#include <rapidcheck.h>
#include <rapidcheck/state.h>

namespace genfam {
using namespace rc;
static const int kFamilies = 42;
// The values of family k shown as text (so all families share a type).
Gen<std::string> make(int k, uint64_t h);
const char *name(int k);
// Typed variants, to reach the sequences and shrinkables without a mapping on top.
Gen<int> makeInt(int k, uint64_t h);
static const int kIntFamilies = 16;
Gen<std::vector<int>> makeVec(int k, uint64_t h);
static const int kVecFamilies = 10;
} // namespace genfam
