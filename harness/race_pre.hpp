// Forced into every translation unit of the "race" configuration: atomics are std::atomic (so that the compiler hands every
// operation with its memory order to harness/race_rt.cpp), everything else is the FIBER backend.  Nothing in the library is
// edited: these headers are include-once, what is included here wins.
#pragma once
#if __has_include(<yaclib/config.hpp>)
#  include <yaclib/config.hpp>

#define YACLIB_FAULT_ATOMIC 1
#include <yaclib_std/detail/atomic.hpp>
#undef YACLIB_FAULT_ATOMIC
#define YACLIB_FAULT_ATOMIC_FENCE 0
#include <yaclib_std/detail/atomic_fence.hpp>
#undef YACLIB_FAULT_ATOMIC_FENCE
#endif
