// Pre-included by the "portable" variant: bit operations without compiler intrinsics.
#pragma once
#include <cstdint>
#pragma push_macro("__GNUC__")
#pragma push_macro("__clang__")
#undef __GNUC__
#undef __clang__
#include <libcommute/loperator/bit_ops.hpp>
#pragma pop_macro("__clang__")
#pragma pop_macro("__GNUC__")
