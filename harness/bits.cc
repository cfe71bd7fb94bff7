#include <cstdint>
#include "utl/for_each_bit_set.h"
extern "C" void cb_bit(unsigned);
#define B(n, T) extern "C" bool vf_has_##n(T v, unsigned b) { return utl::has_bit_set(v, b); } extern "C" void vf_each_##n(T v) { utl::for_each_set_bit(v, [](unsigned b) { cb_bit(b); }); }
B(u8, std::uint8_t)
B(u16, std::uint16_t)
B(u32, std::uint32_t)
B(u64, std::uint64_t)
B(i8, std::int8_t)
B(i32, std::int32_t)
B(i64, std::int64_t)
