// C25
#include "common.h"
#include "utl/for_each_bit_set.h"
using namespace rp;
template <typename T> static void one(T const v) {
  cur("bits of (width, value)", sizeof(T) * 8, v);
  std::vector<unsigned> want, got;
  for (auto b = 0U; b != sizeof(T) * 8; ++b) {
    bool const set = ((static_cast<std::uint64_t>(v) >> b) & 1U) != 0U;
    eq("has_bit_set", utl::has_bit_set(v, b), set);
    if (set) { want.push_back(b); }
  }
  utl::for_each_set_bit(v, [&](unsigned const b) { got.push_back(b); });
  eq("for_each_set_bit", got, want);
}
template <typename T> static void all() {
  for (auto b = 0U; b != sizeof(T) * 8; ++b) { one(static_cast<T>(1ULL << b)); one(static_cast<T>(~(1ULL << b))); }
  one(T{0}); one(static_cast<T>(~0ULL));
  for (int i = 0; i != 1000; ++i) { one(static_cast<T>(rng())); }
}
static void c25() {
  while (more()) { all<std::uint8_t>(); all<std::uint16_t>(); all<std::uint32_t>(); all<std::uint64_t>(); all<std::int8_t>(); all<std::int32_t>(); all<std::int64_t>(); }
}
int main(int c, char** v) { return run(c, v, {{"C25", c25}}); }
