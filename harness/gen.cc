// PASSES: coro
// NOINLINE: ^std::vector<int, std::allocator<int> ?>::(vector\(\)|emplace_back|push_back|reserve|~vector)
// NOINLINE: ^int& std::vector<int, std::allocator<int> ?>::emplace_back
#include <coroutine>
#include <concepts>
#include <exception>
#include <type_traits>
#include <utility>
#include <vector>
#include "utl/generator.h"
using G = utl::generator<int>;
extern "C" {
bool cb_step(int id);
int cb_val(int id);
int cb_op();
void cb_bool(bool);
void cb_got(int);
void cb_threw();
void cb_copied();
void cb_vec(int const* b, int const* e);
}
// an arbitrary coroutine: it yields as many values as it likes, any values, and then returns or throws
G body(int id) {
  while (cb_step(id)) {
    co_yield cb_val(id);
  }
}
inline void use(G& g) {
  while (true) {
    auto const op = cb_op();
    if (op == 0) {
      return;
    }
    try {
      if (op == 1) {
        auto const b = static_cast<bool>(g);
        cb_bool(b);
      } else {
        auto const v = g();
        cb_got(v);
      }
    } catch (...) {
      cb_threw();
    }
  }
}
template <typename T>
inline void copied(T& g) {
  if constexpr (std::is_copy_constructible_v<T>) {
    {
      auto h = g;
      use(h);
    }
    use(g);
  }
}
extern "C" {
void vf_use() {
  auto g = body(0);
  use(g);
}
void vf_to_vec() {
  auto g = body(0);
  use(g);
  try {
    auto const v = g.to_vec();
    cb_vec(v.data(), v.data() + v.size());
  } catch (...) {
    cb_threw();
  }
}
void vf_move() {
  auto g = body(0);
  use(g);
  if constexpr (std::is_move_constructible_v<G>) {
    auto h = G{std::move(g)};
    use(h);
  }
}
void vf_copy() {
  auto g = body(0);
  use(g);
  copied(g);
}
void vf_assign() {
  auto g = body(0);
  use(g);
  if constexpr (std::is_move_assignable_v<G>) {
    auto h = body(1);
    h = std::move(g);
    use(h);
  }
}
}
