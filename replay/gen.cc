// C23
#include "common.h"
#include <concepts>
#include <optional>
#include <type_traits>
#include <utility>
#include "utl/generator.h"
using namespace rp;
using G = utl::generator<int>;
static int alive = 0;
struct life {
  life() { ++alive; }
  life(life const&) { ++alive; }
  ~life() { --alive; }
};
static G body(std::vector<int> const vals, bool const throws) {
  life l;
  for (auto const v : vals) { co_yield v; }
  if (throws) { throw std::runtime_error{"end"}; }
}
struct model {
  std::vector<int> vals;
  bool throws;
  size_t got{0};
  bool threw{false};
};
// false: nothing more may be asked
static bool step(G& g, model& m, int const op) {
  auto const more = m.got < m.vals.size();
  if (!more && (m.threw || (op == 1))) { return false; }
  try {
    if (op == 0) {
      auto const b = static_cast<bool>(g);
      check(more || !m.throws, "the exception of the coroutine is not passed on");
      eq("operator bool", b, more);
      if (!b) { m.threw = true; eq("operator bool again", static_cast<bool>(g), false); return false; }
    } else {
      eq("value", g(), m.vals[m.got]);
      ++m.got;
    }
  } catch (std::runtime_error const&) {
    check(!more && m.throws, "exception though there is a value or none was thrown");
    m.threw = true;
    return false;
  }
  return true;
}
static void use(G& g, model& m, std::vector<int> const& ops) { for (auto const o : ops) { if (!step(g, m, o)) { return; } } }
template <typename T> static void copied(T& g, model& m, std::vector<int> const& o) {
  if constexpr (std::is_copy_constructible_v<T>) { { auto h = g; use(h, m, o); } use(g, m, o); }
}
static void c23() {
  while (more()) {
    auto const mode = rnd(4);
    bool const vec = mode == 0, mv = mode == 1, as = mode == 2;
    std::vector<int> v(rnd(5)), o1(rnd(8)), o2(rnd(8));
    for (auto& x : v) { x = static_cast<int>(rnd(1000)) - 500; }
    for (auto& x : o1) { x = static_cast<int>(rnd(2)); }
    for (auto& x : o2) { x = static_cast<int>(rnd(2)); }
    auto const throws = rnd(3) == 0;
    cur("generator: then (0 to_vec, 1 moved, 2 assigned, 3 used), values, throws, operations (0 bool, 1 value), operations after", mode, v, throws, o1, o2);
    {
      model m{v, throws};
      auto g = body(v, throws);
      use(g, m, o1);
      if (vec) {
        if (!m.threw) {
          auto want = std::vector<int>(v.begin() + static_cast<long>(m.got), v.end());
          try { auto const got = g.to_vec(); check(!throws, "exception lost"); eq("to_vec", got, want); } catch (std::runtime_error const&) { check(throws, "unexpected exception"); }
        }
      } else if (mv) {
        if constexpr (std::is_move_constructible_v<G>) { auto h = G{std::move(g)}; use(h, m, o2); }
      } else if (as) {
        if constexpr (std::is_move_assignable_v<G>) { auto h = body({7, 8}, false); model n{{7, 8}, false}; use(h, n, o2); h = std::move(g); use(h, m, o2); }
      } else {
        copied(g, m, o2);
      }
    }
    eq("coroutines that were not destroyed", alive, 0);
  }
}
int main(int c, char** v) { return run(c, v, {{"C23", c23}}); }
