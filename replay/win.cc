// C10
#include "common.h"
#include <algorithm>
#include <list>
#include <tuple>
#include "utl/nwise.h"
#include "utl/pairwise.h"
#include "utl/zip.h"
#include "utl/enumerate.h"
using namespace rp;
using V = std::vector<int>;
using ev = std::vector<long>;
template <typename T> static ev win(T const& v, size_t k) { ev w; for (size_t i = 0; i + k <= v.size(); ++i) for (size_t j = 0; j < k; ++j) w.push_back(v[i + j]); return w; }
template <unsigned N, typename S> static ev got_nwise(S&& s) { ev g; for (auto const& t : utl::nwise<N>(std::forward<S>(s))) { std::apply([&](auto const&... x) { (g.push_back(x), ...); }, t); } return g; }
static void one(V const& v0) {
  V v(v0.begin(), v0.end());
  cur("windows of", v);
  eq("nwise<1>", got_nwise<1>(v), win(v, 1));
  eq("nwise<3>", got_nwise<3>(v), win(v, 3));
  eq("nwise<4>", got_nwise<4>(v), win(v, 4));
  eq("nwise<3> owned", got_nwise<3>(V{v}), win(v, 3));
  eq("nwise<3> size", utl::nwise<3>(v).size(), v.size() < 3 ? 0 : v.size() - 2);
  ev g;
  for (auto const& [x, y] : utl::pairwise(v)) { g.push_back(x); g.push_back(y); }
  eq("pairwise", g, win(v, 2));
  g.clear();
  for (auto const& [x, y] : utl::pairwise(V{v})) { g.push_back(x); g.push_back(y); }
  eq("pairwise owned", g, win(v, 2));
  g.clear();
  { auto const e = utl::pairwise_end(v); for (auto it = utl::pairwise_begin(v); it != e; ++it) { auto const [x, y] = *it; g.push_back(x); g.push_back(y); } }
  eq("pairwise iterators", g, win(v, 2));
  size_t n = 0;
  for (auto const [i, x] : utl::enumerate(v)) { check(i == n && &x == &v[n], "enumerate: number and element"); ++n; }
  eq("enumerate", n, v.size());
  { std::vector<int const*> ps; for (auto const& x : v) { ps.push_back(&x); } size_t k = 0; for (auto const [i, x] : utl::enumerate(ps)) { check(i == k && x == ps[k], "enumerate: number and pointer"); ++k; } eq("enumerate pointers", k, v.size()); }
  n = 0;
  for (auto const& [i, x] : utl::enumerate(V{v})) { check(i == n && x == v[n], "enumerate owned"); ++n; }
  eq("enumerate owned", n, v.size());
  { V u(v); for (auto&& [i, x] : utl::enumerate(u)) { x = 77 + static_cast<int>(i); } for (size_t i = 0; i < u.size(); ++i) check(u[i] == 77 + static_cast<int>(i), "enumerate write"); }
  { std::list<int> l(v.begin(), v.end()); n = 0; for (auto const [i, x] : utl::enumerate(l)) { check(i == n && x == v[n], "enumerate list"); ++n; } eq("enumerate list", n, v.size()); }
  auto e = utl::enumerate(v);
  eq("enumerate length", static_cast<size_t>(e.end() - e.begin()), v.size());
  for (size_t i = 0; i < v.size(); ++i) for (size_t j = 0; j <= i; ++j) {
    for (int sgn = 0; sgn < 2; ++sgn) {
      auto it = e.begin(); sgn ? it += static_cast<long>(i) : it -= -static_cast<long>(i); sgn ? it += -static_cast<long>(j) : it -= static_cast<long>(j);
      auto const [k, x] = *it; check(k == i - j && &x == &v[i - j], "enumerate moves by signed distances");
    }
    auto it = e.begin(); it += static_cast<long>(i); it -= static_cast<long>(j);
    { auto const [k, x] = *it; check(k == i - j && &x == &v[i - j], "enumerate random access"); }
    check(static_cast<size_t>(it - e.begin()) == i - j, "enumerate distance");
    if (i - j + 1 < v.size()) {
      auto a = it; ++a; { auto const [k, x] = *a; check(k == i - j + 1 && &x == &v[i - j + 1], "enumerate ++"); } --a; { auto const [k, x] = *a; check(k == i - j, "enumerate --"); }
      a = it; { auto const [k, x] = *a++; check(k == i - j, "enumerate x++"); } { auto const [k, x] = *a--; check(k == i - j + 1 && &x == &v[i - j + 1], "enumerate x--"); }
    }
  }
}
static void two(V const& a0, V const& b0) {
  V a(a0.begin(), a0.end()), b(b0.begin(), b0.end());
  cur("zip of", a, b);
  auto const n = std::min(a.size(), b.size());
  auto lock = [&](char const* what, auto&& z, size_t n) {
    size_t i = 0;
    for (auto&& t : z) { check(i < n && std::get<0>(t) == a[i] && std::get<1>(t) == b[i], what); ++i; }
    eq(what, i, n);
  };
  bool threw = false;
  try { lock("zip", utl::zip(a, b), n); } catch (std::exception const&) { threw = true; }
  eq("zip rejects exactly different sizes", threw, a.size() != b.size());
  threw = false;
  try { lock("czip", utl::czip(a, b), n); } catch (std::exception const&) { threw = true; }
  eq("czip rejects exactly different sizes", threw, a.size() != b.size());
  if (a.size() == b.size()) {
    lock("zip_no_size_check", utl::zip_no_size_check(a, b), n);
    lock("zip_unchecked", utl::zip_unchecked(a, b), n);
    lock("czip_no_size_check", utl::czip_no_size_check(a, b), n);
    lock("czip_unchecked", utl::czip_unchecked(a, b), n);
    lock("zip owned", utl::zip(V{a}, V{b}), n);
    { V w(a.size(), -1); for (auto&& [x, y] : utl::zip(w, b)) x = y; check(w == b, "zip writes"); }
    eq("zip size", utl::zip(a, b).size(), n);
    auto z = utl::zip(a, b);
    for (size_t i = 0; i < n; ++i) { auto&& [x, y] = z[i]; check(&x == &a[i] && &y == &b[i], "zip[]"); }
    auto it = z.end(); size_t k = n;
    while (it != z.begin()) { --it; --k; auto&& [x, y] = *it; check(&x == &a[k] && &y == &b[k], "zip backwards"); }
    eq("zip backwards", k, 0);
    for (size_t i = 0; i <= n; ++i) for (size_t j = 0; j <= n; ++j) {
      auto x = z.begin(), y = z.begin(); for (size_t t = 0; t < i; ++t) ++x; for (size_t t = 0; t < j; ++t) ++y;
      check((x == y) == (i == j) && (x != y) == (i != j) && (x < y) == (i < j) && (x > y) == (i > j) && (x <= y) == (i <= j) && (x >= y) == (i >= j), "zip iterator comparison");
    }
  }
  V c(b);
  threw = false; size_t i = 0;
  try { for (auto&& [x, y, u] : utl::zip(a, b, c)) { check(x == a[i] && y == b[i] && u == c[i], "zip3"); ++i; } } catch (std::exception const&) { threw = true; }
  eq("zip3 rejects exactly different sizes", threw, a.size() != b.size());
  for (size_t m = 0; m < 4; ++m) {
    V x(1), y(1), z(1), u(1);
    (m == 0 ? x : m == 1 ? y : m == 2 ? z : u).push_back(1);
    threw = false;
    try { (void)utl::zip(x, y, z, u).size(); } catch (std::exception const&) { threw = true; }
    check(threw, "zip of four rejects a different size at any position");
  }
}
static void c10() {
  all_vecs<int>({1, 2}, 7, one);
  V v; for (int i = 0; i < 40; ++i) { v.push_back(i * 3); one(v); }
  for (size_t i = 0; i < 7; ++i) for (size_t j = 0; j < 7; ++j) two(V(v.begin(), v.begin() + static_cast<long>(i)), V(v.begin() + 8, v.begin() + 8 + static_cast<long>(j)));
}
int main(int argc, char** argv) { return run(argc, argv, {{"C10", c10}}); }
