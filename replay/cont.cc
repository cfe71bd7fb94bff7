// C12 C14
#include "common.h"
#include <algorithm>
#include <list>
#include <map>
#include <set>
#include <unordered_map>
#include "utl/concat.h"
#include "utl/erase.h"
#include "utl/erase_duplicates.h"
#include "utl/erase_if.h"
#include "utl/get_or_create.h"
#include "utl/get_or_create_index.h"
#include "utl/helpers/algorithm.h"
#include "utl/insert_sorted.h"
#include "utl/is_uniform.h"
#include "utl/repeat_n.h"
#include "utl/sort_by.h"
#include "utl/to_set.h"
#include "utl/to_vec.h"
using namespace rp;
using V = std::vector<int>;
static bool bit(unsigned m, int x) { return ((m >> (x & 7)) & 1U) != 0; }
static void one(V const& v0, unsigned m, int x) {
  V const v(v0.begin(), v0.end());
  cur("container helpers on", v, m, x);
  auto p = [&](int y) { return bit(m, y); };
  auto f = [&](int y) { return y * 7 + static_cast<int>(m); };
  auto mut = [&](char const* what, V const& want, auto&& fn) { V w(v.begin(), v.end()); fn(w); eq(what, w, want); };
  V e, ei; for (int y : v) { if (y != x) e.push_back(y); if (!p(y)) ei.push_back(y); }
  mut("erase", e, [&](V& w) { utl::erase(w, x); });
  mut("erase_if", ei, [&](V& w) { utl::erase_if(w, p); });
  V u(v); std::sort(u.begin(), u.end());
  V const sorted = u;
  mut("sort", sorted, [&](V& w) { utl::sort(w); });
  V rs(sorted.rbegin(), sorted.rend());
  mut("sort cmp", rs, [&](V& w) { utl::sort(w, [](int a, int b) { return a > b; }); });
  u.erase(std::unique(u.begin(), u.end()), u.end());
  mut("erase_duplicates", u, [&](V& w) { utl::erase_duplicates(w); });
  mut("erase_duplicates by", V(u.rbegin(), u.rend()), [&](V& w) { utl::erase_duplicates(w, [](int a, int b) { return a > b; }, [](int a, int b) { return a == b; }); });
  for (size_t i = 0; i <= v.size(); ++i) for (size_t j = i; j <= v.size(); ++j) {
    V want(v.begin(), v.begin() + (long)i), mid(v.begin() + (long)i, v.begin() + (long)j);
    std::sort(mid.begin(), mid.end()); mid.erase(std::unique(mid.begin(), mid.end()), mid.end());
    want.insert(want.end(), mid.begin(), mid.end()); want.insert(want.end(), v.begin() + (long)j, v.end());
    mut("erase_duplicates part", want, [&](V& w) { utl::erase_duplicates(w, w.begin() + (long)i, w.begin() + (long)j, std::less<>{}, std::equal_to<>{}); });
  }
  { V w(sorted); auto want = w; auto it = std::lower_bound(want.begin(), want.end(), x); bool const ins = it == want.end() || *it != x; auto pos = it - want.begin(); if (ins) want.insert(it, x);
    auto [r, b] = utl::insert_sorted(w, x); eq("insert_sorted reports insertion", b, ins); eq("insert_sorted position", r - w.begin(), pos); eq("insert_sorted", w, want); }
  V im; for (int y : v) im.push_back(f(y));
  eq("to_vec", utl::to_vec(v, f), im);
  eq("to_vec it", utl::to_vec(v.begin(), v.end(), f), im);
  eq("to_vec copy", utl::to_vec(std::list<int>(v.begin(), v.end())), v);
  eq("transform_to", utl::transform_to<V>(v, f), im);
  { V w{1, 2}; utl::transform_to(v, w, f); V want{1, 2}; want.insert(want.end(), im.begin(), im.end()); eq("transform_to appends", w, want); }
  check(utl::to_set(v, f) == std::set<int>(im.begin(), im.end()), "to_set");
  check(utl::to_set(v.begin(), v.end(), f) == std::set<int>(im.begin(), im.end()), "to_set it");
  { V w(v), b{9, 8}; V& r = utl::concat(w, b); check(&r == &w, "concat returns the first"); V want(v); want.push_back(9); want.push_back(8); eq("concat", w, want); }
  eq("repeat_n", utl::repeat_n(x, v.size()), V(v.size(), x));
  eq("all_of", utl::all_of(v, p), std::all_of(v.begin(), v.end(), p));
  eq("any_of", utl::any_of(v, p), std::any_of(v.begin(), v.end(), p));
  eq("none_of", utl::none_of(v, p), std::none_of(v.begin(), v.end(), p));
  eq("find_if", utl::find_if(v, p) - v.begin(), std::find_if(v.begin(), v.end(), p) - v.begin());
  eq("find", utl::find(v, x) - v.begin(), std::find(v.begin(), v.end(), x) - v.begin());
  eq("count_if", utl::count_if(v, p), std::count_if(v.begin(), v.end(), p));
  eq("is_sorted", utl::is_sorted(v, std::less<>{}), std::is_sorted(v.begin(), v.end()));
  eq("max_element", utl::max_element(v, std::less<>{}) - v.begin(), std::max_element(v.begin(), v.end()) - v.begin());
  eq("min_element", utl::min_element(v, std::less<>{}) - v.begin(), std::min_element(v.begin(), v.end()) - v.begin());
  mut("fill", V(v.size(), x), [&](V& w) { utl::fill(w, x); });
  for (auto const& o : {v, e, sorted, im}) { eq("equal", utl::equal(v, o), v == o); }
  for (size_t k = 0; k < v.size(); ++k) {
    V w(v); utl::nth_element(w, k); eq("nth_element", w[k], sorted[k]);
    w = v; utl::nth_element(w, k, std::greater<>{}); eq("nth_element cmp", w[k], rs[k]);
  }
  { V ids; for (size_t i = 0; i < v.size(); ++i) ids.push_back(static_cast<int>(i));
    V order(v), ts(ids);
    auto const [a, b] = utl::sort_by(order, ts);
    eq("sort_by orders", a, sorted); eq("sort_by keeps the original", order, v);
    check(std::get<1>(utl::sort_by(order, std::vector<int>{})).empty(), "sort_by keeps an empty sequence empty");
    std::set<int> seen; for (size_t i = 0; i < b.size(); ++i) { check(seen.insert(b[i]).second && v[static_cast<size_t>(b[i])] == a[i], "sort_by applies one permutation"); } }
  { std::map<int, int> mp; std::unordered_map<int, size_t> ix; V order;
    for (int y : v) {
      bool const known = mp.count(y) != 0; int calls = 0;
      int& r = utl::get_or_create(mp, y, [&] { ++calls; return y + 100; });
      check(r == y + 100 && calls == (known ? 0 : 1) && &r == &mp[y], "get_or_create");
      size_t const want = known ? ix[y] : ix.size();
      eq("get_or_create_index", utl::get_or_create_index(ix, y), want);
      eq("get_or_create_index stores", ix[y], want);
    } }
}
static void c12() {
  all_vecs<int>({0, 1, 2}, 5, [](V const& v) { for (unsigned m : {0U, 1U, 2U, 5U, 7U}) for (int x : {0, 1, 3}) one(v, m, x); });
  while (more()) { V v(rnd(25)); for (auto& x : v) x = static_cast<int>(rnd(9)); one(v, static_cast<unsigned>(rnd(256)), static_cast<int>(rnd(9))); }
}
static void c14() {
  all_vecs<int>({0, 1, 2}, 7, [](V const& v0) {
    V v(v0.begin(), v0.end());
    cur("is_uniform", v);
    bool const u = std::adjacent_find(v.begin(), v.end(), std::not_equal_to<>{}) == v.end();
    auto f = [](int x) { return x / 2; };
    bool const uf = std::adjacent_find(v.begin(), v.end(), [&](int a, int b) { return f(a) != f(b); }) == v.end();
    V const& c = v;
    eq("is_uniform", utl::is_uniform(v), u); eq("is_uniform const", utl::is_uniform(c), u);
    eq("is_uniform it", utl::is_uniform(v.begin(), v.end()), u);
    eq("is_uniform fn", utl::is_uniform(v, f), uf); eq("is_uniform fn it", utl::is_uniform(v.begin(), v.end(), f), uf);
    auto b = v.begin(), e = v.end();
    eq("is_uniform lvalues", utl::is_uniform(b, e), u); check(b == v.begin() && e == v.end(), "iterators unmodified");
    eq("is_uniform fn lvalues", utl::is_uniform(b, e, f), uf); check(b == v.begin() && e == v.end(), "iterators unmodified");
  });
}
int main(int argc, char** argv) { return run(argc, argv, {{"C12", c12}, {"C14", c14}}); }
