// C07 C08 C09 C11
#include "common.h"
#include <algorithm>
#include <set>
#include <string_view>
#include <tuple>
#include "utl/join.h"
#include "utl/sorted_diff.h"
#include "utl/power_set_intersection.h"
#include "utl/equal_ranges_linear.h"
#include "utl/equal_ranges.h"
using namespace rp;
struct el { int k; int id; };
inline bool operator<(el const& a, el const& b) { return a.k < b.k; }
inline bool operator==(el const& a, el const& b) { return a.k == b.k; }
inline bool operator!=(el const& a, el const& b) { return a.k != b.k; }
using V = std::vector<el>;
static V mk(std::vector<int> const& k) { V v; v.reserve(k.size()); int id = 0; for (auto x : k) v.push_back({x, id++}); return v; }
using ev = std::vector<int>;
static auto const lt = [](el const& a, el const& b) { return a.k < b.k; };
// pairs of sorted sequences
static void pairs(std::function<void(std::vector<int> const&, std::vector<int> const&)> const& f, bool strict = false) {
  std::vector<std::vector<int>> all;
  all_vecs<int>({0, 1, 2}, 4, [&](auto const& v) { if (std::is_sorted(v.begin(), v.end()) && (!strict || std::adjacent_find(v.begin(), v.end()) == v.end())) all.push_back(v); });
  for (auto const& a : all) for (auto const& b : all) f(a, b);
  while (more()) {
    auto r = [&] { std::vector<int> v(rnd(9)); for (auto& x : v) x = static_cast<int>(rnd(8)); std::sort(v.begin(), v.end()); if (strict) v.erase(std::unique(v.begin(), v.end()), v.end()); return v; };
    f(r(), r());
  }
}
static void c07() {
  pairs([](auto const& ka, auto const& kb) {
    cur("joins of", ka, kb);
    auto const a = mk(ka), b = mk(kb);
    auto want = [&](bool la, bool lb) {
      ev w;
      size_t i = 0, j = 0;
      auto run = [](V const& v, size_t i) { auto e = i; while (e < v.size() && v[e].k == v[i].k) ++e; return e; };
      while (i < a.size() || j < b.size()) {
        if (j == b.size() || (i < a.size() && a[i].k < b[j].k)) { auto e = run(a, i); if (la) { w.insert(w.end(), {1, (int)i, (int)e}); } i = e; }
        else if (i == a.size() || b[j].k < a[i].k) { auto e = run(b, j); if (lb) { w.insert(w.end(), {2, (int)j, (int)e}); } j = e; }
        else { auto e = run(a, i), g = run(b, j); w.insert(w.end(), {3, (int)i, (int)e, (int)j, (int)g}); i = e; j = g; }
      }
      return w;
    };
    ev got;
    auto I = [](auto const& v, auto it) { return static_cast<int>(it - v.begin()); };
    auto m = [&](auto x, auto y, auto z, auto u) { got.insert(got.end(), {3, I(a, x), I(a, y), I(b, z), I(b, u)}); };
    auto fa = [&](auto x, auto y) { got.insert(got.end(), {1, I(a, x), I(a, y)}); };
    auto fb = [&](auto x, auto y) { got.insert(got.end(), {2, I(b, x), I(b, y)}); };
    auto c = [&](char const* what, ev const& w, auto&& f) { got.clear(); f(); eq(what, got, w); };
    auto const wi = want(false, false), wl = want(true, false), wf = want(true, true);
    c("inner_join", wi, [&] { utl::inner_join(a, b, lt, m); });
    c("inner_join less", wi, [&] { utl::inner_join(a, b, m); });
    c("inner_join it", wi, [&] { utl::inner_join(a.begin(), a.end(), b.begin(), b.end(), lt, m); });
    c("inner_join it less", wi, [&] { utl::inner_join(a.begin(), a.end(), b.begin(), b.end(), m); });
    c("left_join", wl, [&] { utl::left_join(a, b, lt, m, fa); });
    c("left_join less", wl, [&] { utl::left_join(a, b, m, fa); });
    c("left_join it", wl, [&] { utl::left_join(a.begin(), a.end(), b.begin(), b.end(), lt, m, fa); });
    c("left_join it less", wl, [&] { utl::left_join(a.begin(), a.end(), b.begin(), b.end(), m, fa); });
    c("full_join", wf, [&] { utl::full_join(a, b, lt, m, fa, fb); });
    c("full_join less", wf, [&] { utl::full_join(a, b, m, fa, fb); });
    c("full_join it", wf, [&] { utl::full_join(a.begin(), a.end(), b.begin(), b.end(), lt, m, fa, fb); });
    c("full_join it less", wf, [&] { utl::full_join(a.begin(), a.end(), b.begin(), b.end(), m, fa, fb); });
  });
}
struct diff_fn {
  ev& o; V const &a, &b;
  void operator()(utl::op x, el const& e) const { o.insert(o.end(), {x == utl::op::kAdd ? 2 : 1, e.id}); }
  void operator()(el const& x, el const& y) const { o.insert(o.end(), {3, x.id, y.id}); }
};
static void c08() {
  cur("to_str");
  eq("name of an addition", std::string(utl::to_str(utl::op::kAdd)), std::string("add"));
  eq("name of a deletion", std::string(utl::to_str(utl::op::kDel)), std::string("del"));
  pairs([](auto const& ka, auto const& kb) {
    for (unsigned mask = 0; mask < 8; ++mask) {
      cur("sorted_diff of", ka, kb, mask);
      auto const a = mk(ka), b = mk(kb);
      auto same = [&](el const& x, el const& y) { return ((mask >> ((x.id + 2 * y.id) % 3)) & 1U) != 0; };
      ev w, got;
      size_t i = 0, j = 0;
      while (i < a.size() || j < b.size()) {
        if (j == b.size() || (i < a.size() && a[i].k < b[j].k)) { w.insert(w.end(), {1, (int)i++}); }
        else if (i == a.size() || b[j].k < a[i].k) { w.insert(w.end(), {2, (int)j++}); }
        else { if (!same(a[i], b[j])) w.insert(w.end(), {3, (int)i, (int)j}); ++i; ++j; }
      }
      utl::sorted_diff(a, b, lt, same, diff_fn{got, a, b});
      eq("sorted_diff", got, w);
      got.clear();
      utl::sorted_diff(a.begin(), a.end(), b.begin(), b.end(), lt, same, diff_fn{got, a, b});
      eq("sorted_diff it", got, w);
    }
  });
}
static void c09() {
  pairs([](auto const& ka, auto const& kb) {
    cur("power_set_intersection of", ka, kb);
    auto const a = mk(ka), b = mk(kb);
    std::multiset<std::pair<int, int>> w, g;
    for (auto& x : a) for (auto& y : b) if (x.k == y.k) w.emplace(x.id, y.id);
    auto f = [&](el const& x, el const& y) { g.emplace(x.id, y.id); };
    utl::power_set_intersection(a, b, f);
    check(g == w, "power_set_intersection: not exactly the pairs of equal elements");
    g.clear();
    utl::power_set_intersection(a.begin(), a.end(), b.begin(), b.end(), f, lt);
    check(g == w, "power_set_intersection it: not exactly the pairs of equal elements");
  });
}
static void c11_one(std::vector<int> const& k) {
  cur("equal ranges of", k);
  auto a = mk(k);
  auto groups = [](V const& v, bool sorted) {
    ev w;
    (void)sorted;
    for (size_t i = 0; i < v.size();) { auto e = i; while (e < v.size() && v[e].k == v[i].k) ++e; w.insert(w.end(), {(int)i, (int)e}); i = e; }
    return w;
  };
  ev got;
  auto f = [&](auto x, auto y) { got.insert(got.end(), {(int)(x - a.begin()), (int)(y - a.begin())}); };
  auto e = [](el const& x, el const& y) { return x.k == y.k; };
  auto w = groups(a, false);
  utl::equal_ranges_linear(a, f); eq("equal_ranges_linear", got, w); got.clear();
  utl::equal_ranges_linear(a.begin(), a.end(), f); eq("equal_ranges_linear it", got, w); got.clear();
  utl::equal_ranges_linear(a, e, f); eq("equal_ranges_linear eq", got, w); got.clear();
  utl::equal_ranges_linear(a.begin(), a.end(), e, f); eq("equal_ranges_linear it eq", got, w); got.clear();
  auto near = [](el const& x, el const& y) { return std::abs(x.k - y.k) < 2; };
  ev wn;
  for (size_t i = 0; i < a.size();) { auto n = i; while (n < a.size() && std::abs(a[n].k - a[i].k) < 2) ++n; wn.insert(wn.end(), {(int)i, (int)n}); i = n; }
  utl::equal_ranges_linear(a, near, f); eq("equal_ranges_linear near", got, wn); got.clear();
  utl::equal_ranges_linear(a.begin(), a.end(), near, f); eq("equal_ranges_linear it near", got, wn); got.clear();
  auto s = k;
  std::sort(s.begin(), s.end());
  auto const ws = groups(mk(s), true);
  utl::equal_ranges(a, f); eq("equal_ranges", got, ws); got.clear();
  check(std::is_sorted(a.begin(), a.end()), "equal_ranges sorts");
  a = mk(k);
  utl::equal_ranges(a, [](el const& x, el const& y) { return x.k > y.k; }, f);
  std::reverse(s.begin(), s.end());
  eq("equal_ranges cmp", got, groups(mk(s), true));
  got.clear();
  a = mk(k);
  utl::equal_ranges(a, [](el const& x, el const& y) { return x.k / 2 < y.k / 2; }, f);
  ev coarse;
  for (size_t i = 0; i < a.size();) { auto e = i; while (e < a.size() && a[e].k / 2 == a[i].k / 2) ++e; coarse.insert(coarse.end(), {(int)i, (int)e}); i = e; }
  eq("equal_ranges cmp that is coarser than <", got, coarse);
}
static void c11() {
  all_vecs<int>({0, 1, 2}, 6, c11_one);
  while (more()) { std::vector<int> v(rnd(30)); auto const m = 1 + rnd(9); for (auto& x : v) x = static_cast<int>(rnd(m)); c11_one(v); }
}
int main(int argc, char** argv) { return run(argc, argv, {{"C07", c07}, {"C08", c08}, {"C09", c09}, {"C11", c11}}); }
