// C13
#include "common.h"
#include <algorithm>
#include <list>
#include <set>
#include "utl/pipes.h"
using namespace rp;
using utl::all; using utl::transform; using utl::remove_if; using utl::take_while; using utl::unique; using utl::for_each; using utl::vec; using utl::iota;
using utl::generate; using utl::count; using utl::sum; using utl::avg; using utl::find; using utl::accumulate; using utl::insert; using utl::emplace_back; using utl::iterable;
using V = std::vector<int>;
struct fns { unsigned p, q, f, g; };
static bool bit(unsigned m, int x) { return ((m >> (x & 7)) & 1U) != 0; }
static int img(unsigned m, int x) { return static_cast<int>((m >> ((x & 3) * 2)) & 3U); }
static V s_keep(V const& v, unsigned m) { V r; for (int x : v) if (!bit(m, x)) r.push_back(x); return r; }
static V s_take(V const& v, unsigned m) { V r; for (int x : v) { if (!bit(m, x)) break; r.push_back(x); } return r; }
static V s_map(V const& v, unsigned m) { V r; for (int x : v) r.push_back(img(m, x)); return r; }
static V s_uniq(V const& v) { V r; for (int x : v) if (r.empty() || r.back() != x) r.push_back(x); return r; }
static void one(V const& v0, fns const& t) {
  V v(v0.begin(), v0.end());
  cur("pipes over", v, t.p, t.q, t.f, t.g);
  auto p = [&](int x) { return bit(t.p, x); };
  auto q = [&](int x) { return bit(t.q, x); };
  auto f = [&](int x) { return img(t.f, x); };
  auto g = [&](int x) { return img(t.g, x); };
  V got;
  struct it { int operator*() const { return *p; } it& operator++() { ++p; return *this; } bool operator!=(it const& o) const { return p != o.p; } int const* p; };
  { V vals; all(it{v.data()}, it{v.data() + v.size()}) | transform(f) | for_each([&](int x) { vals.push_back(x); }); eq("an iterator of values", vals, s_map(v, t.f)); }
  auto out = [&](int x) { got.push_back(x); };
#define P(name, want, expr) { got.clear(); expr | for_each(out); eq(name, got, want); }
  P("all", v, all(v));
  P("all it", v, all(v.begin(), v.end()));
  P("all owned", v, all(V{v}));
  P("transform", s_map(v, t.f), all(v) | transform(f));
  P("remove_if", s_keep(v, t.p), all(v) | remove_if(p));
  P("take_while", s_take(v, t.p), all(v) | take_while(p));
  P("unique", s_uniq(v), all(v) | unique());
  P("transform2", s_map(s_map(v, t.f), t.g), all(v) | transform(f) | transform(g));
  P("transform_remove_if", s_keep(s_map(v, t.f), t.p), all(v) | transform(f) | remove_if(p));
  P("remove_if_transform", s_map(s_keep(v, t.p), t.f), all(v) | remove_if(p) | transform(f));
  P("remove_if2", s_keep(s_keep(v, t.p), t.q), all(v) | remove_if(p) | remove_if(q));
  P("take_while_remove_if", s_keep(s_take(v, t.p), t.q), all(v) | take_while(p) | remove_if(q));
  P("remove_if_take_while", s_take(s_keep(v, t.p), t.q), all(v) | remove_if(p) | take_while(q));
  P("take_while2", s_take(s_take(v, t.p), t.q), all(v) | take_while(p) | take_while(q));
  P("transform_take_while", s_take(s_map(v, t.f), t.p), all(v) | transform(f) | take_while(p));
  P("transform_unique", s_uniq(s_map(v, t.f)), all(v) | transform(f) | unique());
  P("unique_remove_if", s_keep(s_uniq(v), t.p), all(v) | unique() | remove_if(p));
  P("remove_if_unique", s_uniq(s_keep(v, t.p)), all(v) | remove_if(p) | unique());
  P("take_while_unique", s_uniq(s_take(v, t.p)), all(v) | take_while(p) | unique());
  P("unique_take_while", s_take(s_uniq(v), t.p), all(v) | unique() | take_while(p));
  { auto h = all(v) | remove_if(p); auto u = h | take_while(q); auto h2 = h | unique();
    for (int i = 0; i < 2; ++i) { got.clear(); u | for_each(out); eq("named pipeline", got, s_take(s_keep(v, t.p), t.q)); } 
    (void)h2; }
  got.clear(); for (int x : all(v) | iterable()) { out(x); } eq("iterable", got, v);
  got.clear(); for (int x : all(v) | transform(f) | iterable()) { out(x); } eq("transform iterable", got, s_map(v, t.f));
  got.clear(); for (int x : all(v) | remove_if(p) | iterable()) { out(x); } eq("remove_if iterable", got, s_keep(v, t.p));
  { size_t i = 0; auto n = [&] { return i < v.size() ? v[i++] : -1; };
    auto t2 = [&](int x) { return x >= 0 && p(x); };
    got.clear(); generate(n) | take_while(t2) | for_each(out); eq("generate", got, s_take(v, t.p)); }
  auto n_if = [](V const& v, unsigned m) { size_t n = 0; for (int x : v) n += bit(m, x); return n; };
  eq("count", static_cast<size_t>(all(v) | count(p)), n_if(v, t.p));
  eq("count direct", static_cast<size_t>(v | count(p)), n_if(v, t.p));
  eq("count remove_if", static_cast<size_t>(all(v) | remove_if(q) | count(p)), n_if(s_keep(v, t.q), t.p));
  eq("count take_while", static_cast<size_t>(all(v) | take_while(q) | count(p)), n_if(s_take(v, t.q), t.p));
  size_t total = 0; int mx = -7; for (int x : v) { total += static_cast<size_t>(x); mx = std::max(mx, x); }
  eq("sum", static_cast<size_t>(all(v) | sum()), total);
  if (!v.empty()) { std::vector<unsigned char> big; size_t t = 0; for (int x : v) { big.push_back(static_cast<unsigned char>(x + 200)); t += big.back(); } eq("avg bytes", static_cast<double>(all(big) | avg()), static_cast<double>(t) / static_cast<double>(v.size())); eq("sum bytes", static_cast<size_t>(all(big) | sum()), t); }
  if (!v.empty()) { eq("avg", static_cast<double>(all(v) | avg()), static_cast<double>(total) / static_cast<double>(v.size())); }
  eq("max", static_cast<double>(all(v) | utl::max<int>{-7}), static_cast<double>(mx));
  auto first = [](V const& v, unsigned m) { for (int x : v) if (bit(m, x)) return x; return -1; };
  auto opt = [](auto const& r) { return r.has_value() ? static_cast<int>(*r) : -1; };
  eq("find", opt(all(v) | find(p)), first(v, t.p));
  eq("find direct", opt(v | find(p)), first(v, t.p));
  eq("find transform", opt(all(v) | transform(f) | find(p)), first(s_map(v, t.f), t.p));
  eq("find remove_if", opt(all(v) | remove_if(q) | find(p)), first(s_keep(v, t.q), t.p));
  auto fold = [](size_t a, int x) { return a * 31 + static_cast<size_t>(x) + 1; };
  size_t w = 5; for (int x : v) w = fold(w, x);
  eq("accumulate", static_cast<size_t>(all(v) | accumulate(fold, size_t{5})), w);
  eq("accumulate direct", static_cast<size_t>(v | accumulate(fold, size_t{5})), w);
  eq("vec", all(v) | vec(), v);
  eq("remove_if vec", all(v) | remove_if(p) | vec(), s_keep(v, t.p));
  eq("transform vec", all(v) | transform(f) | vec(), s_map(v, t.f));
  eq("emplace_back", all(v) | emplace_back<V>(), v);
  eq("emplace_back_to", all(v) | utl::emplace_back_to<V>(), v);
  std::set<int> const st(v.begin(), v.end());
  check((all(v) | insert<std::set<int>>()) == st, "insert");
  check((v | insert<std::set<int>>()) == st, "insert direct");
  check((V{v} | insert<std::set<int>>()) == st, "insert owned");
  check((all(v) | utl::emplace<std::set<int>>()) == st, "emplace");
  check((v | utl::emplace<std::set<int>>()) == st, "emplace direct");
}
static void c13() {
  for (int a : {0, 1, 5, -3}) for (int b : {0, 1, 5, 7, -3, -5}) {
    cur("iota", a, b);
    V w, g; for (int i = a; i < b; ++i) w.push_back(i);
    if (a <= b) { iota(a, b) | for_each([&](int x) { g.push_back(x); }); eq("iota", g, w); }
  }
  all_vecs<int>({0, 1, 2}, 4, [](V const& v) { for (unsigned p = 0; p < 8; ++p) for (unsigned q = 0; q < 8; q += 1 + p % 3) one(v, {p, q, 0b00011001U + p, 0b01100010U + q}); });
  while (more()) { V v(rnd(12)); for (auto& x : v) x = static_cast<int>(rnd(8)); one(v, {(unsigned)rnd(256), (unsigned)rnd(256), (unsigned)rnd(256), (unsigned)rnd(256)}); }
}
int main(int argc, char** argv) { return run(argc, argv, {{"C13", c13}}); }
