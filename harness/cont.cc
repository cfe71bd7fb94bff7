// container helpers.  Elements are opaque one-byte records (order and equality are the caller's: env_lt / env_eq).
// NOINLINE: ^std::vector<(el|unsigned int), std::allocator<(el|unsigned int)> ?>::(vector\(\)|vector\(unsigned long|vector<|emplace_back|push_back|reserve|resize|~vector)
// NOINLINE: ^el& std::vector<el, std::allocator<el> ?>::emplace_back
// NOINLINE: ^std::set<el, .*>::(set\(|insert|begin|end|~set|erase)
// NOINLINE: ^std::pair<std::_Rb_tree_const_iterator<el>, bool> std::set<el, .*>::emplace<
// std::sort & co are replaced by their contract: `sorted_by` havocs the range to a sorted permutation and
// probes that the comparator handed over is the specified order (on two arbitrary elements).
#include <cstddef>
#include <cstdint>
#include <functional>
#include <iterator>
#include <set>
#include <utility>
#include <vector>
#include <tuple>
#include <algorithm>
#include <numeric>
struct el { char c; };
extern "C" {
bool env_lt(el const*, el const*);
bool env_eq(el const*, el const*);
bool env_eq2(el const*, el const*);
bool env_pred(char);
char env_map(char);
void env_any(el*);
void env_cmp(el const*, el const*, bool);
void env_any_index(unsigned*);
void env_cmp_index(unsigned, unsigned, bool);
void env_sort(el*, el*);
void env_nth(el*, el*, el*);
void env_sort_index(unsigned*, unsigned*);
void cb_group(el const*, el const*);
void cb_erase(el const*, el const*);
void cb_insert(el const*, char);
void cb_insert_range(el const*, el const*, el const*);
void cb_push(char);
void cb_val(char);
el* env_alloc(size_t);
el* env_copy(el const*, el const*);
void out_n(size_t);
void out_pos(el const*, bool);
void out_cells(el const*, el const*, size_t);
char env_create();
char* env_find(char);
char* env_end();
size_t env_size();
char* map_insert(char, char);
char* map_insert_at(char const*, char, char);
std::size_t* idx_find(char);
std::size_t* idx_end();
std::size_t* idx_at(char);
std::size_t* idx_emplace(char, std::size_t);
}
inline bool operator<(el const& a, el const& b) { return env_lt(&a, &b); }
inline bool operator==(el const& a, el const& b) { return env_eq(&a, &b); }
inline bool operator!=(el const& a, el const& b) { return !env_eq(&a, &b); }
namespace std {
template <typename C, typename P> requires requires { typename C::opaque; } std::size_t erase_if(C& c, P pred) {
  auto const it = std::remove_if(c.begin(), c.end(), pred);
  auto const n = static_cast<std::size_t>(c.end() - it);
  c.erase(it, c.end());
  return n;
}
template <typename C, typename T> requires requires { typename C::opaque; } std::size_t erase(C& c, T const& x) {
  return std::erase_if(c, [&](auto const& y) { return y == x; });
}
template <typename Cmp> void vf_probe(Cmp& cmp) { el x, y; env_any(&x); env_any(&y); env_cmp(&x, &y, cmp(x, y)); }
template <typename Cmp> void sort(el* a, el* b, Cmp cmp) { vf_probe(cmp); env_sort(a, b); }
inline void sort(el* a, el* b) { auto lt = [](el const& x, el const& y) { return x < y; }; vf_probe(lt); env_sort(a, b); }
template <typename Cmp> void stable_sort(el* a, el* b, Cmp cmp) { std::sort(a, b, cmp); }
inline void stable_sort(el* a, el* b) { std::sort(a, b); }
template <typename Cmp> void nth_element(el* a, el* n, el* b, Cmp cmp) { vf_probe(cmp); env_nth(a, n, b); }
inline void nth_element(el* a, el* n, el* b) { auto lt = [](el const& x, el const& y) { return x < y; }; vf_probe(lt); env_nth(a, n, b); }
template <typename Cmp> void sort(std::vector<unsigned>::iterator a, std::vector<unsigned>::iterator b, Cmp cmp) {
  unsigned x, y; env_any_index(&x); env_any_index(&y); env_cmp_index(x, y, cmp(x, y));
  env_sort_index(a.base(), b.base());
}
template <typename Cmp> void stable_sort(std::vector<unsigned>::iterator a, std::vector<unsigned>::iterator b, Cmp cmp) { std::sort(a, b, cmp); }
}
#include "utl/concat.h"
#include "utl/equal_ranges.h"
#include "utl/erase.h"
#include "utl/erase_duplicates.h"
#include "utl/erase_if.h"
#include "utl/get_or_create.h"
#include "utl/get_or_create_index.h"
#include "utl/helpers/algorithm.h"
#include "utl/insert_sorted.h"
#include "utl/is_uniform.h"
#include "utl/repeat_n.h"
#include "utl/sort_by.h"
#include "utl/to_set.h"
#include "utl/to_vec.h"
struct cont {
  using opaque = void;
  using iterator = el*;
  using const_iterator = el const*;
  using value_type = el;
  using size_type = std::size_t;
  using reference = el&;
  using const_reference = el const&;
  cont() = default;
  cont(el* b, el* e) : b_{b}, e_{e} {}
  explicit cont(std::size_t n) : b_{env_alloc(n)}, e_{b_ + n} {}
  cont(std::size_t n, el const& x) : cont(n) { std::fill(b_, e_, x); }
  el* begin() { return b_; }
  el* end() { return e_; }
  el const* begin() const { return b_; }
  el const* end() const { return e_; }
  el const* cbegin() const { return b_; }
  el const* cend() const { return e_; }
  std::size_t size() const { return static_cast<std::size_t>(e_ - b_); }
  bool empty() const { return b_ == e_; }
  el& operator[](std::size_t i) { return b_[i]; }
  el const& operator[](std::size_t i) const { return b_[i]; }
  el& front() { return *b_; }
  el& back() { return *(e_ - 1); }
  void erase(el const* a, el const* b) { cb_erase(a, b); }
  void resize(std::size_t n) { if (n <= size()) { cb_erase(b_ + n, e_); } else { b_ = env_alloc(n); } }
  void reserve(std::size_t) {}
  void push_back(el x) { cb_push(x.c); }
  el& emplace_back(el x) { cb_push(x.c); return *b_; }
  el* emplace(el const* p, el x) { return insert(p, x); }
  el* insert(el const* p, el x) { cb_insert(p, x.c); return const_cast<el*>(p); }
  void insert(el const* p, el const* a, el const* b) { cb_insert_range(p, a, b); }
  friend el* begin(cont& s) { return s.b_; }
  friend el* end(cont& s) { return s.e_; }
  friend el const* begin(cont const& s) { return s.b_; }
  friend el const* end(cont const& s) { return s.e_; }
  el *b_{}, *e_{};
};
// a container that owns its elements: copying it copies them (env_copy)
struct own {
  own(el* b, el* e) : b_{b}, e_{e} {}
  own(own const& o) : b_{env_copy(o.b_, o.e_)}, e_{b_ + (o.e_ - o.b_)} {}
  std::size_t size() const { return static_cast<std::size_t>(e_ - b_); }
  bool empty() const { return b_ == e_; }
  el& operator[](std::size_t i) { return b_[i]; }
  el const& operator[](std::size_t i) const { return b_[i]; }
  el *b_, *e_;
};
struct sink {
  using value_type = el;
  void reserve(std::size_t) {}
  void push_back(el e) { cb_push(e.c); }
  void emplace_back(el e) { cb_push(e.c); }
  char x;
};
// maps: key -> value; found values live in the spec's memory
struct kv { char first; char& second; };
struct map_it {
  bool operator==(map_it const& o) const { return p == o.p; }
  bool operator!=(map_it const& o) const { return p != o.p; }
  struct arrow { char& second; arrow* operator->() { return this; } };
  arrow operator->() const { return {*p}; }
  char* p;
};
template <bool Hint> struct cmap {
  using key_type = char; using mapped_type = char; using iterator = map_it;
  map_it find(char k) { return {env_find(k)}; }
  map_it end() { return {env_end()}; }
  friend map_it end(cmap&) { return {env_end()}; }
  map_it emplace_hint(map_it i, char k, char v) requires Hint { return {map_insert_at(i.p, k, v)}; }
  std::pair<map_it, bool> emplace(char k, char v) { return {{map_insert(k, v)}, true}; }
  std::pair<map_it, bool> try_emplace(char k, char v) { return emplace(k, v); }
  char x;
};
struct idx_it {
  bool operator==(idx_it const& o) const { return p == o.p; }
  bool operator!=(idx_it const& o) const { return p != o.p; }
  struct arrow { std::size_t& second; arrow* operator->() { return this; } };
  arrow operator->() const { return {*p}; }
  std::size_t* p;
};
struct imap {
  idx_it find(char k) { return {idx_find(k)}; }
  idx_it end() { return {idx_end()}; }
  friend idx_it end(imap&) { return {idx_end()}; }
  std::size_t size() const { return env_size(); }
  std::size_t& operator[](char k) { return *idx_at(k); }
  std::pair<idx_it, bool> emplace(char k, std::size_t v) { return {{idx_emplace(k, v)}, true}; }
  std::pair<idx_it, bool> try_emplace(char k, std::size_t v) { return emplace(k, v); }
  char x;
};
namespace {
auto const lt = [](el const& a, el const& b) { return env_lt(&a, &b); };
auto const eq = [](el const& a, el const& b) { return env_eq(&a, &b); };
auto const eq2 = [](el const& a, el const& b) { return env_eq2(&a, &b); };
auto const pred = [](el const& e) { return env_pred(e.c); };
auto const map = [](el const& e) { return el{env_map(e.c)}; };
auto const group = [](el const* a, el const* b) { cb_group(a, b); };
}
#define A el *a, size_t n
#define C cont s{a, a + n};
extern "C" {
void vf_equal_ranges(A) { C utl::equal_ranges(s, group); }
void vf_equal_ranges_cmp(A) { C utl::equal_ranges(s, lt, group); }
void vf_erase_duplicates(A) { C utl::erase_duplicates(s); }
void vf_erase_duplicates_by(A) { C utl::erase_duplicates(s, lt, eq2); }
void vf_erase_duplicates_part(A, size_t from, size_t to) { C utl::erase_duplicates(s, a + from, a + to, lt, eq2); }
void vf_erase(A, char x) { C utl::erase(s, el{x}); }
void vf_erase_owned(A, char x) { utl::erase(cont{a, a + n}, el{x}); }
void vf_erase_set(std::set<el>* s, char x) { utl::erase(*s, el{x}); }
void vf_erase_set_owned(std::set<el>* s, char x) { utl::erase(std::move(*s), el{x}); }
void vf_erase_if(A) { C utl::erase_if(s, pred); }
void vf_insert_sorted(A, char x) { C auto const r = utl::insert_sorted(s, el{x}, lt); out_pos(r.first, r.second); }
void vf_insert_sorted_less(A, char x) { C auto const r = utl::insert_sorted(s, el{x}); out_pos(r.first, r.second); }
void vf_transform_to_sink(A) { C sink d; utl::transform_to(s, d, map); }
void vf_transform_to(A) { C sink const d = utl::transform_to<sink>(s, map); (void)d; }
void vf_concat(A, el const* b, size_t m) { C cont const t{const_cast<el*>(b), const_cast<el*>(b) + m}; out_n(&utl::concat(s, t) == &s); }
void vf_repeat_n(el const* x, size_t n) { auto const r = utl::repeat_n<el, cont>(*x, n); out_cells(r.b_, r.e_, n); }
char vf_get_or_create(char k) { cmap<true> m; return utl::get_or_create(m, k, [] { return env_create(); }); }
char vf_get_or_create_plain(char k) { cmap<false> m; return utl::get_or_create(m, k, [] { return env_create(); }); }
size_t vf_get_or_create_index(char k) { imap m; return utl::get_or_create_index(m, k); }
bool vf_all_of(A) { C return utl::all_of(s, pred); }
bool vf_any_of(A) { C return utl::any_of(s, pred); }
bool vf_none_of(A) { C return utl::none_of(s, pred); }
el* vf_find_if(A) { C return utl::find_if(s, pred); }
el* vf_find(A, char x) { C return utl::find(s, el{x}); }
size_t vf_count_if(A) { C return static_cast<size_t>(utl::count_if(s, pred)); }
void vf_sort(A) { C utl::sort(s); }
void vf_sort_cmp(A) { C utl::sort(s, lt); }
void vf_nth_element(A, size_t k) { C utl::nth_element(s, k); }
void vf_nth_element_cmp(A, size_t k) { C utl::nth_element(s, k, lt); }
bool vf_is_sorted(A) { C return utl::is_sorted(s, lt); }
void vf_fill(A, char x) { C utl::fill(s, el{x}); }
bool vf_equal(A, el* b, size_t m) { C cont t{b, b + m}; return utl::equal(s, t); }
el* vf_max_element(A) { C return utl::max_element(s, lt); }
el* vf_min_element(A) { C return utl::min_element(s, lt); }
bool vf_is_uniform(A) { C return utl::is_uniform(s); }
bool vf_is_uniform_const(A) { cont const s{a, a + n}; return utl::is_uniform(s); }
bool vf_is_uniform_it(A) { return utl::is_uniform(a, a + n); }
bool vf_is_uniform_lvalues(A) { el* b = a; el* e = a + n; bool const r = utl::is_uniform(b, e); out_n(b == a && e == a + n); return r; }
bool vf_is_uniform_fn(A) { C return utl::is_uniform(s, [](el const& e) { return env_map(e.c); }); }
bool vf_is_uniform_fn_it(A) { return utl::is_uniform(a, a + n, [](el const& e) { return env_map(e.c); }); }
bool vf_is_uniform_fn_lvalues(A) { el* b = a; el* e = a + n; bool const r = utl::is_uniform(b, e, [](el const& x) { return env_map(x.c); }); out_n(b == a && e == a + n); return r; }
#define OUT(v) out_n(v.size()); for (auto const& e : v) cb_val(e.c);
void vf_to_vec(A) { C auto const v = utl::to_vec(s, map); OUT(v) }
void vf_to_vec_const(A) { cont const s{a, a + n}; auto const v = utl::to_vec(s, map); OUT(v) }
void vf_to_vec_it(A) { auto const v = utl::to_vec(a, a + n, map); OUT(v) }
void vf_to_vec_copy(A) { C auto const v = utl::to_vec(s); OUT(v) }
void vf_to_set(A) { C auto const v = utl::to_set(s, map); (void)v; }
void vf_to_set_it(A) { auto const v = utl::to_set(a, a + n, map); (void)v; }
void vf_sort_by(A, el* b, size_t m) { own s{a, a + n}, t{b, b + m}; auto const r = utl::sort_by(s, t); out_cells(std::get<0>(r).b_, std::get<0>(r).e_, 0); out_cells(std::get<1>(r).b_, std::get<1>(r).e_, 1); }
}
