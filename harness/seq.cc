// sequences: joins, diffs, groups, windows, lockstep iteration.
// Elements are opaque one-byte records: the templates can only copy them and
// hand them to the caller's predicates, whose contracts are in the spec.
#include <cstddef>
#include <cstdint>
#include <iterator>
#include <stdexcept>
#include <string_view>
#include <tuple>
#include <utility>
#include "utl/join.h"
#include "utl/sorted_diff.h"
#include "utl/power_set_intersection.h"
#include "utl/equal_ranges_linear.h"
#include "utl/nwise.h"
#include "utl/pairwise.h"
#include "utl/is_uniform.h"
struct el { char c; };
extern "C" {
bool env_lt(el const*, el const*);
bool env_eq(el const*, el const*);
bool env_deep_eq(el const*, el const*);
bool env_pred(el const*);
void cb_match(el const*, el const*, el const*, el const*);
void cb_a(el const*, el const*);
void cb_b(el const*, el const*);
void cb_add(el const*);
void cb_del(el const*);
void cb_change(el const*, el const*);
void cb_pair(el const*, el const*);
void cb_group(el const*, el const*);
void out_text(char const*, size_t);
void cb_window(el const*, el const*, el const*);
}
inline bool operator<(el const& a, el const& b) { return env_lt(&a, &b); }
inline bool operator==(el const& a, el const& b) { return env_eq(&a, &b); }
inline bool operator!=(el const& a, el const& b) { return !env_eq(&a, &b); }
struct seq {
  using iterator = el const*;
  using const_iterator = el const*;
  using value_type = el;
  el const* begin() const { return b_; }
  el const* end() const { return e_; }
  std::size_t size() const { return static_cast<std::size_t>(e_ - b_); }
  friend el const* begin(seq const& s) { return s.b_; }
  friend el const* end(seq const& s) { return s.e_; }
  el const *b_, *e_;
};
namespace {
auto const lt = [](el const& a, el const& b) { return env_lt(&a, &b); };
auto const match = [](el const* a, el const* b, el const* c, el const* d) { cb_match(a, b, c, d); };
auto const fa = [](el const* a, el const* b) { cb_a(a, b); };
auto const fb = [](el const* a, el const* b) { cb_b(a, b); };
}
#define AB el const *a, size_t n, el const *b, size_t m
extern "C" {
void vf_inner_join_it(AB) { utl::inner_join(a, a + n, b, b + m, lt, match); }
void vf_inner_join_it_less(AB) { utl::inner_join(a, a + n, b, b + m, match); }
void vf_inner_join(AB) { utl::inner_join(seq{a, a + n}, seq{b, b + m}, lt, match); }
void vf_inner_join_less(AB) { utl::inner_join(seq{a, a + n}, seq{b, b + m}, match); }
void vf_left_join_it(AB) { utl::left_join(a, a + n, b, b + m, lt, match, fa); }
void vf_left_join_it_less(AB) { utl::left_join(a, a + n, b, b + m, match, fa); }
void vf_left_join(AB) { utl::left_join(seq{a, a + n}, seq{b, b + m}, lt, match, fa); }
void vf_left_join_less(AB) { utl::left_join(seq{a, a + n}, seq{b, b + m}, match, fa); }
void vf_full_join_it(AB) { utl::full_join(a, a + n, b, b + m, lt, match, fa, fb); }
void vf_full_join_it_less(AB) { utl::full_join(a, a + n, b, b + m, match, fa, fb); }
void vf_full_join(AB) { utl::full_join(seq{a, a + n}, seq{b, b + m}, lt, match, fa, fb); }
void vf_full_join_less(AB) { utl::full_join(seq{a, a + n}, seq{b, b + m}, match, fa, fb); }
}
namespace {
struct diff_fn {
  void operator()(utl::op o, el const& e) const { o == utl::op::kAdd ? cb_add(&e) : cb_del(&e); }
  void operator()(el const& x, el const& y) const { cb_change(&x, &y); }
};
auto const deep = [](el const& x, el const& y) { return env_deep_eq(&x, &y); };
auto const pairfn = [](el const& x, el const& y) { cb_pair(&x, &y); };
auto const group = [](el const* x, el const* y) { cb_group(x, y); };
}
extern "C" {
void vf_op_name(bool add) { auto const v = utl::to_str(add ? utl::op::kAdd : utl::op::kDel); out_text(v.data(), v.size()); }
void vf_sorted_diff_it(AB) { utl::sorted_diff(a, a + n, b, b + m, lt, deep, diff_fn{}); }
void vf_sorted_diff(AB) { seq x{a, a + n}, y{b, b + m}; utl::sorted_diff(x, y, lt, deep, diff_fn{}); }
void vf_power_set_it(AB) { utl::power_set_intersection(a, a + n, b, b + m, pairfn, lt); }
void vf_power_set(AB) { seq x{a, a + n}, y{b, b + m}; utl::power_set_intersection(x, y, pairfn); }
void vf_equal_ranges_linear_it(el const* a, size_t n) { utl::equal_ranges_linear(a, a + n, group); }
void vf_equal_ranges_linear(el const* a, size_t n) { utl::equal_ranges_linear(seq{a, a + n}, group); }
void vf_equal_ranges_linear_it_eq(el const* a, size_t n) { utl::equal_ranges_linear(a, a + n, [](el const& x, el const& y) { return env_eq(&x, &y); }, group); }
void vf_equal_ranges_linear_eq(el const* a, size_t n) { utl::equal_ranges_linear(seq{a, a + n}, [](el const& x, el const& y) { return env_eq(&x, &y); }, group); }
}
