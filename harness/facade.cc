#include <list>
#include <memory>
#include <type_traits>
#include <utility>
#include "utl/iterator_facade.h"
extern "C" {
// the primitives of the iterators under test; positions are numbers
long cb_increment(long) noexcept;
long cb_decrement(long) noexcept;
long cb_advance(long, long) noexcept;
long cb_distance(long, long) noexcept;
bool cb_equal(long, long) noexcept;
bool cb_end(long) noexcept;
long cb_left(long) noexcept;
int const* cb_ref(long) noexcept;
int cb_value(long) noexcept;
// what an operation returned, and where the iterator is afterwards
void cb_res(long result, long after) noexcept;
}
struct sentinel {};
struct val { int x; };
template <typename D> struct at : utl::iterator_facade<D> {
  at() = default;
  explicit at(long p) : pos{p} {}
  long pos{0};
};
// random access
struct ra : at<ra> {
  using at::at;
  int const& dereference() const { return *cb_ref(pos); }
  void advance(std::ptrdiff_t d) { pos = cb_advance(pos, d); }
  std::ptrdiff_t distance_to(ra const& o) const { return cb_distance(pos, o.pos); }
};
// random access, and everything else
struct al : at<al> {
  using at::at;
  int const& dereference() const { return *cb_ref(pos); }
  void increment() { pos = cb_increment(pos); }
  void decrement() { pos = cb_decrement(pos); }
  void advance(std::ptrdiff_t d) { pos = cb_advance(pos, d); }
  std::ptrdiff_t distance_to(al const& o) const { return cb_distance(pos, o.pos); }
  bool equal_to(al const& o) const { return cb_equal(pos, o.pos); }
};
// bidirectional
struct bi : at<bi> {
  using at::at;
  int const& dereference() const { return *cb_ref(pos); }
  void increment() { pos = cb_increment(pos); }
  void decrement() { pos = cb_decrement(pos); }
  bool equal_to(bi const& o) const { return cb_equal(pos, o.pos); }
};
// bidirectional by advance only
struct ad : at<ad> {
  using at::at;
  int const& dereference() const { return *cb_ref(pos); }
  void advance(std::ptrdiff_t d) { pos = cb_advance(pos, d); }
  bool equal_to(ad const& o) const { return cb_equal(pos, o.pos); }
};
// forward, by value
struct fw : at<fw> {
  using at::at;
  val dereference() const { return val{cb_value(pos)}; }
  void increment() { pos = cb_increment(pos); }
  bool equal_to(fw const& o) const { return cb_equal(pos, o.pos); }
};
// single pass, with a sentinel
struct sp : at<sp> {
  using at::at;
  using sentinel_type = sentinel;
  static constexpr bool single_pass_iterator = true;
  int const& dereference() const { return *cb_ref(pos); }
  void increment() { pos = cb_increment(pos); }
  bool at_end() const { return cb_end(pos); }
  std::ptrdiff_t distance_to(sp const& o) const { return cb_distance(pos, o.pos); }
  std::ptrdiff_t distance_to(sentinel) const { return cb_left(pos); }
};
using P = int const*;
struct wp : utl::iterator_wrapper_facade<wp, P> {
  using iterator_wrapper_facade::iterator_wrapper_facade;
  int const& dereference() const { return *wrapped_iterator; }
  P get() const { return wrapped_iterator; }
};
using LI = std::list<int>::const_iterator;
struct wl : utl::iterator_wrapper_facade<wl, LI> {
  using iterator_wrapper_facade::iterator_wrapper_facade;
  int const& dereference() const { return *wrapped_iterator; }
  std::__detail::_List_node_base const* get() const { return wrapped_iterator._M_node; }
};
template <typename T> constexpr long category() {
  using C = typename std::iterator_traits<T>::iterator_category;
  return std::is_same_v<C, std::random_access_iterator_tag> ? 3 : std::is_same_v<C, std::bidirectional_iterator_tag> ? 2 : std::is_same_v<C, std::forward_iterator_tag> ? 1 : std::is_same_v<C, std::input_iterator_tag> ? 0 : -1;
}
template <typename T> void post_inc_at(T& a) {
  if constexpr (std::is_void_v<decltype(a++)>) { a++; cb_res(0, 0); } else { auto const r = a++; cb_res(reinterpret_cast<long>(r.get()), reinterpret_cast<long>(a.get())); }
}
template <typename T> void post_inc(T& a) {
  if constexpr (std::is_void_v<decltype(a++)>) { a++; cb_res(0, a.pos); } else { auto const r = a++; cb_res(r.pos, a.pos); }
}
#define CAT(T) extern "C" long vf_##T##_category() { return category<T>(); }
#define INC(T) extern "C" { void vf_##T##_preinc(long p) { T a{p}; auto& r = ++a; cb_res(&r == &a ? 1 : 0, a.pos); } void vf_##T##_postinc(long p) { T a{p}; post_inc(a); } }
#define DEC(T) extern "C" { void vf_##T##_predec(long p) { T a{p}; auto& r = --a; cb_res(&r == &a ? 1 : 0, a.pos); } void vf_##T##_postdec(long p) { T a{p}; auto const r = a--; cb_res(r.pos, a.pos); } }
#define REF(T) extern "C" { void vf_##T##_deref(long p) { T const a{p}; auto& r = *a; cb_res(reinterpret_cast<long>(&r), a.pos); } void vf_##T##_arrow(long p) { T const a{p}; cb_res(reinterpret_cast<long>(a.operator->()), a.pos); } }
#define EQ(T) extern "C" { bool vf_##T##_eq(long p, long q) { T const a{p}, b{q}; return a == b; } bool vf_##T##_ne(long p, long q) { T const a{p}, b{q}; return a != b; } }
#define NUM(T, N, D) extern "C" { \
  void vf_##T##_plus_##N(long p, D d) { T const a{p}; auto const r = a + d; cb_res(r.pos, a.pos); } \
  void vf_##T##_rplus_##N(long p, D d) { T const a{p}; auto const r = d + a; cb_res(r.pos, a.pos); } \
  void vf_##T##_minus_##N(long p, D d) { T const a{p}; auto const r = a - d; cb_res(r.pos, a.pos); } \
  void vf_##T##_pluseq_##N(long p, D d) { T a{p}; auto& r = (a += d); cb_res(&r == &a ? 1 : 0, a.pos); } \
  void vf_##T##_minuseq_##N(long p, D d) { T a{p}; auto& r = (a -= d); cb_res(&r == &a ? 1 : 0, a.pos); } \
  void vf_##T##_index_##N(long p, D d) { T const a{p}; auto& r = a[d]; cb_res(reinterpret_cast<long>(&r), a.pos); } }
#define ORD(T) extern "C" { \
  long vf_##T##_diff(long p, long q) { T const a{p}, b{q}; return a - b; } \
  bool vf_##T##_lt(long p, long q) { T const a{p}, b{q}; return a < b; } \
  bool vf_##T##_le(long p, long q) { T const a{p}, b{q}; return a <= b; } \
  bool vf_##T##_gt(long p, long q) { T const a{p}, b{q}; return a > b; } \
  bool vf_##T##_ge(long p, long q) { T const a{p}, b{q}; return a >= b; } }
#define RA(T) CAT(T) INC(T) DEC(T) REF(T) EQ(T) ORD(T) NUM(T, l, long) NUM(T, i, int) NUM(T, u, unsigned)
RA(ra)
RA(al)
CAT(bi) INC(bi) DEC(bi) REF(bi) EQ(bi)
CAT(ad) INC(ad) DEC(ad) REF(ad) EQ(ad)
CAT(fw) INC(fw) EQ(fw)
CAT(sp) INC(sp) REF(sp)
extern "C" {
void vf_fw_deref(long p) { fw const a{p}; auto const r = *a; cb_res(r.x, a.pos); }
void vf_fw_arrow(long p) { fw const a{p}; auto const r = a->x; cb_res(r, a.pos); }
bool vf_sp_eq(long p) { sp const a{p}; return a == sentinel{}; }
bool vf_sp_req(long p) { sp const a{p}; return sentinel{} == a; }
bool vf_sp_ne(long p) { sp const a{p}; return a != sentinel{}; }
bool vf_sp_rne(long p) { sp const a{p}; return sentinel{} != a; }
long vf_sp_left(long p) { sp const a{p}; return sentinel{} - a; }
long vf_wp_category() { return category<wp>(); }
P vf_wp_preinc(P p) { wp a{p}; return (++a).get(); }
void vf_wp_postinc(P p) { wp a{p}; post_inc_at(a); }
P vf_wp_predec(P p) { wp a{p}; return (--a).get(); }
P vf_wp_plus(P p, long d) { wp const a{p}; return (a + d).get(); }
P vf_wp_minus(P p, long d) { wp const a{p}; return (a - d).get(); }
P vf_wp_index(P p, long d) { wp const a{p}; return &a[d]; }
long vf_wp_diff(P p, P q) { wp const a{p}, b{q}; return a - b; }
bool vf_wp_eq(P p, P q) { wp const a{p}, b{q}; return a == b; }
bool vf_wp_ne(P p, P q) { wp const a{p}, b{q}; return a != b; }
bool vf_wp_lt(P p, P q) { wp const a{p}, b{q}; return a < b; }
using N = std::__detail::_List_node_base const*;
long vf_wl_category() { return category<wl>(); }
N vf_wl_preinc(N p) { wl a{LI{p}}; return (++a).get(); }
N vf_wl_predec(N p) { wl a{LI{p}}; return (--a).get(); }
void vf_wl_postinc(N p) { wl a{LI{p}}; post_inc_at(a); }
void vf_wl_postdec(N p) { wl a{LI{p}}; auto const r = a--; cb_res(reinterpret_cast<long>(r.get()), reinterpret_cast<long>(a.get())); }
bool vf_wl_eq(N p, N q) { wl const a{LI{p}}, b{LI{q}}; return a == b; }
bool vf_wl_ne(N p, N q) { wl const a{LI{p}}, b{LI{q}}; return a != b; }
}
