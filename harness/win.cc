// windows and lockstep iteration: nwise, pairwise, zip, czip, enumerate
// NOINLINE: utl::fail<
// NOINLINE: ^std::runtime_error::
#include <cstddef>
#include <cstdint>
#include <iterator>
#include <stdexcept>
#include <string_view>
#include <tuple>
#include <utility>
#include "utl/nwise.h"
#include "utl/pairwise.h"
#include "utl/zip.h"
#include "utl/enumerate.h"
struct el { char c; };
extern "C" {
void cb_w1(el const*);
void cb_w2(el const*, el const*);
void cb_w3(el const*, el const*, el const*);
void cb_w4(el const*, el const*, el const*, el const*);
void cb_numbered(size_t, el const*);
void out_n(size_t);
}
struct seq {
  using iterator = el const*;
  using const_iterator = el const*;
  using value_type = el;
  el const* begin() const { return b_; }
  el const* end() const { return e_; }
  std::size_t size() const { return static_cast<std::size_t>(e_ - b_); }
  friend el const* begin(seq const& s) { return s.b_; }
  friend el const* end(seq const& s) { return s.e_; }
  el const *b_, *e_;
};
struct mseq {   // mutable elements
  using iterator = el*;
  using const_iterator = el const*;
  using value_type = el;
  el* begin() { return b_; }
  el* end() { return e_; }
  el const* begin() const { return b_; }
  el const* end() const { return e_; }
  std::size_t size() const { return static_cast<std::size_t>(e_ - b_); }
  friend el* begin(mseq& s) { return s.b_; }
  friend el* end(mseq& s) { return s.e_; }
  el *b_, *e_;
};
struct pseq {   // pointers
  el* const* begin() const { return b_; }
  el* const* end() const { return e_; }
  friend el* const* begin(pseq const& s) { return s.b_; }
  friend el* const* end(pseq const& s) { return s.e_; }
  el* const *b_, *const *e_;
};
extern "C" {
void vf_pairwise(el const* a, size_t n) { seq s{a, a + n}; for (auto const& [x, y] : utl::pairwise(s)) { cb_w2(&x, &y); } }
void vf_pairwise_owned(el const* a, size_t n) { for (auto const& [x, y] : utl::pairwise(seq{a, a + n})) { cb_w2(&x, &y); } }
void vf_pairwise_it(el const* a, size_t n) {
  seq s{a, a + n};
  auto const e = utl::pairwise_end(s);
  for (auto it = utl::pairwise_begin(s); it != e; ++it) { auto const [x, y] = *it; cb_w2(&x, &y); }
}
void vf_nwise1(el const* a, size_t n) { seq s{a, a + n}; for (auto const& [x] : utl::nwise<1>(s)) { cb_w1(&x); } }
void vf_nwise3(el const* a, size_t n) { seq s{a, a + n}; for (auto const& [x, y, z] : utl::nwise<3>(s)) { cb_w3(&x, &y, &z); } }
void vf_nwise4(el const* a, size_t n) { seq s{a, a + n}; for (auto const& [x, y, z, u] : utl::nwise<4>(s)) { cb_w4(&x, &y, &z, &u); } }
void vf_nwise3_owned(el const* a, size_t n) { for (auto const& [x, y, z] : utl::nwise<3>(seq{a, a + n})) { cb_w3(&x, &y, &z); } }
void vf_nwise3_size(el const* a, size_t n) { seq s{a, a + n}; out_n(utl::nwise<3>(s).size()); }
void vf_nwise3_owned_size(el const* a, size_t n) { out_n(utl::nwise<3>(seq{a, a + n}).size()); }

void vf_zip(el const* a, size_t n, el const* b, size_t m) { seq x{a, a + n}, y{b, b + m}; for (auto&& [p, q] : utl::zip(x, y)) { cb_w2(&p, &q); } }
void vf_zip_it(el const* a, size_t n, el const* b, size_t m) { seq x{a, a + n}, y{b, b + m}; auto z = utl::zip(x, y); for (auto i = begin(z); i != end(z); ++i) { auto&& [p, q] = *i; cb_w2(&p, &q); } }
void vf_zip_cit(el const* a, size_t n, el const* b, size_t m) { seq x{a, a + n}, y{b, b + m}; auto const z = utl::zip(x, y); auto const e = end(z); for (auto i = begin(z); i != e; ++i) { auto const& j = i; auto&& [p, q] = *j; cb_w2(&p, &q); } }
void vf_zip_owned(el const* a, size_t n, el const* b, size_t m) { for (auto&& [p, q] : utl::zip(seq{a, a + n}, seq{b, b + m})) { cb_w2(&p, &q); } }
void vf_czip(el* a, size_t n, el* b, size_t m) { mseq x{a, a + n}, y{b, b + m}; for (auto&& [p, q] : utl::czip(x, y)) { cb_w2(&p, &q); } }
void vf_zip_unchecked(el const* a, size_t n, el const* b, size_t m) { seq x{a, a + n}, y{b, b + m}; for (auto&& [p, q] : utl::zip_unchecked(x, y)) { cb_w2(&p, &q); } }
void vf_zip_no_size_check(el const* a, size_t n, el const* b, size_t m) { seq x{a, a + n}, y{b, b + m}; for (auto&& [p, q] : utl::zip_no_size_check(x, y)) { cb_w2(&p, &q); } }
void vf_czip_unchecked(el const* a, size_t n, el const* b, size_t m) { seq x{a, a + n}, y{b, b + m}; for (auto&& [p, q] : utl::czip_unchecked(x, y)) { cb_w2(&p, &q); } }
void vf_czip_no_size_check(el const* a, size_t n, el const* b, size_t m) { seq x{a, a + n}, y{b, b + m}; for (auto&& [p, q] : utl::czip_no_size_check(x, y)) { cb_w2(&p, &q); } }
void vf_zip3(el const* a, size_t n, el const* b, size_t m, el const* c, size_t k) {
  seq x{a, a + n}, y{b, b + m}, z{c, c + k};
  for (auto&& [p, q, r] : utl::zip(x, y, z)) { cb_w3(&p, &q, &r); }
}
void vf_zip4_sizes(el const* a, size_t n, size_t m, size_t k, size_t l) {
  seq x{a, a + n}, y{a, a + m}, z{a, a + k}, u{a, a + l};
  out_n(utl::zip(x, y, z, u).size());
}
void vf_zip_write(el* a, size_t n, el const* b, size_t m) {
  mseq x{a, a + n};
  seq y{b, b + m};
  for (auto&& [p, q] : utl::zip(x, y)) { p = q; }
}
void vf_zip_index(el const* a, size_t n, el const* b, size_t m, size_t i) {
  seq x{a, a + n}, y{b, b + m};
  auto z = utl::zip(x, y);
  auto&& [p, q] = z[i];
  cb_w2(&p, &q);
  auto const& c = z;
  auto&& [r, s] = c[i];
  cb_w2(&r, &s);
}
void vf_zip_back(el const* a, size_t n, el const* b, size_t m) {
  seq x{a, a + n}, y{b, b + m};
  auto z = utl::zip(x, y);
  auto it = z.end();
  while (it != z.begin()) { --it; auto&& [p, q] = *it; cb_w2(&p, &q); }
}
bool vf_zip_cmp(el const* a, size_t n, size_t i, size_t j) {
  using it_t = utl::detail::zip_iterator<std::tuple<el const*, el const*>>;
  it_t x{std::tuple{a + i, a + i}}, y{std::tuple{a + j, a + j}};
  out_n((x == y) | (x != y) << 1 | (x < y) << 2 | (x > y) << 3 | (x <= y) << 4 | (x >= y) << 5);
  return true;
}

void vf_enumerate(el const* a, size_t n) { seq s{a, a + n}; for (auto const [i, x] : utl::enumerate(s)) { cb_numbered(i, &x); } }
void vf_enumerate_ptr(el* const* a, size_t n) { pseq s{a, a + n}; for (auto const& [i, x] : utl::enumerate(s)) { cb_numbered(i, x); } }
void vf_enumerate_owned(el const* a, size_t n) { for (auto const& [i, x] : utl::enumerate(seq{a, a + n})) { cb_numbered(i, &x); } }
void vf_enumerate_mut(el* a, size_t n, char v) { mseq s{a, a + n}; for (auto&& [i, x] : utl::enumerate(s)) { x.c = static_cast<char>(v); cb_numbered(i, &x); } }
void vf_enumerate_ra(el const* a, size_t n, size_t i, size_t j) {   // random access: i forward, then j back
  seq s{a, a + n};
  auto e = utl::enumerate(s);
  auto it = e.begin();
  it += static_cast<std::ptrdiff_t>(i);
  it -= static_cast<std::ptrdiff_t>(j);
  auto const [k, x] = *it;
  cb_numbered(k, &x);
  out_n(static_cast<size_t>(it - e.begin()));
}
void vf_enumerate_step(el const* a, size_t n, size_t i) {   // one step forward and back
  seq s{a, a + n};
  auto e = utl::enumerate(s);
  auto it = e.begin();
  it += static_cast<std::ptrdiff_t>(i);
  ++it;
  { auto const [k, x] = *it; cb_numbered(k, &x); }
  --it;
  { auto const [k, x] = *it; cb_numbered(k, &x); }
}
void vf_enumerate_signed(el const* a, size_t n, size_t i, std::ptrdiff_t d) {   // moves by signed distances
  seq s{a, a + n};
  auto e = utl::enumerate(s);
  auto it = e.begin();
  it += static_cast<std::ptrdiff_t>(i);
  it += d;
  { auto const [k, x] = *it; cb_numbered(k, &x); }
  it = e.begin();
  it += static_cast<std::ptrdiff_t>(i);
  it -= -d;
  { auto const [k, x] = *it; cb_numbered(k, &x); }
}
void vf_enumerate_length(el const* a, size_t n) { seq s{a, a + n}; auto e = utl::enumerate(s); out_n(static_cast<size_t>(e.end() - e.begin())); }
void vf_enumerate_postfix(el const* a, size_t n, size_t i) {
  seq s{a, a + n};
  auto e = utl::enumerate(s);
  auto it = e.begin();
  it += static_cast<std::ptrdiff_t>(i);
  { auto const [k, x] = *it++; cb_numbered(k, &x); }
  { auto const [k, x] = *it; cb_numbered(k, &x); }
  { auto const [k, x] = *it--; cb_numbered(k, &x); }
  { auto const [k, x] = *it; cb_numbered(k, &x); }
}
}
