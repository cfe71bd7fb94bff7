// NOINLINE: ^std::__cxx11::basic_string<char, .*>::(basic_string(<.*>)?\(char const\*, unsigned long|~basic_string)
// one wrapper per operation; every wrapper makes exactly one call of real utl code
#include <cassert>
#include <string>
#include <string_view>
#include "utl/parser/cstr.h"
using utl::cstr;
namespace {
struct opq { unsigned v; };
}
extern "C" {
void out_cstr(char const*, size_t);
void out_u(size_t);
void out_b(bool);
void cb_token(char const*, size_t);
bool cb_token_brk(char const*, size_t);
void cb_token_num(char const*, size_t, long);
bool cb_skip(char const*, size_t);

static void o(cstr const& r) { out_cstr(r.str, r.len); }

// ---- construction / access
void vf_ctor_range(char const* a, char const* b) { o(cstr{a, b}); }
void vf_ctor_sv(char const* a, size_t n) { o(cstr{std::string_view{a, n}}); }
void vf_ctor_string(std::string const* s) { o(cstr{*s}); }
void vf_to_str(char const* a, size_t n) { auto const s = cstr{a, n}.to_str(); out_cstr(s.data(), s.length()); }
void vf_ctor_uchar(char const* a, size_t n) { o(cstr{reinterpret_cast<unsigned char const*>(a), n}); }
void vf_ctor_nullstr() { o(cstr{static_cast<char const*>(nullptr)}); }
void vf_ctor_default() { o(cstr{}); }
void vf_ctor_null(size_t n) { o(cstr{nullptr, n}); }
void vf_view(char const* a, size_t n) { auto const v = cstr{a, n}.view(); out_cstr(v.data(), v.size()); }
void vf_convert_view(char const* a, size_t n) { auto c = cstr{a, n}; std::string_view v = c; out_cstr(v.data(), v.size()); }
void vf_begin_end(char const* a, size_t n) { auto const c = cstr{a, n}; out_cstr(c.begin(), static_cast<size_t>(c.end() - c.begin())); out_cstr(begin(c), static_cast<size_t>(end(c) - begin(c))); out_cstr(c.data(), c.length()); out_cstr(c.c_str(), c.length()); }
void vf_assign(char const* a, size_t n) { cstr c; c.assign(a, n); o(c); }
unsigned char vf_index(char const* a, size_t n, size_t i) { return static_cast<unsigned char>(cstr{a, n}[i]); }
bool vf_valid(char const* a, size_t n) { return cstr{a, n}.valid(); }
bool vf_bool(char const* a, size_t n) { return static_cast<bool>(cstr{a, n}); }
bool vf_empty(char const* a, size_t n) { return cstr{a, n}.empty(); }
void vf_preinc(char const* a, size_t n) { cstr c{a, n}; o(++c); o(c); }
void vf_plus(char const* a, size_t n, size_t k) { cstr c{a, n}; o(c + k); }
void vf_pluseq(char const* a, size_t n, size_t k) { cstr c{a, n}; o(c += k); o(c); }

// ---- derived views
void vf_substr_size(char const* a, size_t n, size_t p, size_t k) { o(cstr{a, n}.substr(p, utl::size(k))); }
void vf_substr_be(char const* a, size_t n, size_t p, size_t e) { o(cstr{a, n}.substr(p, e)); }
void vf_substr_from(char const* a, size_t n, size_t p) { o(cstr{a, n}.substr(p)); }
void vf_substr_field(char const* a, size_t n, size_t p, size_t k) { utl::field f; f.from = p; f.size = k; o(cstr{a, n}.substr(f)); }
void vf_skip_front(char const* a, size_t n) { o(cstr{a, n}.skip_whitespace_front()); }
void vf_skip_back(char const* a, size_t n) { o(cstr{a, n}.skip_whitespace_back()); }
void vf_trim(char const* a, size_t n) { o(cstr{a, n}.trim()); }
void vf_get_until(char const* s, size_t n, char d) { o(utl::get_until(cstr{s, n}, d)); }
void vf_strip_cr(char const* s, size_t n) { o(utl::strip_cr(cstr{s, n})); }
void vf_get_line(char const* s, size_t n) { o(utl::get_line(cstr{s, n})); }
bool vf_is_space(char c) { return cstr::is_space(c); }

// ---- comparisons
bool vf_eq(char const* a, size_t n, char const* b, size_t m) { return cstr{a, n} == cstr{b, m}; }
bool vf_ne(char const* a, size_t n, char const* b, size_t m) { return cstr{a, n} != cstr{b, m}; }
bool vf_lt(char const* a, size_t n, char const* b, size_t m) { return cstr{a, n} < cstr{b, m}; }
bool vf_starts_with(char const* a, size_t n, char const* b, size_t m) { return cstr{a, n}.starts_with(cstr{b, m}); }
bool vf_contains(char const* a, size_t n, char const* b, size_t m) { return cstr{a, n}.contains(cstr{b, m}); }
size_t vf_substr_offset(char const* a, size_t n, char const* b, size_t m) { return cstr{a, n}.substr_offset(cstr{b, m}); }

// ---- tokens / lines
void vf_for_each_token(char const* s, size_t n, char d) { utl::for_each_token(cstr{s, n}, d, [](cstr t) { cb_token(t.str, t.len); }); }
void vf_for_each_token_brk(char const* s, size_t n, char d) {
  utl::for_each_token(cstr{s, n}, d, [](cstr t) { return cb_token_brk(t.str, t.len) ? utl::continue_t::kBreak : utl::continue_t::kContinue; });
}
void vf_for_each_token_numbered(char const* s, size_t n, char d) { utl::for_each_token_numbered(cstr{s, n}, d, [](cstr t, int i) { cb_token_num(t.str, t.len, i); }); }
void vf_for_each_line(char const* s, size_t n) { utl::for_each_line(cstr{s, n}, [](cstr t) { cb_token(t.str, t.len); }); }
void vf_for_each_line_numbered(char const* s, size_t n) { utl::for_each_line_numbered(cstr{s, n}, [](cstr t, unsigned i) { cb_token_num(t.str, t.len, static_cast<long>(i)); }); }
void vf_skip_lines(char const* s, size_t n) { o(utl::skip_lines(cstr{s, n}, [](cstr t) { return cb_skip(t.str, t.len); })); }
void vf_lines(char const* s, size_t n) {
  for (auto const& l : utl::lines{cstr{s, n}}) { cb_token(l.str, l.len); }
}
void vf_lines_it(char const* s, size_t n) {
  auto const ls = utl::lines{cstr{s, n}};
  for (auto i = begin(ls); i != end(ls); ++i) { cb_token(i->str, i->len); }
}
}
