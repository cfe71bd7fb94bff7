#include "utl/parser/csv.h"
#include "utl/parser/csv_range.h"
#include "utl/parser/split.h"
using utl::cstr;
extern "C" {
void out_cstr(char const*, size_t);
void out_i(long);
void out_fp(double);
void vstr_assign(void*, char const*, size_t);
void vstr_erase(void*, size_t, size_t);
}
// any string type the parser may be used with: its storage and the contracts of
// assign / erase are given by the specification
struct vstr {
  char* p; size_t n;
  size_t size() const { return n; }
  char operator[](size_t i) const { return p[i]; }
  operator std::string_view() const { return {p, n}; }
  void assign(char const* s, size_t k) { vstr_assign(this, s, k); }
  void erase(size_t i, size_t k) { vstr_erase(this, i, k); }
};
extern "C" {
void vf_column(char const* p, size_t n, char const* q, size_t m) {
  cstr s{p, n}; auto v = cstr{q, m}; utl::parse_column(s, v); out_cstr(v.str, v.len); out_cstr(s.str, s.len);
}
void vf_column_semicolon(char const* p, size_t n, char const* q, size_t m) {
  cstr s{p, n}; auto v = cstr{q, m}; utl::parse_column<cstr, ';'>(s, v); out_cstr(v.str, v.len); out_cstr(s.str, s.len);
}
void vf_column_tab(char const* p, size_t n, char const* q, size_t m) {
  cstr s{p, n}; auto v = cstr{q, m}; utl::parse_column<cstr, '\t'>(s, v); out_cstr(v.str, v.len); out_cstr(s.str, s.len);
}
void vf_column_string(char const* p, size_t n, vstr* v) { cstr s{p, n}; utl::parse_column(s, *v); out_cstr(s.str, s.len); }
void vf_unescape(char* p, size_t n) { vstr v{p, n}; utl::unescape_quoted_string(v); out_cstr(v.p, v.n); }
}
#define VAL(NAME, T)                                                                                                            \
  extern "C" void vf_value_##NAME(char const* p, size_t n) {                                                                    \
    cstr s{p, n}; T v; utl::parse_value(s, v); out_i(static_cast<long>(v)); out_cstr(s.str, s.len);                             \
  }
VAL(i32, std::int32_t)
VAL(u64, std::uint64_t)
VAL(i8, std::int8_t)
VAL(bool, bool)
extern "C" {
void vf_value_double(char const* p, size_t n) { cstr s{p, n}; double v; utl::parse_value(s, v); out_fp(v); out_cstr(s.str, s.len); }
void vf_value_float(char const* p, size_t n) { cstr s{p, n}; float v; utl::parse_value(s, v); out_fp(v); out_cstr(s.str, s.len); }
void vf_value_cstr(char const* p, size_t n) { cstr s{p, n}; cstr v; utl::parse_value(s, v); out_cstr(v.str, v.len); out_cstr(s.str, s.len); }
void vf_value_string(char const* p, size_t n, std::string* v) { cstr s{p, n}; utl::parse_value(s, *v); out_cstr(s.str, s.len); }
}
// NOINLINE: utl::parse_fp<
// NOINLINE: utl::unescape_quoted_string<std
// NOINLINE: ^std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>::(assign|_M_replace|_M_assign|erase)
