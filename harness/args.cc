// NOINLINE: generic_string::set_non_owning
// NOINLINE: ^std::type_info::name
// NOINLINE: ^std::filesystem::__cxx11::path::path<
// NOINLINE: ^std::filesystem::__cxx11::path::path\(std
// NOINLINE: ^std::filesystem::__cxx11::path::(operator=|~path|assign)
// NOINLINE: ^std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>::(assign|_M_replace|_M_assign)
// NOINLINE: ^(void|bool|auto) utl::(verify|fail|verify_silent)
// NOINLINE: ^utl::(verify|fail)
#include "utl/parser/arg_parser.h"
using utl::cstr;
extern "C" {
void out_cstr(char const*, size_t);
void out_d(double); void out_f(float);
void out_i(long);
void out_b(bool);
long env_default();
}
#define INT(NAME, T)                                                                                                          \
  extern "C" bool vf_parse_##NAME(char const* p, size_t n) {                                                                  \
    cstr s{p, n}; T v; auto const r = utl::parse_arg(s, v); out_i(static_cast<long>(v)); out_cstr(s.str, s.len); return r;    \
  }                                                                                                                           \
  extern "C" bool vf_parse_def_##NAME(char const* p, size_t n, T d) {                                                         \
    cstr s{p, n}; T v; auto const r = utl::parse_arg(s, v, d); out_i(static_cast<long>(v)); out_cstr(s.str, s.len); return r; \
  }
INT(i8, std::int8_t)
INT(u8, std::uint8_t)
INT(i16, std::int16_t)
INT(u16, std::uint16_t)
INT(i32, std::int32_t)
INT(u32, std::uint32_t)
INT(i64, std::int64_t)
INT(u64, std::uint64_t)
extern "C" {
void vf_parse_t_i32(char const* p, size_t n) { out_i(utl::parse<int>(cstr{p, n})); }
void vf_parse_t_def_i32(char const* p, size_t n, int d) { out_i(utl::parse<int>(cstr{p, n}, d)); }
void vf_parse_t_u64(char const* p, size_t n) { out_i(static_cast<long>(utl::parse<std::uint64_t>(cstr{p, n}))); }
void vf_parse_t_def_u64(char const* p, size_t n, std::uint64_t d) { out_i(static_cast<long>(utl::parse<std::uint64_t>(cstr{p, n}, d))); }
void vf_shift_i32(char const* p, size_t n) { cstr s{p, n}; int v; s >> v; out_i(v); out_cstr(s.str, s.len); }
void vf_parse_verify_i32(char const* p, size_t n) { out_i(utl::parse_verify<int>(cstr{p, n})); }
bool vf_parse_bool(char const* p, size_t n, bool init) { cstr s{p, n}; bool v = init; auto const r = utl::parse_arg(s, v); out_b(v); out_cstr(s.str, s.len); return r; }
bool vf_parse_bool_def(char const* p, size_t n, bool d) { cstr s{p, n}; bool v; auto const r = utl::parse_arg(s, v, d); out_b(v); out_cstr(s.str, s.len); return r; }
void vf_parse_cstr(char const* p, size_t n) { cstr s{p, n}; cstr v; utl::parse_arg(s, v); out_cstr(v.str, v.len); out_cstr(s.str, s.len); }
void vf_parse_string(char const* p, size_t n, std::string* v) { cstr s{p, n}; utl::parse_arg(s, *v); out_cstr(s.str, s.len); }
void vf_parse_path(char const* p, size_t n, std::filesystem::path* v) { cstr s{p, n}; utl::parse_arg(s, *v); out_cstr(s.str, s.len); }
void vf_skip_line(char const* p, size_t n) { cstr s{p, n}; utl::skip_line(s); out_cstr(s.str, s.len); }
void vf_expect(char const* p, size_t n) { cstr s{p, n}; s >> utl::expect_char<','>{}; out_cstr(s.str, s.len); }
bool vf_parse_double(char const* p, size_t n) { cstr s{p, n}; double v; auto const r = utl::parse_arg(s, v); out_d(v); out_cstr(s.str, s.len); return r; }
bool vf_parse_float(char const* p, size_t n) { cstr s{p, n}; float v; auto const r = utl::parse_arg(s, v); out_f(v); out_cstr(s.str, s.len); return r; }
void vf_shift_double(char const* p, size_t n) { cstr s{p, n}; double v; s >> v; out_d(v); out_cstr(s.str, s.len); }
void vf_parse_t_double(char const* p, size_t n) { out_d(utl::parse<double>(cstr{p, n})); }
void vf_parse_generic_string(char const* p, size_t n, cista::raw::generic_string* v) { cstr s{p, n}; utl::parse_arg(s, *v); out_cstr(s.str, s.len); }
}
