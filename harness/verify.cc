#include "utl/verify.h"
extern "C" {
bool cb_cond();
void cb_after();
}
struct my_error { long code; };
struct base_error { base_error(long); base_error(base_error const&); virtual ~base_error(); long code; };
extern "C" {
void vf_verify(bool c, char const* m, size_t n) { utl::verify(c, std::string_view{m, n}); }
void vf_verify_args(bool c, char const* m, size_t n, long x, long y) { utl::verify(c, std::string_view{m, n}, x, y); }
void vf_verify_silent(bool c, long x) { utl::verify_silent(c, "value {} is wrong", x); }
void vf_verify_ex(bool c, long x) { utl::verify_ex(c, my_error{x}); }
void vf_verify_ex_ref(bool c, my_error* e) { utl::verify_ex(c, *e); }
void vf_verify_macro(long x) { utl_verify(cb_cond(), "value {} is wrong", x); cb_after(); }
void vf_fail0(char const* m, size_t n) { throw utl::fail(std::string_view{m, n}); }
void vf_fail(char const* m, size_t n, long x) { throw utl::fail(std::string_view{m, n}, x); }
}
// NOINLINE: ^std::runtime_error
// NOINLINE: ^std::basic_ostream<char, std::char_traits<char>\s?>& std::(endl|flush|operator<<)
// NOINLINE: ^std::__cxx11::basic_string
// NOINLINE: fmt::v[0-9]+::(vformat|vprint)[^(]*\(

