#include "utl/read_file.h"
#include "utl/for_each_line_in_file.h"
extern "C" {
void see(void const* p, size_t n);
void cb_line(char const* p, size_t n);
}
extern "C" {
bool vf_read_file(char const* path) { auto const r = utl::read_file(path); if (r.has_value()) { see(r->data(), r->size()); } return r.has_value(); }
void vf_for_each_line(std::string const* path) { utl::for_each_line_in_file(*path, [](std::string const& l) { cb_line(l.data(), l.size()); }); }
}
// EXTERN: ^std::__cxx11::basic_string<
// EXTERN: ^std::(basic_ifstream|basic_istream|basic_ios|ios_base|fpos|basic_filebuf|basic_istream)
// EXTERN: (^| )std::(getline|operator==|operator\|)
