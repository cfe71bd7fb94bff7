// NOINLINE: ^utl::line_iterator::operator\+\+\(\)
#include <cassert>
#include <string_view>
#include "utl/parser/cstr.h"
using utl::line_iterator;
extern "C" {
void out_it(void const*, void const*, void const*);
void vf_plus_eq(line_iterator* i, std::ptrdiff_t n) { auto& r = (*i += n); out_it(i, &r, nullptr); }
void vf_plus(line_iterator* i, std::ptrdiff_t n) { auto r = *i + n; out_it(i, &r, nullptr); }
void vf_post(line_iterator* i) { auto r = (*i)++; out_it(i, &r, nullptr); }
void vf_deref(line_iterator* i) { out_it(i, &**i, &**static_cast<line_iterator const*>(i)); }
void vf_arrow(line_iterator* i) { out_it(i, i->operator->(), nullptr); }
}
