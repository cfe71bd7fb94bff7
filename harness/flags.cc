// EXTERN: utl::parse_arg<.*>\(utl::cstr
// EXTERN: ^std::__cxx11::basic_(|i|o)string(stream|buf)?<char, std::char_traits<char>, std::allocator<char>\s?>::
// EXTERN: ^std::basic_ostream<char, std::char_traits<char>\s?>& std::operator<<
#include <stdexcept>
#include <string>
#include "utl/cmd_line_parser.h"
using namespace utl;
struct cfg {
  cmd_line_flag<bool, UTL_SHORT("-a"), UTL_LONG("--aa"), UTL_DESC("a")> a_;
  cmd_line_flag<int, required, UTL_LONG("--bb"), UTL_DESC("b")> b_;
  cmd_line_flag<unsigned long, UTL_SHORT("-c"), UTL_LONG("--cc"), UTL_DESC("c")> c_;
  cmd_line_flag<bool, required, UTL_SHORT("-d"), UTL_DESC("d")> d_;
  cmd_line_flag<short, required, UTL_SHORT("-e"), UTL_DESC("e")> e_;
  cmd_line_flag<int, UTL_LONG("--ff"), UTL_DESC("f")> f_;
};
struct one { cmd_line_flag<int, required, UTL_SHORT("-b"), UTL_LONG("--bb"), UTL_DESC("b")> b_; };
struct txt { cmd_line_flag<std::string, UTL_SHORT("-s"), UTL_LONG("--ss"), UTL_DESC("s")> s_; };
struct dflt { cmd_line_flag<int, UTL_LONG("--bb"), UTL_DESC("b")> b_{42}; cmd_line_flag<unsigned long, UTL_SHORT("-c"), UTL_DESC("c")> c_{7UL}; };
extern "C" {
void cb_str(std::string const*);
void cb_flag(unsigned id, unsigned long v);
void vf_one(int argc, char const** argv) { auto const c = parse_flags<one>(argc, argv); cb_flag(1, static_cast<unsigned long>(c.b_.val())); }
void vf_cfg(int argc, char const** argv) { auto const c = parse_flags<cfg>(argc, argv); 
 cb_flag(0, c.a_.val()); cb_flag(1, c.b_.val());cb_flag(2, c.c_.val());cb_flag(3, c.d_.val());cb_flag(4, c.e_.val()); cb_flag(5, c.f_.val()); }
void vf_txt(int argc, char const** argv) { auto const c = parse_flags<txt>(argc, argv); cb_str(&c.s_.val()); }
void vf_dflt(int argc, char const** argv) { auto const c = parse_flags<dflt>(argc, argv); cb_flag(1, static_cast<unsigned long>(c.b_.val())); cb_flag(2, c.c_.val()); }
void vf_access(unsigned long x, unsigned long y, unsigned long z) {
  cmd_line_flag<unsigned long, UTL_LONG("--cc"), UTL_DESC("c")> f{x};
  auto const& g = f;
  unsigned long const v = f;
  cb_flag(0, v); cb_flag(1, *f); cb_flag(2, *g); cb_flag(3, f.val()); cb_flag(4, g.val());
  *f = y; cb_flag(5, g.val());
  f.val() = z; cb_flag(6, *g);
}
void vf_description() { auto const s = description<cfg>(); cb_str(&s); }
void vf_print(bool a, int b, unsigned long c, bool d, short e, int f) {
  cfg x; x.a_.val() = a; x.b_.val() = b; x.c_.val() = c; x.d_.val() = d; x.e_.val() = e; x.f_.val() = f;
  auto const s = print_flags(x); cb_str(&s);
}
}
