// printable enums.  The text of the enumerator list is a literal in the program; the contract is stated for any list:
// the string made from the literal holds an arbitrary list of names.
// EXTERN: ^std::__cxx11::basic_string<
// NOINLINE: ^as_string
// EXTERN: ^std::basic_ostream<char, std::char_traits<char>\s?>& std::operator<<
#include <cstddef>
#include "utl/printable_enum.h"
PRINTABLE_ENUM(color, RED, GREEN, BLUE)
extern "C" {
void cb_ret(std::string const*);
void vf_name(unsigned v) { auto const s = as_string(static_cast<color>(v)); cb_ret(&s); }
std::ostream* vf_print(std::ostream& o, unsigned v) { return &(o << static_cast<color>(v)); }
}
