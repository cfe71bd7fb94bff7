// compile-time text constants: the macro that takes a literal apart, applied to an arbitrary text (the same tokens the
// macro yields for a literal), and the constant made of the characters
#include "utl/const_str.h"
extern "C" {
void cb_char(int, char);
void cb_text(char const*);
void vf_literal(char const* p) {
  char const t[] = {STRING_LITERAL_30(p)};
  static_assert(sizeof(t) == 30);
  cb_char(0, t[0]); cb_char(1, t[1]); cb_char(2, t[2]); cb_char(3, t[3]); cb_char(4, t[4]); cb_char(5, t[5]); cb_char(6, t[6]); cb_char(7, t[7]);
  cb_char(8, t[8]); cb_char(9, t[9]); cb_char(10, t[10]); cb_char(11, t[11]); cb_char(12, t[12]); cb_char(13, t[13]); cb_char(14, t[14]);
  cb_char(15, t[15]); cb_char(16, t[16]); cb_char(17, t[17]); cb_char(18, t[18]); cb_char(19, t[19]); cb_char(20, t[20]); cb_char(21, t[21]);
  cb_char(22, t[22]); cb_char(23, t[23]); cb_char(24, t[24]); cb_char(25, t[25]); cb_char(26, t[26]); cb_char(27, t[27]); cb_char(28, t[28]); cb_char(29, t[29]);
}
void vf_constant() { cb_text(STRING_LITERAL("abcdefghijklmnopqrstuvwxyz0123")); cb_text(STRING_LITERAL("some text")); cb_text(STRING_LITERAL("")); }
}
