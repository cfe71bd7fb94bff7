// written by a script: for every number of fields k, a source with k fields in blocks of two equal types
#include <type_traits>
#include <utility>
#include "utl/init_from.h"
extern "C" { void cb_field(int, void*); void cb_none(); }
template <int N> struct T { int v; };

struct sa1 { T<0> p0; };
struct ta1 { T<0>& r0; };
extern "C" void vf_fields_a1(sa1* s) { auto const t = utl::init_from<ta1>(*s); if (t.has_value()) { cb_field(0, &t->r0); } else { cb_none(); } }
struct sa2 { T<0> p0; T<0> p1; };
struct ta2 { T<0>& r0; };
extern "C" void vf_fields_a2(sa2* s) { auto const t = utl::init_from<ta2>(*s); if (t.has_value()) { cb_field(0, &t->r0); } else { cb_none(); } }
struct sa3 { T<0> p0; T<0> p1; T<1> p2; };
struct ta3 { T<0>& r0; T<1>& r1; };
extern "C" void vf_fields_a3(sa3* s) { auto const t = utl::init_from<ta3>(*s); if (t.has_value()) { cb_field(0, &t->r0); cb_field(1, &t->r1); } else { cb_none(); } }
struct sa4 { T<0> p0; T<0> p1; T<1> p2; T<1> p3; };
struct ta4 { T<0>& r0; T<1>& r1; };
extern "C" void vf_fields_a4(sa4* s) { auto const t = utl::init_from<ta4>(*s); if (t.has_value()) { cb_field(0, &t->r0); cb_field(1, &t->r1); } else { cb_none(); } }
struct sa5 { T<0> p0; T<0> p1; T<1> p2; T<1> p3; T<2> p4; };
struct ta5 { T<0>& r0; T<1>& r1; T<2>& r2; };
extern "C" void vf_fields_a5(sa5* s) { auto const t = utl::init_from<ta5>(*s); if (t.has_value()) { cb_field(0, &t->r0); cb_field(1, &t->r1); cb_field(2, &t->r2); } else { cb_none(); } }
struct sa6 { T<0> p0; T<0> p1; T<1> p2; T<1> p3; T<2> p4; T<2> p5; };
struct ta6 { T<0>& r0; T<1>& r1; T<2>& r2; };
extern "C" void vf_fields_a6(sa6* s) { auto const t = utl::init_from<ta6>(*s); if (t.has_value()) { cb_field(0, &t->r0); cb_field(1, &t->r1); cb_field(2, &t->r2); } else { cb_none(); } }
struct sa7 { T<0> p0; T<0> p1; T<1> p2; T<1> p3; T<2> p4; T<2> p5; T<3> p6; };
struct ta7 { T<0>& r0; T<1>& r1; T<2>& r2; T<3>& r3; };
extern "C" void vf_fields_a7(sa7* s) { auto const t = utl::init_from<ta7>(*s); if (t.has_value()) { cb_field(0, &t->r0); cb_field(1, &t->r1); cb_field(2, &t->r2); cb_field(3, &t->r3); } else { cb_none(); } }
struct sa8 { T<0> p0; T<0> p1; T<1> p2; T<1> p3; T<2> p4; T<2> p5; T<3> p6; T<3> p7; };
struct ta8 { T<0>& r0; T<1>& r1; T<2>& r2; T<3>& r3; };
extern "C" void vf_fields_a8(sa8* s) { auto const t = utl::init_from<ta8>(*s); if (t.has_value()) { cb_field(0, &t->r0); cb_field(1, &t->r1); cb_field(2, &t->r2); cb_field(3, &t->r3); } else { cb_none(); } }
struct sa9 { T<0> p0; T<0> p1; T<1> p2; T<1> p3; T<2> p4; T<2> p5; T<3> p6; T<3> p7; T<4> p8; };
struct ta9 { T<0>& r0; T<1>& r1; T<2>& r2; T<3>& r3; T<4>& r4; };
extern "C" void vf_fields_a9(sa9* s) { auto const t = utl::init_from<ta9>(*s); if (t.has_value()) { cb_field(0, &t->r0); cb_field(1, &t->r1); cb_field(2, &t->r2); cb_field(3, &t->r3); cb_field(4, &t->r4); } else { cb_none(); } }
struct sa10 { T<0> p0; T<0> p1; T<1> p2; T<1> p3; T<2> p4; T<2> p5; T<3> p6; T<3> p7; T<4> p8; T<4> p9; };
struct ta10 { T<0>& r0; T<1>& r1; T<2>& r2; T<3>& r3; T<4>& r4; };
extern "C" void vf_fields_a10(sa10* s) { auto const t = utl::init_from<ta10>(*s); if (t.has_value()) { cb_field(0, &t->r0); cb_field(1, &t->r1); cb_field(2, &t->r2); cb_field(3, &t->r3); cb_field(4, &t->r4); } else { cb_none(); } }
struct sa11 { T<0> p0; T<0> p1; T<1> p2; T<1> p3; T<2> p4; T<2> p5; T<3> p6; T<3> p7; T<4> p8; T<4> p9; T<5> p10; };
struct ta11 { T<0>& r0; T<1>& r1; T<2>& r2; T<3>& r3; T<4>& r4; T<5>& r5; };
extern "C" void vf_fields_a11(sa11* s) { auto const t = utl::init_from<ta11>(*s); if (t.has_value()) { cb_field(0, &t->r0); cb_field(1, &t->r1); cb_field(2, &t->r2); cb_field(3, &t->r3); cb_field(4, &t->r4); cb_field(5, &t->r5); } else { cb_none(); } }
struct sa12 { T<0> p0; T<0> p1; T<1> p2; T<1> p3; T<2> p4; T<2> p5; T<3> p6; T<3> p7; T<4> p8; T<4> p9; T<5> p10; T<5> p11; };
struct ta12 { T<0>& r0; T<1>& r1; T<2>& r2; T<3>& r3; T<4>& r4; T<5>& r5; };
extern "C" void vf_fields_a12(sa12* s) { auto const t = utl::init_from<ta12>(*s); if (t.has_value()) { cb_field(0, &t->r0); cb_field(1, &t->r1); cb_field(2, &t->r2); cb_field(3, &t->r3); cb_field(4, &t->r4); cb_field(5, &t->r5); } else { cb_none(); } }
struct sa13 { T<0> p0; T<0> p1; T<1> p2; T<1> p3; T<2> p4; T<2> p5; T<3> p6; T<3> p7; T<4> p8; T<4> p9; T<5> p10; T<5> p11; T<6> p12; };
struct ta13 { T<0>& r0; T<1>& r1; T<2>& r2; T<3>& r3; T<4>& r4; T<5>& r5; T<6>& r6; };
extern "C" void vf_fields_a13(sa13* s) { auto const t = utl::init_from<ta13>(*s); if (t.has_value()) { cb_field(0, &t->r0); cb_field(1, &t->r1); cb_field(2, &t->r2); cb_field(3, &t->r3); cb_field(4, &t->r4); cb_field(5, &t->r5); cb_field(6, &t->r6); } else { cb_none(); } }
struct sa14 { T<0> p0; T<0> p1; T<1> p2; T<1> p3; T<2> p4; T<2> p5; T<3> p6; T<3> p7; T<4> p8; T<4> p9; T<5> p10; T<5> p11; T<6> p12; T<6> p13; };
struct ta14 { T<0>& r0; T<1>& r1; T<2>& r2; T<3>& r3; T<4>& r4; T<5>& r5; T<6>& r6; };
extern "C" void vf_fields_a14(sa14* s) { auto const t = utl::init_from<ta14>(*s); if (t.has_value()) { cb_field(0, &t->r0); cb_field(1, &t->r1); cb_field(2, &t->r2); cb_field(3, &t->r3); cb_field(4, &t->r4); cb_field(5, &t->r5); cb_field(6, &t->r6); } else { cb_none(); } }
struct sa15 { T<0> p0; T<0> p1; T<1> p2; T<1> p3; T<2> p4; T<2> p5; T<3> p6; T<3> p7; T<4> p8; T<4> p9; T<5> p10; T<5> p11; T<6> p12; T<6> p13; T<7> p14; };
struct ta15 { T<0>& r0; T<1>& r1; T<2>& r2; T<3>& r3; T<4>& r4; T<5>& r5; T<6>& r6; T<7>& r7; };
extern "C" void vf_fields_a15(sa15* s) { auto const t = utl::init_from<ta15>(*s); if (t.has_value()) { cb_field(0, &t->r0); cb_field(1, &t->r1); cb_field(2, &t->r2); cb_field(3, &t->r3); cb_field(4, &t->r4); cb_field(5, &t->r5); cb_field(6, &t->r6); cb_field(7, &t->r7); } else { cb_none(); } }
struct sa16 { T<0> p0; T<0> p1; T<1> p2; T<1> p3; T<2> p4; T<2> p5; T<3> p6; T<3> p7; T<4> p8; T<4> p9; T<5> p10; T<5> p11; T<6> p12; T<6> p13; T<7> p14; T<7> p15; };
struct ta16 { T<0>& r0; T<1>& r1; T<2>& r2; T<3>& r3; T<4>& r4; T<5>& r5; T<6>& r6; T<7>& r7; };
extern "C" void vf_fields_a16(sa16* s) { auto const t = utl::init_from<ta16>(*s); if (t.has_value()) { cb_field(0, &t->r0); cb_field(1, &t->r1); cb_field(2, &t->r2); cb_field(3, &t->r3); cb_field(4, &t->r4); cb_field(5, &t->r5); cb_field(6, &t->r6); cb_field(7, &t->r7); } else { cb_none(); } }
struct sa17 { T<0> p0; T<0> p1; T<1> p2; T<1> p3; T<2> p4; T<2> p5; T<3> p6; T<3> p7; T<4> p8; T<4> p9; T<5> p10; T<5> p11; T<6> p12; T<6> p13; T<7> p14; T<7> p15; T<8> p16; };
struct ta17 { T<0>& r0; T<1>& r1; T<2>& r2; T<3>& r3; T<4>& r4; T<5>& r5; T<6>& r6; T<7>& r7; T<8>& r8; };
extern "C" void vf_fields_a17(sa17* s) { auto const t = utl::init_from<ta17>(*s); if (t.has_value()) { cb_field(0, &t->r0); cb_field(1, &t->r1); cb_field(2, &t->r2); cb_field(3, &t->r3); cb_field(4, &t->r4); cb_field(5, &t->r5); cb_field(6, &t->r6); cb_field(7, &t->r7); cb_field(8, &t->r8); } else { cb_none(); } }
struct sa18 { T<0> p0; T<0> p1; T<1> p2; T<1> p3; T<2> p4; T<2> p5; T<3> p6; T<3> p7; T<4> p8; T<4> p9; T<5> p10; T<5> p11; T<6> p12; T<6> p13; T<7> p14; T<7> p15; T<8> p16; T<8> p17; };
struct ta18 { T<0>& r0; T<1>& r1; T<2>& r2; T<3>& r3; T<4>& r4; T<5>& r5; T<6>& r6; T<7>& r7; T<8>& r8; };
extern "C" void vf_fields_a18(sa18* s) { auto const t = utl::init_from<ta18>(*s); if (t.has_value()) { cb_field(0, &t->r0); cb_field(1, &t->r1); cb_field(2, &t->r2); cb_field(3, &t->r3); cb_field(4, &t->r4); cb_field(5, &t->r5); cb_field(6, &t->r6); cb_field(7, &t->r7); cb_field(8, &t->r8); } else { cb_none(); } }
struct sa19 { T<0> p0; T<0> p1; T<1> p2; T<1> p3; T<2> p4; T<2> p5; T<3> p6; T<3> p7; T<4> p8; T<4> p9; T<5> p10; T<5> p11; T<6> p12; T<6> p13; T<7> p14; T<7> p15; T<8> p16; T<8> p17; T<9> p18; };
struct ta19 { T<0>& r0; T<1>& r1; T<2>& r2; T<3>& r3; T<4>& r4; T<5>& r5; T<6>& r6; T<7>& r7; T<8>& r8; T<9>& r9; };
extern "C" void vf_fields_a19(sa19* s) { auto const t = utl::init_from<ta19>(*s); if (t.has_value()) { cb_field(0, &t->r0); cb_field(1, &t->r1); cb_field(2, &t->r2); cb_field(3, &t->r3); cb_field(4, &t->r4); cb_field(5, &t->r5); cb_field(6, &t->r6); cb_field(7, &t->r7); cb_field(8, &t->r8); cb_field(9, &t->r9); } else { cb_none(); } }
struct sa20 { T<0> p0; T<0> p1; T<1> p2; T<1> p3; T<2> p4; T<2> p5; T<3> p6; T<3> p7; T<4> p8; T<4> p9; T<5> p10; T<5> p11; T<6> p12; T<6> p13; T<7> p14; T<7> p15; T<8> p16; T<8> p17; T<9> p18; T<9> p19; };
struct ta20 { T<0>& r0; T<1>& r1; T<2>& r2; T<3>& r3; T<4>& r4; T<5>& r5; T<6>& r6; T<7>& r7; T<8>& r8; T<9>& r9; };
extern "C" void vf_fields_a20(sa20* s) { auto const t = utl::init_from<ta20>(*s); if (t.has_value()) { cb_field(0, &t->r0); cb_field(1, &t->r1); cb_field(2, &t->r2); cb_field(3, &t->r3); cb_field(4, &t->r4); cb_field(5, &t->r5); cb_field(6, &t->r6); cb_field(7, &t->r7); cb_field(8, &t->r8); cb_field(9, &t->r9); } else { cb_none(); } }
struct sa21 { T<0> p0; T<0> p1; T<1> p2; T<1> p3; T<2> p4; T<2> p5; T<3> p6; T<3> p7; T<4> p8; T<4> p9; T<5> p10; T<5> p11; T<6> p12; T<6> p13; T<7> p14; T<7> p15; T<8> p16; T<8> p17; T<9> p18; T<9> p19; T<10> p20; };
struct ta21 { T<0>& r0; T<1>& r1; T<2>& r2; T<3>& r3; T<4>& r4; T<5>& r5; T<6>& r6; T<7>& r7; T<8>& r8; T<9>& r9; T<10>& r10; };
extern "C" void vf_fields_a21(sa21* s) { auto const t = utl::init_from<ta21>(*s); if (t.has_value()) { cb_field(0, &t->r0); cb_field(1, &t->r1); cb_field(2, &t->r2); cb_field(3, &t->r3); cb_field(4, &t->r4); cb_field(5, &t->r5); cb_field(6, &t->r6); cb_field(7, &t->r7); cb_field(8, &t->r8); cb_field(9, &t->r9); cb_field(10, &t->r10); } else { cb_none(); } }
struct sa22 { T<0> p0; T<0> p1; T<1> p2; T<1> p3; T<2> p4; T<2> p5; T<3> p6; T<3> p7; T<4> p8; T<4> p9; T<5> p10; T<5> p11; T<6> p12; T<6> p13; T<7> p14; T<7> p15; T<8> p16; T<8> p17; T<9> p18; T<9> p19; T<10> p20; T<10> p21; };
struct ta22 { T<0>& r0; T<1>& r1; T<2>& r2; T<3>& r3; T<4>& r4; T<5>& r5; T<6>& r6; T<7>& r7; T<8>& r8; T<9>& r9; T<10>& r10; };
extern "C" void vf_fields_a22(sa22* s) { auto const t = utl::init_from<ta22>(*s); if (t.has_value()) { cb_field(0, &t->r0); cb_field(1, &t->r1); cb_field(2, &t->r2); cb_field(3, &t->r3); cb_field(4, &t->r4); cb_field(5, &t->r5); cb_field(6, &t->r6); cb_field(7, &t->r7); cb_field(8, &t->r8); cb_field(9, &t->r9); cb_field(10, &t->r10); } else { cb_none(); } }
struct sa23 { T<0> p0; T<0> p1; T<1> p2; T<1> p3; T<2> p4; T<2> p5; T<3> p6; T<3> p7; T<4> p8; T<4> p9; T<5> p10; T<5> p11; T<6> p12; T<6> p13; T<7> p14; T<7> p15; T<8> p16; T<8> p17; T<9> p18; T<9> p19; T<10> p20; T<10> p21; T<11> p22; };
struct ta23 { T<0>& r0; T<1>& r1; T<2>& r2; T<3>& r3; T<4>& r4; T<5>& r5; T<6>& r6; T<7>& r7; T<8>& r8; T<9>& r9; T<10>& r10; T<11>& r11; };
extern "C" void vf_fields_a23(sa23* s) { auto const t = utl::init_from<ta23>(*s); if (t.has_value()) { cb_field(0, &t->r0); cb_field(1, &t->r1); cb_field(2, &t->r2); cb_field(3, &t->r3); cb_field(4, &t->r4); cb_field(5, &t->r5); cb_field(6, &t->r6); cb_field(7, &t->r7); cb_field(8, &t->r8); cb_field(9, &t->r9); cb_field(10, &t->r10); cb_field(11, &t->r11); } else { cb_none(); } }
struct sa24 { T<0> p0; T<0> p1; T<1> p2; T<1> p3; T<2> p4; T<2> p5; T<3> p6; T<3> p7; T<4> p8; T<4> p9; T<5> p10; T<5> p11; T<6> p12; T<6> p13; T<7> p14; T<7> p15; T<8> p16; T<8> p17; T<9> p18; T<9> p19; T<10> p20; T<10> p21; T<11> p22; T<11> p23; };
struct ta24 { T<0>& r0; T<1>& r1; T<2>& r2; T<3>& r3; T<4>& r4; T<5>& r5; T<6>& r6; T<7>& r7; T<8>& r8; T<9>& r9; T<10>& r10; T<11>& r11; };
extern "C" void vf_fields_a24(sa24* s) { auto const t = utl::init_from<ta24>(*s); if (t.has_value()) { cb_field(0, &t->r0); cb_field(1, &t->r1); cb_field(2, &t->r2); cb_field(3, &t->r3); cb_field(4, &t->r4); cb_field(5, &t->r5); cb_field(6, &t->r6); cb_field(7, &t->r7); cb_field(8, &t->r8); cb_field(9, &t->r9); cb_field(10, &t->r10); cb_field(11, &t->r11); } else { cb_none(); } }
struct sa25 { T<0> p0; T<0> p1; T<1> p2; T<1> p3; T<2> p4; T<2> p5; T<3> p6; T<3> p7; T<4> p8; T<4> p9; T<5> p10; T<5> p11; T<6> p12; T<6> p13; T<7> p14; T<7> p15; T<8> p16; T<8> p17; T<9> p18; T<9> p19; T<10> p20; T<10> p21; T<11> p22; T<11> p23; T<12> p24; };
struct ta25 { T<0>& r0; T<1>& r1; T<2>& r2; T<3>& r3; T<4>& r4; T<5>& r5; T<6>& r6; T<7>& r7; T<8>& r8; T<9>& r9; T<10>& r10; T<11>& r11; T<12>& r12; };
extern "C" void vf_fields_a25(sa25* s) { auto const t = utl::init_from<ta25>(*s); if (t.has_value()) { cb_field(0, &t->r0); cb_field(1, &t->r1); cb_field(2, &t->r2); cb_field(3, &t->r3); cb_field(4, &t->r4); cb_field(5, &t->r5); cb_field(6, &t->r6); cb_field(7, &t->r7); cb_field(8, &t->r8); cb_field(9, &t->r9); cb_field(10, &t->r10); cb_field(11, &t->r11); cb_field(12, &t->r12); } else { cb_none(); } }
struct sa26 { T<0> p0; T<0> p1; T<1> p2; T<1> p3; T<2> p4; T<2> p5; T<3> p6; T<3> p7; T<4> p8; T<4> p9; T<5> p10; T<5> p11; T<6> p12; T<6> p13; T<7> p14; T<7> p15; T<8> p16; T<8> p17; T<9> p18; T<9> p19; T<10> p20; T<10> p21; T<11> p22; T<11> p23; T<12> p24; T<12> p25; };
struct ta26 { T<0>& r0; T<1>& r1; T<2>& r2; T<3>& r3; T<4>& r4; T<5>& r5; T<6>& r6; T<7>& r7; T<8>& r8; T<9>& r9; T<10>& r10; T<11>& r11; T<12>& r12; };
extern "C" void vf_fields_a26(sa26* s) { auto const t = utl::init_from<ta26>(*s); if (t.has_value()) { cb_field(0, &t->r0); cb_field(1, &t->r1); cb_field(2, &t->r2); cb_field(3, &t->r3); cb_field(4, &t->r4); cb_field(5, &t->r5); cb_field(6, &t->r6); cb_field(7, &t->r7); cb_field(8, &t->r8); cb_field(9, &t->r9); cb_field(10, &t->r10); cb_field(11, &t->r11); cb_field(12, &t->r12); } else { cb_none(); } }
struct sa27 { T<0> p0; T<0> p1; T<1> p2; T<1> p3; T<2> p4; T<2> p5; T<3> p6; T<3> p7; T<4> p8; T<4> p9; T<5> p10; T<5> p11; T<6> p12; T<6> p13; T<7> p14; T<7> p15; T<8> p16; T<8> p17; T<9> p18; T<9> p19; T<10> p20; T<10> p21; T<11> p22; T<11> p23; T<12> p24; T<12> p25; T<13> p26; };
struct ta27 { T<0>& r0; T<1>& r1; T<2>& r2; T<3>& r3; T<4>& r4; T<5>& r5; T<6>& r6; T<7>& r7; T<8>& r8; T<9>& r9; T<10>& r10; T<11>& r11; T<12>& r12; T<13>& r13; };
extern "C" void vf_fields_a27(sa27* s) { auto const t = utl::init_from<ta27>(*s); if (t.has_value()) { cb_field(0, &t->r0); cb_field(1, &t->r1); cb_field(2, &t->r2); cb_field(3, &t->r3); cb_field(4, &t->r4); cb_field(5, &t->r5); cb_field(6, &t->r6); cb_field(7, &t->r7); cb_field(8, &t->r8); cb_field(9, &t->r9); cb_field(10, &t->r10); cb_field(11, &t->r11); cb_field(12, &t->r12); cb_field(13, &t->r13); } else { cb_none(); } }
struct sa28 { T<0> p0; T<0> p1; T<1> p2; T<1> p3; T<2> p4; T<2> p5; T<3> p6; T<3> p7; T<4> p8; T<4> p9; T<5> p10; T<5> p11; T<6> p12; T<6> p13; T<7> p14; T<7> p15; T<8> p16; T<8> p17; T<9> p18; T<9> p19; T<10> p20; T<10> p21; T<11> p22; T<11> p23; T<12> p24; T<12> p25; T<13> p26; T<13> p27; };
struct ta28 { T<0>& r0; T<1>& r1; T<2>& r2; T<3>& r3; T<4>& r4; T<5>& r5; T<6>& r6; T<7>& r7; T<8>& r8; T<9>& r9; T<10>& r10; T<11>& r11; T<12>& r12; T<13>& r13; };
extern "C" void vf_fields_a28(sa28* s) { auto const t = utl::init_from<ta28>(*s); if (t.has_value()) { cb_field(0, &t->r0); cb_field(1, &t->r1); cb_field(2, &t->r2); cb_field(3, &t->r3); cb_field(4, &t->r4); cb_field(5, &t->r5); cb_field(6, &t->r6); cb_field(7, &t->r7); cb_field(8, &t->r8); cb_field(9, &t->r9); cb_field(10, &t->r10); cb_field(11, &t->r11); cb_field(12, &t->r12); cb_field(13, &t->r13); } else { cb_none(); } }
struct sa29 { T<0> p0; T<0> p1; T<1> p2; T<1> p3; T<2> p4; T<2> p5; T<3> p6; T<3> p7; T<4> p8; T<4> p9; T<5> p10; T<5> p11; T<6> p12; T<6> p13; T<7> p14; T<7> p15; T<8> p16; T<8> p17; T<9> p18; T<9> p19; T<10> p20; T<10> p21; T<11> p22; T<11> p23; T<12> p24; T<12> p25; T<13> p26; T<13> p27; T<14> p28; };
struct ta29 { T<0>& r0; T<1>& r1; T<2>& r2; T<3>& r3; T<4>& r4; T<5>& r5; T<6>& r6; T<7>& r7; T<8>& r8; T<9>& r9; T<10>& r10; T<11>& r11; T<12>& r12; T<13>& r13; T<14>& r14; };
extern "C" void vf_fields_a29(sa29* s) { auto const t = utl::init_from<ta29>(*s); if (t.has_value()) { cb_field(0, &t->r0); cb_field(1, &t->r1); cb_field(2, &t->r2); cb_field(3, &t->r3); cb_field(4, &t->r4); cb_field(5, &t->r5); cb_field(6, &t->r6); cb_field(7, &t->r7); cb_field(8, &t->r8); cb_field(9, &t->r9); cb_field(10, &t->r10); cb_field(11, &t->r11); cb_field(12, &t->r12); cb_field(13, &t->r13); cb_field(14, &t->r14); } else { cb_none(); } }
struct sa30 { T<0> p0; T<0> p1; T<1> p2; T<1> p3; T<2> p4; T<2> p5; T<3> p6; T<3> p7; T<4> p8; T<4> p9; T<5> p10; T<5> p11; T<6> p12; T<6> p13; T<7> p14; T<7> p15; T<8> p16; T<8> p17; T<9> p18; T<9> p19; T<10> p20; T<10> p21; T<11> p22; T<11> p23; T<12> p24; T<12> p25; T<13> p26; T<13> p27; T<14> p28; T<14> p29; };
struct ta30 { T<0>& r0; T<1>& r1; T<2>& r2; T<3>& r3; T<4>& r4; T<5>& r5; T<6>& r6; T<7>& r7; T<8>& r8; T<9>& r9; T<10>& r10; T<11>& r11; T<12>& r12; T<13>& r13; T<14>& r14; };
extern "C" void vf_fields_a30(sa30* s) { auto const t = utl::init_from<ta30>(*s); if (t.has_value()) { cb_field(0, &t->r0); cb_field(1, &t->r1); cb_field(2, &t->r2); cb_field(3, &t->r3); cb_field(4, &t->r4); cb_field(5, &t->r5); cb_field(6, &t->r6); cb_field(7, &t->r7); cb_field(8, &t->r8); cb_field(9, &t->r9); cb_field(10, &t->r10); cb_field(11, &t->r11); cb_field(12, &t->r12); cb_field(13, &t->r13); cb_field(14, &t->r14); } else { cb_none(); } }
struct sa31 { T<0> p0; T<0> p1; T<1> p2; T<1> p3; T<2> p4; T<2> p5; T<3> p6; T<3> p7; T<4> p8; T<4> p9; T<5> p10; T<5> p11; T<6> p12; T<6> p13; T<7> p14; T<7> p15; T<8> p16; T<8> p17; T<9> p18; T<9> p19; T<10> p20; T<10> p21; T<11> p22; T<11> p23; T<12> p24; T<12> p25; T<13> p26; T<13> p27; T<14> p28; T<14> p29; T<15> p30; };
struct ta31 { T<0>& r0; T<1>& r1; T<2>& r2; T<3>& r3; T<4>& r4; T<5>& r5; T<6>& r6; T<7>& r7; T<8>& r8; T<9>& r9; T<10>& r10; T<11>& r11; T<12>& r12; T<13>& r13; T<14>& r14; T<15>& r15; };
extern "C" void vf_fields_a31(sa31* s) { auto const t = utl::init_from<ta31>(*s); if (t.has_value()) { cb_field(0, &t->r0); cb_field(1, &t->r1); cb_field(2, &t->r2); cb_field(3, &t->r3); cb_field(4, &t->r4); cb_field(5, &t->r5); cb_field(6, &t->r6); cb_field(7, &t->r7); cb_field(8, &t->r8); cb_field(9, &t->r9); cb_field(10, &t->r10); cb_field(11, &t->r11); cb_field(12, &t->r12); cb_field(13, &t->r13); cb_field(14, &t->r14); cb_field(15, &t->r15); } else { cb_none(); } }
struct sb1 { T<0> p0; };
struct tb1 { T<0>& r0; };
extern "C" void vf_fields_b1(sb1* s) { auto const t = utl::init_from<tb1>(*s); if (t.has_value()) { cb_field(0, &t->r0); } else { cb_none(); } }
struct sb2 { T<0> p0; T<1> p1; };
struct tb2 { T<0>& r0; T<1>& r1; };
extern "C" void vf_fields_b2(sb2* s) { auto const t = utl::init_from<tb2>(*s); if (t.has_value()) { cb_field(0, &t->r0); cb_field(1, &t->r1); } else { cb_none(); } }
struct sb3 { T<0> p0; T<1> p1; T<1> p2; };
struct tb3 { T<0>& r0; T<1>& r1; };
extern "C" void vf_fields_b3(sb3* s) { auto const t = utl::init_from<tb3>(*s); if (t.has_value()) { cb_field(0, &t->r0); cb_field(1, &t->r1); } else { cb_none(); } }
struct sb4 { T<0> p0; T<1> p1; T<1> p2; T<2> p3; };
struct tb4 { T<0>& r0; T<1>& r1; T<2>& r2; };
extern "C" void vf_fields_b4(sb4* s) { auto const t = utl::init_from<tb4>(*s); if (t.has_value()) { cb_field(0, &t->r0); cb_field(1, &t->r1); cb_field(2, &t->r2); } else { cb_none(); } }
struct sb5 { T<0> p0; T<1> p1; T<1> p2; T<2> p3; T<2> p4; };
struct tb5 { T<0>& r0; T<1>& r1; T<2>& r2; };
extern "C" void vf_fields_b5(sb5* s) { auto const t = utl::init_from<tb5>(*s); if (t.has_value()) { cb_field(0, &t->r0); cb_field(1, &t->r1); cb_field(2, &t->r2); } else { cb_none(); } }
struct sb6 { T<0> p0; T<1> p1; T<1> p2; T<2> p3; T<2> p4; T<3> p5; };
struct tb6 { T<0>& r0; T<1>& r1; T<2>& r2; T<3>& r3; };
extern "C" void vf_fields_b6(sb6* s) { auto const t = utl::init_from<tb6>(*s); if (t.has_value()) { cb_field(0, &t->r0); cb_field(1, &t->r1); cb_field(2, &t->r2); cb_field(3, &t->r3); } else { cb_none(); } }
struct sb7 { T<0> p0; T<1> p1; T<1> p2; T<2> p3; T<2> p4; T<3> p5; T<3> p6; };
struct tb7 { T<0>& r0; T<1>& r1; T<2>& r2; T<3>& r3; };
extern "C" void vf_fields_b7(sb7* s) { auto const t = utl::init_from<tb7>(*s); if (t.has_value()) { cb_field(0, &t->r0); cb_field(1, &t->r1); cb_field(2, &t->r2); cb_field(3, &t->r3); } else { cb_none(); } }
struct sb8 { T<0> p0; T<1> p1; T<1> p2; T<2> p3; T<2> p4; T<3> p5; T<3> p6; T<4> p7; };
struct tb8 { T<0>& r0; T<1>& r1; T<2>& r2; T<3>& r3; T<4>& r4; };
extern "C" void vf_fields_b8(sb8* s) { auto const t = utl::init_from<tb8>(*s); if (t.has_value()) { cb_field(0, &t->r0); cb_field(1, &t->r1); cb_field(2, &t->r2); cb_field(3, &t->r3); cb_field(4, &t->r4); } else { cb_none(); } }
struct sb9 { T<0> p0; T<1> p1; T<1> p2; T<2> p3; T<2> p4; T<3> p5; T<3> p6; T<4> p7; T<4> p8; };
struct tb9 { T<0>& r0; T<1>& r1; T<2>& r2; T<3>& r3; T<4>& r4; };
extern "C" void vf_fields_b9(sb9* s) { auto const t = utl::init_from<tb9>(*s); if (t.has_value()) { cb_field(0, &t->r0); cb_field(1, &t->r1); cb_field(2, &t->r2); cb_field(3, &t->r3); cb_field(4, &t->r4); } else { cb_none(); } }
struct sb10 { T<0> p0; T<1> p1; T<1> p2; T<2> p3; T<2> p4; T<3> p5; T<3> p6; T<4> p7; T<4> p8; T<5> p9; };
struct tb10 { T<0>& r0; T<1>& r1; T<2>& r2; T<3>& r3; T<4>& r4; T<5>& r5; };
extern "C" void vf_fields_b10(sb10* s) { auto const t = utl::init_from<tb10>(*s); if (t.has_value()) { cb_field(0, &t->r0); cb_field(1, &t->r1); cb_field(2, &t->r2); cb_field(3, &t->r3); cb_field(4, &t->r4); cb_field(5, &t->r5); } else { cb_none(); } }
struct sb11 { T<0> p0; T<1> p1; T<1> p2; T<2> p3; T<2> p4; T<3> p5; T<3> p6; T<4> p7; T<4> p8; T<5> p9; T<5> p10; };
struct tb11 { T<0>& r0; T<1>& r1; T<2>& r2; T<3>& r3; T<4>& r4; T<5>& r5; };
extern "C" void vf_fields_b11(sb11* s) { auto const t = utl::init_from<tb11>(*s); if (t.has_value()) { cb_field(0, &t->r0); cb_field(1, &t->r1); cb_field(2, &t->r2); cb_field(3, &t->r3); cb_field(4, &t->r4); cb_field(5, &t->r5); } else { cb_none(); } }
struct sb12 { T<0> p0; T<1> p1; T<1> p2; T<2> p3; T<2> p4; T<3> p5; T<3> p6; T<4> p7; T<4> p8; T<5> p9; T<5> p10; T<6> p11; };
struct tb12 { T<0>& r0; T<1>& r1; T<2>& r2; T<3>& r3; T<4>& r4; T<5>& r5; T<6>& r6; };
extern "C" void vf_fields_b12(sb12* s) { auto const t = utl::init_from<tb12>(*s); if (t.has_value()) { cb_field(0, &t->r0); cb_field(1, &t->r1); cb_field(2, &t->r2); cb_field(3, &t->r3); cb_field(4, &t->r4); cb_field(5, &t->r5); cb_field(6, &t->r6); } else { cb_none(); } }
struct sb13 { T<0> p0; T<1> p1; T<1> p2; T<2> p3; T<2> p4; T<3> p5; T<3> p6; T<4> p7; T<4> p8; T<5> p9; T<5> p10; T<6> p11; T<6> p12; };
struct tb13 { T<0>& r0; T<1>& r1; T<2>& r2; T<3>& r3; T<4>& r4; T<5>& r5; T<6>& r6; };
extern "C" void vf_fields_b13(sb13* s) { auto const t = utl::init_from<tb13>(*s); if (t.has_value()) { cb_field(0, &t->r0); cb_field(1, &t->r1); cb_field(2, &t->r2); cb_field(3, &t->r3); cb_field(4, &t->r4); cb_field(5, &t->r5); cb_field(6, &t->r6); } else { cb_none(); } }
struct sb14 { T<0> p0; T<1> p1; T<1> p2; T<2> p3; T<2> p4; T<3> p5; T<3> p6; T<4> p7; T<4> p8; T<5> p9; T<5> p10; T<6> p11; T<6> p12; T<7> p13; };
struct tb14 { T<0>& r0; T<1>& r1; T<2>& r2; T<3>& r3; T<4>& r4; T<5>& r5; T<6>& r6; T<7>& r7; };
extern "C" void vf_fields_b14(sb14* s) { auto const t = utl::init_from<tb14>(*s); if (t.has_value()) { cb_field(0, &t->r0); cb_field(1, &t->r1); cb_field(2, &t->r2); cb_field(3, &t->r3); cb_field(4, &t->r4); cb_field(5, &t->r5); cb_field(6, &t->r6); cb_field(7, &t->r7); } else { cb_none(); } }
struct sb15 { T<0> p0; T<1> p1; T<1> p2; T<2> p3; T<2> p4; T<3> p5; T<3> p6; T<4> p7; T<4> p8; T<5> p9; T<5> p10; T<6> p11; T<6> p12; T<7> p13; T<7> p14; };
struct tb15 { T<0>& r0; T<1>& r1; T<2>& r2; T<3>& r3; T<4>& r4; T<5>& r5; T<6>& r6; T<7>& r7; };
extern "C" void vf_fields_b15(sb15* s) { auto const t = utl::init_from<tb15>(*s); if (t.has_value()) { cb_field(0, &t->r0); cb_field(1, &t->r1); cb_field(2, &t->r2); cb_field(3, &t->r3); cb_field(4, &t->r4); cb_field(5, &t->r5); cb_field(6, &t->r6); cb_field(7, &t->r7); } else { cb_none(); } }
struct sb16 { T<0> p0; T<1> p1; T<1> p2; T<2> p3; T<2> p4; T<3> p5; T<3> p6; T<4> p7; T<4> p8; T<5> p9; T<5> p10; T<6> p11; T<6> p12; T<7> p13; T<7> p14; T<8> p15; };
struct tb16 { T<0>& r0; T<1>& r1; T<2>& r2; T<3>& r3; T<4>& r4; T<5>& r5; T<6>& r6; T<7>& r7; T<8>& r8; };
extern "C" void vf_fields_b16(sb16* s) { auto const t = utl::init_from<tb16>(*s); if (t.has_value()) { cb_field(0, &t->r0); cb_field(1, &t->r1); cb_field(2, &t->r2); cb_field(3, &t->r3); cb_field(4, &t->r4); cb_field(5, &t->r5); cb_field(6, &t->r6); cb_field(7, &t->r7); cb_field(8, &t->r8); } else { cb_none(); } }
struct sb17 { T<0> p0; T<1> p1; T<1> p2; T<2> p3; T<2> p4; T<3> p5; T<3> p6; T<4> p7; T<4> p8; T<5> p9; T<5> p10; T<6> p11; T<6> p12; T<7> p13; T<7> p14; T<8> p15; T<8> p16; };
struct tb17 { T<0>& r0; T<1>& r1; T<2>& r2; T<3>& r3; T<4>& r4; T<5>& r5; T<6>& r6; T<7>& r7; T<8>& r8; };
extern "C" void vf_fields_b17(sb17* s) { auto const t = utl::init_from<tb17>(*s); if (t.has_value()) { cb_field(0, &t->r0); cb_field(1, &t->r1); cb_field(2, &t->r2); cb_field(3, &t->r3); cb_field(4, &t->r4); cb_field(5, &t->r5); cb_field(6, &t->r6); cb_field(7, &t->r7); cb_field(8, &t->r8); } else { cb_none(); } }
struct sb18 { T<0> p0; T<1> p1; T<1> p2; T<2> p3; T<2> p4; T<3> p5; T<3> p6; T<4> p7; T<4> p8; T<5> p9; T<5> p10; T<6> p11; T<6> p12; T<7> p13; T<7> p14; T<8> p15; T<8> p16; T<9> p17; };
struct tb18 { T<0>& r0; T<1>& r1; T<2>& r2; T<3>& r3; T<4>& r4; T<5>& r5; T<6>& r6; T<7>& r7; T<8>& r8; T<9>& r9; };
extern "C" void vf_fields_b18(sb18* s) { auto const t = utl::init_from<tb18>(*s); if (t.has_value()) { cb_field(0, &t->r0); cb_field(1, &t->r1); cb_field(2, &t->r2); cb_field(3, &t->r3); cb_field(4, &t->r4); cb_field(5, &t->r5); cb_field(6, &t->r6); cb_field(7, &t->r7); cb_field(8, &t->r8); cb_field(9, &t->r9); } else { cb_none(); } }
struct sb19 { T<0> p0; T<1> p1; T<1> p2; T<2> p3; T<2> p4; T<3> p5; T<3> p6; T<4> p7; T<4> p8; T<5> p9; T<5> p10; T<6> p11; T<6> p12; T<7> p13; T<7> p14; T<8> p15; T<8> p16; T<9> p17; T<9> p18; };
struct tb19 { T<0>& r0; T<1>& r1; T<2>& r2; T<3>& r3; T<4>& r4; T<5>& r5; T<6>& r6; T<7>& r7; T<8>& r8; T<9>& r9; };
extern "C" void vf_fields_b19(sb19* s) { auto const t = utl::init_from<tb19>(*s); if (t.has_value()) { cb_field(0, &t->r0); cb_field(1, &t->r1); cb_field(2, &t->r2); cb_field(3, &t->r3); cb_field(4, &t->r4); cb_field(5, &t->r5); cb_field(6, &t->r6); cb_field(7, &t->r7); cb_field(8, &t->r8); cb_field(9, &t->r9); } else { cb_none(); } }
struct sb20 { T<0> p0; T<1> p1; T<1> p2; T<2> p3; T<2> p4; T<3> p5; T<3> p6; T<4> p7; T<4> p8; T<5> p9; T<5> p10; T<6> p11; T<6> p12; T<7> p13; T<7> p14; T<8> p15; T<8> p16; T<9> p17; T<9> p18; T<10> p19; };
struct tb20 { T<0>& r0; T<1>& r1; T<2>& r2; T<3>& r3; T<4>& r4; T<5>& r5; T<6>& r6; T<7>& r7; T<8>& r8; T<9>& r9; T<10>& r10; };
extern "C" void vf_fields_b20(sb20* s) { auto const t = utl::init_from<tb20>(*s); if (t.has_value()) { cb_field(0, &t->r0); cb_field(1, &t->r1); cb_field(2, &t->r2); cb_field(3, &t->r3); cb_field(4, &t->r4); cb_field(5, &t->r5); cb_field(6, &t->r6); cb_field(7, &t->r7); cb_field(8, &t->r8); cb_field(9, &t->r9); cb_field(10, &t->r10); } else { cb_none(); } }
struct sb21 { T<0> p0; T<1> p1; T<1> p2; T<2> p3; T<2> p4; T<3> p5; T<3> p6; T<4> p7; T<4> p8; T<5> p9; T<5> p10; T<6> p11; T<6> p12; T<7> p13; T<7> p14; T<8> p15; T<8> p16; T<9> p17; T<9> p18; T<10> p19; T<10> p20; };
struct tb21 { T<0>& r0; T<1>& r1; T<2>& r2; T<3>& r3; T<4>& r4; T<5>& r5; T<6>& r6; T<7>& r7; T<8>& r8; T<9>& r9; T<10>& r10; };
extern "C" void vf_fields_b21(sb21* s) { auto const t = utl::init_from<tb21>(*s); if (t.has_value()) { cb_field(0, &t->r0); cb_field(1, &t->r1); cb_field(2, &t->r2); cb_field(3, &t->r3); cb_field(4, &t->r4); cb_field(5, &t->r5); cb_field(6, &t->r6); cb_field(7, &t->r7); cb_field(8, &t->r8); cb_field(9, &t->r9); cb_field(10, &t->r10); } else { cb_none(); } }
struct sb22 { T<0> p0; T<1> p1; T<1> p2; T<2> p3; T<2> p4; T<3> p5; T<3> p6; T<4> p7; T<4> p8; T<5> p9; T<5> p10; T<6> p11; T<6> p12; T<7> p13; T<7> p14; T<8> p15; T<8> p16; T<9> p17; T<9> p18; T<10> p19; T<10> p20; T<11> p21; };
struct tb22 { T<0>& r0; T<1>& r1; T<2>& r2; T<3>& r3; T<4>& r4; T<5>& r5; T<6>& r6; T<7>& r7; T<8>& r8; T<9>& r9; T<10>& r10; T<11>& r11; };
extern "C" void vf_fields_b22(sb22* s) { auto const t = utl::init_from<tb22>(*s); if (t.has_value()) { cb_field(0, &t->r0); cb_field(1, &t->r1); cb_field(2, &t->r2); cb_field(3, &t->r3); cb_field(4, &t->r4); cb_field(5, &t->r5); cb_field(6, &t->r6); cb_field(7, &t->r7); cb_field(8, &t->r8); cb_field(9, &t->r9); cb_field(10, &t->r10); cb_field(11, &t->r11); } else { cb_none(); } }
struct sb23 { T<0> p0; T<1> p1; T<1> p2; T<2> p3; T<2> p4; T<3> p5; T<3> p6; T<4> p7; T<4> p8; T<5> p9; T<5> p10; T<6> p11; T<6> p12; T<7> p13; T<7> p14; T<8> p15; T<8> p16; T<9> p17; T<9> p18; T<10> p19; T<10> p20; T<11> p21; T<11> p22; };
struct tb23 { T<0>& r0; T<1>& r1; T<2>& r2; T<3>& r3; T<4>& r4; T<5>& r5; T<6>& r6; T<7>& r7; T<8>& r8; T<9>& r9; T<10>& r10; T<11>& r11; };
extern "C" void vf_fields_b23(sb23* s) { auto const t = utl::init_from<tb23>(*s); if (t.has_value()) { cb_field(0, &t->r0); cb_field(1, &t->r1); cb_field(2, &t->r2); cb_field(3, &t->r3); cb_field(4, &t->r4); cb_field(5, &t->r5); cb_field(6, &t->r6); cb_field(7, &t->r7); cb_field(8, &t->r8); cb_field(9, &t->r9); cb_field(10, &t->r10); cb_field(11, &t->r11); } else { cb_none(); } }
struct sb24 { T<0> p0; T<1> p1; T<1> p2; T<2> p3; T<2> p4; T<3> p5; T<3> p6; T<4> p7; T<4> p8; T<5> p9; T<5> p10; T<6> p11; T<6> p12; T<7> p13; T<7> p14; T<8> p15; T<8> p16; T<9> p17; T<9> p18; T<10> p19; T<10> p20; T<11> p21; T<11> p22; T<12> p23; };
struct tb24 { T<0>& r0; T<1>& r1; T<2>& r2; T<3>& r3; T<4>& r4; T<5>& r5; T<6>& r6; T<7>& r7; T<8>& r8; T<9>& r9; T<10>& r10; T<11>& r11; T<12>& r12; };
extern "C" void vf_fields_b24(sb24* s) { auto const t = utl::init_from<tb24>(*s); if (t.has_value()) { cb_field(0, &t->r0); cb_field(1, &t->r1); cb_field(2, &t->r2); cb_field(3, &t->r3); cb_field(4, &t->r4); cb_field(5, &t->r5); cb_field(6, &t->r6); cb_field(7, &t->r7); cb_field(8, &t->r8); cb_field(9, &t->r9); cb_field(10, &t->r10); cb_field(11, &t->r11); cb_field(12, &t->r12); } else { cb_none(); } }
struct sb25 { T<0> p0; T<1> p1; T<1> p2; T<2> p3; T<2> p4; T<3> p5; T<3> p6; T<4> p7; T<4> p8; T<5> p9; T<5> p10; T<6> p11; T<6> p12; T<7> p13; T<7> p14; T<8> p15; T<8> p16; T<9> p17; T<9> p18; T<10> p19; T<10> p20; T<11> p21; T<11> p22; T<12> p23; T<12> p24; };
struct tb25 { T<0>& r0; T<1>& r1; T<2>& r2; T<3>& r3; T<4>& r4; T<5>& r5; T<6>& r6; T<7>& r7; T<8>& r8; T<9>& r9; T<10>& r10; T<11>& r11; T<12>& r12; };
extern "C" void vf_fields_b25(sb25* s) { auto const t = utl::init_from<tb25>(*s); if (t.has_value()) { cb_field(0, &t->r0); cb_field(1, &t->r1); cb_field(2, &t->r2); cb_field(3, &t->r3); cb_field(4, &t->r4); cb_field(5, &t->r5); cb_field(6, &t->r6); cb_field(7, &t->r7); cb_field(8, &t->r8); cb_field(9, &t->r9); cb_field(10, &t->r10); cb_field(11, &t->r11); cb_field(12, &t->r12); } else { cb_none(); } }
struct sb26 { T<0> p0; T<1> p1; T<1> p2; T<2> p3; T<2> p4; T<3> p5; T<3> p6; T<4> p7; T<4> p8; T<5> p9; T<5> p10; T<6> p11; T<6> p12; T<7> p13; T<7> p14; T<8> p15; T<8> p16; T<9> p17; T<9> p18; T<10> p19; T<10> p20; T<11> p21; T<11> p22; T<12> p23; T<12> p24; T<13> p25; };
struct tb26 { T<0>& r0; T<1>& r1; T<2>& r2; T<3>& r3; T<4>& r4; T<5>& r5; T<6>& r6; T<7>& r7; T<8>& r8; T<9>& r9; T<10>& r10; T<11>& r11; T<12>& r12; T<13>& r13; };
extern "C" void vf_fields_b26(sb26* s) { auto const t = utl::init_from<tb26>(*s); if (t.has_value()) { cb_field(0, &t->r0); cb_field(1, &t->r1); cb_field(2, &t->r2); cb_field(3, &t->r3); cb_field(4, &t->r4); cb_field(5, &t->r5); cb_field(6, &t->r6); cb_field(7, &t->r7); cb_field(8, &t->r8); cb_field(9, &t->r9); cb_field(10, &t->r10); cb_field(11, &t->r11); cb_field(12, &t->r12); cb_field(13, &t->r13); } else { cb_none(); } }
struct sb27 { T<0> p0; T<1> p1; T<1> p2; T<2> p3; T<2> p4; T<3> p5; T<3> p6; T<4> p7; T<4> p8; T<5> p9; T<5> p10; T<6> p11; T<6> p12; T<7> p13; T<7> p14; T<8> p15; T<8> p16; T<9> p17; T<9> p18; T<10> p19; T<10> p20; T<11> p21; T<11> p22; T<12> p23; T<12> p24; T<13> p25; T<13> p26; };
struct tb27 { T<0>& r0; T<1>& r1; T<2>& r2; T<3>& r3; T<4>& r4; T<5>& r5; T<6>& r6; T<7>& r7; T<8>& r8; T<9>& r9; T<10>& r10; T<11>& r11; T<12>& r12; T<13>& r13; };
extern "C" void vf_fields_b27(sb27* s) { auto const t = utl::init_from<tb27>(*s); if (t.has_value()) { cb_field(0, &t->r0); cb_field(1, &t->r1); cb_field(2, &t->r2); cb_field(3, &t->r3); cb_field(4, &t->r4); cb_field(5, &t->r5); cb_field(6, &t->r6); cb_field(7, &t->r7); cb_field(8, &t->r8); cb_field(9, &t->r9); cb_field(10, &t->r10); cb_field(11, &t->r11); cb_field(12, &t->r12); cb_field(13, &t->r13); } else { cb_none(); } }
struct sb28 { T<0> p0; T<1> p1; T<1> p2; T<2> p3; T<2> p4; T<3> p5; T<3> p6; T<4> p7; T<4> p8; T<5> p9; T<5> p10; T<6> p11; T<6> p12; T<7> p13; T<7> p14; T<8> p15; T<8> p16; T<9> p17; T<9> p18; T<10> p19; T<10> p20; T<11> p21; T<11> p22; T<12> p23; T<12> p24; T<13> p25; T<13> p26; T<14> p27; };
struct tb28 { T<0>& r0; T<1>& r1; T<2>& r2; T<3>& r3; T<4>& r4; T<5>& r5; T<6>& r6; T<7>& r7; T<8>& r8; T<9>& r9; T<10>& r10; T<11>& r11; T<12>& r12; T<13>& r13; T<14>& r14; };
extern "C" void vf_fields_b28(sb28* s) { auto const t = utl::init_from<tb28>(*s); if (t.has_value()) { cb_field(0, &t->r0); cb_field(1, &t->r1); cb_field(2, &t->r2); cb_field(3, &t->r3); cb_field(4, &t->r4); cb_field(5, &t->r5); cb_field(6, &t->r6); cb_field(7, &t->r7); cb_field(8, &t->r8); cb_field(9, &t->r9); cb_field(10, &t->r10); cb_field(11, &t->r11); cb_field(12, &t->r12); cb_field(13, &t->r13); cb_field(14, &t->r14); } else { cb_none(); } }
struct sb29 { T<0> p0; T<1> p1; T<1> p2; T<2> p3; T<2> p4; T<3> p5; T<3> p6; T<4> p7; T<4> p8; T<5> p9; T<5> p10; T<6> p11; T<6> p12; T<7> p13; T<7> p14; T<8> p15; T<8> p16; T<9> p17; T<9> p18; T<10> p19; T<10> p20; T<11> p21; T<11> p22; T<12> p23; T<12> p24; T<13> p25; T<13> p26; T<14> p27; T<14> p28; };
struct tb29 { T<0>& r0; T<1>& r1; T<2>& r2; T<3>& r3; T<4>& r4; T<5>& r5; T<6>& r6; T<7>& r7; T<8>& r8; T<9>& r9; T<10>& r10; T<11>& r11; T<12>& r12; T<13>& r13; T<14>& r14; };
extern "C" void vf_fields_b29(sb29* s) { auto const t = utl::init_from<tb29>(*s); if (t.has_value()) { cb_field(0, &t->r0); cb_field(1, &t->r1); cb_field(2, &t->r2); cb_field(3, &t->r3); cb_field(4, &t->r4); cb_field(5, &t->r5); cb_field(6, &t->r6); cb_field(7, &t->r7); cb_field(8, &t->r8); cb_field(9, &t->r9); cb_field(10, &t->r10); cb_field(11, &t->r11); cb_field(12, &t->r12); cb_field(13, &t->r13); cb_field(14, &t->r14); } else { cb_none(); } }
struct sb30 { T<0> p0; T<1> p1; T<1> p2; T<2> p3; T<2> p4; T<3> p5; T<3> p6; T<4> p7; T<4> p8; T<5> p9; T<5> p10; T<6> p11; T<6> p12; T<7> p13; T<7> p14; T<8> p15; T<8> p16; T<9> p17; T<9> p18; T<10> p19; T<10> p20; T<11> p21; T<11> p22; T<12> p23; T<12> p24; T<13> p25; T<13> p26; T<14> p27; T<14> p28; T<15> p29; };
struct tb30 { T<0>& r0; T<1>& r1; T<2>& r2; T<3>& r3; T<4>& r4; T<5>& r5; T<6>& r6; T<7>& r7; T<8>& r8; T<9>& r9; T<10>& r10; T<11>& r11; T<12>& r12; T<13>& r13; T<14>& r14; T<15>& r15; };
extern "C" void vf_fields_b30(sb30* s) { auto const t = utl::init_from<tb30>(*s); if (t.has_value()) { cb_field(0, &t->r0); cb_field(1, &t->r1); cb_field(2, &t->r2); cb_field(3, &t->r3); cb_field(4, &t->r4); cb_field(5, &t->r5); cb_field(6, &t->r6); cb_field(7, &t->r7); cb_field(8, &t->r8); cb_field(9, &t->r9); cb_field(10, &t->r10); cb_field(11, &t->r11); cb_field(12, &t->r12); cb_field(13, &t->r13); cb_field(14, &t->r14); cb_field(15, &t->r15); } else { cb_none(); } }
struct sb31 { T<0> p0; T<1> p1; T<1> p2; T<2> p3; T<2> p4; T<3> p5; T<3> p6; T<4> p7; T<4> p8; T<5> p9; T<5> p10; T<6> p11; T<6> p12; T<7> p13; T<7> p14; T<8> p15; T<8> p16; T<9> p17; T<9> p18; T<10> p19; T<10> p20; T<11> p21; T<11> p22; T<12> p23; T<12> p24; T<13> p25; T<13> p26; T<14> p27; T<14> p28; T<15> p29; T<15> p30; };
struct tb31 { T<0>& r0; T<1>& r1; T<2>& r2; T<3>& r3; T<4>& r4; T<5>& r5; T<6>& r6; T<7>& r7; T<8>& r8; T<9>& r9; T<10>& r10; T<11>& r11; T<12>& r12; T<13>& r13; T<14>& r14; T<15>& r15; };
extern "C" void vf_fields_b31(sb31* s) { auto const t = utl::init_from<tb31>(*s); if (t.has_value()) { cb_field(0, &t->r0); cb_field(1, &t->r1); cb_field(2, &t->r2); cb_field(3, &t->r3); cb_field(4, &t->r4); cb_field(5, &t->r5); cb_field(6, &t->r6); cb_field(7, &t->r7); cb_field(8, &t->r8); cb_field(9, &t->r9); cb_field(10, &t->r10); cb_field(11, &t->r11); cb_field(12, &t->r12); cb_field(13, &t->r13); cb_field(14, &t->r14); cb_field(15, &t->r15); } else { cb_none(); } }
