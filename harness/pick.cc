#include <memory>
#include <type_traits>
#include <utility>
#include "utl/init_from.h"
#include "utl/match.h"
#include "utl/overloaded.h"
extern "C" {
int cb_a(void*); int cb_b(void*); int cb_c(void*);
void cb_refs(void* a, void* b, void* c, void* d);
void cb_none();
void cb_int(int); void cb_float(float);
}
struct base { virtual ~base(); };
struct A : base {}; struct B : A {}; struct C : base {};
struct test { int q; };
struct tgt { int& i; float& j; int& k; test* s; };
struct s1 { double z; std::unique_ptr<float> x; int y; std::unique_ptr<test> s; ~s1(); };
struct s2 { double z; float* x; int* y; test* s; int w; float v; };
struct s3 { int y; float v; test* s; };
struct opt { test* s; float* p; };
struct s4 { float v; std::unique_ptr<test> s; float* q; float* r; ~s4(); };
extern "C" {
int vf_match1(base* p) { return utl::match(p, [](A* x) { return cb_a(x); }); }
int vf_match3(base* p) { return utl::match(p, [](C* x) { return cb_c(x); }, [](B* x) { return cb_b(x); }, [](A* x) { return cb_a(x); }); }
int vf_match_const(base const* p) { return utl::match(p, [](A const* x) { return cb_a(const_cast<A*>(x)); }, [](C const* x) { return cb_c(const_cast<C*>(x)); }); }
}
template <typename T, typename S> inline void from(S& s) {
  auto const t = utl::init_from<T>(s);
  if (t.has_value()) {
    cb_refs(&t->i, &t->j, &t->k, t->s);
  } else {
    cb_none();
  }
}
extern "C" {
void vf_from1(s1* s) { from<tgt>(*s); }
void vf_from2(s2* s) { from<tgt>(*s); }
void vf_from3(s3* s) { from<tgt>(*s); }
void vf_from4(s4* s) { auto const t = utl::init_from<opt>(*s); if (t.has_value()) { cb_refs(t->s, t->p, nullptr, nullptr); } else { cb_none(); } }
void vf_over_int(int x) { utl::overloaded{[](int i) { cb_int(i); }, [](float f) { cb_float(f); }}(x); }
void vf_over_float(float x) { utl::overloaded{[](int i) { cb_int(i); }, [](float f) { cb_float(f); }}(x); }
void vf_over_other(short x) { utl::overloaded{[](int i) { cb_int(i); }, [](float f) { cb_float(f); }}(x); }
}
