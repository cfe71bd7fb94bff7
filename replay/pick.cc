// C27
#include "common.h"
#include "../harness/pick.cc"
#include "../harness/pickn.cc"
using namespace rp;
base::~base() = default;
s1::~s1() = default;
s4::~s4() = default;
static std::vector<std::pair<char, void const*>> calls;
static std::vector<void const*> refs;
static std::vector<std::pair<int, void const*>> flds;
static int nones;
static std::vector<std::pair<int, double>> vals;
extern "C" {
int cb_a(void* p) { calls.emplace_back('a', p); return 11; }
int cb_b(void* p) { calls.emplace_back('b', p); return 12; }
int cb_c(void* p) { calls.emplace_back('c', p); return 13; }
void cb_refs(void* a, void* b, void* c, void* d) { refs = {a, b, c, d}; }
void cb_none() { ++nones; }
void cb_int(int i) { vals.emplace_back(0, i); }
void cb_float(float f) { vals.emplace_back(1, f); }
void cb_field(int i, void* p) { flds.emplace_back(i, p); }
}
template <typename F> static void m(char const* what, F&& f, char want, void const* obj) {
  cur(what, 0, 0); calls.clear();
  int r = 0; bool thrown = false;
  try { r = f(); } catch (std::runtime_error const&) { thrown = true; }
  eq("match throws", thrown, want == 0);
  eq("functions called", calls.size(), want == 0 ? 0U : 1U);
  if (want != 0 && calls.size() == 1U) { eq("function called", calls[0].first, want); eq("with the object", calls[0].second == obj, true); eq("result", r, 11 + (want - 'a')); }
}
static void from(char const* what, void (*f)(void*), void* s, std::vector<void const*> const& want) {
  cur(what, 0, 0); refs.clear(); nones = 0; f(s);
  eq("no result", nones, want.empty() ? 1 : 0);
  eq("fields bound", refs == want, true);
}
template <typename T, void (*F)(T*)> static void w(void* s) { F(static_cast<T*>(s)); }
static void c27() {
  while (more()) {
    A a; B b; C c; base* n = nullptr;
    m("match1 A", [&] { return vf_match1(&a); }, 'a', &a); m("match1 B", [&] { return vf_match1(&b); }, 'a', &b);
    m("match1 C", [&] { return vf_match1(&c); }, 0, nullptr); m("match1 null", [&] { return vf_match1(n); }, 0, nullptr);
    m("match3 A", [&] { return vf_match3(&a); }, 'a', &a); m("match3 B", [&] { return vf_match3(&b); }, 'b', &b);
    m("match3 C", [&] { return vf_match3(&c); }, 'c', &c); m("match3 null", [&] { return vf_match3(n); }, 0, nullptr);
    m("match2 A", [&] { return vf_match_const(&a); }, 'a', &a); m("match2 B", [&] { return vf_match_const(&b); }, 'a', &b);
    m("match2 C", [&] { return vf_match_const(&c); }, 'c', &c);
    for (auto k = 0U; k != 16U; ++k) {
      s1 x{0.0, (k & 1U) ? std::make_unique<float>(1.F) : nullptr, 4, (k & 2U) ? std::make_unique<test>() : nullptr};
      from("values and owners", w<s1, vf_from1>, &x, (k & 1U) ? std::vector<void const*>{&x.y, x.x.get(), &x.y, x.s.get()} : std::vector<void const*>{});
      float f = 1.F; int i = 2; test t{};
      s2 y{0.0, (k & 1U) ? &f : nullptr, (k & 2U) ? &i : nullptr, (k & 4U) ? &t : nullptr, 3, 4.F};
      from("pointers before values", w<s2, vf_from2>, &y, (k & 3U) == 3U ? std::vector<void const*>{y.y, y.x, y.y, y.s} : std::vector<void const*>{});
      s3 z{1, 2.F, (k & 1U) ? &t : nullptr};
      from("values only", w<s3, vf_from3>, &z, {&z.y, &z.v, &z.y, z.s});
      float g = 2.F;
      s4 v{1.F, (k & 1U) ? std::make_unique<test>() : nullptr, (k & 2U) ? &f : nullptr, (k & 4U) ? &g : nullptr};
      from("optional pointers", w<s4, vf_from4>, &v, {v.s.get(), v.q, nullptr, nullptr});
    }
    using V = std::vector<std::pair<int, double>>;
    cur("overloaded", 0, 0);
    vals.clear(); vf_over_int(7); eq("overloaded int", vals == V{{0, 7.0}}, true);
    vals.clear(); vf_over_float(2.5F); eq("overloaded float", vals == V{{1, 2.5}}, true);
    vals.clear(); vf_over_other(3); eq("overloaded other", vals.empty(), true);
    alignas(8) static int mem[32];
#define ONE(n, k, sch) { cur("fields of (scheme, number)", sch, k); flds.clear(); nones = 0; vf_fields_##n##k(reinterpret_cast<s##n##k*>(mem)); eq("no result", nones, 0); eq("fields", flds.size(), static_cast<std::size_t>((k - 1 + sch) / 2 + 1)); for (auto const& [i, p] : flds) { eq("field bound to", static_cast<int const*>(p) - mem, static_cast<std::ptrdiff_t>(i == 0 ? 0 : 2 * i - sch)); } }
    ONE(a, 1, 0) ONE(b, 1, 1)
    ONE(a, 2, 0) ONE(b, 2, 1)
    ONE(a, 3, 0) ONE(b, 3, 1)
    ONE(a, 4, 0) ONE(b, 4, 1)
    ONE(a, 5, 0) ONE(b, 5, 1)
    ONE(a, 6, 0) ONE(b, 6, 1)
    ONE(a, 7, 0) ONE(b, 7, 1)
    ONE(a, 8, 0) ONE(b, 8, 1)
    ONE(a, 9, 0) ONE(b, 9, 1)
    ONE(a, 10, 0) ONE(b, 10, 1)
    ONE(a, 11, 0) ONE(b, 11, 1)
    ONE(a, 12, 0) ONE(b, 12, 1)
    ONE(a, 13, 0) ONE(b, 13, 1)
    ONE(a, 14, 0) ONE(b, 14, 1)
    ONE(a, 15, 0) ONE(b, 15, 1)
    ONE(a, 16, 0) ONE(b, 16, 1)
    ONE(a, 17, 0) ONE(b, 17, 1)
    ONE(a, 18, 0) ONE(b, 18, 1)
    ONE(a, 19, 0) ONE(b, 19, 1)
    ONE(a, 20, 0) ONE(b, 20, 1)
    ONE(a, 21, 0) ONE(b, 21, 1)
    ONE(a, 22, 0) ONE(b, 22, 1)
    ONE(a, 23, 0) ONE(b, 23, 1)
    ONE(a, 24, 0) ONE(b, 24, 1)
    ONE(a, 25, 0) ONE(b, 25, 1)
    ONE(a, 26, 0) ONE(b, 26, 1)
    ONE(a, 27, 0) ONE(b, 27, 1)
    ONE(a, 28, 0) ONE(b, 28, 1)
    ONE(a, 29, 0) ONE(b, 29, 1)
    ONE(a, 30, 0) ONE(b, 30, 1)
    ONE(a, 31, 0) ONE(b, 31, 1)
  }
}
int main(int c, char** v) { return run(c, v, {{"C27", c27}}); }
