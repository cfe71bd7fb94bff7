// C26
#include "common.h"
#include "../harness/facade.cc"
using namespace rp;
static long res_r, res_a, calls_bad;
static bool only_one;
static int elems[64];
extern "C" {
long cb_increment(long p) noexcept { return p + 1; }
long cb_decrement(long p) noexcept { return p - 1; }
long cb_advance(long p, long d) noexcept { if (only_one && d != 1 && d != -1) { calls_bad = 1; } return p + d; }
long cb_distance(long p, long q) noexcept { return q - p; }
bool cb_equal(long p, long q) noexcept { return p == q; }
bool cb_end(long p) noexcept { return p % 3 == 0; }
long cb_left(long p) noexcept { return (p & 0xff) + 7; }
int const* cb_ref(long p) noexcept { return reinterpret_cast<int const*>(p * 4 + 4096); }
int cb_value(long p) noexcept { return static_cast<int>(p & 0x7fffffff); }
void cb_res(long r, long a) noexcept { res_r = r; res_a = a; }
}
static void is(char const* what, long r, long a) { eq(what, res_r, r); eq(what, res_a, a); check(calls_bad == 0, "advance called with something else than 1 or -1 without random access"); }
#define R_INC(T, old) only_one = std::string(#T) == "ad"; vf_##T##_preinc(p); is(#T " ++it", 1, p + 1); vf_##T##_postinc(p); is(#T " it++", old, p + 1);
#define R_DEC(T) vf_##T##_predec(p); is(#T " --it", 1, p - 1); vf_##T##_postdec(p); is(#T " it--", p, p - 1); only_one = false;
#define R_REF(T) vf_##T##_deref(p); is(#T " *it", p * 4 + 4096, p); vf_##T##_arrow(p); is(#T " it->", p * 4 + 4096, p);
#define R_EQ(T) eq(#T " ==", vf_##T##_eq(p, q), p == q); eq(#T " !=", vf_##T##_ne(p, q), p != q);
#define R_NUM(T, N, D) { auto const d = static_cast<D>(n); auto const l = static_cast<long>(d); \
  vf_##T##_plus_##N(p, d); is(#T " it + d (" #D ")", p + l, p); vf_##T##_rplus_##N(p, d); is(#T " d + it (" #D ")", p + l, p); \
  vf_##T##_minus_##N(p, d); is(#T " it - d (" #D ")", p - l, p); vf_##T##_pluseq_##N(p, d); is(#T " it += d (" #D ")", 1, p + l); \
  vf_##T##_minuseq_##N(p, d); is(#T " it -= d (" #D ")", 1, p - l); vf_##T##_index_##N(p, d); is(#T " it[d] (" #D ")", (p + l) * 4 + 4096, p); }
#define R_ORD(T) eq(#T " it - it", vf_##T##_diff(p, q), p - q); eq(#T " <", vf_##T##_lt(p, q), p < q); eq(#T " <=", vf_##T##_le(p, q), p <= q); eq(#T " >", vf_##T##_gt(p, q), p > q); eq(#T " >=", vf_##T##_ge(p, q), p >= q);
#define R_RA(T) eq(#T " category", vf_##T##_category(), 3L); R_INC(T, p) R_DEC(T) R_REF(T) R_EQ(T) R_ORD(T) R_NUM(T, l, long) R_NUM(T, i, int) R_NUM(T, u, unsigned)
static void c26() {
  std::list<int> const li{1, 2, 3};
  while (more()) {
    long const p = (1L << 40) + static_cast<long>(rng() >> 6), q = rnd(3) == 0 ? p : rnd(2) ? p + static_cast<long>(rnd(9)) - 4 : (1L << 40) + static_cast<long>(rng() >> 6);
    long const n = rnd(2) ? static_cast<long>(rnd(20)) - 10 : static_cast<long>(rng() >> 12) - (1L << 51);
    cur("iterators at p, q, distance n", p, q, n);
    R_RA(ra) R_RA(al)
    eq("bi category", vf_bi_category(), 2L); R_INC(bi, p) R_DEC(bi) R_REF(bi) R_EQ(bi)
    eq("ad category", vf_ad_category(), 2L); R_INC(ad, p) R_DEC(ad) R_REF(ad) R_EQ(ad)
    eq("fw category", vf_fw_category(), 1L); R_INC(fw, p) only_one = false; R_EQ(fw)
    eq("sp category", vf_sp_category(), 0L); R_INC(sp, 0) R_REF(sp)
    vf_fw_deref(p); is("fw *it", p & 0x7fffffff, p); vf_fw_arrow(p); is("fw it->", p & 0x7fffffff, p);
    eq("sp == end", vf_sp_eq(p), p % 3 == 0); eq("end == sp", vf_sp_req(p), p % 3 == 0); eq("sp != end", vf_sp_ne(p), p % 3 != 0); eq("end != sp", vf_sp_rne(p), p % 3 != 0); eq("end - sp", vf_sp_left(p), (p & 0xff) + 7);
    long const i = 10 + static_cast<long>(rnd(40)), j = 10 + static_cast<long>(rnd(40)), d = static_cast<long>(rnd(20)) - 10;
    auto const a = elems + i, b = elems + j;
    cur("wrapped pointers at i, j, distance d", i, j, d);
    eq("category", vf_wp_category(), 3L); check(vf_wp_preinc(a) == a + 1, "++it"); check(vf_wp_predec(a) == a - 1, "--it"); vf_wp_postinc(a); is("it++", reinterpret_cast<long>(a), reinterpret_cast<long>(a + 1));
    check(vf_wp_plus(a, d) == a + d, "it + d"); check(vf_wp_minus(a, d) == a - d, "it - d"); check(vf_wp_index(a, d) == a + d, "it[d]"); eq("it - it", vf_wp_diff(a, b), i - j); eq("==", vf_wp_eq(a, b), i == j); eq("!=", vf_wp_ne(a, b), i != j); eq("<", vf_wp_lt(a, b), i < j);
    cur("wrapped list iterators");
    auto const x = std::next(li.begin())._M_node; auto const y = std::next(li.begin(), 2)._M_node; auto const z = li.begin()._M_node;
    eq("category", vf_wl_category(), 2L); check(vf_wl_preinc(x) == y, "++it"); check(vf_wl_predec(x) == z, "--it"); vf_wl_postinc(x); is("it++", reinterpret_cast<long>(x), reinterpret_cast<long>(y)); vf_wl_postdec(x); is("it--", reinterpret_cast<long>(x), reinterpret_cast<long>(z));
    check(vf_wl_eq(x, x) && !vf_wl_eq(x, y) && vf_wl_ne(x, y) && !vf_wl_ne(x, x), "== and !=");
  }
}
int main(int c, char** v) { return run(c, v, {{"C26", c26}}); }
