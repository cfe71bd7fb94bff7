#include "utl/raii.h"
#include <new>
extern "C" {
void cb_body();          // the guarded code; may throw
void cb_act(long);       // the action of a guard
void cb_act2(long, long);
void out_i(long);
void cb_mark();
}
struct act { long id; void operator()() { cb_act(id); } };
using fin = utl::finally<act>;
struct res { long v; };
struct close_res { long id; void operator()(res& r) { cb_act2(id, r.v); } };
extern "C" {
// ---- finally
void vf_finally_scope(long id) { auto g = utl::make_finally(act{id}); cb_body(); }
void vf_finally_macro(long id) { UTL_FINALLY(([&]() { cb_act(id); })) cb_body(); }
void vf_finally_lambda(long id) { long x = 0; auto g = utl::make_finally([&]() { cb_act(x); }); x = id; cb_body(); }
void vf_finally_two(long a, long b) { auto g = utl::make_finally(act{a}); auto h = utl::make_finally(act{b}); cb_body(); }
// g: an armed guard with action id, or (armed == false) one that was moved from after its action ran
#define GUARD(g, armed, id) fin g{act{id}}; if (!armed) { fin t{std::move(g)}; }
void vf_finally_move_ctor(bool armed, long id) { GUARD(o, armed, id) cb_mark(); { fin g{std::move(o)}; cb_mark(); } cb_mark(); }
void vf_finally_move_assign(bool aa, long a, bool bb, long b) { GUARD(x, aa, a) { GUARD(y, bb, b) cb_mark(); fin& r = (x = std::move(y)); cb_mark(); out_i(&r == &x); } cb_mark(); }
void vf_finally_self_assign(bool armed, long id) { { GUARD(x, armed, id) cb_mark(); fin& y = x; x = std::move(y); cb_mark(); } cb_mark(); }
void vf_finally_moved_chain(long id) { auto g = utl::make_finally(act{id}); cb_body(); auto h = std::move(g); cb_body(); { auto k = std::move(h); auto l = std::move(h); cb_body(); } }
void vf_finally_return(long id, bool early) { auto g = utl::make_finally(act{id}); if (early) { return; } cb_body(); }
// ---- raii
void vf_raii_scope(long v, long id) { auto r = utl::make_raii(res{v}, close_res{id}); cb_body(); }
void vf_raii_change(long v, long id, long w) { auto r = utl::make_raii(res{v}, close_res{id}); r.get().v = w; out_i(static_cast<res>(r).v); cb_body(); }
void vf_raii_ref(res* x, long id) { auto r = utl::make_raii(*x, close_res{id}); cb_body(); out_i(&r.get() == x); }
void vf_raii_lambda(long v) { auto r = utl::make_raii(long{v}, [](long& x) { cb_act(x); }); cb_body(); out_i(r.get()); out_i(r); }
void vf_raii_omit(long v, long id, bool omit) { auto r = utl::make_raii(res{v}, close_res{id}); r.omit_destruct_ = omit; cb_body(); }
}
