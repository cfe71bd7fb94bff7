// FLAGS: -I$REPO/src
// EXTERN: ^std::__cxx11::basic_string<
// EXTERN: ^(bool )?std::operator(==|!=)<char, std::char_traits<char>
// EXTERN: ^utl::global_progress_trackers::
// EXTERN: ^utl::(get_global_progress_trackers|activate_progress_tracker|get_active_progress)
// NOINLINE: (^| )utl::fail<
// NOINLINE: ^utl::verify_failed
#include "progress_tracker.cc"
using T = utl::progress_tracker;
using S = std::string;
extern "C" {
void cb_mark(T const*, S const*, void const* in, void const* out);
void cb_notify(T const*, bool show, float lo, float hi, float mod, size_t ih);
void cb_see(T const*, bool show, float lo, float hi, float mod, size_t ih);
void cb_threw();
void cb_done(T const*);
}
struct obs { void operator()(T const& t) const { cb_notify(&t, t.show_progress_, t.out_low_, t.out_high_, t.out_mod_, t.in_high_); } };
#define IN S const &s0, bool show, float lo, float hi, float mod, size_t ih
#define MAKE(t) T t{obs{}}; t.status_ = s0; t.show_progress_ = show; t.out_low_ = lo; t.out_high_ = hi; t.out_mod_ = mod; t.in_high_ = ih; cb_mark(&t, &t.status_, &t.in_, &t.out_)
#define SEE(t) cb_see(&t, t.show_progress_, t.out_low_, t.out_high_, t.out_mod_, t.in_high_)
#define UNIT(name, args, op) void vf_##name args { MAKE(t); try { op; } catch (...) { cb_threw(); } SEE(t); }
#define ARGS(...) (IN __VA_OPT__(,) __VA_ARGS__)
extern "C" {
UNIT(update, ARGS(size_t n), t.update(n))
UNIT(increment, ARGS(size_t n), t.increment(n))
UNIT(increment_one, ARGS(), t.increment())
UNIT(monotonic, ARGS(size_t n), t.update_monotonic(n))
UNIT(update_fn, ARGS(size_t n), t.update_fn()(n))
UNIT(increment_fn, ARGS(), t.increment_fn()())
UNIT(status, ARGS(S const& s), t.status(s))
UNIT(show, ARGS(bool b), t.show_progress(b))
UNIT(reset, ARGS(), t.reset_bounds())
UNIT(out_bounds, ARGS(float a, float b), t.out_bounds(a, b))
UNIT(out_mod, ARGS(float a), t.out_mod(a))
UNIT(in_high, ARGS(size_t n), t.in_high(n))
UNIT(chain, ARGS(S const& s, float a, float b, float c, size_t n, bool d), t.status(s).reset_bounds().out_bounds(a, b).out_mod(c).in_high(n).show_progress(d))
UNIT(status_throw, ARGS(S const& s, float a, float b), t.status(s).out_bounds(a, b))
UNIT(mod_throw, ARGS(size_t n, float a), t.in_high(n).out_mod(a))
UNIT(keep, ARGS(S const& s, size_t n), { auto u = t.status(s); u = u.in_high(n); })
UNIT(keep_on, ARGS(S const& s, size_t n, bool b), { auto u = t.status(s); u = u.in_high(n); u = u.show_progress(b); })
UNIT(self, ARGS(S const& s, size_t n), { auto u = t.status(s); auto& v = u; u = std::move(v); u = u.in_high(n); })
void vf_two_on(IN, S const& s, size_t n, bool b) {
  MAKE(t);
  MAKE(t2);
  { auto u = t.status(s); u = t2.in_high(n); cb_done(&t); u = u.show_progress(b); }
  SEE(t);
  SEE(t2);
}
void vf_two(IN, S const& s, size_t n) {
  MAKE(t);
  MAKE(t2);
  { auto u = t.status(s); u = t2.in_high(n); cb_done(&t); }
  SEE(t);
  SEE(t2);
}
}
