// log lines, timers, timing macros, thread names
// FLAGS: -I$REPO/src
// EXTERN: ^std::__cxx11::basic_string<
// EXTERN: ^std::basic_ostream<char, std::char_traits<char>\s?>& std::(endl|flush|operator<<)
#include <cstddef>
#include <thread>
#include "utl/logging.h"
#include "utl/set_thread_name.h"
#include "utl/timing.h"
#include "timer.cc"
using S = std::string;
extern "C" {
void cb_ret(S const*);
void cb_do();
void cb_end();
void out_i(long);
void* env_handle();
}
extern "C" {
void vf_line(S const& a, long x) { uLOG(utl::warn) << a << " is " << x; cb_end(); }
void vf_levels() { uLOG(utl::emrg) << "emrg"; uLOG(utl::alrt) << "alrt"; uLOG(utl::crit) << "crit"; uLOG(utl::err) << "erro"; uLOG(utl::warn) << "warn"; uLOG(utl::notice) << "note"; uLOG(utl::info) << "info"; uLOG(utl::debug) << "debg"; cb_end(); }
void vf_time_at(long t) { auto const s = utl::time(static_cast<time_t>(t)); cb_ret(&s); }
void vf_time_now() { auto const s = utl::time(); cb_ret(&s); }
void vf_scoped(S const& n) { { utl::scoped_timer t{S{n}}; cb_do(); } cb_end(); }
void vf_scoped_print(S const& n, char const* p, size_t k) { { utl::scoped_timer t{S{n}}; cb_do(); t.print({p, k}); cb_do(); } cb_end(); }
void vf_manual(S const& n, char const* p, size_t k) { { utl::manual_timer t{S{n}}; cb_do(); t.print({p, k}); cb_do(); t.stop_and_print(); cb_do(); } cb_end(); }
void vf_timing_ms() { UTL_START_TIMING(x); cb_do(); UTL_STOP_TIMING(x); cb_do(); out_i(UTL_TIMING_MS(x)); }
void vf_timing_us() { UTL_START_TIMING(x); cb_do(); UTL_STOP_TIMING(x); cb_do(); out_i(UTL_TIMING_US(x)); }
void vf_get_timing_ms() { UTL_START_TIMING(x); cb_do(); out_i(UTL_GET_TIMING_MS(x)); }
void vf_get_timing_us() { UTL_START_TIMING(x); cb_do(); out_i(UTL_GET_TIMING_US(x)); }
void vf_current_thread_name(S const& n) { utl::set_current_thread_name(n); }
void vf_thread_name(std::thread& t, S const& n) { utl::set_thread_name(t, n); }
}
