// FLAGS: -I$REPO/src
// EXTERN: ^std::__cxx11::basic_string<
// EXTERN: ^(bool )?std::operator(==|!=)<char, std::char_traits<char>
// EXTERN: ^(?!.*_Sp_alloc_shared_tag)(bool |void )?std::(shared_ptr|__shared_ptr)<utl::progress_tracker
// EXTERN: ^(?!.*utl::get_or_)((bool|void|auto|std::_Rb_tree_iterator<.*>|std::pair<.*>|std::enable_if<.*|std::shared_ptr<.*>.?) )?std::map<std::__cxx11::basic_string<.*>, std::shared_ptr<utl::progress_tracker>
// EXTERN: ^(bool |void )?std::(operator[!=]=<utl::progress_tracker|swap<utl::progress)
// NOINLINE: ^(\S.* )?std::make_shared<utl::progress_tracker
// EXTERN: ^utl::global_progress_trackers::print
// EXTERN: ^utl::(set_vt100_mode|move_cursor_up|clear_line)
// NOINLINE: (^| )utl::fail<
// NOINLINE: ^utl::verify_failed
// NOINLINE: ^utl::get_global_progress_trackers
#include "progress_tracker.cc"
using G = utl::global_progress_trackers;
using P = utl::progress_tracker_ptr;
using S = std::string;
extern "C" {
void cb_reg(G*, void* map, void* active, bool* silent, unsigned* height);
void cb_ret(P const*);
void cb_threw();
void cb_mid(bool silent);
void cb_end(bool silent, unsigned height);
void cb_new(utl::progress_tracker const*, S const* status, bool show, float lo, float hi, float mod, size_t ih, void const* in, void const* out);
void cb_now();
void cb_fresh(G*, void* map, void* active, bool silent, unsigned height);
}
#define UNIT(name, args, op) void vf_##name args { auto& g = utl::get_global_progress_trackers(); cb_reg(&g, &g.trackers_, &g.active_tracker_, &g.silent_, &g.last_print_height_); try { op; } catch (...) { cb_threw(); } cb_end(g.silent_, g.last_print_height_); }
#define RET(e) { auto const r = e; cb_ret(&r); }
extern "C" {
UNIT(get, (S const& n), RET(g.get_tracker(n)))
UNIT(activate, (P const& p), RET(utl::activate_progress_tracker(p)))
UNIT(activate_name, (S const& n), RET(utl::activate_progress_tracker(n)))
UNIT(active, (), RET(utl::get_active_progress_tracker()))
UNIT(active_or, (S const& n), RET(utl::get_active_progress_tracker_or_activate(n)))
UNIT(callback, (S const& n, bool show, float lo, float hi, float mod, size_t ih), { auto const r = g.get_tracker(n); auto& t = *r; cb_new(&t, &t.status_, t.show_progress_, t.out_low_, t.out_high_, t.out_mod_, t.in_high_, &t.in_, &t.out_); t.show_progress_ = show; t.out_low_ = lo; t.out_high_ = hi; t.out_mod_ = mod; t.in_high_ = ih; cb_now(); t.callback_(t); })
UNIT(clear, (), g.clear())
UNIT(bars, (bool s), { utl::global_progress_bars b{s}; cb_mid(g.silent_); })
UNIT(bars_default, (), { utl::global_progress_bars b{}; cb_mid(g.silent_); })
void vf_fresh(void* m) { auto const g = new (m) G; cb_fresh(g, &g->trackers_, &g->active_tracker_, g->silent_, g->last_print_height_); }
}
