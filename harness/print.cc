// FLAGS: -I$REPO/src
// EXTERN: ^std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> ?>::
// EXTERN: ^(bool )?std::operator(==|!=)<char, std::char_traits<char>
// EXTERN: ^std::basic_ostream<char, std::char_traits<char>\s?>& std::(endl|flush|operator<<)
// EXTERN: ^(void )?fmt::v\d+::(print|println)<
// EXTERN: ^utl::(get_global_progress_trackers|activate_progress_tracker|get_active_progress)
// NOINLINE: (^| )utl::fail<
// NOINLINE: ^utl::verify_failed
// printing the registry of progress trackers
#include <cstddef>
#include "progress_tracker.cc"
using G = utl::global_progress_trackers;
using T = utl::progress_tracker;
extern "C" {
void cb_layout(size_t mutex, size_t status, size_t show, size_t out);
void cb_reg(void* lock, bool* silent, unsigned* height, void* map);
void cb_end(bool silent, unsigned height);
}
#pragma clang diagnostic ignored "-Winvalid-offsetof"
extern "C" {
void vf_print(G& g) { cb_layout(offsetof(T, mutex_), offsetof(T, status_), offsetof(T, show_progress_), offsetof(T, out_)); cb_reg(&g.mutex_, &g.silent_, &g.last_print_height_, &g.trackers_); g.print(); cb_end(g.silent_, g.last_print_height_); }
}
