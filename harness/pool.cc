// NOINLINE: std::vector<std::thread, std::allocator<std::thread> ?>::(vector|emplace_back|push_back|reserve|~vector)
// NOINLINE: ^std::thread::thread<
// NOINLINE: (^| )utl::fail<
// NOINLINE: ^utl::verify_failed
#include "utl/thread_pool.h"
#include <algorithm>
extern "C" {
void cb_init();
void cb_fin();
void cb_pjob(size_t run, size_t i);
void cb_mid(void*);
void cb_returned(size_t run);
}
struct ini { void operator()() const { cb_init(); } };
struct fini { void operator()() const { cb_fin(); } };
extern "C" {
void vf_pool(size_t n, size_t run) {
  utl::thread_pool p{ini{}, fini{}};
  cb_mid(&p);
  p.execute(n, [run](size_t i) { cb_pjob(run, i); });
  cb_returned(run);
}
void vf_pool_default(size_t n, size_t run) {
  utl::thread_pool p;
  cb_mid(&p);
  p.execute(n, [run](size_t i) { cb_pjob(run, i); });
  cb_returned(run);
}
void vf_pool_idle() { utl::thread_pool p{ini{}, fini{}}; }
void vf_reenter(utl::thread_pool& p, size_t n) { p.execute(n, [](size_t) {}); }
}
