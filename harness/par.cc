// NOINLINE: std::vector<std::thread, std::allocator<std::thread> ?>::(vector|emplace_back|push_back|reserve|~vector)
// NOINLINE: std::vector<std::pair<unsigned long, std::__exception_ptr::exception_ptr>.*>::(vector|emplace_back|push_back|reserve|~vector)
// NOINLINE: ^std::thread::thread<
// NOINLINE: ^utl::time
// NOINLINE: ^utl::log::~log
#include "utl/parallel_for.h"
struct elem { unsigned char v; };
using elems = elem[];
struct jobs_t { elem* b; size_t n; size_t size() const { return n; } friend elem* begin(jobs_t& j) { return j.b; } friend elem const* begin(jobs_t const& j) { return j.b; } elem& operator[](size_t i) { return b[i]; } elem const& operator[](size_t i) const { return b[i]; } };
extern "C" {
void cb_job(size_t);             // a job; may throw
void cb_elem(elem const*);       // a job on an element; may throw
void cb_progress(size_t);        // the progress callback; may throw
void cb_tl_new(void*);
void cb_tl_del(void*);
void cb_tl_job(void*, size_t);
}
struct job { void operator()(size_t i) const { cb_job(i); } };
struct job_elem { void operator()(elem const& e) const { cb_elem(&e); } };
struct job_elem_mut { void operator()(elem& e) const { cb_elem(&e); } };
struct prog { void operator()(size_t i) const { cb_progress(i); } };
struct local { local() { cb_tl_new(this); } ~local() { cb_tl_del(this); } local(local const&) = delete; };
struct job_local { void operator()(local& l, size_t i) const { cb_tl_job(&l, i); } };
extern "C" {
utl::errors_t vf_run(size_t n, utl::parallel_error_strategy s) { return utl::parallel_for_run(n, job{}, prog{}, s); }
utl::errors_t vf_run_default(size_t n) { return utl::parallel_for_run(n, job{}); }
utl::errors_t vf_run_lvalue(size_t n, utl::parallel_error_strategy s) { prog p; return utl::parallel_for_run(n, job{}, p, s); }
utl::errors_t vf_local(size_t n, utl::parallel_error_strategy s) { return utl::parallel_for_run_threadlocal<local>(n, job_local{}, prog{}, s); }
utl::errors_t vf_local_default(size_t n) { return utl::parallel_for_run_threadlocal<local>(n, job_local{}); }
utl::errors_t vf_each(jobs_t& j, utl::parallel_error_strategy s) { return utl::parallel_for(j, job_elem_mut{}, prog{}, s); }
utl::errors_t vf_each_default(jobs_t& j) { return utl::parallel_for(j, job_elem_mut{}); }
utl::errors_t vf_each_const(jobs_t const& j, utl::parallel_error_strategy s) { return utl::parallel_for(j, job_elem{}, prog{}, s); }
utl::errors_t vf_each_desc(std::string const& d, jobs_t const& j, size_t mod, utl::parallel_error_strategy s) { return utl::parallel_for(d, j, mod, job_elem{}, prog{}, s); }
}
