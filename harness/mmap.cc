#include <type_traits>
#include "utl/parser/mmap_reader.h"
extern "C" {
void out_i(long);
void out_f(float);
void see(void const* p, size_t n);
void cb_mark();
}
using utl::mmap_reader;
static void show(utl::cstr s) { see(s.c_str(), s.length()); }
// a second owner, where the type allows one
template <typename T> void copies(T& r) {
  if constexpr (std::is_copy_constructible_v<T>) { T s{r}; cb_mark(); }
  if constexpr (std::is_copy_assignable_v<T>) { T s{r}; s = r; cb_mark(); }
}
extern "C" {
void vf_open(char const* path) { mmap_reader r{path}; cb_mark(); copies(r); }
void vf_read(char const* path, size_t k, size_t n) { mmap_reader r{path}; r.read(k); show(r.read(n)); show(r.read(static_cast<size_t>(-1))); }
void vf_all(char const* path) { mmap_reader r{path}; show(r.read(static_cast<size_t>(-1))); show(r.read(1)); }
void vf_progress(char const* path, size_t k) { mmap_reader r{path}; r.read(k); out_f(r.progress()); }
void vf_move_ctor(char const* path, size_t k, size_t n) { mmap_reader r{path}; r.read(k); mmap_reader s{std::move(r)}; show(s.read(n)); }
void vf_moved_away(char const* path, size_t k, size_t n) { mmap_reader r{path}; r.read(k); { mmap_reader s{std::move(r)}; show(s.read(n)); } cb_mark(); }
void vf_move_assign(char const* path0, char const* path1, size_t j, size_t k, size_t n) {
  mmap_reader r{path0}; r.read(j);
  { mmap_reader s{path1}; s.read(k); mmap_reader& t = (r = std::move(s)); out_i(&t == &r); }
  show(r.read(n));
}
void vf_assign_to_moved(char const* path0, char const* path1, size_t k, size_t n) {
  mmap_reader r{path0};
  { mmap_reader t{std::move(r)}; }
  { mmap_reader s{path1}; s.read(k); r = std::move(s); }
  show(r.read(n));
}
void vf_self_assign(char const* path, size_t k, size_t n) { mmap_reader r{path}; r.read(k); mmap_reader& s = r; r = std::move(s); show(r.read(n)); }
// the parts
void vf_file(char const* path) { mmap_reader::file f{path}; copies(f); }
void vf_map(char const* path) { mmap_reader::memory_map m{path}; copies(m); see(m.ptr(), m.size()); }
void vf_file_assign(char const* path0, char const* path1) { mmap_reader::file f{path0}; { mmap_reader::file g{path1}; f = std::move(g); cb_mark(); } cb_mark(); }
void vf_file_move(char const* path0) { mmap_reader::file f{path0}; { mmap_reader::file g{std::move(f)}; cb_mark(); } cb_mark(); }
void vf_map_assign(char const* path0, char const* path1) { mmap_reader::memory_map f{path0}; { mmap_reader::memory_map g{path1}; f = std::move(g); cb_mark(); } see(f.ptr(), f.size()); }
}
