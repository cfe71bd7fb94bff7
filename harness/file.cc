#include <type_traits>
#include "utl/parser/file.h"
extern "C" {
void out_i(long);
void see(void const* p, size_t n);
void cb_mark();
}
// a second owner of the handle, where the type allows one
template <typename F> void copy(F& f) {
  if constexpr (std::is_copy_constructible_v<F>) { F g{f}; cb_mark(); }
  else if constexpr (std::is_move_constructible_v<F>) { F g{std::move(f)}; cb_mark(); }
}
template <typename F> void assign(F& f, char const* path, char const* mode) {
  F g{path, mode};
  if constexpr (std::is_copy_assignable_v<F>) { g = f; cb_mark(); }
  else if constexpr (std::is_move_assignable_v<F>) { g = std::move(f); cb_mark(); }
}
extern "C" {
void vf_open(char const* path, char const* mode) { utl::file f{path, mode}; cb_mark(); }
void vf_handle(char const* path, char const* mode) { utl::file f{path, mode}; see(static_cast<FILE*>(f), 0); }
void vf_copy(char const* path, char const* mode) { utl::file f{path, mode}; copy(f); }
void vf_assign(char const* path, char const* mode, char const* path1) { utl::file f{path, mode}; assign(f, path1, mode); }
void vf_size(char const* path, char const* mode) { utl::file f{path, mode}; out_i(f.size()); }
void vf_content(char const* path, char const* mode) { utl::file f{path, mode}; auto b = f.content(); see(b.data(), b.size()); }
void vf_content_str(char const* path, char const* mode) { utl::file f{path, mode}; auto b = f.content_str(); see(b.data(), b.size()); }
void vf_content_twice(char const* path, char const* mode) { utl::file f{path, mode}; auto b = f.content(); see(b.data(), b.size()); auto c = f.content_str(); see(c.data(), c.size()); }
void vf_write(char const* path, char const* mode, void const* p, size_t n) { utl::file f{path, mode}; f.write(p, n); cb_mark(); }
void vf_write_twice(char const* path, char const* mode, void const* p, size_t n, void const* q, size_t m) { utl::file f{path, mode}; f.write(p, n); f.write(q, m); cb_mark(); }
}
// EXTERN: ^std::__cxx11::basic_string<
// EXTERN: (^| )utl::fail<
