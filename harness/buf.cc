#include "utl/parser/buffer.h"
extern "C" {
void see(unsigned char const* p, size_t n, bool bounds);   // what the buffer holds at this point
void out_i(long);
void cb_fill(unsigned char* p);
}
using utl::buffer;
static void show(buffer& b) { see(b.data(), b.size(), b.begin() == b.data() && b.end() == b.begin() + b.size() && static_cast<buffer const&>(b).data() == b.data()); }
extern "C" {
void vf_default() { buffer b; show(b); }
void vf_size(size_t n) { buffer b{n}; show(b); }
void vf_view(char const* p, size_t n) { buffer b{p, n}; show(b); }
void vf_str(char const* p) { buffer b{p}; show(b); }
void vf_move_ctor(char const* p, size_t n) { buffer a{p, n}; { buffer b{std::move(a)}; show(b); } show(a); }
void vf_move_ctor_empty() { buffer a; { buffer b{std::move(a)}; show(b); } show(a); }
void vf_move_assign(char const* p, size_t n, char const* q, size_t m) { buffer a{p, n}; { buffer b{q, m}; buffer& r = (a = std::move(b)); out_i(&r == &a); show(b); } show(a); }
void vf_move_assign_from_empty(char const* p, size_t n) { buffer a{p, n}; { buffer b; a = std::move(b); show(b); } show(a); }
void vf_move_assign_to_empty(char const* q, size_t m) { buffer a; { buffer b{q, m}; a = std::move(b); show(b); } show(a); }
void vf_self_assign(char const* p, size_t n) { buffer a{p, n}; buffer& r = a; a = std::move(r); show(a); }
void vf_resize(char const* p, size_t n, size_t m) { buffer a{p, n}; bool failed = false; try { a.resize(m); } catch (std::bad_alloc const&) { failed = true; } out_i(failed); show(a); }
void vf_resize_default(size_t m) { buffer a; bool failed = false; try { a.resize(m); } catch (std::bad_alloc const&) { failed = true; } out_i(failed); show(a); }
void vf_resize_twice(char const* p, size_t n, size_t m) { buffer a{p, n}; a.resize(0); show(a); a.resize(m); show(a); }
void vf_write(char const* p, size_t n, size_t i, unsigned char x) { buffer a{p, n}; a.data()[i] = x; show(a); }
}
