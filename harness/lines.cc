#include "utl/parser/buf_reader.h"
#include "utl/parser/line_range.h"
#include "utl/pipes/for_each.h"
#include "utl/parser/mmap_reader.h"
using utl::cstr;
extern "C" {
void out_cstr(char const*, size_t);
void out_end(char const*, size_t);
void cb_line(char const*, size_t);
void cb_progress(size_t);
bool env_more(size_t);   // an arbitrary caller decides to continue
}
namespace { struct prog { void operator()(std::size_t n) { cb_progress(n); } }; }
extern "C" {
// a client that reads lines until the reader reports the end
void vf_buf_reader(char const* s, size_t n) {
  auto r = utl::make_buf_reader(cstr{s, n});
  for (;;) {
    auto const l = r.read_line();
    if (l.data() == nullptr) { break; }
    cb_line(l.str, l.len);
  }
}
void vf_buf_reader_progress(char const* s, size_t n) {
  auto r = utl::make_buf_reader(cstr{s, n}, prog{});
  for (;;) {
    auto const l = r.read_line();
    if (l.data() == nullptr) { break; }
    cb_line(l.str, l.len);
  }
}
void vf_buf_reader_end(char const* s, size_t n) {   // reading after the end keeps reporting the end
  auto r = utl::make_buf_reader(cstr{s, n});
  for (;;) {
    auto const l = r.read_line();
    if (l.data() == nullptr) { break; }
    cb_line(l.str, l.len);
  }
  auto const l = r.read_line();
  out_end(l.str, l.len);
}
void vf_line_range(char const* s, size_t n) {
  auto lr = utl::line_range{utl::make_buf_reader(cstr{s, n})};
  auto it = lr.begin();
  while (lr.valid(it)) {
    auto&& l = lr.read(it);
    cb_line(l.str, l.len);
    lr.next(it);
  }
}
void vf_mmap_lines(char const* path) {
  utl::mmap_reader r{path};
  for (;;) {
    auto const l = r.read_line();
    if (l.data() == nullptr) { break; }
    cb_line(l.str, l.len);
  }
}
void vf_mmap_read(char const* path) {
  utl::mmap_reader r{path};
  while (env_more(0)) {
    auto const k = r.read(17);
    cb_line(k.str, k.len);
  }
}
void vf_mmap_read_n(char const* path, size_t a, size_t b) {
  utl::mmap_reader r{path};
  auto const x = r.read(a);
  cb_line(x.str, x.len);
  auto const y = r.read(b);
  cb_line(y.str, y.len);
}
}
