#include "utl/parser/csv.h"
#include "utl/parser/csv_range.h"
#include "utl/parser/split.h"
using utl::cstr;
extern "C" void out_cstr(char const*, size_t);
using col_map = std::array<utl::column_idx_t, utl::MAX_COLUMNS>;
using tup = std::tuple<cstr, cstr, cstr>;
extern "C" {
void vf_read_row(char const* p, size_t n, col_map const* map, size_t last) {
  cstr s{p, n};
  auto const row = utl::read_row<tup>(s, *map, last);
  out_cstr(row[0].str, row[0].len); out_cstr(row[1].str, row[1].len); out_cstr(row[2].str, row[2].len);
  out_cstr(s.str, s.len);
}
}
extern "C" {
void out_map(utl::column_idx_t const*);
void out_row(void*);
void out_vec(void const*);
void env_next_line(cstr*);
void vf_read_header(char const* p, size_t n, std::array<cstr, 3> const* names) {
  cstr s{p, n};
  auto const m = utl::read_header<tup>(s, *names);
  out_map(m.data());
  out_cstr(s.str, s.len);
}
bool vf_row_remaining(char const* p, size_t n) { return utl::has_row_remaining(cstr{p, n}); }
void vf_read_rows(char const* p, size_t n, col_map const* map, size_t last) {
  cstr s{p, n};
  auto const rows = utl::read_rows<tup>(s, *map, last);
  out_cstr(s.str, s.len);
}
void vf_read_rows_last(char const* p, size_t n, col_map const* map) {
  cstr s{p, n};
  auto const rows = utl::read_rows<tup>(s, *map);
  out_cstr(s.str, s.len);
}
void vf_read_tuple(std::array<cstr, 3>* row) {
  tup t;
  utl::read(t, *row);
  auto const& [a, b, c] = t;
  out_cstr(a.str, a.len); out_cstr(b.str, b.len); out_cstr(c.str, c.len);
}
void vf_read_vec(std::vector<tup>* v, std::vector<std::array<cstr, 3>>* rows) { utl::read(*v, *rows); }
void vf_read_all(char const* p, size_t n, std::array<cstr, 3> const* names, std::vector<tup>* v) { utl::read<tup>(cstr{p, n}, *v, *names); }
void vf_read_file(char const* path, std::array<cstr, 3> const* names, std::vector<tup>* v) { utl::read_file<tup>(path, *v, *names); }
struct path_t { char const* p_; char const* c_str() const { return p_; } };
void vf_read_file_ret(char const* path, std::array<cstr, 3> const* names) {
  auto const v = utl::read_file<tup, path_t>(path_t{path}, *names);
  out_vec(&v);
}
void vf_read_ret(char const* p, size_t n, std::array<cstr, 3> const* names) {
  auto const v = utl::read<tup>(cstr{p, n}, *names);
  out_vec(&v);
}
void vf_split(char const* p, size_t n) {
  auto const [a, b, c] = utl::split<',', cstr, cstr, cstr>(cstr{p, n});
  out_cstr(a.str, a.len); out_cstr(b.str, b.len); out_cstr(c.str, c.len);
}
}
struct rec {
  utl::csv_col<cstr, UTL_NAME("first")> a;
  utl::csv_col<cstr, UTL_NAME("second")> b;
  utl::csv_col<cstr, UTL_NAME("third")> c;
};
struct num { unsigned long v; };
extern "C" {
void cb_col(unsigned, unsigned long);
void vf_col_access(unsigned long x, unsigned long y, unsigned long z) {
  utl::csv_col<num, UTL_NAME("x")> f{num{x}};
  auto const& g = f;
  num const v = f;
  cb_col(0, v.v); cb_col(1, (*f).v); cb_col(2, (*g).v); cb_col(3, f.val().v); cb_col(4, g.val().v); cb_col(5, g->v);
  *f = num{y}; cb_col(6, g.val().v);
  f.val() = num{z}; cb_col(7, (*g).v);
}
}
struct lines {   // any source of lines
  cstr begin() { cstr s; next(s); return s; }
  void next(cstr& s) { env_next_line(&s); }
  bool valid(cstr const& s) const { return s.data() != nullptr; }
};
using ran = utl::csv_range<rec, lines>;
extern "C" {
void vf_range_header(char const* p, size_t n) {
  auto const m = utl::read_header<rec>(cstr{p, n});
  out_map(m.data());
}
void vf_range_row(ran* r, char const* p, size_t n) {
  auto const t = r->read_row(cstr{p, n});
  out_cstr(t.a.t.str, t.a.t.len); out_cstr(t.b.t.str, t.b.t.len); out_cstr(t.c.t.str, t.c.t.len);
}
bool vf_range_begin(ran* r) {
  auto it = r->begin();
  if (r->valid(it)) { out_row(&r->read(it)); return true; }
  return false;
}
bool vf_range_next(ran* r, rec* x) {
  auto it = std::optional<rec>{*x};
  r->next(it);
  if (r->valid(it)) { out_row(&r->read(it)); return true; }
  return false;
}
void vf_range_make() { auto r = lines{} | utl::csv<rec>(); out_map(r.headers_permutation_.data()); }
}
// NOINLINE: ^void utl::parse_column<utl::cstr
// NOINLINE: ^utl::skip_line
// NOINLINE: ^utl::cstr::operator==\(
// NOINLINE: ^[^']* utl::read_row<[^']*$
// NOINLINE: ^[^']* utl::read_rows<[^']*$
// NOINLINE: ^[^']* utl::read_header<[^']*$
// NOINLINE: ^utl::csv_range<[^']*>::read_row\([^']*$
// NOINLINE: ^void utl::read<utl::cstr, utl::cstr, utl::cstr>\(
// NOINLINE: ^std::vector<[^']*>::(vector|resize|push_back|~vector)\([^']*$
// NOINLINE: ^[^']*std::vector<[^']*>::emplace_back
// EXTERN: ^utl::(file::|buffer::(~?buffer|data|size)\()
// EXTERN: utl::fail<[^']*$
