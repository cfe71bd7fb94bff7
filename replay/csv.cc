// C05 C06
#include "utl/parser/csv.h"
#include "utl/pipes/all.h"
#include "utl/pipes/for_each.h"
#include "utl/parser/csv_range.h"
#include "utl/parser/line_range.h"
#include "utl/parser/buf_reader.h"
#include "utl/parser/split.h"
#include "common.h"
#include <array>
#include <unistd.h>
using namespace rp;
using utl::cstr;
struct column { size_t begin, end, next; };
// the column that starts at p (p < size)
static column col(std::string const& s, size_t p, char sep) {
  bool const q = s[p] == '"';
  size_t const b = p + (q ? 1 : 0);
  size_t i = b;
  while (i < s.size() && s[i] != '\r' && s[i] != '\n') {
    if (q && s.compare(i, 2, "\"\"") == 0) { i += 2; continue; }
    if (s[i] == (q ? '"' : sep)) { break; }
    ++i;
  }
  return {b, i, i < s.size() && (s[i] == '\r' || (q && s[i] == '"')) ? i + 1 : i};
}
template <char Sep> void one_col(std::string const& s) {
  heap h{s};
  cur("parse_column", s, Sep);
  cstr c{h.p, h.n}, v{"untouched"};
  utl::parse_column<cstr, Sep>(c, v);
  if (s.empty()) { check(c.len == 0 && v == "untouched", "empty text"); return; }
  auto const w = col(s, 0, Sep);
  eq("content", std::string(v.str, v.len), s.substr(w.begin, w.end - w.begin));
  check(v.str == h.p + w.begin, "content inside the text");
  check(c.str == h.p + w.next && c.len == h.n - w.next, "rest");
  cstr c2{h.p, h.n}; std::string x;
  utl::parse_column<std::string, Sep>(c2, x);
  eq("string content", x, s.substr(w.begin, w.end - w.begin));
  check(c2.str == h.p + w.next && c2.len == h.n - w.next, "rest");
}
static std::string unescaped(std::string const& s) {
  std::string r;
  for (size_t i = 0; i < s.size(); ++i) { r += s[i]; if (s.compare(i, 2, "\"\"") == 0) { ++i; } }
  return r;
}
template <typename T> T as(std::string s) {
  size_t i = 0; while (i < s.size() && (s[i] == ' ' || s[i] == '\n')) ++i;
  T v{}; s = s.substr(i); cstr c{s.data(), s.size()}; utl::parse_arg(c, v); return v;
}
static void one_c05(std::string const& s) {
  one_col<','>(s); one_col<';'>(s);
  cur("unescape", s);
  auto x = s; utl::unescape_quoted_string(x); eq("unescape", x, unescaped(s));
  heap h{s};
  { cur("parse_value<string>", s); cstr c{h.p, h.n}; std::string v; utl::parse_value(c, v); eq("value", v, unescaped(s)); }
  { cur("parse_value<cstr>", s); cstr c{h.p, h.n}, v; utl::parse_value(c, v); check(v.str == h.p && v.len == h.n, "cstr"); }
  size_t run = 0, big = 0; for (char c : s) { run = c >= '0' && c <= '9' ? run + 1 : 0; big = std::max(big, run); }
  if (big < 9) {
    { cur("parse_value<int>", s); cstr c{h.p, h.n}; int v = -7; utl::parse_value(c, v); eq("value", v, as<int>(s)); }
    { cur("parse_value<uint64>", s); cstr c{h.p, h.n}; std::uint64_t v = 7; utl::parse_value(c, v); eq("value", v, as<std::uint64_t>(s)); }
    { cur("parse_value<bool>", s); cstr c{h.p, h.n}; bool v = true; utl::parse_value(c, v); eq("value", v, as<bool>(s)); }
    { cur("parse_value<double>", s); cstr c{h.p, h.n}; double v = -7; utl::parse_value(c, v); eq("value", v, as<double>(s)); }
    { cur("parse_value<float>", s); cstr c{h.p, h.n}; float v = -7; utl::parse_value(c, v); eq("value", v, as<float>(s)); }
  }
}
static void c05() {
  all_strings("a,;\"\r\n", 6, one_c05);
  all_strings("a\"", 9, one_c05);
  while (more()) one_c05(rnd(3) ? rnd_string("a,;\"\r\n 1", 14) : rnd_string("-12. \ttrue", 8));
}

using rowv = std::vector<std::string>;
// columns of one line (no line break inside)
static rowv cols(std::string const& l) {
  rowv r;
  for (size_t p = 0; p < l.size();) { auto const c = col(l, p, ','); r.push_back(l.substr(c.begin, c.end - c.begin)); p = c.next < l.size() ? c.next + 1 : c.next; }
  return r;
}
static std::vector<std::string> split_lines(std::string const& s, bool strip = true) {   // LF or CRLF; a final break ends the last line
  std::vector<std::string> r;
  for (size_t p = 0; p < s.size();) {
    auto const e = std::min(s.find('\n', p), s.size());
    r.push_back(s.substr(p, e - p));
    if (strip && e < s.size() && !r.back().empty() && r.back().back() == '\r') r.back().pop_back();
    p = e + 1;
  }
  return r;
}
static std::vector<std::string> const names{"a", "b", "cc"};
static std::vector<int> mapping(rowv const& header) {
  std::vector<int> m;
  for (auto const& h : header) { m.push_back(-1); for (size_t i = 0; i < names.size(); ++i) if (h == names[i]) { m.back() = static_cast<int>(i); break; } }
  return m;
}
static rowv mapped(std::vector<int> const& m, rowv const& cs) {
  rowv r(names.size());
  for (size_t i = 0; i < cs.size() && i < m.size(); ++i) if (m[i] >= 0) r[static_cast<size_t>(m[i])] = cs[i];
  return r;
}
using tup = std::tuple<std::string, cstr, std::string>;
struct rec {
  utl::csv_col<std::string, UTL_NAME("a")> x;
  utl::csv_col<cstr, UTL_NAME("b")> y;
  utl::csv_col<std::string, UTL_NAME("cc")> z;
};
static rowv un(rowv r) { r[0] = unescaped(r[0]); r[2] = unescaped(r[2]); return r; }
static bool crlf_only(std::string const& s) { for (size_t i = 0; i < s.size(); ++i) if (s[i] == '\r' && (i + 1 == s.size() || s[i + 1] != '\n')) return false; return true; }
static void one_c06(std::string const& s) {
  if (!crlf_only(s)) return;
  heap h{s};
  std::array<cstr, 3> const nm{"a", "b", "cc"};
  auto const ls = split_lines(s);
  std::vector<std::string> body(ls.begin() + (ls.empty() ? 0 : 1), ls.end());
  {
    std::vector<std::string> b = body;
    if (!b.empty() && b.back().empty()) b.pop_back();
    std::vector<rowv> want;
    auto const m = mapping(ls.empty() ? rowv{} : cols(ls[0]));
    for (size_t i = 0; i < b.size(); ++i) {   // columns missing before a line break are empty
      auto cs = cols(b[i]);
      if ((i + 1 < body.size() || s.back() == '\n') && cs.size() < m.size()) cs.resize(m.size());
      want.push_back(un(mapped(m, cs)));
    }
    for (int form = 0; form != 2; ++form) {
      cur("read", s, form);
      std::vector<rowv> got; std::vector<tup> t{tup{"junk", "junk", "junk"}};
      bool thrown = false;
      try { if (form == 0) t = utl::read<tup>(cstr{h.p, h.n}, nm); else { t.clear(); utl::read<tup>(cstr{h.p, h.n}, t, nm); } } catch (std::exception const&) { thrown = true; }
      eq("throws", thrown, !ls.empty() && cols(ls[0]).size() > 64);
      if (thrown) continue;
      for (auto const& [x, y, z] : t) got.push_back({x, y.view().empty() ? "" : std::string(y.view()), z});
      eq("rows", got, want);
    }
  }
  auto const raw = split_lines(s, false);
  if (auto const bom = !raw.empty() && raw[0].compare(0, 3, "\xEF\xBB\xBF") == 0; !raw.empty() && cols(bom ? raw[0].substr(3) : raw[0]).size() <= 64) {
    // the lazy reader; the line range ends at the first empty line
    std::vector<rowv> want;
    auto const m = mapping(cols(bom ? raw[0].substr(3) : raw[0]));
    for (auto it = raw.begin() + 1; it != raw.end() && !it->empty(); ++it) want.push_back(un(mapped(m, cols(*it))));
    cur("csv_range", s);
    std::vector<rowv> got;
    utl::line_range{utl::make_buf_reader({h.p, h.n})} | utl::csv<rec>() | utl::for_each([&](rec const& r) { got.push_back({r.x.t, std::string(r.y.t.str ? r.y.t.view() : std::string_view{}), r.z.t}); });
    eq("range rows", got, want);
  }
  if (s.find('\r') == std::string::npos && s.find('\n') == std::string::npos) {
    cur("split", s);
    auto const [a, b, c] = utl::split<',', cstr, cstr, cstr>(cstr{h.p, h.n});
    auto const w = cols(s); auto at = [&](size_t i) { return i < w.size() ? w[i] : std::string{}; };
    auto str = [](cstr x) { return std::string(x.str ? x.str : "", x.len); };
    eq("split 0", str(a), at(0)); eq("split 1", str(b), at(1)); eq("split 2", str(c), at(2));
    cur("row_remaining", s); eq("row remaining", utl::has_row_remaining(cstr{h.p, h.n}), !s.empty());
  } else { cur("row_remaining", s); eq("row remaining", utl::has_row_remaining(cstr{h.p, h.n}), s != "\n" && s != "\r\n"); }
}
static void files() {   // files instead of texts; accessors of columns
  using row = std::tuple<std::string, std::string, std::string>;
  std::array<cstr, 3> const nm{"a", "b", "cc"};
  char path[] = "vf_csv_XXXXXX";
  ::close(::mkstemp(path));
  for (std::string const s : {"a,b,cc\n1,2,3\n4,5,6\n", "a,b,cc\n1,2,3\n4,5,6", "a,b,cc", "cc,a\n,x\ny,\n"}) {
    cur("read_file", s);
    { auto* const f = std::fopen(path, "w"); std::fwrite(s.data(), 1, s.size(), f); std::fclose(f); }
    auto const want = utl::read<row>(cstr{s.data(), s.size()}, nm);
    eq("rows of the file", utl::read_file<row>(std::string{path}, nm) == want, true);
    std::vector<row> got{row{"junk", "junk", "junk"}};
    utl::read_file<row>(path, got, nm);
    eq("rows of the file, in the vector", got == want, true);
  }
  std::remove(path);
  cur("csv_col");
  utl::csv_col<std::string, UTL_NAME("x")> f{std::string{"u"}};
  auto const& g = f;
  eq("reads", std::string{f} + *f + *g + f.val() + g.val(), std::string("uuuuu"));
  eq("arrow", g->size(), std::size_t{1});
  *f = "v"; eq("assigned", g.val(), std::string("v"));
  f.val() = "w"; eq("assigned", *g, std::string("w"));
}
static void c06() {
  files();
  for (auto s : {"a,b,cc\n1,2,3\n4,5,6\n", "\xEF\xBB\xBF" "a,b,cc\n1,2,3\n", "cc,x,a,a\n1,2,3,4\n5\n,,\n\n7,8,9", "\"a\",\"b\"\r\n\"1\"\"\",2\r\n\r\n"}) one_c06(s);
  auto const parts = std::vector<std::string>{"a", "b", "cc", "x", ",", "\"", "\n", "\r\n"};
  for (unsigned k = 62; k != 70; ++k) { std::string s; for (unsigned i = 0; i != k; ++i) s += i + 1 == k ? "a" : "x,"; std::string l; for (unsigned i = 0; i != k; ++i) l += std::to_string(i) + ","; one_c06(s); one_c06(s + "\n" + l + "\n" + l); }
  all_strings("a,\"\n", 6, one_c06);
  all_strings("a,b\n", 6, one_c06);
  while (more()) { std::string s = rnd(10) == 0 ? "\xEF\xBB\xBF" : ""; for (auto n = rnd(30); n; --n) s += parts[rnd(parts.size())]; one_c06(s); }
}
int main(int c, char** v) { return run(c, v, {{"C05", c05}, {"C06", c06}}); }
