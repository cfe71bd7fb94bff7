// C01 C02 C03
#include "utl/parser/cstr.h"
#include "utl/parser/buf_reader.h"
#include "utl/parser/line_range.h"
#include "utl/parser/mmap_reader.h"
#include "common.h"
#include <algorithm>
#include <optional>
using namespace rp;
using utl::cstr;
static std::string str(cstr c) { return c.str == nullptr ? std::string{} : std::string(c.str, c.len); }

static void inside(heap const& h, cstr r) {
  if (r.len > h.n || (r.len != 0 && (r.str < h.p || r.str + r.len > h.p + h.n))) { fail("result is outside the original view"); }
}
static std::string trimf(std::string s) { size_t i = 0; while (i < s.size() && (s[i] == ' ' || s[i] == '\n')) ++i; return s.substr(i); }
static std::string trimb(std::string s) { while (!s.empty() && (s.back() == ' ' || s.back() == '\n')) s.pop_back(); return s; }

static void c01_one(std::string const& s) {
  heap h{s};
  cstr const c{h.p, h.n};
  auto chk = [&](char const* what, cstr r, std::string const& want, std::optional<size_t> off = {}) {
    inside(h, r);
    eq(what, str(r), want);
    if (off) { check(r.str == h.p + *off, what); }
  };
  cur("views", s);
  chk("trim", c.trim(), trimb(trimf(s)));
  chk("skip_whitespace_front", c.skip_whitespace_front(), trimf(s), s.size() - trimf(s).size());
  chk("skip_whitespace_back", c.skip_whitespace_back(), trimb(s), 0);
  auto cr = [](std::string x) { if (!x.empty() && x.back() == '\r') x.pop_back(); return x; };
  chk("strip_cr", utl::strip_cr(c), cr(s), 0);
  for (char d : {'\n', ',', 'a', '\0', static_cast<char>(200)}) { chk("get_until", utl::get_until(c, d), s.substr(0, s.find(d)), 0); }
  chk("get_line", utl::get_line(c), cr(s.substr(0, s.find('\n'))), 0);
  eq("valid", c.valid(), !s.empty());
  eq("bool", static_cast<bool>(c), !s.empty());
  eq("empty", c.empty(), s.empty());
  eq("length", c.length(), s.size());
  { auto m = c; std::string_view const v = m; check(v.data() == h.p && v.size() == h.n, "string_view conversion"); check(c.view().data() == h.p && c.view().size() == h.n, "view"); }
  check(begin(c) == h.p && end(c) == h.p + h.n && c.begin() == h.p && c.end() == h.p + h.n && c.data() == h.p && c.c_str() == h.p, "begin/end");
  { cstr const r{static_cast<char const*>(h.p), static_cast<char const*>(h.p + h.n)}; check(r.str == h.p && r.len == h.n, "range ctor"); }
  { std::string const t{s}; cstr const r{t}; check(r.str == t.data() && r.len == t.size(), "string ctor"); }
  { cstr const r{std::string_view{h.p, h.n}}; check(r.str == h.p && r.len == h.n, "string_view ctor"); }
  { cstr r; check(r.str == nullptr && r.len == 0, "default ctor"); r.assign(h.p, h.n); check(r.str == h.p && r.len == h.n, "assign"); }
  eq("to_str", c.to_str(), s);
  std::vector<size_t> pos;
  for (size_t i = 0; i <= s.size() + 2; ++i) pos.push_back(i);
  pos.push_back(static_cast<size_t>(-1)); pos.push_back(static_cast<size_t>(-2)); pos.push_back(static_cast<size_t>(1) << 63); pos.push_back(utl::field::MAX_SIZE);
  for (auto i : pos) {
    if (i < s.size()) { check(c[i] == s[i], "operator[]"); }
    if (i <= s.size()) {
      cur("substr(from)", s, i);
      chk("substr(from)", c.substr(i), s.substr(i), i);
      auto x = c; chk("operator+", x + i, s.substr(i), i);
      x = c; chk("operator+=", x += i, s.substr(i), i);
      if (!s.empty()) { x = c; chk("operator++", ++x, s.substr(1), 1); }
    }
    for (auto k : pos) {
      cur("substr", s, i, k);
      auto const b = std::min(i, s.size());
      chk("substr(pos,size)", c.substr(i, utl::size(k)), s.substr(b, k), b);
      if (i <= k) { chk("substr(begin,end)", c.substr(i, k), s.substr(b, std::min(k, s.size()) - b), b); }
      if (i <= s.size()) { utl::field f; f.from = i; f.size = k; chk("substr(field)", c.substr(f), k == utl::field::MAX_SIZE ? s.substr(i) : s.substr(i, k), i); }
    }
  }
}
static void c01() {
  for (int i = 0; i < 256; ++i) { cur("is_space", i); eq("is_space", cstr::is_space(static_cast<char>(i)), i == ' ' || i == '\n'); }
  { cstr const z{nullptr, 5}; check(z.str == nullptr && z.len == 0, "null ctor"); }
  { cstr const z{static_cast<char const*>(nullptr)}; check(z.str == nullptr && z.len == 0, "ctor from a null string"); }
  all_strings(std::string(" \n\ra,"), 5, c01_one);
  while (more()) { c01_one(rnd_string(std::string(" \n\r\t,a\0", 7), 14)); }
}

static void c02_one(std::string const& a, std::string const& b) {
  cur("compare", a, b);
  heap x{a}, y{b};
  cstr const p{x.p, x.n}, q{y.p, y.n};
  eq("==", p == q, a == b);
  eq("!=", p != q, a != b);
  eq("<", p < q, std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end()));
  eq("starts_with", p.starts_with(q), a.size() >= b.size() && a.compare(0, b.size(), b) == 0);
  eq("contains", p.contains(q), a.find(b) != std::string::npos);
  auto m = p;
  auto const f = a.find(b);
  eq("substr_offset", m.substr_offset(q), f < a.size() ? f : std::numeric_limits<size_t>::max());
}
static void c02() {
  std::vector<std::string> v;
  all_strings(std::string("a\0\xff", 3), 4, [&](auto& s) { v.push_back(s); });
  for (auto& a : v) for (auto& b : v) c02_one(a, b);
  while (more()) {
    auto a = rnd_string(std::string("ab\0\x80", 4), 20), b = rnd_string(std::string("ab\0\x80", 4), rnd(2) ? 3 : 20);
    if (rnd(3) == 0) { b = a; if (!b.empty() && rnd(2)) b[rnd(b.size())] ^= static_cast<char>(1u << rnd(8)); }
    if (rnd(4) == 0 && !a.empty()) { auto const i = rnd(a.size()); b = a.substr(i, rnd(a.size())); }
    c02_one(a, b);
  }
}

using toks = std::vector<std::string>;
static toks split(std::string const& s, char d, bool strip) {
  toks r;
  size_t i = 0;
  while (i < s.size()) {
    auto e = s.find(d, i);
    if (e == std::string::npos) e = s.size();
    auto t = s.substr(i, e - i);
    if (strip && !t.empty() && t.back() == '\r') t.pop_back();
    r.push_back(t);
    i = e + 1;
  }
  return r;
}
static void c03_one(std::string const& s) {
  heap h{s};
  cstr const c{h.p, h.n};
  for (char d : {',', '\n', '\0'}) {
    cur("for_each_token", s, d);
    auto const want = split(s, d, false);
    toks got;
    utl::for_each_token(c, d, [&](cstr t) { inside(h, t); got.push_back(str(t)); });
    eq("for_each_token", got, want);
    std::vector<int> no; got.clear();
    utl::for_each_token_numbered(c, d, [&](cstr t, int i) { got.push_back(str(t)); no.push_back(i); });
    eq("for_each_token_numbered", got, want);
    for (size_t i = 0; i < no.size(); ++i) eq("token number", no[i], static_cast<int>(i + 1));
    for (size_t stop = 0; stop <= want.size() && stop < 5; ++stop) {
      cur("for_each_token break", s, d, stop);
      got.clear();
      utl::for_each_token(c, d, [&](cstr t) { got.push_back(str(t)); return got.size() == stop + 1 ? utl::continue_t::kBreak : utl::continue_t::kContinue; });
      eq("for_each_token with break", got, toks(want.begin(), want.begin() + std::min(stop + 1, want.size())));
    }
  }
  auto const lines = split(s, '\n', true), raw = split(s, '\n', false);
  toks got;
  cur("for_each_line", s);
  utl::for_each_line(c, [&](cstr t) { inside(h, t); got.push_back(str(t)); });
  eq("for_each_line", got, lines);
  got.clear(); std::vector<unsigned> no;
  utl::for_each_line_numbered(c, [&](cstr t, unsigned i) { got.push_back(str(t)); no.push_back(i); });
  eq("for_each_line_numbered", got, lines);
  for (size_t i = 0; i < no.size(); ++i) eq("line number", no[i], static_cast<unsigned>(i + 1));
  cur("lines", s);
  got.clear();
  for (auto const& l : utl::lines{c}) { got.push_back(str(l)); if (got.size() > s.size() + 2) fail("lines does not end"); }
  eq("lines", got, lines);
  cur("line iterator +, +=, post ++", s);
  for (size_t i = 0; i <= lines.size() && i < 4; ++i) {
    auto const want = [&](size_t k) { return k < lines.size() ? lines[k] : std::string{}; };
    auto it = utl::lines{c}.begin();
    it += static_cast<std::ptrdiff_t>(i);
    eq("line iterator += n", str(*it), want(i));
    auto const jt = it + 1;
    eq("line iterator + 1", str(*jt), want(i + 1));
    eq("line iterator + 1 leaves the iterator", str(*it), want(i));
    auto const kt = it++;
    eq("line iterator post ++ result", str(*kt), want(i));
    eq("line iterator post ++", str(*it), want(i + 1));
  }
  cur("skip_lines", s);
  for (int mode = 0; mode < 3; ++mode) {
    size_t k = 0;
    got.clear();
    auto pred = [&](std::string const& l, size_t i) { return mode == 0 ? !l.empty() && l[0] == 'a' : mode == 1 ? i < 2 : true; };
    auto const r = utl::skip_lines(c, [&](cstr l) { got.push_back(str(l)); return pred(str(l), k++); });
    size_t j = 0, off = 0;
    toks want;
    while (j < lines.size()) { want.push_back(lines[j]); if (!pred(lines[j], j)) break; off += raw[j].size() + 1; ++j; }
    off = std::min(off, s.size());
    eq("skip_lines predicate arguments", got, want);
    eq("skip_lines", str(r), s.substr(off));
  }
  cur("buf_reader", s);
  {
    got.clear();
    auto rd = utl::make_buf_reader(c);
    for (;;) { auto const l = rd.read_line(); if (l.data() == nullptr) break; inside(h, l); got.push_back(str(l)); if (got.size() > s.size() + 2) fail("buf_reader does not end"); }
    eq("buf_reader", got, raw);
    check(rd.read_line().data() == nullptr, "buf_reader after the end");
    std::vector<size_t> pr;
    struct pc { std::vector<size_t>* v; void operator()(size_t n) { v->push_back(n); } };
    auto r2 = utl::make_buf_reader(c, pc{&pr});
    while (r2.read_line().data() != nullptr) {}
    std::vector<size_t> wp;
    for (size_t i = 0; i != s.size(); ++i) if (s[i] == '\n') wp.push_back(i + 1);
    eq("progress", pr, wp);
  }
  {
    got.clear();
    auto lr = utl::line_range{utl::make_buf_reader(c)};
    auto it = lr.begin();
    while (lr.valid(it)) { got.push_back(str(lr.read(it))); lr.next(it); if (got.size() > s.size() + 2) fail("line_range does not end"); }
    toks want;
    for (auto& l : raw) { if (l.empty()) break; want.push_back(l); }
    eq("line_range", got, want);
  }
}
static void c03_mmap(std::string const& s) {
  if (s.empty()) return;
  cur("mmap_reader", s);
  { std::ofstream o("replay_mmap.txt", std::ios::binary); o << s; }
  {
    utl::mmap_reader r{"replay_mmap.txt"};
    toks got;
    for (;;) { auto const l = r.read_line(); if (l.data() == nullptr) break; got.push_back(str(l)); if (got.size() > s.size() + 2) fail("mmap_reader does not end"); }
    eq("mmap_reader", got, split(s, '\n', false));
  }
  {
    utl::mmap_reader r{"replay_mmap.txt"};
    std::string got;
    size_t left = s.size();
    for (int i = 0; i < 6; ++i) { auto const k = i == 5 ? static_cast<size_t>(-1) : rnd(4); auto const x = r.read(k); eq("mmap_reader::read size", x.len, std::min<size_t>(k, left)); left -= x.len; got += str(x); }
    eq("mmap_reader::read", got, s);
  }
}
static void c03() {
  all_strings("a,\n\r", 6, c03_one);
  all_strings("a\n\r", 4, c03_mmap);
  while (more()) { auto const s = rnd_string(std::string("ab,,\n\n\r\0", 8), 24); c03_one(s); if (rnd(50) == 0) c03_mmap(s); }
}
int main(int c, char** v) { return run(c, v, {{"C01", c01}, {"C02", c02}, {"C03", c03}}); }
