// C04
#include "utl/parser/arg_parser.h"
#include "common.h"
#include <filesystem>
#include <limits>
#include <optional>
using namespace rp;
using utl::cstr;
struct spec { std::optional<__int128> v; size_t used; bool neg; };
template <typename T> spec want(std::string const& s) {
  size_t i = 0; bool neg = false;
  if (std::is_signed_v<T> && i < s.size() && s[i] == '-') { neg = true; ++i; }
  if (i < s.size() && s[i] == '+') ++i;
  spec r{{}, i, neg};
  __int128 v = 0; bool big = false;
  while (i < s.size() && s[i] >= '0' && s[i] <= '9') { if (!big) v = v * 10 + (s[i] - '0'); if (v > (static_cast<__int128>(1) << 80)) big = true; ++i; r.v = v; }
  if (r.v && neg) r.v = -*r.v;
  if (big) r.v = static_cast<__int128>(1) << 100;
  r.used = i;
  return r;
}
template <typename T> void one_int(std::string const& s) {
  heap h{s};
  auto const w = want<T>(s);
  bool const rep = !w.v || (*w.v >= std::numeric_limits<T>::min() && *w.v <= std::numeric_limits<T>::max());
  for (T d : {T{0}, T{7}, std::numeric_limits<T>::min(), std::numeric_limits<T>::max()}) {
    cur("parse_arg<int>", s, sizeof(T), std::is_signed_v<T>, d);
    cstr c{h.p, h.n}; T v = 99;
    bool const r = d == 0 ? utl::parse_arg(c, v) : utl::parse_arg(c, v, d);
    check(c.str == h.p + w.used && c.len == h.n - w.used, "rest of the view");
    eq("return value", r, w.v.has_value() && w.used == s.size());
    if (!w.v) eq("default", v, d);
    else if (rep) eq("value", v, static_cast<T>(*w.v));
    if (rep) eq("parse(default)", utl::parse<T>(cstr{h.p, h.n}, d), w.v ? static_cast<T>(*w.v) : d);
  }
  if (rep) {
    eq("parse", utl::parse<T>(cstr{h.p, h.n}), w.v ? static_cast<T>(*w.v) : T{0});
    cstr c{h.p, h.n}; T v = 99; c >> v;
    eq("operator>>", v, w.v ? static_cast<T>(*w.v) : T{0});
    check(c.str == h.p + w.used, "operator>> rest");
  }
}
static void one(std::string const& s) {
  one_int<std::int8_t>(s); one_int<std::uint8_t>(s); one_int<std::int16_t>(s); one_int<std::uint16_t>(s);
  one_int<std::int32_t>(s); one_int<std::uint32_t>(s); one_int<std::int64_t>(s); one_int<std::uint64_t>(s);
  heap h{s};
  auto const w = want<int>(s);
  if (!w.v || (*w.v >= std::numeric_limits<int>::min() && *w.v <= std::numeric_limits<int>::max())) {
    cur("parse_verify", s);
    bool thrown = false; int v = 0;
    try { v = utl::parse_verify<int>(cstr{h.p, h.n}); } catch (std::exception const&) { thrown = true; }
    eq("parse_verify throws", thrown, !(w.v && w.used == s.size()));
    if (!thrown) eq("parse_verify", v, static_cast<int>(*w.v));
  }
  auto low = s; for (auto& c : low) if (c >= 'A' && c <= 'Z') c = static_cast<char>(c + 32);
  for (bool d : {false, true}) {
    cur("parse_arg<bool>", s, d);
    cstr c{h.p, h.n}; bool b = !d;
    bool const r = utl::parse_arg(c, b, d);
    eq("bool return", r, low == "true" || low == "false");
    bool const t = !low.empty() && low[0] == 't', f = !low.empty() && low[0] == 'f';
    eq("bool value", b, t || d);
    size_t const used = t ? std::min<size_t>(4, s.size()) : f ? std::min<size_t>(5, s.size()) : 0;
    check(c.str == h.p + used && c.len == h.n - used, "bool rest");
  }
  {
    cur("strings", s);
    cstr c{h.p, h.n}, v; utl::parse_arg(c, v); check(v.str == h.p && v.len == h.n, "cstr");
    std::string x; utl::parse_arg(c, x); eq("string", x, s);
    std::string big = s + "tail"; heap g{big}; cstr pv{g.p, s.size()};
    std::filesystem::path p; utl::parse_arg(pv, p); eq("path", p.string(), s);
  }
  {
    cur("skip_line", s);
    cstr c{h.p, h.n}; utl::skip_line(c);
    auto const e = s.find('\n'); auto const used = e == std::string::npos ? s.size() : e + 1;
    check(c.str == h.p + used && c.len == h.n - used, "skip_line");
    if (!s.empty() && s[0] == ',') { cur("expect", s); cstr x{h.p, h.n}; x >> utl::expect_char<','>{}; check(x.str == h.p + 1 && x.len == h.n - 1, "expect"); }
  }
  {
    cur("floating point", s);
    bool small = true; size_t run = 0; for (char c : s) { run = c >= '0' && c <= '9' ? run + 1 : 0; if (run > 30) small = false; }
    if (small) {
      cstr c{h.p, h.n}; double v; bool const r = utl::parse_arg(c, v);
      check(c.str >= h.p && c.str + c.len == h.p + h.n && c.len <= h.n, "double rest");
      if (r) check(c.len == 0, "double complete");
      // [-][+] digits [. digits]
      size_t a = 0; bool const neg = !s.empty() && s[0] == '-';
      if (neg) { ++a; }
      if (a < s.size() && s[a] == '+') { ++a; }
      size_t b = a; while (b < s.size() && s[b] >= '0' && s[b] <= '9') { ++b; }
      size_t d = b; if (d < s.size() && s[d] == '.') { ++d; while (d < s.size() && s[d] >= '0' && s[d] <= '9') { ++d; } }
      eq("double consumes", h.n - c.len, d);
      if (d == s.size() && b > a) { eq("double success", r, true); }
      long double x = 0, w = 1;
      for (size_t i = a; i != b; ++i) { x = x * 10 + (s[i] - '0'); }
      for (size_t i = b + 1; i < d; ++i) { w /= 10; x += w * (s[i] - '0'); }
      if (neg) { x = -x; }
      check(std::abs(static_cast<long double>(v) - x) <= 1e-12L * std::max(1.0L, std::abs(x)), "double value");
      cstr c2{h.p, h.n}; float f; bool const r2 = utl::parse_arg(c2, f);
      check(c2.str >= h.p && c2.str + c2.len == h.p + h.n && c2.len <= h.n, "float rest");
      if (r2) check(c2.len == 0, "float complete");
      check(std::abs(static_cast<long double>(f) - x) <= 1e-5L * std::max(1.0L, std::abs(x)), "float value");
    }
  }
}
static void c04() {
  for (auto s : {"-2147483648", "2147483647", "4294967295", "-128", "127", "255", "65535", "-32768", "9223372036854775807", "-9223372036854775808", "18446744073709551615", "true", "false", "TRUE", "False", "tRuE", "trueX", "falsey", "true ", "tru", "fals", "99999999999999999999999", "+-1", "-+1", "--1", "00012"}) one(s);
  all_strings("-+09a.", 4, one);
  all_strings("tRuE", 5, one);
  all_strings("fALSe", 5, one);
  for (auto s : {"3000000000.5", "-3000000000", "0.05", "123.456", "-0.25", "+1.5", "12345678901234"}) one(s);
  while (more()) one(rnd(4) == 0 ? rnd_string("0123456789", 12) + "." + rnd_string("0123456789", 9) : rnd(2) ? rnd_string("0123456789", 22) : rnd_string("-+019 .,\n\rtTfF", 8));
}
int main(int c, char** v) { return run(c, v, {{"C04", c04}}); }
