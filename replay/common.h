#pragma once
// Native replay: looks for a concrete failing input on the real code after a
// proof obligation failed.  Never the deciding step of a check.
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <unistd.h>
#include <chrono>
#include <exception>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <random>
#include <sstream>
#include <string>
#include <vector>
extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
namespace rp {
inline char cur_buf[8192];
inline std::mt19937_64 rng;
inline std::chrono::steady_clock::time_point deadline;
inline std::vector<std::string> hints;
inline double seconds = 5;

inline std::string show(std::string const& s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    char b[8];
    if (c == '"' || c == '\\') { r += '\\'; r += static_cast<char>(c); }
    else if (c >= 32 && c < 127) { r += static_cast<char>(c); }
    else { std::snprintf(b, sizeof b, "\\x%02x", c); r += b; }
  }
  return r + "\"";
}
inline std::string show(char c) { return show(std::string(1, c)); }
inline std::string show(bool b) { return b ? "true" : "false"; }
template <typename T> requires(std::is_arithmetic_v<T>) std::string show(T t) { std::ostringstream o; o << +t; return o.str(); }
template <typename A, typename B> std::string show(std::pair<A, B> const& p);
template <typename T> std::string show(std::vector<T> const& v) {
  std::string r = "[";
  for (auto it = v.begin(); it != v.end(); ++it) { r += (it != v.begin() ? "," : "") + show(static_cast<T>(*it)); }
  return r + "]";
}
template <typename A, typename B> std::string show(std::pair<A, B> const& p) { return "(" + show(p.first) + "," + show(p.second) + ")"; }

inline void put(char const* s) { (void)!write(1, s, std::strlen(s)); }
inline void death() { put("FAILING INPUT: "); put(cur_buf); put("\n(crash / sanitizer report)\n"); }
inline void on_sig(int s) {
  put("FAILING INPUT: "); put(cur_buf);
  put(s == SIGALRM ? "\n(does not terminate)\n" : "\n(aborted)\n");
  _exit(3);
}
// announce the input about to be executed (kept for crash reports)
template <typename... A> void cur(char const* what, A const&... a) {
  std::string s = what;
  ((s += ' ', s += show(a)), ...);
  auto const n = std::min(s.size(), sizeof cur_buf - 1);
  std::memcpy(cur_buf, s.data(), n);
  cur_buf[n] = 0;
  alarm(20);
}
[[noreturn]] inline void fail(std::string const& why) {
  std::printf("FAILING INPUT: %s\n%s\n", cur_buf, why.c_str());
  std::fflush(stdout);
  _exit(1);
}
template <typename A, typename B> void eq(char const* what, A const& got, B const& want) {
  if (!(got == static_cast<A>(want))) { fail(std::string(what) + ": got " + show(got) + ", expected " + show(static_cast<A>(want))); }
}
inline void check(bool ok, char const* what) { if (!ok) { fail(what); } }
inline bool more() { return std::chrono::steady_clock::now() < deadline; }
inline std::uint64_t rnd(std::uint64_t n) { return n == 0 ? 0 : rng() % n; }
// all strings over the alphabet up to the given length
inline void all_strings(std::string const& alpha, unsigned maxlen, std::function<void(std::string const&)> const& f) {
  std::string s;
  std::function<void(unsigned)> rec = [&](unsigned left) {
    f(s);
    if (left == 0) { return; }
    for (char c : alpha) { s.push_back(c); rec(left - 1); s.pop_back(); }
  };
  rec(maxlen);
}
template <typename T> void all_vecs(std::vector<T> const& alpha, unsigned maxlen, std::function<void(std::vector<T> const&)> const& f) {
  std::vector<T> s;
  std::function<void(unsigned)> rec = [&](unsigned left) {
    f(s);
    if (left == 0) { return; }
    for (T c : alpha) { s.push_back(c); rec(left - 1); s.pop_back(); }
  };
  rec(maxlen);
}
inline std::string rnd_string(std::string const& alpha, unsigned maxlen) {
  std::string s(rnd(maxlen + 1), 'x');
  for (auto& c : s) { c = rnd(20) == 0 ? static_cast<char>(rnd(256)) : alpha[rnd(alpha.size())]; }
  return s;
}
// exact-size heap copy: any read outside the view is caught by ASan
struct heap {
  explicit heap(std::string const& s) : n{s.size()}, p{static_cast<char*>(std::malloc(n == 0 ? 1 : n))} {
    if (n == 0) { std::free(p); p = static_cast<char*>(std::malloc(1)); base = p; p = p + 1; } else { base = p; std::memcpy(p, s.data(), n); }
  }
  heap(heap const&) = delete;
  ~heap() { std::free(base); }
  size_t n; char* p; char* base;
};
using fn = void (*)();
inline int run(int argc, char** argv, std::map<std::string, fn> const& m) {
  if (argc < 4) { return 2; }
  rng.seed(std::strtoull(argv[2], nullptr, 10));
  std::clog.rdbuf(nullptr);
  seconds = std::atof(argv[3]);
  deadline = std::chrono::steady_clock::now() + std::chrono::milliseconds(static_cast<long>(seconds * 1000));
  if (argc > 4) { std::ifstream in(argv[4]); std::string l; while (std::getline(in, l)) { hints.push_back(l); } }
  if (__sanitizer_set_death_callback) { __sanitizer_set_death_callback(death); }
  std::signal(SIGALRM, on_sig);
  std::signal(SIGABRT, on_sig);
  auto const it = m.find(argv[1]);
  if (it == m.end()) { return 2; }
  try { it->second(); } catch (std::exception const& e) { fail(std::string("unexpected exception: ") + e.what()); } catch (...) { fail("unexpected exception"); }
  alarm(0);
  std::puts("no failing input found");
  return 0;
}
}  // namespace rp
