// C15 C16 C17 C18
#include "utl/for_each_line_in_file.h"
#include "utl/parser/file.h"
#include "utl/parser/mmap_reader.h"
#include "utl/raii.h"
#include "utl/read_file.h"
#include "utl/verify.h"
#include "common.h"
#include <sys/stat.h>
#include <dirent.h>
#include <fcntl.h>
#include <optional>
using namespace rp;
// ---- C15
static std::string trace;
struct act { char c; void operator()() { trace += c; } };
using fin = utl::finally<act>;
struct boom {};
static void scope(int how) {
  auto g = utl::make_finally(act{'a'});
  trace += '1';
  if (how == 0) { return; }
  auto h = utl::make_finally(act{'b'});
  trace += '2';
  if (how == 1) { throw boom{}; }
  trace += '3';
}
struct onthrow { int* n; ~onthrow() { auto g = utl::make_finally([this] { ++*n; }); } };
static void c15() {
  char const* want[] = {"1a", "12ba", "123ba"};
  for (int how = 0; how != 3; ++how) {
    cur("scope guards: return / exception / end of scope", how);
    trace.clear(); try { scope(how); } catch (boom) {}
    eq("actions", trace, want[how]);
  }
  cur("guard in a function that runs during stack unwinding");
  int n = 0; try { onthrow o{&n}; throw boom{}; } catch (boom) {} eq("runs", n, 1);
  n = 0; try { UTL_FINALLY([&] { ++n; }) throw boom{}; } catch (boom) {} eq("macro runs on exception", n, 1);
  for (int armed = 0; armed != 2; ++armed) {
    cur("move construction from a guard, armed", armed);
    trace.clear();
    { fin o{act{'o'}}; if (!armed) { fin t{std::move(o)}; } trace += '|'; { fin g{std::move(o)}; trace += '.'; } trace += '.'; }
    eq("trace", trace, armed ? "|.o." : "o|..");
    cur("self assignment, armed", armed);
    trace.clear();
    { fin o{act{'o'}}; if (!armed) { fin t{std::move(o)}; } trace += '|'; fin& r = o; o = std::move(r); trace += '.'; }
    eq("trace", trace, armed ? "|.o" : "o|.");
    for (int other = 0; other != 2; ++other) {
      cur("move assignment, target armed, source armed", armed, other);
      trace.clear();
      { fin x{act{'x'}}; if (!armed) { fin t{std::move(x)}; } { fin y{act{'y'}}; if (!other) { fin t{std::move(y)}; } trace += '|'; x = std::move(y); trace += '.'; } trace += '.'; }
      eq("trace", trace, std::string(armed ? "" : "x") + (other ? "" : "y") + "|" + (armed ? "x" : "") + ".." + (other ? "y" : ""));
    }
  }
  struct res { int v; };
  for (int omit = 0; omit != 2; ++omit) for (int thr = 0; thr != 2; ++thr) {
    cur("raii: omit, exception", omit, thr);
    int runs = 0, last = 0;
    try { auto r = utl::make_raii(res{3}, [&](res& x) { ++runs; last = x.v; }); r.get().v = 4; eq("conversion", static_cast<res>(r).v, 4); if (omit) r.omit_destruct_ = true; if (thr) throw boom{}; } catch (boom) {}
    eq("releases", runs, omit ? 0 : 1); eq("element", last, omit ? 0 : 4);
    res x{7}; runs = 0; { auto r = utl::make_raii(x, [&](res& y) { ++runs; y.v = 9; }); check(&r.get() == &x, "reference"); } eq("releases", runs, 1); eq("referenced", x.v, 9);
  }
}
// ---- C16
static std::string str(utl::buffer& b) { check(b.begin() == b.data() && b.end() == b.data() + b.size(), "begin/end"); return b.size() ? std::string(reinterpret_cast<char*>(b.data()), b.size()) : std::string{}; }
static utl::buffer mk(std::string const& s) { return utl::buffer{s.data(), s.size()}; }
static void one_c16(std::string const& s, std::string const& t) {
  cur("buffer", s, t);
  { auto b = mk(s); eq("content", str(b), s); utl::buffer c{std::move(b)}; eq("moved", str(c), s); eq("moved from", b.size(), 0); }
  { utl::buffer b{s.c_str()}; eq("from C string", str(b), std::string(s.c_str())); }
  { utl::buffer b{s.size()}; eq("size", b.size(), s.size()); std::memset(b.data(), 1, b.size()); }
  { auto b = mk(s), c = mk(t); b = std::move(c); eq("assigned", str(b), t); eq("assigned from", c.size(), 0); }
  { auto b = mk(s); utl::buffer c; b = std::move(c); eq("assigned empty", b.size(), 0); check(b.begin() == b.end(), "empty"); }
  { auto b = mk(s); utl::buffer c; c = std::move(b); eq("assigned to empty", str(c), s); }
  { auto b = mk(s); auto& r = b; b = std::move(r); eq("self assigned", str(b), s); }
  { auto b = mk(s); b.resize(t.size()); eq("resized", b.size(), t.size()); auto const n = std::min(s.size(), t.size()); eq("prefix", str(b).substr(0, n), s.substr(0, n)); if (b.size()) std::memset(b.data(), 2, b.size());
    b.resize(0); eq("emptied", b.size(), 0); b.resize(s.size()); eq("refilled", b.size(), s.size()); if (b.size()) std::memset(b.data(), 3, b.size()); }
  { utl::buffer b; b.resize(t.size()); eq("resized", b.size(), t.size()); if (b.size()) std::memset(b.data(), 2, b.size()); }
}
static void c16() {
  std::vector<std::string> all; all_strings(std::string("a\0", 2), 4, [&](std::string const& s) { all.push_back(s); });
  for (auto const& s : all) for (auto const& t : all) one_c16(s, t);
  for (auto n : {100, 4096, 100000}) { one_c16(std::string(n, 'x'), "y"); one_c16("y", std::string(n, 'x')); }
  cur("buffer that can not be allocated");
  auto b = mk("abc"); bool thrown = false;
  try { b.resize(static_cast<size_t>(-1) / 4); } catch (std::bad_alloc const&) { thrown = true; }
  check(thrown, "throws"); eq("content after a failed resize", str(b), "abc");
  thrown = false; try { utl::buffer c{static_cast<size_t>(-1) / 4}; } catch (std::exception const&) { thrown = true; } check(thrown, "throws");
}
// ---- C17
static std::string dir;
static size_t fds() { size_t n = 0; auto* d = opendir("/proc/self/fd"); while (readdir(d)) ++n; closedir(d); return n; }
static size_t maps() { std::ifstream in("/proc/self/maps"); std::string l; size_t n = 0; while (std::getline(in, l)) n += l.find(dir) != std::string::npos; return n; }
static std::string put_file(char const* name, std::string const& s) { auto p = dir + "/" + name; std::ofstream(p, std::ios::binary) << s; return p; }
static std::string get_file(std::string const& p) { std::ifstream in(p, std::ios::binary); std::stringstream o; o << in.rdbuf(); return o.str(); }
static std::string text(utl::cstr c) { return std::string(c.str ? c.str : "", c.len); }
template <typename F> static bool throws(F&& f) { try { f(); } catch (std::exception const&) { return true; } return false; }
template <typename T> void copies(T& r) {
  if constexpr (std::is_copy_constructible_v<T>) { T s{r}; }
  if constexpr (std::is_copy_assignable_v<T>) { T s{r}; s = r; }
}
static void one_c17(std::string const& s, std::string const& t) {
  auto const p = put_file("a", s), q = put_file("b", t);
  auto const f0 = fds();
  cur("file", s.substr(0, 200), s.size());
  { utl::file f{p.c_str(), "r"}; eq("size", f.size(), s.size()); check(f.content_str() == s, "content_str"); auto b = f.content(); check(str(b) == s, "content"); check(f.content_str() == s, "content_str again"); check(static_cast<FILE*>(f) != nullptr, "handle"); copies(f); }
  { utl::file f{(dir + "/c").c_str(), "w+"}; f.write(s.data(), s.size()); f.write(t.data(), t.size()); if (s.size() + t.size() < 5000) check(f.content_str() == s + t, "written content"); }
  check(get_file(dir + "/c") == s + t, "written bytes");
  auto const r = utl::read_file(p.c_str());
  check(r.has_value() && *r == s, "read_file");
  cur("for_each_line_in_file", s.substr(0, 200), s.size());
  std::vector<std::string> got, want; { std::stringstream in(s); std::string l; while (std::getline(in, l)) want.push_back(l); }
  utl::for_each_line_in_file(p, [&](std::string const& l) { got.push_back(l); });
  eq("lines", got, want);
  eq("open files", fds(), f0);
  if (s.empty()) { cur("mmap_reader on an empty file"); throws([&] { utl::mmap_reader m{p.c_str()}; }); eq("open files", fds(), f0); return; }
  for (size_t k : {size_t{0}, size_t{1}, s.size() / 2, s.size() - 1, s.size(), s.size() + 5}) for (size_t n : {size_t{0}, size_t{1}, s.size(), s.size() + 1, static_cast<size_t>(-1)}) {
    cur("mmap_reader: text, position, size", s.substr(0, 200), k, n);
    auto const at = std::min(k, s.size());
    auto const w = s.substr(at, n), all = s;
    { utl::mmap_reader m{p.c_str()}; m.read(k); auto const pr = m.progress(); check(pr >= 0 && pr <= 1 && (k != 0 || pr == 0) && (k < s.size() || pr == 1), "progress"); check(text(m.read(n)) == w, "read"); check(text(m.read(static_cast<size_t>(-1))) == s.substr(at + w.size()), "rest"); copies(m); }
    { utl::mmap_reader m{p.c_str()}; m.read(k); utl::mmap_reader o{std::move(m)}; check(text(o.read(n)) == w, "moved"); }
    { utl::mmap_reader m{p.c_str()}; m.read(k); auto& o = m; m = std::move(o); check(text(m.read(n)) == w, "self assigned"); }
    if (!t.empty()) { utl::mmap_reader m{q.c_str()}; m.read(1); { utl::mmap_reader o{p.c_str()}; o.read(k); m = std::move(o); } check(text(m.read(n)) == w, "assigned"); eq("mappings", maps(), size_t{1}); eq("open files", fds(), f0 + 1); }
    { utl::mmap_reader m{p.c_str()}; { utl::mmap_reader o{std::move(m)}; } eq("mappings", maps(), size_t{0}); eq("open files", fds(), f0); { utl::mmap_reader o{p.c_str()}; o.read(k); m = std::move(o); } check(text(m.read(n)) == w, "assigned to moved"); }
    eq("mappings", maps(), size_t{0}); eq("open files", fds(), f0);
  }
  { utl::mmap_reader::memory_map m{p.c_str()}; eq("size", m.size(), s.size()); check(std::string(m.ptr(), m.size()) == s, "mapping"); }
  { utl::mmap_reader::file f{p.c_str()}; { utl::mmap_reader::file g{q.c_str()}; f = std::move(g); } eq("open files", fds(), f0 + 1); }
  eq("mappings", maps(), size_t{0}); eq("open files", fds(), f0);
}
static void c17_in_dir() {
  auto const f0 = fds();
  auto const none = dir + "/none";
  cur("a file that does not exist");
  check(throws([&] { utl::file f{none.c_str(), "r"}; }), "file throws");
  check(throws([&] { utl::mmap_reader m{none.c_str()}; }), "mmap_reader throws");
  check(!utl::read_file(none.c_str()).has_value(), "read_file yields nothing");
  utl::for_each_line_in_file(none, [&](std::string const&) { fail("line of a missing file"); });
  cur("a directory");
  check(throws([&] { utl::file f{dir.c_str(), "r"}; f.content_str(); }), "content_str throws");
  check(throws([&] { utl::file f{dir.c_str(), "r"}; f.content(); }), "content throws");
  check(throws([&] { utl::mmap_reader m{dir.c_str()}; }), "mmap_reader throws");
  check(!utl::read_file(dir.c_str()).has_value(), "read_file yields nothing");
  cur("a pipe (no size)");
  auto const pipe = dir + "/p"; (void)mkfifo(pipe.c_str(), 0600);
  check(throws([&] { utl::file f{pipe.c_str(), "r+"}; f.size(); }), "size throws");
  check(throws([&] { utl::file f{pipe.c_str(), "r+"}; f.content(); }), "content throws");
  check(throws([&] { utl::file f{pipe.c_str(), "r+"}; f.content_str(); }), "content_str throws");
  cur("a file opened for reading only is written");
  put_file("r", "x");
  check(throws([&] { utl::file f{(dir + "/r").c_str(), "r"}; f.write("abc", 3); }), "write throws");
  cur("a file opened for writing only is read");
  check(throws([&] { utl::file f{(dir + "/w").c_str(), "w"}; f.write("abc", 3); f.content_str(); }), "content_str throws");
  check(throws([&] { utl::file f{(dir + "/w").c_str(), "a"}; f.write("abc", 3); f.content(); }), "content throws");
  cur("a full device");
  { std::string const big(100000, 'x'); check(throws([&] { utl::file f{"/dev/full", "w"}; f.write(big.data(), big.size()); }), "write throws"); }
  eq("open files", fds(), f0);
  one_c17(std::string("a\0b\r\n\nc", 7), "xyz"); one_c17("\n", ""); one_c17("", "q");
  for (auto n : {4095, 4096, 4097, 8191, 8192, 8193, 100000}) { one_c17(std::string(n, 'x'), "z"); one_c17(std::string(n - 1, 'x') + "\n", std::string(n, 'y')); }
  all_strings("a\n", 4, [](std::string const& s) { one_c17(s, "bc"); });
  while (more()) { one_c17(rnd_string("ab\n\n\r", 40), rnd_string("ab", 5)); }
}
static void c17() {
  dir = "vf_replay_XXXXXX";   // in the scratch directory the driver is started in
  if (!mkdtemp(dir.data())) { return; }
  struct clean { ~clean() { for (auto f : {"a", "b", "c", "p", "r", "w"}) unlink((dir + "/" + f).c_str()); rmdir(dir.c_str()); } } c;
  c17_in_dir();
}
// ---- C18
struct my_error { int code; };
static void c18() {
  std::ostringstream log;
  struct redirect { std::streambuf* was; ~redirect() { std::clog.rdbuf(was); } } redir{std::clog.rdbuf(log.rdbuf())};
  auto const what = [&](auto&& f) -> std::optional<std::string> { log.str(""); try { f(); } catch (std::runtime_error const& e) { return e.what(); } return std::nullopt; };
  auto const logged = [&](bool ok, std::string const& s) { auto const l = log.str(); auto const p = l.find(s); check(ok ? l.empty() : p != std::string::npos && (s.empty() || l.find(s, p + 1) == std::string::npos), ("log: " + l).c_str()); };
  for (bool ok : {true, false}) {
    cur("verify", ok);
    auto const want = [&](std::string const& s) { return ok ? std::optional<std::string>{} : std::optional{s}; };
    check(what([&] { utl::verify(ok, "plain"); }) == want("plain"), "verify"); logged(ok, "plain");
    check(what([&] { utl::verify(ok, ""); }) == want(""), "verify empty");
    check(what([&] { utl::verify(ok, "braces {{}}"); }) == want("braces {}"), "verify braces"); logged(ok, "braces {}");
    check(what([&] { utl::verify(ok, "{} and {}", 1, "x"); }) == want("1 and x"), "verify args"); logged(ok, "1 and x");
    check(what([&] { utl::verify(ok, "{1} {0}", std::string{"a long enough string to be on the heap"}, 2); }) == want("2 a long enough string to be on the heap"), "verify args");
    check(what([&] { utl::verify_silent(ok, "plain"); }) == want("plain"), "verify_silent"); logged(true, "");
    check(what([&] { utl::verify_silent(ok, "{}-{}", 1, std::string{"b"}); }) == want("1-b"), "verify_silent args"); logged(true, "");
    int n = 0;
    check(what([&] { utl_verify((++n, ok), "{}", 7); }) == want("7"), "utl_verify"); logged(ok, "7"); eq("evaluations", n, 1);
    log.str(""); int code = -1; try { utl::verify_ex(ok, my_error{5}); } catch (my_error const& e) { code = e.code; } eq("verify_ex", code, ok ? -1 : 5);
    my_error e{6}; code = -1; try { utl::verify_ex(ok, e); } catch (my_error const& x) { code = x.code; check(&x != &e, "a copy is thrown"); } eq("verify_ex", code, ok ? -1 : 6); logged(true, "");
  }
  for (int i = 0; more() && i != 2000; ++i) {
    auto const s = rnd_string("ab c", 60);
    if (s.find_first_of("{}") != std::string::npos) continue;
    cur("fail", s);
    eq("message", std::string(utl::fail(s).what()), std::string(s.c_str())); eq("message", std::string(utl::fail("{}", s).what()), std::string(s.c_str()));
    eq("message", std::string(utl::fail(s + "{}", i).what()), std::string((s + std::to_string(i)).c_str()));
  }
}
int main(int c, char** v) { return run(c, v, {{"C15", c15}, {"C16", c16}, {"C17", c17}, {"C18", c18}}); }
