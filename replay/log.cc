// C28
// FLAGS: -I$REPO/src
#include "common.h"
#include <condition_variable>
#include <cstdlib>
#include <iostream>
#include <mutex>
#include <regex>
#include <sstream>
#include <thread>
#include "utl/const_str.h"
#include "utl/logging.h"
#include "utl/printable_enum.h"
#include "utl/set_thread_name.h"
#include "utl/timing.h"
#include "timer.cc"
using namespace rp;
using clk = std::chrono::steady_clock;
PRINTABLE_ENUM(one, A)
PRINTABLE_ENUM(three, RED, GREEN, BLUE)
PRINTABLE_ENUM(blanks, first , second  ,  third )
PRINTABLE_ENUM(tight, a,b,cc,ddd,e)
PRINTABLE_ENUM(longer, name_with_many_characters, n, another_name_with_many_characters, x1, x12, x123)
struct capture {
  capture() : old_{std::clog.rdbuf(s_.rdbuf())}, err_{std::cerr.rdbuf(e_.rdbuf())}, out_{std::cout.rdbuf(o_.rdbuf())} {}
  ~capture() { std::clog.rdbuf(old_); std::cerr.rdbuf(err_); std::cout.rdbuf(out_); }
  std::string take() { auto r = s_.str(); s_.str(""); if (!e_.str().empty() || !o_.str().empty()) { r += "<output elsewhere>"; } return r; }
  std::stringstream s_, e_, o_;
  std::streambuf *old_, *err_, *out_;
};
static std::string utc(std::time_t const t) {
  long long days = t / 86400, rest = t % 86400;
  if (rest < 0) { rest += 86400; --days; }
  days += 719468;
  long long const era = (days >= 0 ? days : days - 146096) / 146097;
  long long const doe = days - era * 146097, yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
  long long const doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153;
  long long const d = doy - (153 * mp + 2) / 5 + 1, m = mp < 10 ? mp + 3 : mp - 9, y = yoe + era * 400 + (m <= 2);
  char buf[64];
  std::snprintf(buf, sizeof buf, "%lld-%02lld-%02lldT%02lld:%02lld:%02lldZ+0000", y, m, d, rest / 3600, rest / 60 % 60, rest % 60);
  return buf;
}
static std::string const head = R"(\[(\d+)-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)Z\+0000\]\[)";
static bool line(std::string const& got, std::string const& level, std::string const& file, std::string const& msg) {
  return std::regex_match(got, std::regex{"\\[" + level + "\\]" + head + file + R"(:\d+\] )" + msg + "\n"});
}
static bool present(std::string const& got, std::time_t const a, std::time_t const b) {
  for (auto t = a; t <= b; ++t) { if (got.find(utc(t)) != std::string::npos) { return true; } }
  return false;
}
static bool elapsed(std::string const& got, clk::duration const lo, clk::duration const hi) {
  std::smatch m;
  if (!std::regex_search(got, m, std::regex{R"(\(([-+.e0-9]+)ms\)\n$)"})) { return false; }
  auto const ms = std::stod(m[1]);
  auto const c = [](clk::duration const d) { return std::chrono::duration<double, std::milli>(d).count(); };
  return ms >= c(lo) - 0.01 && ms <= c(hi) + 0.01;
}
template <typename F> static void timer(char const* what, F&& f) {
  capture c;
  cur(what, 0, 0);
  try { f(c); } catch (...) { eq("exception", true, false); }
}
static void c28() {
  setenv("TZ", "XYZ-05:30", 1);
  tzset();
  while (more()) {
    {
      capture c;
      auto const t0 = std::time(nullptr);
      auto const x = static_cast<long>(rng());
      uLOG(utl::warn) << std::string{"value"} << " is " << x;
      auto const l = c.take();
      auto const t1 = std::time(nullptr);
      cur("log line", 0, 0);
      eq("log line", line(l, "warn", R"(log\.cc)", "value is " + std::to_string(x)), true);
      eq("log line tells the present time", present(l, t0, t1), true);
      std::string all;
      uLOG(utl::emrg) << "m"; uLOG(utl::alrt) << "m"; uLOG(utl::crit) << "m"; uLOG(utl::err) << "m"; uLOG(utl::warn) << "m"; uLOG(utl::notice) << "m"; uLOG(utl::info) << "m"; uLOG(utl::debug) << "m";
      std::istringstream in{c.take()};
      std::vector<std::string> ls;
      for (std::string s; std::getline(in, s);) { ls.push_back(s); }
      char const* want[] = {"emrg", "alrt", "crit", "erro", "warn", "note", "info", "debg"};
      eq("levels", ls.size(), std::size_t{8});
      for (auto i = 0U; i != 8U && i < ls.size(); ++i) { cur("level", i, 0); eq("level", line(ls[i] + "\n", want[i], R"(log\.cc)", "m"), true); }
    }
    std::vector<std::time_t> ts = {0, 1, 59, 3600, 86399, 86400, 951782400, 1709164800, 4102444800, 253402300799, 253402300800, 67767976233532799};
    for (auto i = 0; i != 200; ++i) { ts.push_back(static_cast<std::time_t>(rng() % 67767976233532799ULL)); ts.push_back(static_cast<std::time_t>(rng() % 253402300800ULL)); }
    for (auto const t : ts) { cur("time", t, 0); eq("time", utl::time(t), utc(t)); }
    { auto const a = std::time(nullptr); auto const s = utl::time(); cur("time()", 0, 0); eq("time()", present(s, a, std::time(nullptr)), true); }
    auto const nap = std::chrono::microseconds{1300 + static_cast<long>(rng() % 900)};
    timer("scoped_timer", [&](capture& c) {
      clk::time_point b1; auto const b0 = clk::now();
      {
        utl::scoped_timer t{"nm"}; b1 = clk::now();
        eq("start line", line(c.take(), "info", R"(timer\.cc)", R"(\[nm\] starting)"), true);
        std::this_thread::sleep_for(nap);
        auto const e0 = clk::now(); t.print("some text"); auto const e1 = clk::now();
        auto const l = c.take();
        eq("print line", line(l, "info", R"(timer\.cc)", R"(\[nm\] some text \(.*ms\))"), true);
        eq("print time", elapsed(l, e0 - b1, e1 - b0), true);
        std::this_thread::sleep_for(nap);
      }
      auto const e1 = clk::now();
      auto const l = c.take();
      eq("stop line", line(l, "info", R"(timer\.cc)", R"(\[nm\] finished \(.*ms\))"), true);
      eq("stop time", elapsed(l, 2 * nap, e1 - b0), true);
    });
    timer("manual_timer", [&](capture& c) {
      auto const b0 = clk::now();
      {
        utl::manual_timer t{"nm"}; auto const b1 = clk::now();
        eq("start line", line(c.take(), "info", R"(timer\.cc)", R"(\[nm\] starting)"), true);
        std::this_thread::sleep_for(nap);
        auto const e0 = clk::now(); t.print("some text"); auto const e1 = clk::now();
        auto l = c.take();
        eq("print line", line(l, "info", R"(timer\.cc)", R"(\[nm\] some text \(.*ms\))"), true);
        eq("print time", elapsed(l, e0 - b1, e1 - b0), true);
        std::this_thread::sleep_for(nap);
        auto const f0 = clk::now(); t.stop_and_print(); auto const f1 = clk::now();
        l = c.take();
        eq("stop line", line(l, "info", R"(timer\.cc)", R"(\[nm\] finished \(.*ms\))"), true);
        eq("stop time", elapsed(l, f0 - b1, f1 - b0), true);
      }
      eq("nothing more", c.take(), std::string{});
    });
    {
      cur("timing macros", 0, 0);
      auto const b0 = clk::now(); UTL_START_TIMING(x); auto const b1 = clk::now();
      std::this_thread::sleep_for(nap);
      auto const e0 = clk::now(); UTL_STOP_TIMING(x); auto const e1 = clk::now();
      auto const in = [](auto const v, clk::duration const lo, clk::duration const hi, long long const unit) { return v >= lo.count() / unit && v <= hi.count() / unit; };
      eq("UTL_TIMING_US", in(UTL_TIMING_US(x), e0 - b1, e1 - b0, 1000), true);
      eq("UTL_TIMING_MS", in(UTL_TIMING_MS(x), e0 - b1, e1 - b0, 1000000), true);
      std::this_thread::sleep_for(nap);
      auto g0 = clk::now(); auto const us = UTL_GET_TIMING_US(x); auto g1 = clk::now();
      eq("UTL_GET_TIMING_US", in(us, g0 - b1, g1 - b0, 1000), true);
      g0 = clk::now(); auto const ms = UTL_GET_TIMING_MS(x); g1 = clk::now();
      eq("UTL_GET_TIMING_MS", in(ms, g0 - b1, g1 - b0, 1000000), true);
    }
    {
      std::mutex m; std::condition_variable cv; bool stop = false;
      char before[16], buf[16];
      pthread_getname_np(pthread_self(), before, sizeof before);
      std::thread th{[&] { std::unique_lock l{m}; cv.wait(l, [&] { return stop; }); }};
      cur("set_thread_name", 0, 0);
      utl::set_thread_name(th, "other name");
      pthread_getname_np(th.native_handle(), buf, sizeof buf); eq("name of the thread", std::string{buf}, std::string{"other name"});
      pthread_getname_np(pthread_self(), buf, sizeof buf); eq("name of this thread", std::string{buf}, std::string{before});
      cur("set_current_thread_name", 0, 0);
      utl::set_current_thread_name("this one");
      pthread_getname_np(pthread_self(), buf, sizeof buf); eq("name of this thread", std::string{buf}, std::string{"this one"});
      pthread_getname_np(th.native_handle(), buf, sizeof buf); eq("name of the other thread", std::string{buf}, std::string{"other name"});
      pthread_setname_np(pthread_self(), before);
      { std::lock_guard l{m}; stop = true; }
      cv.notify_one(); th.join();
    }
#define LIT(s) { cur("literal", std::string{s}); eq("STRING_LITERAL", std::string{STRING_LITERAL(s)}, std::string{s}); }
    LIT("") LIT("")
    LIT("a") LIT("3")
    LIT("ab") LIT("32")
    LIT("abc") LIT("321")
    LIT("abcd") LIT("3210")
    LIT("abcde") LIT("3210z")
    LIT("abcdef") LIT("3210zy")
    LIT("abcdefg") LIT("3210zyx")
    LIT("abcdefgh") LIT("3210zyxw")
    LIT("abcdefghi") LIT("3210zyxwv")
    LIT("abcdefghij") LIT("3210zyxwvu")
    LIT("abcdefghijk") LIT("3210zyxwvut")
    LIT("abcdefghijkl") LIT("3210zyxwvuts")
    LIT("abcdefghijklm") LIT("3210zyxwvutsr")
    LIT("abcdefghijklmn") LIT("3210zyxwvutsrq")
    LIT("abcdefghijklmno") LIT("3210zyxwvutsrqp")
    LIT("abcdefghijklmnop") LIT("3210zyxwvutsrqpo")
    LIT("abcdefghijklmnopq") LIT("3210zyxwvutsrqpon")
    LIT("abcdefghijklmnopqr") LIT("3210zyxwvutsrqponm")
    LIT("abcdefghijklmnopqrs") LIT("3210zyxwvutsrqponml")
    LIT("abcdefghijklmnopqrst") LIT("3210zyxwvutsrqponmlk")
    LIT("abcdefghijklmnopqrstu") LIT("3210zyxwvutsrqponmlkj")
    LIT("abcdefghijklmnopqrstuv") LIT("3210zyxwvutsrqponmlkji")
    LIT("abcdefghijklmnopqrstuvw") LIT("3210zyxwvutsrqponmlkjih")
    LIT("abcdefghijklmnopqrstuvwx") LIT("3210zyxwvutsrqponmlkjihg")
    LIT("abcdefghijklmnopqrstuvwxy") LIT("3210zyxwvutsrqponmlkjihgf")
    LIT("abcdefghijklmnopqrstuvwxyz") LIT("3210zyxwvutsrqponmlkjihgfe")
    LIT("abcdefghijklmnopqrstuvwxyz0") LIT("3210zyxwvutsrqponmlkjihgfed")
    LIT("abcdefghijklmnopqrstuvwxyz01") LIT("3210zyxwvutsrqponmlkjihgfedc")
    LIT("abcdefghijklmnopqrstuvwxyz012") LIT("3210zyxwvutsrqponmlkjihgfedcb")
    LIT("abcdefghijklmnopqrstuvwxyz0123") LIT("3210zyxwvutsrqponmlkjihgfedcba")
#define NAME(e, v, s) { cur("enumerator " s, 0, 0); eq("as_string", as_string(e::v), std::string{s}); std::ostringstream o; o << e::v << 1; eq("operator<<", o.str(), std::string{s "1"}); }
    NAME(one, A, "A") NAME(three, RED, "RED") NAME(three, GREEN, "GREEN") NAME(three, BLUE, "BLUE")
    NAME(blanks, first, "first") NAME(blanks, second, "second") NAME(blanks, third, "third")
    NAME(tight, a, "a") NAME(tight, b, "b") NAME(tight, cc, "cc") NAME(tight, ddd, "ddd") NAME(tight, e, "e")
    NAME(longer, name_with_many_characters, "name_with_many_characters") NAME(longer, n, "n") NAME(longer, another_name_with_many_characters, "another_name_with_many_characters") NAME(longer, x1, "x1") NAME(longer, x12, "x12") NAME(longer, x123, "x123")
  }
}
int main(int c, char** v) { return run(c, v, {{"C28", c28}}); }
