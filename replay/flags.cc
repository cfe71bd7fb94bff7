// C24
#include "common.h"
#include <sstream>
#include "utl/cmd_line_parser.h"
using namespace rp;
using namespace utl;
struct cfg {
  cmd_line_flag<bool, UTL_SHORT("-a"), UTL_LONG("--aa"), UTL_DESC("a")> a_;
  cmd_line_flag<int, required, UTL_LONG("--bb"), UTL_DESC("b")> b_;
  cmd_line_flag<unsigned long, UTL_SHORT("-c"), UTL_LONG("--cc"), UTL_DESC("c")> c_;
  cmd_line_flag<bool, required, UTL_SHORT("-d"), UTL_DESC("d")> d_;
  cmd_line_flag<short, required, UTL_SHORT("-e"), UTL_DESC("e")> e_;
  cmd_line_flag<int, UTL_LONG("--ff"), UTL_DESC("f")> f_;
};
static std::vector<std::string> A;
static long last(char const* s, char const* l, bool& found) {
  long r = 0;
  found = false;
  for (size_t i = 0; i < A.size(); ++i) {
    if (A[i] == s || A[i] == l) {
      found = i + 1 < A.size() && !A[i + 1].empty();
      if (found) { r = std::atol(A[i + 1].c_str()); }
    }
  }
  return r;
}
static bool has(char const* s, char const* l) { for (auto const& a : A) { if (a == s || a == l) { return true; } } return false; }
struct text { cmd_line_flag<std::string, UTL_SHORT("-s"), UTL_LONG("--ss"), UTL_DESC("s")> s_; };
struct dflt { cmd_line_flag<int, UTL_LONG("--bb"), UTL_DESC("b")> b_{42}; cmd_line_flag<unsigned long, UTL_SHORT("-c"), UTL_DESC("c")> c_{7UL}; };
// the words of each line
static std::vector<std::vector<std::string>> words_of(std::string const& s) {
  std::vector<std::vector<std::string>> r;
  std::stringstream lines{s};
  for (std::string l; std::getline(lines, l);) {
    r.emplace_back();
    std::stringstream ws{l};
    for (std::string w; ws >> w;) { r.back().push_back(w); }
  }
  return r;
}
static void texts() {
  auto const d = words_of(description<cfg>());
  decltype(d) want = {{"--aa", "-a", "a"}, {"--bb", "*", "b"}, {"--cc", "-c", "c"}, {"-d", "*", "d"}, {"-e", "*", "e"}, {"--ff", "f"}};
  cur("description", "");
  check(d == want, "the description does not list each flag with its names, a star if it is required, and its description");
  cfg x;
  x.a_.val() = rnd(2); x.b_.val() = static_cast<int>(rnd(99)); x.c_.val() = rnd(99); x.d_.val() = rnd(2); x.e_.val() = static_cast<short>(rnd(99)); x.f_.val() = static_cast<int>(rnd(99));
  auto w2 = want;
  w2[0].back() = x.a_.val() ? "true" : "false"; w2[1].back() = std::to_string(x.b_.val()); w2[2].back() = std::to_string(x.c_.val());
  w2[3].back() = x.d_.val() ? "true" : "false"; w2[4].back() = std::to_string(x.e_.val()); w2[5].back() = std::to_string(x.f_.val());
  cur("print_flags", "");
  check(words_of(print_flags(x)) == w2, "print_flags does not list each flag with its value");
}
static void strings(int n, char const** v, std::string const& shown) {
  cur("parse_flags, string flag: arguments", shown);
  std::string want;
  for (size_t i = 0; i + 1 < A.size(); ++i) { if ((A[i] == "-s" || A[i] == "--ss") && !A[i + 1].empty()) { want = A[i + 1]; } }
  eq("-s", parse_flags<text>(n, v).s_.val(), want);
  cur("parse_flags, defaults: arguments", shown);
  bool fb, fc;
  auto const b = last("?", "--bb", fb), c = last("-c", "?", fc);
  auto const was = [](char const* x) { for (size_t i = 0; i + 1 < A.size(); ++i) { if (A[i] == x && !A[i + 1].empty()) { return true; } } return false; };
  auto const r = parse_flags<dflt>(n, v);
  eq("--bb", static_cast<long>(r.b_.val()), was("--bb") ? b : 42L);
  eq("-c", static_cast<long>(r.c_.val()), was("-c") ? c : 7L);
}
static void c24() {
  cur("cmd_line_flag");
  cmd_line_flag<std::string, UTL_LONG("--cc"), UTL_DESC("c")> f{std::string{"u"}};
  auto const& g = f;
  eq("reads", std::string{f} + *f + *g + f.val() + g.val(), std::string("uuuuu"));
  *f = "v"; eq("assigned", g.val(), std::string("v"));
  f.val() = "w"; eq("assigned", *g, std::string("w"));
  char const* const words[] = {"-a", "--aa", "--bb", "-c", "--cc", "-d", "-e", "--ff", "--b", "-", "a", "", "-s", "--ss"};
  while (more()) {
    A.clear();
    if (rnd(2)) { for (auto const w : {"--bb", "1", "-d", "-e", "2"}) { A.emplace_back(w); } }
    for (auto n = rnd(8); n != 0; --n) { A.insert(A.begin() + static_cast<long>(rnd(A.size() + 1)), rnd(3) == 0 ? std::to_string(static_cast<int>(rnd(99))) : words[rnd(14)]); }
    std::vector<char const*> av;
    std::string shown;
    for (auto const& a : A) { av.push_back(a.c_str()); shown += "'" + a + "' "; }
    cur("parse_flags: arguments", shown);
    bool fb, fc, fe, ff;
    auto const b = last("?", "--bb", fb), c = last("-c", "--cc", fc), e = last("-e", "?", fe), f = last("?", "--ff", ff);
    bool const missing = !fb || !has("-d", "?") || !fe;
    texts();
    strings(static_cast<int>(av.size()), av.data(), shown);
    cur("parse_flags: arguments", shown);
    try {
      auto const r = parse_flags<cfg>(static_cast<int>(av.size()), av.data());
      check(!missing, "a required flag is missing but no exception is thrown");
      eq("-a", r.a_.val(), has("-a", "--aa"));
      eq("--bb", static_cast<long>(r.b_.val()), b);
      eq("-c", static_cast<long>(r.c_.val()), c);
      eq("-d", r.d_.val(), true);
      eq("-e", static_cast<long>(r.e_.val()), e);
      eq("--ff", static_cast<long>(r.f_.val()), f);
    } catch (std::runtime_error const& x) {
      check(missing, "exception though no required flag is missing");
      std::string const w = x.what();
      check((w == "--bb" && !fb) || (w == "-d" && !has("-d", "?")) || (w == "-e" && !fe), "the exception does not name a missing flag");
    }
  }
}
int main(int c, char** v) { return run(c, v, {{"C24", c24}}); }
