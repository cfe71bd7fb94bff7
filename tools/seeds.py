SEEDS = [
 dict(id="s01-substr-clamp", prop="C01",
      edits=[("include/utl/parser/cstr.h", "auto const adjusted_size = std::min(s.size_, len - adjusted_position);",
              "auto const adjusted_size =\n        adjusted_position + s.size_ > len ? len - adjusted_position : s.size_;")],
      needs="a sub-view request whose position plus size wraps around 2^64 (e.g. position 1, size = maximum)", breaks="the size is no longer clamped, the sub-view reaches far outside the text",
      demo="""#include "utl/parser/cstr.h"
#include <limits>
int main() { utl::cstr s{"abc", 3}; auto const r = s.substr(1, utl::size(std::numeric_limits<size_t>::max())); return r.len == 2 && r.str == s.str + 1 ? 0 : 1; }
"""),
 dict(id="s02-compare-signed", prop="C02",
      edits=[("include/utl/parser/cstr.h", "return std::lexicographical_compare(str, str + len, s.str, s.str + s.len);",
              "auto const c = std::memcmp(str, s.str, std::min(len, s.len));\n    return c < 0 || (c == 0 && len <= s.len && str != s.str);")],
      needs="ordering two equal texts stored at different addresses", breaks="a text is ordered before an equal text (the order is no longer irreflexive)",
      demo="""#include "utl/parser/cstr.h"
int main() { char a[] = "abc", b[] = "abc"; return utl::cstr{a, 3} < utl::cstr{b, 3} ? 1 : 0; }
"""),
 dict(id="s03-last-line-cr", prop="C03",
      edits=[("include/utl/parser/buf_reader.h", "      it_ = last;\n      return {tmp, static_cast<size_t>(num)};",
              "      it_ = last;\n      if (num == 1 && *tmp == '\\r') {\n        return {nullptr, 0};\n      }\n      return {tmp, static_cast<size_t>(num)};")],
      needs="a text whose last line is unterminated and consists of a single carriage return", breaks="the last line is not delivered",
      demo="""#include "utl/parser/buf_reader.h"
int main() { auto r = utl::make_buf_reader(utl::cstr{"a\\n\\r", 3}); r.read_line(); auto const l = r.read_line(); return l.data() != nullptr && l.len == 1 ? 0 : 1; }
"""),
 dict(id="s04-token-break", prop="C03",
      edits=[("include/utl/parser/cstr.h", "    cstr token = get_until(s, separator);\n    f(token);\n    s += token.len;\n    // skip separator\n    if (s.len != 0) {\n      ++s;\n    }",
              "    cstr token = get_until(s, separator);\n    f(token);\n    s += token.len;\n    // skip separators\n    while (s.len != 0 && token.len == 0 && s[0] == separator) {\n      ++s;\n      token.len = s.len != 0 && s[0] == separator ? 0 : 1;\n    }\n    if (token.len != 0 && s.len != 0 && s[0] == separator) {\n      ++s;\n    }")],
      needs="two or more consecutive empty tokens", breaks="runs of empty tokens are merged",
      demo="""#include "utl/parser/cstr.h"
int main() { int n = 0; utl::for_each_token(utl::cstr{",,,a", 4}, ',', [&](utl::cstr) { ++n; }); return n == 4 ? 0 : 1; }
"""),
 dict(id="s05-int-sign", prop="C04", stubs=True,
      edits=[("include/utl/parser/arg_parser.h", "    char c = *s.str;\n    if (c > '9' || c < '0') {\n      break;\n    }\n    value =", "    char c = *s.str;\n    if (static_cast<unsigned char>(c - '0') > 10U) {\n      break;\n    }\n    value =")],
      needs="a colon directly behind the digits", breaks="a colon is taken as a digit of value ten",
      demo="""#include "utl/parser/arg_parser.h"
int main() { return utl::parse<int>(utl::cstr{"12:30", 5}) == 12 ? 0 : 1; }
"""),

 dict(id="s06-join-stride", prop="C07",
      edits=[("include/utl/join.h", "    while (a_upper != a_end && !(less(*a_lower, *a_upper))) {\n      ++a_upper;\n    }",
              "    while (a_upper != a_end && !(less(*a_lower, *a_upper))) {\n      if (std::distance(a_upper, a_end) > 4 &&\n          !less(*a_lower, *next(a_upper, 2))) {\n        a_upper = next(a_upper, 3);  // skip ahead in long groups\n      }\n      ++a_upper;\n    }")],
      needs="a group of exactly three elements on the left side that is followed by at least two more elements", breaks="the group swallows the first element of the next one",
      demo="""#include "utl/join.h"
#include <vector>
int main() { std::vector<int> a{1, 1, 1, 2, 3}, b{1, 2, 3}; long n = 0; utl::inner_join(a, b, [&](auto, auto, auto, auto) { ++n; }); return n == 3 ? 0 : 1; }
"""),
 dict(id="s08-diff-tail", prop="C08",
      edits=[("include/utl/sorted_diff.h", "    } else if (b == b_end) {\n      fn(op::kDel, *a);\n      ++a;", "    } else if (b == b_end) {\n      while (std::next(a) != a_end && !cmp(*a, *std::next(a))) {\n        ++a;\n      }\n      fn(op::kDel, *a);\n      ++a;"),
             ("include/utl/sorted_diff.h", "#include <utility>\n", "#include <iterator>\n#include <utility>\n")],
      needs="the old side ends with several equivalent elements behind everything of the new side", breaks="only the last of the equivalent deleted elements is reported",
      demo="""#include <cstdint>
#include "utl/sorted_diff.h"
#include <vector>
struct fn { int& n; void operator()(utl::op, int) const { ++n; } void operator()(int, int) const { n += 100; } };
int main() { std::vector<int> a{1, 7, 7}, b{1}; int n = 0; utl::sorted_diff(a, b, [](int x, int y) { return x < y; }, [](int, int) { return true; }, fn{n}); return n == 2 ? 0 : 1; }
"""),

 dict(id="s09-power-set-swap", prop="C09",
      edits=[("include/utl/power_set_intersection.h", "    Swap ? fn(*b, *a) : fn(*a, *b);\n    ++b;\n", "    Swap ? fn(*b, *a) : fn(*a, *b);\n    ++b;\n    if (b != b_end && !lt(*a, *b)) {  // runs are common\n      fn(*a, *b);\n      ++b;\n    }\n")],
      needs="three equal elements on the left side", breaks="a pair is delivered with its sides swapped",
      demo="""#include "utl/power_set_intersection.h"
#include <functional>
#include <vector>
struct k { int a, side; bool operator<(k const& o) const { return a < o.a; } };
int main() { std::vector<k> a{{1, 0}, {1, 0}, {1, 0}}, b{{1, 1}}; int n = 0, bad = 0; utl::power_set_intersection(a, b, [&](k const& x, k const& y) { ++n; bad += x.side != 0 || y.side != 1; }, std::less<k>{}); return n == 3 && bad == 0 ? 0 : 1; }
"""),

 dict(id="s10-nwise-size", prop="C10",
      edits=[("include/utl/nwise.h", "  std::size_t size() const {\n    return static_cast<std::size_t>(std::distance(begin(), end()));\n  }\n  It begin_, end_;",
              "  std::size_t size() const {\n    auto const n = static_cast<std::size_t>(std::distance(begin_, end_));\n    return n - N + 1U;\n  }\n  It begin_, end_;")],
      needs="asking for the number of windows of a sequence at least two elements shorter than a window", breaks="the number of windows wraps around",
      demo="""#include "utl/nwise.h"
#include <vector>
int main() { std::vector<int> v{1}; return utl::nwise<3>(v).size() == 0 ? 0 : 1; }
"""),
 dict(id="s11-enumerate-minus", prop="C10",
      edits=[("include/utl/enumerate.h", "    i_ = static_cast<std::size_t>(static_cast<difference_type>(i_) - n);\n    iter_ -= ", "    i_ -= static_cast<std::size_t>(n < 0 ? -n : n);\n    iter_ -= ")],
      needs="moving an enumerating iterator back by a negative distance", breaks="number and element no longer belong together",
      demo="""#include "utl/enumerate.h"
#include <vector>
int main() { std::vector<int> v{5, 6, 7, 8}; auto e = utl::enumerate(v); auto it = e.begin(); it += 1; it -= -2; auto const [i, x] = *it; return i == 3 && x == 8 ? 0 : 1; }
"""),

 dict(id="s12-equal-ranges-cmp", prop="C11",
      edits=[("include/utl/equal_ranges.h", "    auto upper = std::upper_bound(begin(c), end(c), *lower, cmp);", "    auto upper = std::find_if(lower, end(c), [&](auto const& x) {\n      return *lower < x || x < *lower;\n    });")],
      needs="an order under which elements are equivalent that are not equal", breaks="a group of equivalent elements is split where elements differ in something the order ignores",
      demo="""#include "utl/equal_ranges.h"
#include <vector>
int main() { std::vector<int> v{11, 12, 25}; int n = 0; utl::equal_ranges(v, [](int a, int b) { return a / 10 < b / 10; }, [&](auto, auto) { ++n; }); return n == 2 ? 0 : 1; }
"""),
 dict(id="s13-erase-dup-part", prop="C12",
      edits=[("include/utl/erase_duplicates.h", "  c.erase(std::unique(begin, end, eq), end);\n", "  c.erase(std::unique(begin, end, eq), c.end());\n")],
      needs="removing duplicates of a part that does not reach the end of the container", breaks="everything behind the part is erased",
      demo="""#include "utl/erase_duplicates.h"
#include <functional>
#include <vector>
int main() { std::vector<int> v{2, 2, 1, 9, 9}; utl::erase_duplicates(v, v.begin(), v.begin() + 3, std::less<>{}, std::equal_to<>{}); return v == std::vector<int>{1, 2, 9, 9} ? 0 : 1; }
"""),
 dict(id="s14-sort-by-alias", prop="C12",
      edits=[("include/utl/sort_by.h", "        (apply_permutation(permutation, ts, rest), ...);", "        (apply_permutation(permutation, rest, rest), ...);")],
      needs="a permutation with a cycle, i.e. an element that moves to a place in front of another one's source", breaks="overwritten elements are read again: elements get lost",
      demo="""#include "utl/sort_by.h"
#include <vector>
int main() { std::vector<int> a{2, 1}, b{20, 10}; auto const [x, y] = utl::sort_by(a, b); return x == std::vector<int>{1, 2} && y == std::vector<int>{10, 20} ? 0 : 1; }
"""),
 dict(id="s15-unique-begin", prop="C13",
      edits=[("include/utl/pipes/unique.h", "    auto it = parent_t::begin();\n    if (this->valid(it)) {\n      pred_ = parent_t::read(it);\n    }\n    return it;", "    auto it = parent_t::begin();\n    find(it);\n    return it;")],
      needs="a sequence whose first element equals a value-initialised element", breaks="the first run of elements is dropped",
      demo="""#include "utl/pipes.h"
#include <vector>
int main() { std::vector<int> v{0, 0, 1}; auto const r = utl::all(v) | utl::unique() | utl::vec(); return r == std::vector<int>{0, 1} ? 0 : 1; }
"""),
 dict(id="s16-avg-narrow", prop="C13",
      edits=[("include/utl/pipes/avg.h", "      sum += r.read(it);\n      ++count;", "      sum = static_cast<std::decay_t<decltype(r.read(it))>>(sum) + r.read(it);\n      ++count;")],
      needs="elements of a narrow type whose sum exceeds that type", breaks="the sum wraps in the element type, the average is too small",
      demo="""#include <cstddef>
#include "utl/pipes.h"
#include <vector>
int main() { std::vector<unsigned char> v{200, 200, 200}; return (utl::all(v) | utl::avg()) == 200.0 ? 0 : 1; }
"""),
 dict(id="s17-uniform-ends", prop="C14",
      edits=[("include/utl/is_uniform.h", "  return is_uniform(begin(c), end(c));\n", "  return begin(c) == end(c) || *begin(c) == *std::prev(end(c));\n")],
      needs="equal elements at both ends of a collection that is not uniform", breaks="the collection is reported as uniform",
      demo="""#include <concepts>
#include <iterator>
#include "utl/is_uniform.h"
#include <vector>
int main() { std::vector<int> v{1, 2, 1}; return utl::is_uniform(v) ? 1 : 0; }
"""),

 dict(id="s18-unescape-twice", prop="C05", stubs=True,
      edits=[("include/utl/parser/csv.h", "      arg.erase(static_cast<unsigned>(found_at), 1U);\n      ++found_at;  // Skip following character (\"), we are now after the \"\"\n", "      arg.erase(static_cast<unsigned>(found_at), 1U);\n      found_at += found_at == 0U ? 0U : 1U;\n")],
      needs="a text that begins with two escaped quotes in a row", breaks="the quote that replaced the first pair is taken for the start of another pair",
      demo="""#include "utl/parser/csv.h"
int main() { std::string s{"\\"\\"\\"\\"a"}; utl::unescape_quoted_string(s); return s == "\\"\\"a" ? 0 : 1; }
"""),
 dict(id="s19-escaped-last", prop="C05", stubs=True,
      edits=[("include/utl/parser/csv.h", "c == end && s.len >= 2 && s.str[1] == end", "c == end && s.len > 2 && s.str[1] == end")],
      needs="a quoted column without closing quote at the end of the text whose content ends with an escaped quote", breaks="the escaped pair at the end of the text is taken for the closing quote: the content is cut off and a quote is left over",
      demo="""#include "utl/parser/csv.h"
int main() { utl::cstr s{"\\"a\\"\\""}, c; utl::parse_column(s, c); return c == "a\\"\\"" && s.len == 0 ? 0 : 1; }
"""),
 dict(id="s20-columns-limit", prop="C06", stubs=True,
      edits=[("include/utl/parser/csv_range.h", "    for (column_idx_t i = 0; i < MAX_COLUMNS && s; ++i) {", "    for (column_idx_t i = 0; i < MAX_COLUMNS - 1 && s; ++i) {")],
      needs="a file with 64 columns whose last column is wanted", breaks="the 64th column is never read",
      demo="""#include "utl/parser/csv_range.h"
#include "utl/parser/buf_reader.h"
#include "utl/parser/line_range.h"
#include "utl/pipes/all.h"
#include "utl/pipes/vec.h"
struct rec { utl::csv_col<int, UTL_NAME("x")> x; };
int main() {
  std::string s; for (int i = 0; i != 63; ++i) s += "a,"; s += "x\\n"; for (int i = 0; i != 63; ++i) s += "1,"; s += "7\\n";
  auto const r = utl::line_range{utl::make_buf_reader(utl::cstr{s.data(), s.size()})} | utl::csv<rec>() | utl::vec();
  return r.size() == 1 && *r[0].x == 7 ? 0 : 1;
}
"""),
 dict(id="s21-short-last-row", prop="C06", stubs=True,
      edits=[("include/utl/parser/csv.h", "         (s.len == 2 && s[0] != '\\r') ||  // \"\\r\\n\"\n", "         (s.len == 2 && s[1] != '\\n') ||  // \"\\r\\n\"\n")],
      needs="a last row that consists of a single character and a line break", breaks="the last row is dropped",
      demo="""#include "utl/parser/csv.h"
#include <tuple>
int main() { auto const r = utl::read<std::tuple<int>>(utl::cstr{"a\\n1\\n2\\n"}, {{"a"}}); return r.size() == 2 && std::get<0>(r[1]) == 2 ? 0 : 1; }
"""),
 dict(id="s22-header-prefix", prop="C06", stubs=True,
      edits=[("include/utl/parser/csv.h", "      if (header == defined_columns[c]) {", "      if (header.starts_with(defined_columns[c])) {")],
      needs="a column whose name extends the name of a wanted column", breaks="the wrong column is read",
      demo="""#include "utl/parser/csv.h"
#include <tuple>
int main() { auto const r = utl::read<std::tuple<int>>(utl::cstr{"id,id_x\\n1,2\\n"}, {{"id"}}); return r.size() == 1 && std::get<0>(r[0]) == 1 ? 0 : 1; }
"""),

 dict(id="s23-finally-unwind", prop="C15",
      edits=[("include/utl/raii.h", "    if (!omit_destruct_) {\n", "    if (!omit_destruct_ && std::uncaught_exceptions() == 0) {\n"), ("include/utl/raii.h", "#include <utility>\n", "#include <exception>\n#include <utility>\n")],
      needs="the scope of the resource is left by an exception", breaks="the resource is not released during unwinding",
      demo="""#include "utl/raii.h"
int main() { int n = 0; try { auto r = utl::make_raii(7, [&](int x) { n += x; }); throw 1; } catch (int) {} return n == 7 ? 0 : 1; }
"""),
 dict(id="s24-buffer-nul", prop="C16",
      edits=[("include/utl/parser/buffer.h", "  buffer(char const* str, std::size_t size) : buffer(size) {\n    std::memcpy(buf_, str, size_);", "  buffer(char const* str, std::size_t size) : buffer(size) {\n    std::strncpy(static_cast<char*>(buf_), str, size_);")],
      needs="bytes with an embedded NUL", breaks="everything behind the NUL is replaced by NUL bytes",
      demo="""#include "utl/parser/buffer.h"
int main() { utl::buffer b{"a\\0b", 3}; return b.size() == 3 && b.data()[2] == 'b' ? 0 : 1; }
"""),
 dict(id="s25-file-short-read", prop="C17",
      edits=[("include/utl/parser/file.h", "    auto b = buffer(file_size);\n    auto bytes_read = std::fread(b.data(), 1, file_size, f_);\n    verify(bytes_read == file_size,", "    auto b = buffer(file_size);\n    auto bytes_read = std::fread(b.data(), 1, file_size, f_);\n    verify(bytes_read <= file_size,")],
      needs="a read that delivers fewer bytes than the file has (I/O error, or a handle that is not readable)", breaks="a short read yields a buffer with undefined bytes instead of an error",
      demo="""#include "utl/parser/file.h"
int main() { try { utl::file f{"x", "w"}; f.write("abcd", 4); auto const b = f.content(); return 1; } catch (std::exception const&) { return 0; } }
"""),
 dict(id="s26-mmap-read-wrap", prop="C17",
      edits=[("include/utl/parser/mmap_reader_unix.h", "    auto const bytes_read = std::min(num_bytes, rest_size);", "    auto const end = reinterpret_cast<uintptr_t>(start) + num_bytes;\n    auto const bytes_read =\n        end < reinterpret_cast<uintptr_t>(last) ? num_bytes : rest_size;"),
             ("include/utl/parser/mmap_reader_unix.h", "#include <cstdio>\n", "#include <cstdint>\n#include <cstdio>\n")],
      needs="a request for so many bytes that the end address wraps around 2^64 (e.g. the maximum size: everything)", breaks="the view reaches far outside the file",
      flags="-fsanitize=address",
      demo="""#include "utl/parser/mmap_reader.h"
#include "utl/parser/file.h"
int main() { { utl::file f{"x", "w"}; f.write("abcd", 4); } utl::mmap_reader r{"x"}; return r.read(static_cast<size_t>(-1)).len == 4 && r.read(1).len == 0 ? 0 : 1; }
"""),
 dict(id="s27-lines-last", prop="C17",
      edits=[("include/utl/for_each_line_in_file.h", "  while (in->peek() != EOF && !in->eof()) {\n    std::getline(*in, line);\n    f(line);", "  while (std::getline(*in, line) && !in->eof()) {\n    f(line);")],
      needs="a file whose last line is not terminated", breaks="the last line is not delivered",
      demo="""#include "utl/for_each_line_in_file.h"
int main() { { std::ofstream o{"x"}; o << "a\\nb"; } int n = 0; utl::for_each_line_in_file("x", [&](std::string const&) { ++n; }); return n == 2 ? 0 : 1; }
"""),
 dict(id="s28-fail-plain", prop="C18",
      edits=[("include/utl/verify.h", "  fmt::print(std::clog, \"\\n\");\n\n  return std::runtime_error{\n", "  fmt::print(std::clog, \"\\n\");\n\n  if constexpr (sizeof...(FmtArgs) == 0) {\n    return std::runtime_error{std::string{msg}};\n  }\n\n  return std::runtime_error{\n")],
      needs="a message without arguments that contains escaped braces", breaks="the exception carries the raw format string instead of the formatted message",
      demo="""#include "utl/verify.h"
int main() { try { utl::verify(false, "{{}}"); } catch (std::runtime_error const& e) { return std::string{e.what()} == "{}" ? 0 : 1; } return 2; }
"""),
 dict(id="s29-read-file-nul", prop="C17",
      edits=[("include/utl/read_file.h", "    return f.read(&buffer[0], size) ? std::make_optional(buffer) : std::nullopt;", "    return size == 0 || std::getline(f, buffer, '\\0')\n               ? std::make_optional(buffer)\n               : std::nullopt;"),
             ("include/utl/read_file.h", "#include <optional>\n", "#include <optional>\n#include <string>\n")],
      needs="a file with an embedded NUL byte", breaks="everything from the first NUL byte on is missing",
      demo="""#include "utl/read_file.h"
#include <string>
int main() { { std::ofstream o{"x"}; o << std::string{"a\\0b", 3}; } auto const s = utl::read_file("x"); return s && s->size() == 3 ? 0 : 1; }
"""),
 dict(id="s30-par-continue-stops", prop="C20",
      edits=[("include/utl/parallel_for.h", """        try {
          func(idx);
          progress_update(idx);
        } catch (...) {
          std::lock_guard<std::mutex> lock{errors_mutex};
          errors.emplace_back(idx, std::current_exception());
          if (err_strat == parallel_error_strategy::QUIT_EXEC) {
            quit = true;
            break;
          }
        }
""", """        try {
          func(idx);
          progress_update(idx);
        } catch (...) {
          std::lock_guard<std::mutex> lock{errors_mutex};
          errors.emplace_back(idx, std::current_exception());
          quit = err_strat == parallel_error_strategy::QUIT_EXEC;
          break;
        }
""")],
      needs="CONTINUE_EXEC with at least as many failing jobs as threads", breaks="jobs left over when every thread met a failure are never run",
      demo="""#include "utl/parallel_for.h"
int main() {
  size_t const n = 4096;
  auto const e = utl::parallel_for_run(n, [](size_t) { throw 1; }, utl::noop_progress_update{}, utl::parallel_error_strategy::CONTINUE_EXEC);
  return e.size() == n ? 0 : 1;
}
"""),
 dict(id="s31-par-progress-first", prop="C20",
      edits=[("include/utl/parallel_for.h", """          func(threadlocal, idx);
          progress_update(idx);
""", """          progress_update(idx);
          func(threadlocal, idx);
""")],
      needs="a job of the thread-local variant that throws", breaks="progress is reported for jobs that failed",
      demo="""#include "utl/parallel_for.h"
int main() {
  struct tl {};
  std::atomic<int> p{0};
  auto const e = utl::parallel_for_run_threadlocal<tl>(10, [](tl&, size_t i) { if (i == 7) { throw 1; } }, [&](size_t) { ++p; }, utl::parallel_error_strategy::CONTINUE_EXEC);
  return e.size() == 1 && p == 9 ? 0 : 1;
}
"""),
 dict(id="s32-pool-wait-active-only", prop="C21",
      edits=[("include/utl/thread_pool.h", "[&] { return threads_active_ == 0 && counter_ >= job_count_; }", "[&] { return threads_active_ == 0; }")],
      needs="execute gets the lock before the first worker wakes up", breaks="execute returns before its jobs ran",
      demo="""#include "utl/thread_pool.h"
#include <algorithm>
int main() {
  utl::thread_pool p;
  std::atomic<int> late{0};
  for (int r = 0; r < 3000; ++r) {
    auto const n = std::make_shared<std::atomic<int>>(0);
    p.execute(3, [n](size_t) { ++*n; });
    if (*n != 3) { return 1; }
  }
  return 0;
}
"""),
 dict(id="s33-pool-check-then-claim", prop="C21",
      edits=[("include/utl/thread_pool.h", """            auto const idx = counter_.fetch_add(1);
            if (idx >= job_count_) {
              break;
            }
            fn_(idx);
""", """            if (counter_ >= job_count_) {
              break;
            }
            fn_(counter_.fetch_add(1));
""")],
      needs="two threads that both see the last job unclaimed", breaks="a job with an index that does not exist is run",
      demo="""#include "utl/thread_pool.h"
#include <algorithm>
unsigned std::thread::hardware_concurrency() noexcept { return 8; }
int main() {
  utl::thread_pool p;
  std::atomic<int> bad{0};
  auto const end = std::chrono::steady_clock::now() + std::chrono::seconds{25};
  for (int r = 0; r < 400000 && bad == 0 && std::chrono::steady_clock::now() < end; ++r) {
    p.execute(16, [&](size_t i) { if (i >= 16) { ++bad; } });
  }
  return bad == 0 ? 0 : 1;
}
"""),
 dict(id="s34-pool-nested-last", prop="C21",
      edits=[("include/utl/thread_pool.h", "      verify(threads_active_ == 0,", "      verify(threads_active_ == 0 || counter_ >= job_count_,")],
      needs="a nested execute by a job that runs when all jobs are claimed", breaks="the nested execute does not throw and waits for itself",
      demo="""#include "utl/thread_pool.h"
#include <algorithm>
#include <unistd.h>
int main() {
  alarm(20);
  utl::thread_pool p;
  std::atomic<int> threw{0};
  p.execute(1, [&](size_t) { std::this_thread::sleep_for(std::chrono::milliseconds{50}); try { p.execute(1, [](size_t) {}); } catch (std::exception const&) { ++threw; } });
  return threw == 1 ? 0 : 1;
}
"""),

 dict(id="s35-monotonic-once", prop="C19", srcs="src/progress_tracker.cc",
      edits=[("src/progress_tracker.cc", "  while (old_in < new_in && !in_.compare_exchange_weak(old_in, new_in)) {\n    ;\n  }", "  if (old_in < new_in) {\n    in_.compare_exchange_strong(old_in, new_in);\n  }")],
      needs="another thread changes the input between the read and the exchange of the thread that brings the highest input", breaks="the highest input is lost",
      demo="""#include <thread>
#include <vector>
#include <chrono>
#include "utl/progress_tracker.h"
int main() {
  auto const end = std::chrono::steady_clock::now() + std::chrono::seconds{25};
  for (int r = 0; r < 3000 && std::chrono::steady_clock::now() < end; ++r) {
    utl::progress_tracker t{[](utl::progress_tracker const&) {}};
    t.in_high(100000);
    std::atomic<int> ready{0};
    std::vector<std::thread> ts;
    for (size_t i = 0; i < 4; ++i) {
      ts.emplace_back([&, i] {
        ++ready;
        while (ready < 4) {}
        for (size_t j = 0; j < 100; ++j) { t.update_monotonic(j * 4 + i); if (t.in_ < j * 4 + i) { t.in_ = 1000000; } }
      });
    }
    for (auto& x : ts) { x.join(); }
    if (t.in_ != 399) { return 1; }
  }
  return 0;
}
"""),
 dict(id="s36-step-checked-late", prop="C19", srcs="src/progress_tracker.cc",
      edits=[("src/progress_tracker.cc", """  verify(out_mod > 0.F,
         "progress_tracker::set_bounds out_mod must be greater than zero");
  compare_and_update(bounds_changed_, tracker_->out_mod_, out_mod);
""", """  compare_and_update(bounds_changed_, tracker_->out_mod_, out_mod);
  verify(tracker_->out_mod_ > 0.F,
         "progress_tracker::set_bounds out_mod must be greater than zero");
""")],
      needs="an invalid step whose exception is caught, and a use of the tracker after it", breaks="the invalid step is kept",
      demo="""#include "utl/progress_tracker.h"
int main() {
  utl::progress_tracker t{[](utl::progress_tracker const&) {}};
  try { t.out_mod(-1.F); return 2; } catch (std::exception const&) {}
  return t.out_mod_ == 1.F ? 0 : 1;
}
"""),
 dict(id="s37-restart-after-unlock", prop="C19", srcs="src/progress_tracker.cc",
      edits=[("src/progress_tracker.cc", """    if (bounds_changed_) {
      tracker_->in_ = 0ULL;
      tracker_->out_ = tracker_->out_low_;
    }
    lock_.unlock();
""", """    lock_.unlock();
    if (bounds_changed_) {
      tracker_->in_ = 0ULL;
      tracker_->out_ = tracker_->out_low_;
    }
""")],
      needs="two threads that change bounds at the same time, one of them between the other's unlock and its restart", breaks="the output does not restart at the lower bound that is in force, and the bounds are read without the lock",
      demo="""#include <thread>
#include <vector>
#include "utl/progress_tracker.h"
int main() {
  for (int r = 0; r < 20; ++r) {
    utl::progress_tracker t{[](utl::progress_tracker const&) {}};
    std::vector<std::thread> ts;
    for (int i = 0; i < 4; ++i) {
      ts.emplace_back([&, i] { for (int j = 0; j < 300; ++j) { t.out_bounds(static_cast<float>((i + j) % 7), 100.F); } });
    }
    for (auto& x : ts) { x.join(); }
    if (t.out_ != t.out_low_) { return 1; }
  }
  return 0;
}
""", flags="-fsanitize=thread"),
 dict(id="s38-active-or-not-set", prop="C22", srcs="src/progress_tracker.cc",
      edits=[("src/progress_tracker.cc", """    auto tracker = get_tracker_unsafe(global, name);
    global.active_tracker_ = tracker;
    return tracker;
  }
""", """    return get_tracker_unsafe(global, name);
  }
""")],
      needs="asking for the active tracker twice with different names", breaks="the tracker activated by the first call is not the active one",
      demo="""#include "utl/progress_tracker.h"
int main() {
  auto const a = utl::get_active_progress_tracker_or_activate("a");
  return utl::get_active_progress_tracker_or_activate("b") == a ? 0 : 1;
}
"""),
 dict(id="s39-bars-silence-again", prop="C22", srcs="src/progress_tracker.cc",
      edits=[("src/progress_tracker.cc", "  gp.silent_ = old_silent_;\n", "  gp.silent_ = true;\n")],
      needs="nested progress bars", breaks="the end of the inner bars silences the outer ones",
      demo="""#include "utl/progress_tracker.h"
int main() {
  utl::global_progress_bars a{false};
  { utl::global_progress_bars b{true}; }
  return utl::get_global_progress_trackers().silent_ ? 1 : 0;
}
"""),
 dict(id="s40-clear-keeps-active", prop="C22", srcs="src/progress_tracker.cc",
      edits=[("src/progress_tracker.cc", "  last_print_height_ = 0U;\n  active_tracker_ = nullptr;\n", "  last_print_height_ = 0U;\n  if (trackers_.size() > 1U) {\n    active_tracker_ = nullptr;\n  }\n")],
      needs="clear, then asking for the active tracker", breaks="a tracker that is no longer registered stays active",
      demo="""#include "utl/progress_tracker.h"
int main() {
  auto const a = utl::activate_progress_tracker("a");
  utl::get_global_progress_trackers().clear();
  return utl::get_active_progress_tracker_or_activate("a") == a ? 1 : 0;
}
"""),

 dict(id="s59-print-height-grows", prop="C29", srcs="src/progress_tracker.cc",
      edits=[("src/progress_tracker.cc", "  last_print_height_ = trackers_.size();\n", "  last_print_height_ =\n      std::max(last_print_height_, static_cast<unsigned>(trackers_.size()));\n")],
      needs="a print after the registry has lost trackers without clear (or after clear of a registry printed from another height)", breaks="the cursor goes up by more lines than were printed last and overwrites other output",
      demo="""#include <iostream>
#include <sstream>
#include "utl/progress_tracker.h"
int main() {
  auto& g = utl::get_global_progress_trackers();
  g.silent_ = false;
  std::stringstream s;
  auto const old = std::cout.rdbuf(s.rdbuf());
  g.get_tracker("a");
  g.get_tracker("b");
  g.print();
  g.trackers_.erase("a");
  g.print();
  g.print();
  std::cout.rdbuf(old);
  return g.last_print_height_ == 1U && s.str().find("\\x1b[1A") != std::string::npos ? 0 : 1;
}
"""),
 dict(id="s60-print-rounds-up", prop="C29", srcs="src/progress_tracker.cc",
      edits=[("src/progress_tracker.cc", """      fmt::print(std::cout, " ] {:>3}%", static_cast<int>(t->out_));
""", """      fmt::print(std::cout, " ] {:>3}%",
                 static_cast<int>(std::round(t->out_)));
""")],
      needs="an output with a fractional part of one half or more", breaks="100% is shown although the output is still below 100",
      demo="""#include <iostream>
#include <sstream>
#include "utl/progress_tracker.h"
int main() {
  utl::global_progress_trackers g;
  g.silent_ = false;
  g.get_tracker("a")->out_ = 99.7F;
  std::stringstream s;
  auto const old = std::cout.rdbuf(s.rdbuf());
  g.print();
  std::cout.rdbuf(old);
  return s.str().find(" 99%") != std::string::npos ? 0 : 1;
}
"""),

 dict(id="s61-groups-drift", prop="C11",
      edits=[("include/utl/equal_ranges_linear.h", """    while (upper != end && eq(*lower, *upper)) {
      ++upper;
    }
""", """    auto last = lower;
    while (upper != end && eq(*last, *upper)) {
      last = upper;
      ++upper;
    }
""")],
      needs="an equality that is not transitive (such as a distance below a limit)", breaks="the elements of a group are not equal to its first one",
      demo="""#include <cstdlib>
#include <vector>
#include "utl/equal_ranges_linear.h"
int main() {
  std::vector<int> v{0, 1, 2, 3, 4};
  auto groups = 0;
  auto ok = true;
  utl::equal_ranges_linear(
      v, [](int a, int b) { return std::abs(a - b) < 2; },
      [&](auto a, auto b) {
        ++groups;
        for (auto i = a; i != b; ++i) {
          ok = ok && std::abs(*i - *a) < 2;
        }
      });
  return ok && groups == 3 ? 0 : 1;
}
"""),

 dict(id="s41-generator-exception-late", prop="C23",
      edits=[("include/utl/generator.h", """      if (h_.promise().exception_) {
        std::rethrow_exception(h_.promise().exception_);
      }
      full_ = true;
""", """      full_ = true;
      if (!h_.done() && h_.promise().exception_) {
        std::rethrow_exception(h_.promise().exception_);
      }
""")],
      needs="a coroutine that ends with an exception", breaks="the exception is swallowed, the generator just looks exhausted",
      demo="""#include <concepts>
#include <stdexcept>
#include <utility>
#include <vector>
#include "utl/generator.h"
utl::generator<int> g() {
  co_yield 1;
  throw std::runtime_error{"x"};
}
int main() {
  auto x = g();
  try { x.to_vec(); } catch (std::runtime_error const&) { return 0; }
  return 1;
}
"""),
 dict(id="s42-to-vec-drops", prop="C23",
      edits=[("include/utl/generator.h", """    auto v = std::vector<T>{};
    while ((*this)) {
      v.emplace_back((*this)());
    }
""", """    auto v = std::vector<T>{};
    for (full_ = false; (*this);) {
      v.emplace_back((*this)());
    }
""")],
      needs="asking whether there is a value before collecting all in a vector", breaks="the value that was fetched already is dropped",
      demo="""#include <concepts>
#include <stdexcept>
#include <utility>
#include <vector>
#include "utl/generator.h"
utl::generator<int> g() {
  co_yield 1;
  co_yield 2;
}
int main() {
  auto x = g();
  return static_cast<bool>(x) && x.to_vec().size() == 2U ? 0 : 1;
}
"""),
 dict(id="s43-flag-first-wins", prop="C24", stubs=True,
      edits=[("include/utl/cmd_line_parser.h", """        if (s == f.long_) {
          found =""", """        if (!found && s == f.long_) {
          found =""")],
      needs="a long flag given twice", breaks="the first occurrence wins for long forms, the last one for short forms",
      demo="""#include "utl/cmd_line_parser.h"
struct cfg { utl::cmd_line_flag<int, UTL_LONG("--n"), UTL_DESC("n")> n_; };
int main() {
  char const* a[] = {"x", "--n", "1", "--n", "2"};
  return utl::parse_flags<cfg>(5, a).n_.val() == 2 ? 0 : 1;
}
"""),
 dict(id="s44-flag-at-end", prop="C24", stubs=True,
      edits=[("include/utl/cmd_line_parser.h", """        if (s == f.long_) {
          found = parse_flag(f.val(), i >= argc - 1 ? nullptr : argv[i + 1]);""", """        if (s == f.long_) {
          found = i < argc - 1 && parse_flag(f.val(), argv[i + 1]);""")],
      needs="a boolean flag as the last argument", breaks="the flag is not seen",
      demo="""#include "utl/cmd_line_parser.h"
struct cfg { utl::cmd_line_flag<bool, UTL_LONG("--n"), UTL_DESC("n")> n_; };
int main() {
  char const* a[] = {"x", "--n"};
  return utl::parse_flags<cfg>(2, a).n_.val() ? 0 : 1;
}
"""),
 dict(id="s45-sign-bit", prop="C25",
      edits=[("include/utl/for_each_bit_set.h", "(levels & (T{1U} << bit)) != 0U", "(levels & (T{1U} << bit)) > T{0U}")],
      needs="a signed 32 or 64 bit value whose sign bit is set", breaks="the sign bit is not reported",
      demo="""#include <cstdint>
#include "utl/for_each_bit_set.h"
int main() { return utl::has_bit_set(std::int64_t{-1}, 63U) ? 0 : 1; }
"""),
 dict(id="s46-bits-rest", prop="C25",
      edits=[("include/utl/for_each_bit_set.h", "  for (auto bit = 0U; bit != sizeof(T) * 8U; ++bit) {\n", "  auto const rest = static_cast<unsigned>(levels);\n  for (auto bit = 0U; bit != sizeof(T) * 8U && (bit >= 32U || (rest >> bit) != 0U || bit + 8U > sizeof(T) * 8U); ++bit) {\n")],
      needs="a 64 bit value with bits only in its upper half", breaks="the enumeration stops early",
      demo="""#include <cstdint>
#include "utl/for_each_bit_set.h"
int main() {
  int n = 0;
  utl::for_each_set_bit(std::uint64_t{1} << 40U, [&](unsigned) { ++n; });
  return n == 1 ? 0 : 1;
}
"""),
 dict(id="s47-facade-unsigned-minus", prop="C26",
      edits=[("include/utl/iterator_facade.h", "return self + -static_cast<signed_diff_type>(off);", "return self + static_cast<signed_diff_type>(-off);")],
      needs="subtracting an unsigned distance narrower than the difference type", breaks="the distance is negated as unsigned: the iterator moves forward by 2^32 - n",
      demo="""#include <cstdint>
#include <iterator>
#include <memory>
#include <type_traits>
#include "utl/iterator_facade.h"
struct it : utl::iterator_facade<it> {
  using difference_type = std::int64_t;
  std::int64_t const& dereference() const { return p_; }
  std::int64_t distance_to(it const& o) const { return o.p_ - p_; }
  void advance(std::int64_t const n) { p_ += n; }
  std::int64_t p_{0};
};
int main() {
  it i;
  i.p_ = 10;
  auto const j = i - 3U;
  return j.p_ == 7 ? 0 : 1;
}
"""),
 dict(id="s48-facade-wrapped-distance", prop="C26",
      edits=[("include/utl/iterator_facade.h", "return other.wrapped_iterator - wrapped_iterator;", "return wrapped_iterator - other.wrapped_iterator;")],
      needs="difference or order of two wrapped random access iterators", breaks="differences have the wrong sign",
      demo="""#include <cstdint>
#include <iterator>
#include <memory>
#include <type_traits>
#include "utl/iterator_facade.h"
struct it : utl::iterator_wrapper_facade<it, int*> {
  using base = utl::iterator_wrapper_facade<it, int*>;
  using base::base;
};
int main() {
  int a[5] = {};
  it x{a}, y{a + 3};
  return y - x == 3 && x < y ? 0 : 1;
}
"""),
 dict(id="s49-match-last", prop="C27",
      edits=[("include/utl/match.h", """      casted != nullptr) {
    return f(casted);
  } else {
    throw""", """      casted != nullptr || p != nullptr) {
    return f(casted);
  } else {
    throw""")],
      needs="an object of none of the classes asked for", breaks="the last function is called with a null pointer",
      demo="""#include <utility>
#include "utl/match.h"
struct b { virtual ~b() = default; };
struct x : b {};
struct y : b {};
int main() {
  y o;
  b* p = &o;
  try {
    utl::match(p, [](x* v) { return v == nullptr ? 1 : 2; });
  } catch (std::runtime_error const&) {
    return 0;
  }
  return 1;
}
"""),
 dict(id="s50-init-fields", prop="C27", stubs=True,
      edits=[("include/utl/init_from.h", "return std::tie(p1, p2, p3, p4, p5, p6, p7, p8, p9, p10, p11, p12);", "return std::tie(p1, p2, p3, p4, p5, p6, p7, p8, p10, p9, p11, p12);")],
      needs="a source of twelve fields, two of the same type in the ninth and tenth place", breaks="the later one is picked",
      demo="""#include <memory>
#include "utl/init_from.h"
struct s { char a, b, c, d, e, f, g, h; int i, j; char k, l; };
struct t { int& i; };
int main() {
  s x{};
  auto const y = utl::init_from<t>(x);
  return y.has_value() && &y->i == &x.i ? 0 : 1;
}
"""),
 dict(id="s51-init-null", prop="C27", stubs=True,
      edits=[("include/utl/init_from.h", "(s) && ...)) {", "(s) || ...)) {")],
      needs="two references to pointees, one of them missing", breaks="a reference is bound to a null pointee",
      demo="""#include <memory>
#include "utl/init_from.h"
struct s { std::unique_ptr<int> a; std::unique_ptr<float> b; };
struct t { int& i; float& f; };
int main() {
  s x{std::make_unique<int>(1), nullptr};
  return utl::init_from<t>(x).has_value() ? 1 : 0;
}
"""),
 dict(id="s52-fp-sign-rest", prop="C04", stubs=True,
      edits=[("include/utl/parser/arg_parser.h", """  if (*s.str != '.') {
    v *= sign;
    return false;""", """  if (*s.str != '.') {
    return false;""")],
      needs="a negative number without fraction which is followed by something else", breaks="the sign is lost",
      demo="""#include "utl/parser/arg_parser.h"
int main() { return utl::parse<double>("-12 km") == -12.0 && utl::parse<double>("-12") == -12.0 ? 0 : 1; }
"""),
 dict(id="s53-fail-message-elsewhere", prop="C18",
      edits=[("include/utl/verify.h", "  fmt::print(std::clog, fmt::runtime(msg), std::forward<FmtArgs>(args)...);\n", "  fmt::print(std::cerr, fmt::runtime(msg), std::forward<FmtArgs>(args)...);\n")],
      needs="a log stream which does not end up where the error stream does", breaks="the log has the time of the failure but not what failed",
      demo="""#define FMT_HEADER_ONLY
#include <sstream>
#include "utl/verify.h"
int main() {
  std::ostringstream o;
  auto* const old = std::clog.rdbuf(o.rdbuf());
  auto const e = utl::fail("{} is not {}", 1, 2);
  std::clog.rdbuf(old);
  return o.str().find("1 is not 2") != std::string::npos && std::string{e.what()} == "1 is not 2" ? 0 : 1;
}
"""),
 dict(id="s54-log-local-time", prop="C28",
      edits=[("include/utl/logging.h", "#define gmt(a, b) gmtime_r(a, b)", "#define gmt(a, b) localtime_r(a, b)")],
      needs="a time zone other than UTC", breaks="lines tell the local time as if it were UTC",
      demo="""#include <cstdlib>
#include "utl/logging.h"
int main() {
  setenv("TZ", "XYZ-05:30", 1);
  tzset();
  return utl::time(0).substr(0, 20) == "1970-01-01T00:00:00Z" ? 0 : 1;
}
"""),
 dict(id="s55-enum-short-name", prop="C28",
      edits=[("include/utl/printable_enum.h", "std::find(std::next(c), end(s), ',')", "std::find(std::next(c, 2), end(s), ',')")],
      needs="an enumerator with a name of one character which is not the last one", breaks="the name of the next enumerator is added",
      demo="""#include "utl/printable_enum.h"
PRINTABLE_ENUM(axis, x, up, down)
int main() { return as_string(axis::x) == "x" && as_string(axis::up) == "up" && as_string(axis::down) == "down" ? 0 : 1; }
"""),
 dict(id="s56-timer-whole-ms", prop="C28", srcs="src/timer.cc",
      edits=[("src/timer.cc", """void manual_timer::stop_and_print() const {
  using namespace std::chrono;
  auto stop = steady_clock::now();
  double t =
      static_cast<double>(duration_cast<microseconds>(stop - start_).count()) /
      1000.0;""", """void manual_timer::stop_and_print() const {
  using namespace std::chrono;
  auto stop = steady_clock::now();
  double t =
      static_cast<double>(duration_cast<milliseconds>(stop - start_).count());""")],
      needs="less than a millisecond or a time which is not close to whole milliseconds", breaks="the time is cut to whole milliseconds",
      demo="""#include <iostream>
#include <sstream>
#include "utl/timer.h"
int main() {
  std::ostringstream o;
  auto* const old = std::clog.rdbuf(o.rdbuf());
  for (auto i = 0; i != 50; ++i) {
    utl::manual_timer const t{"x"};
    t.stop_and_print();
  }
  std::clog.rdbuf(old);
  auto whole = 0, all = 0;
  std::istringstream in{o.str()};
  for (std::string l; std::getline(in, l);) {
    auto const p = l.find("finished (");
    if (p == std::string::npos) { continue; }
    ++all;
    auto const v = std::stod(l.substr(p + 10));
    whole += v == static_cast<double>(static_cast<long>(v)) ? 1 : 0;
  }
  return all == 50 && whole < 50 ? 0 : 1;
}
"""),
 dict(id="s57-literal-character", prop="C28",
      edits=[("include/utl/const_str.h", "((TERMINATED_17(str)) ? (str[17]) : ('\\0'))", "((TERMINATED_17(str)) ? (str[16]) : ('\\0'))")],
      needs="a literal of at least 18 characters", breaks="its 18th character is the one before",
      demo="""#include <cstring>
#include "utl/const_str.h"
int main() { return std::strcmp(STRING_LITERAL("abcdefghijklmnopqrst"), "abcdefghijklmnopqrst"); }
"""),
 dict(id="s58-text-flag-assigned-once", prop="C24",
      edits=[("include/utl/cmd_line_parser.h", "    } else if (next_arg) {\n", "    } else if (next_arg && next_arg.len > 1U) {\n")],
      needs="a flag whose value is a single character long, given after another occurrence (or alone)", breaks="a value of one character is taken for no value",
      stubs=True, demo="""#include "utl/cmd_line_parser.h"
using namespace utl;
struct c { cmd_line_flag<std::string, UTL_LONG("--name"), UTL_DESC("n")> n_; };
int main() {
  char const* v[] = {"p", "--name", "abc", "--name", "x"};
  return parse_flags<c>(5, v).n_.val() == "x" ? 0 : 1;
}
"""),
]
