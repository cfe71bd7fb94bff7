#pragma once
// Stand-in for the one class of the (absent) cista dependency that utl's
// parsers mention.  Not verified; only its interface matters here.
#include <string>
#include <string_view>
namespace cista::raw {
struct generic_string {
  void set_non_owning(char const* s, unsigned n) { s_.assign(s, n); }
  operator std::string_view() const { return s_; }
  std::size_t size() const { return s_.size(); }
  char operator[](std::size_t i) const { return s_[i]; }
  void erase(unsigned pos, unsigned n) { s_.erase(pos, n); }
  std::string s_;
};
}  // namespace cista::raw
