// Searches of the standard library over random access iterators, as plain loops.
// libstdc++ unrolls std::find_if four times; its behaviour is that of the loop below, which
// is what the standard says (the first position whose element fits, else the end).  Being the
// more constrained overload of the internal function, it is the one that std::find, find_if,
// find_if_not, any_of, all_of, none_of and remove_if use.
#pragma once
#include <bits/c++config.h>
#include <bits/stl_iterator_base_types.h>
namespace std {
template <typename It, typename Pred>
  requires true
constexpr It __find_if(It first, It last, Pred pred, random_access_iterator_tag) {
  while (first != last && !pred(first)) {
    ++first;
  }
  return first;
}
}  // namespace std
