From e35602e9d6b7aa308e3b94cfc97cfa8dc2418b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:02 +0000
Subject: [PATCH 01/35] fix: cstr::operator== compares all bytes, also behind
 an embedded NUL

strncmp stops at the first NUL both views share, so views that differ
behind it compared equal.
---
 include/utl/parser/cstr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utl/parser/cstr.h b/include/utl/parser/cstr.h
index 2691fb8..4b43c6b 100755
--- a/include/utl/parser/cstr.h
+++ b/include/utl/parser/cstr.h
@@ -58,7 +58,7 @@ struct cstr {
     } else if (len == 0) {
       return true;
     } else {
-      return strncmp(str, s.str, len) == 0;
+      return std::memcmp(str, s.str, len) == 0;
     }
   }
   bool operator!=(cstr const& s) const { return !operator==(s); }
-- 
2.43.0


From 2144e405fa9e5bcf6a50e910db5309a6e1e2fd51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:02 +0000
Subject: [PATCH 02/35] fix: skip_lines advances past the whole line, including
 a carriage return

The length of the CR-stripped line was used to advance, so every skipped
CRLF line left its line feed behind as a spurious empty line.
---
 include/utl/parser/cstr.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/utl/parser/cstr.h b/include/utl/parser/cstr.h
index 4b43c6b..b900ae2 100755
--- a/include/utl/parser/cstr.h
+++ b/include/utl/parser/cstr.h
@@ -271,8 +271,8 @@ void for_each_line_numbered(cstr s, Function&& f) {
 template <typename Predicate>
 cstr skip_lines(cstr file_content, Predicate skip) {
   while (file_content.len > 0) {
-    cstr line = get_line(file_content);
-    if (!skip(line)) {
+    cstr line = get_until(file_content, '\n');
+    if (!skip(strip_cr(line))) {
       break;
     }
     file_content += line.len;
-- 
2.43.0


From 401d469c8bf8322c6f248ead665b13117e7e4118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:41 +0000
Subject: [PATCH 03/35] fix: parsing a path takes only the bytes of the view

The view is not NUL terminated; the path ran on behind its end.
---
 include/utl/parser/arg_parser.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utl/parser/arg_parser.h b/include/utl/parser/arg_parser.h
index d50755a..bc61ae9 100644
--- a/include/utl/parser/arg_parser.h
+++ b/include/utl/parser/arg_parser.h
@@ -135,7 +135,7 @@ inline void parse_arg(cstr& s, cista::raw::generic_string& arg) {
   arg.set_non_owning(s.str, static_cast<unsigned>(s.len));
 }
 
-inline void parse_arg(cstr& s, std::filesystem::path& arg) { arg = s.str; }
+inline void parse_arg(cstr& s, std::filesystem::path& arg) { arg = s.view(); }
 
 template <typename T>
 inline T parse(cstr s) {
-- 
2.43.0


From 4ee2030938dd542621e5b6b47575051b671ca9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:41 +0000
Subject: [PATCH 04/35] fix: integer parsing without signed overflow

The smallest value of a signed type (-2147483648) and out of range digits
overflowed while the digits were accumulated with the sign applied last.
---
 include/utl/parser/arg_parser.h | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/utl/parser/arg_parser.h b/include/utl/parser/arg_parser.h
index bc61ae9..b4a63be 100644
--- a/include/utl/parser/arg_parser.h
+++ b/include/utl/parser/arg_parser.h
@@ -16,10 +16,13 @@ inline bool parse_arg(
     cstr& s, IntType& arg,
     typename std::enable_if<std::is_integral<IntType>::value, IntType>::type
         default_value = 0) {
-  IntType sign = 1;
+  // Accumulate unsigned: no signed overflow, also for the smallest value.
+  using unsigned_t = std::make_unsigned_t<IntType>;
+
+  auto negative = false;
   if constexpr (std::is_signed_v<IntType>) {
     if (s && s[0] == '-') {
-      sign = -1;
+      negative = true;
       ++s;
     }
   }
@@ -28,14 +31,15 @@ inline bool parse_arg(
     ++s;
   }
 
-  arg = 0;
+  auto value = unsigned_t{0U};
   bool value_okay = false;
   while (s) {
     char c = *s.str;
     if (c > '9' || c < '0') {
       break;
     }
-    arg = arg * 10 + static_cast<IntType>(c - '0');
+    value = static_cast<unsigned_t>(value * 10U +
+                                    static_cast<unsigned_t>(c - '0'));
     value_okay = true;
     ++s;
   }
@@ -43,7 +47,8 @@ inline bool parse_arg(
   if (!value_okay) {
     arg = default_value;
   } else {
-    arg *= sign;
+    arg = static_cast<IntType>(
+        negative ? static_cast<unsigned_t>(0U - value) : value);
   }
 
   return value_okay && s.empty();
-- 
2.43.0


From 3f64d8a8ca5461dfca777e36e125b5c792f68964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:08 +0000
Subject: [PATCH 05/35] fix: CSV columns keep their content when the closing
 quote is missing

The column length was derived from the read position minus one for the
quote and one for a carriage return.  Without a closing quote the last
character was lost, and for a lone quote (also before CR) the length wrapped
around to a view over all of memory.
---
 include/utl/parser/csv.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/utl/parser/csv.h b/include/utl/parser/csv.h
index 9968734..57979e2 100644
--- a/include/utl/parser/csv.h
+++ b/include/utl/parser/csv.h
@@ -27,13 +27,14 @@ inline void parse_column(cstr& s, T& arg) {
   }
 
   auto begin = s;
-  int adjust_for_cr = 0;
+  auto content_end = s.str;
   while (s) {
     char c = *s.str;
 
     // Skip escaped end character ("")
     if (end != Separator && c == end && s.len >= 2 && s.str[1] == end) {
       s += 2;
+      content_end = s.str;
       continue;
     }
 
@@ -41,18 +42,16 @@ inline void parse_column(cstr& s, T& arg) {
       if ((end == '"' && s.len != 0) || (c == '\r' && s.len != 0)) {
         ++s;
       }
-      adjust_for_cr = (c == '\r') ? -1 : 0;
       break;
     }
 
     if (s) {
       ++s;
     }
+    content_end = s.str;
   }
 
-  int adjust_for_quote = (end == '"') ? -1 : 0;
-  arg.assign(begin.str, static_cast<size_t>((s.str - begin.str) +
-                                            adjust_for_quote + adjust_for_cr));
+  arg.assign(begin.str, static_cast<size_t>(content_end - begin.str));
 }
 
 template <typename StringType>
-- 
2.43.0


From a035126e0e74e82a7568fa0e212542b188cb1baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:57 +0000
Subject: [PATCH 06/35] fix: the distance of enumerate iterators counts
 elements, also to the end

---
 include/utl/enumerate.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/utl/enumerate.h b/include/utl/enumerate.h
index c87b7cc..ec56e2a 100644
--- a/include/utl/enumerate.h
+++ b/include/utl/enumerate.h
@@ -20,7 +20,12 @@ struct iterator {
   using pointer = std::add_pointer_t<value_type>;
 
   difference_type operator-(iterator const& o) const {
-    return static_cast<std::ptrdiff_t>(i_) - static_cast<std::ptrdiff_t>(o.i_);
+    if constexpr (std::random_access_iterator<It>) {
+      return iter_ - o.iter_;  // the end iterator does not carry its index
+    } else {
+      return static_cast<std::ptrdiff_t>(i_) -
+             static_cast<std::ptrdiff_t>(o.i_);
+    }
   }
 
   bool operator!=(iterator const& o) const { return iter_ != o.iter_; }
-- 
2.43.0


From 95d38e53c396f2e5d46ddb642c8f28ed27092e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:58 +0000
Subject: [PATCH 07/35] fix: postfix increment and decrement of enumerate
 iterators compile

---
 include/utl/enumerate.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/utl/enumerate.h b/include/utl/enumerate.h
index ec56e2a..5d1202f 100644
--- a/include/utl/enumerate.h
+++ b/include/utl/enumerate.h
@@ -42,13 +42,13 @@ struct iterator {
     --iter_;
   }
 
-  iterator operator++(int) const {
+  iterator operator++(int) {
     auto tmp = *this;
     ++(*this);
     return tmp;
   }
 
-  iterator operator--(int) const
+  iterator operator--(int)
     requires(std::bidirectional_iterator<It>)
   {
     auto tmp = *this;
-- 
2.43.0


From 996695bcfdd10c5369b9bc18460894003277fa0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:29 +0000
Subject: [PATCH 08/35] fix: is_uniform neither modifies the range nor reads
 past an empty one

---
 include/utl/is_uniform.h | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/include/utl/is_uniform.h b/include/utl/is_uniform.h
index a4e58be..ba8cbcf 100644
--- a/include/utl/is_uniform.h
+++ b/include/utl/is_uniform.h
@@ -7,24 +7,30 @@ namespace utl {
 
 template <typename It1, typename It2, typename Predicate>
 bool is_uniform(It1&& it1, It2&& it2, Predicate&& fn) {
-  auto& pred = *it1;
-  for (auto it = ++it1; it != it2; ++it) {
-    if (fn(*it) != fn(pred)) {
+  if (it1 == it2) {
+    return true;
+  }
+  auto pred = it1;
+  for (auto it = std::next(pred); it != it2; ++it) {
+    if (fn(*it) != fn(*pred)) {
       return false;
     }
-    pred = *it;
+    pred = it;
   }
   return true;
 }
 
 template <typename It1, typename It2>
 bool is_uniform(It1&& it1, It2&& it2) {
-  auto& pred = *it1;
-  for (auto it = ++it1; it != it2; ++it) {
-    if (*it != pred) {
+  if (it1 == it2) {
+    return true;
+  }
+  auto pred = it1;
+  for (auto it = std::next(pred); it != it2; ++it) {
+    if (*it != *pred) {
       return false;
     }
-    pred = *it;
+    pred = it;
   }
   return true;
 }
-- 
2.43.0


From eab98d5ce0a8920bad0e40cc1c93ed733a44abec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:30 +0000
Subject: [PATCH 09/35] fix: is_uniform with a predicate on a collection is
 callable

---
 include/utl/is_uniform.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/utl/is_uniform.h b/include/utl/is_uniform.h
index ba8cbcf..ea64a84 100644
--- a/include/utl/is_uniform.h
+++ b/include/utl/is_uniform.h
@@ -43,8 +43,9 @@ bool is_uniform(Collection&& c) {
 }
 
 template <typename Collection, typename Predicate>
-std::enable_if_t<std::is_function_v<Predicate>, bool> is_uniform(
-    Collection&& c, Predicate&& fn) {
+  requires std::invocable<Predicate,
+                          decltype(*std::begin(std::declval<Collection&>()))>
+bool is_uniform(Collection&& c, Predicate&& fn) {
   using std::begin;
   using std::end;
   return is_uniform(begin(c), end(c), std::forward<Predicate&&>(fn));
-- 
2.43.0


From f1c654040808f2c9a9ac88b9950d3eb08f8d23c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:53 +0000
Subject: [PATCH 10/35] fix: make_range does not return a reference to a
 temporary

---
 include/utl/pipes/make_range.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/utl/pipes/make_range.h b/include/utl/pipes/make_range.h
index 02aa10e..b45dbe9 100644
--- a/include/utl/pipes/make_range.h
+++ b/include/utl/pipes/make_range.h
@@ -10,10 +10,10 @@
 namespace utl {
 
 template <typename T>
-auto&& make_range(T&& t) {
+decltype(auto) make_range(T&& t) {
   using Type = std::remove_const_t<std::remove_reference_t<T>>;
   if constexpr (is_range<Type>::value) {
-    return t;
+    return static_cast<T&&>(t);
   } else if constexpr (std::is_pointer_v<Type>) {
     return all(*t);
   } else {
-- 
2.43.0


From 20a6c09cbae0addf5b85474e3021296aa8d52b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:53 +0000
Subject: [PATCH 11/35] fix: take_while stops at the end of the range

---
 include/utl/pipes/take_while.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utl/pipes/take_while.h b/include/utl/pipes/take_while.h
index ca02a27..6a7bffb 100644
--- a/include/utl/pipes/take_while.h
+++ b/include/utl/pipes/take_while.h
@@ -18,7 +18,7 @@ struct take_while_range : public clear_t<Range> {
 
   template <typename It>
   bool valid(It& it) {
-    return take_while_.fn_(this->read(it));
+    return parent_t::valid(it) && take_while_.fn_(this->read(it));
   }
 
   TakeWhile take_while_;
-- 
2.43.0


From 8f71d4015e1541a327f0a61eaad6cc719e8d41cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:09 +0000
Subject: [PATCH 12/35] fix: piping a named range into unique, take_while or
 iterable leaves the range intact

---
 include/utl/pipes/iterable.h   | 2 +-
 include/utl/pipes/take_while.h | 2 +-
 include/utl/pipes/unique.h     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/utl/pipes/iterable.h b/include/utl/pipes/iterable.h
index 8baeabf..b52be78 100644
--- a/include/utl/pipes/iterable.h
+++ b/include/utl/pipes/iterable.h
@@ -30,7 +30,7 @@ template <typename Range>
 struct iterable_range : public clear_t<Range> {
   using parent_t = clear_t<Range>;
   iterable_range() = default;
-  explicit iterable_range(Range&& r) : parent_t(std::forward<parent_t>(r)) {}
+  explicit iterable_range(Range&& r) : parent_t(std::forward<Range>(r)) {}
   auto begin() { return it{*this, parent_t::begin()}; }
   auto end() { return end_it{}; }
   friend auto begin(iterable_range const& r) { return r.begin(); }
diff --git a/include/utl/pipes/take_while.h b/include/utl/pipes/take_while.h
index 6a7bffb..bfe0090 100644
--- a/include/utl/pipes/take_while.h
+++ b/include/utl/pipes/take_while.h
@@ -13,7 +13,7 @@ struct take_while_range : public clear_t<Range> {
 
   template <typename R>
   take_while_range(R&& r, TakeWhile&& take_while)
-      : parent_t(std::forward<parent_t>(r)),
+      : parent_t(std::forward<R>(r)),
         take_while_(std::forward<TakeWhile>(take_while)) {}
 
   template <typename It>
diff --git a/include/utl/pipes/unique.h b/include/utl/pipes/unique.h
index 9a11954..487e67f 100755
--- a/include/utl/pipes/unique.h
+++ b/include/utl/pipes/unique.h
@@ -11,7 +11,7 @@ template <typename Range>
 struct unique_range : public clear_t<Range> {
   using parent_t = clear_t<Range>;
 
-  unique_range(Range&& r) : parent_t(std::forward<parent_t>(r)) {}
+  unique_range(Range&& r) : parent_t(std::forward<Range>(r)) {}
 
   template <typename It>
   void find(It& it) {
-- 
2.43.0


From 38e49f6b032a31d084d4852f559362df7b6874c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:15 +0000
Subject: [PATCH 13/35] fix: to_set on an iterator range compiles

---
 include/utl/to_set.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/utl/to_set.h b/include/utl/to_set.h
index 657bdee..73a1839 100644
--- a/include/utl/to_set.h
+++ b/include/utl/to_set.h
@@ -10,8 +10,8 @@ template <typename It, typename UnaryOperation>
 inline auto to_set(It b, It e,
                    UnaryOperation&& op) -> std::set<decltype(op(*b))> {
   using set = std::set<decltype(op(*b))>;
-  set s(std::distance(s, e));
-  std::transform(b, e, std::insert_iterator<set>(s), op);
+  set s;
+  std::transform(b, e, std::insert_iterator<set>(s, begin(s)), op);
   return s;
 }
 
-- 
2.43.0


From 4e30f5aa3f4d92054cba52d2a5c4dce0af00a32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:33 +0000
Subject: [PATCH 14/35] fix: an unterminated quoted CSV column no longer
 swallows the line break

---
 include/utl/parser/csv.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utl/parser/csv.h b/include/utl/parser/csv.h
index 57979e2..4209ea9 100644
--- a/include/utl/parser/csv.h
+++ b/include/utl/parser/csv.h
@@ -39,7 +39,7 @@ inline void parse_column(cstr& s, T& arg) {
     }
 
     if (c == end || c == '\r' || c == '\n' || s.len == 0) {
-      if ((end == '"' && s.len != 0) || (c == '\r' && s.len != 0)) {
+      if ((end == '"' && c == end) || (c == '\r' && s.len != 0)) {
         ++s;
       }
       break;
-- 
2.43.0


From 84b9853461d0d037ff9e00451632bb57618606b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:00 +0000
Subject: [PATCH 15/35] fix: a finally guard built from a moved-from guard no
 longer runs the action again

---
 include/utl/raii.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/utl/raii.h b/include/utl/raii.h
index 508333d..816c22a 100644
--- a/include/utl/raii.h
+++ b/include/utl/raii.h
@@ -49,7 +49,8 @@ struct finally {
   finally(finally const&) = delete;
   finally& operator=(finally const&) = delete;
 
-  finally(finally&& o) noexcept : destruct_{std::move(o.destruct_)} {
+  finally(finally&& o) noexcept
+      : exec_{o.exec_}, destruct_{std::move(o.destruct_)} {
     o.exec_ = false;
   }
 
-- 
2.43.0


From ccbc7be81a377ae17acbfa8fbd440e4efb4e3562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:00 +0000
Subject: [PATCH 16/35] fix: assigning a finally guard no longer loses an
 action

---
 include/utl/raii.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/utl/raii.h b/include/utl/raii.h
index 816c22a..15d4af4 100644
--- a/include/utl/raii.h
+++ b/include/utl/raii.h
@@ -55,8 +55,14 @@ struct finally {
   }
 
   finally& operator=(finally&& o) noexcept {
-    destruct_ = std::move(o.destruct_);
-    o.exec_ = false;
+    if (this != &o) {
+      if (exec_) {
+        destruct_();
+      }
+      exec_ = o.exec_;
+      destruct_ = std::move(o.destruct_);
+      o.exec_ = false;
+    }
     return *this;
   }
 
-- 
2.43.0


From 51f5e39fb7cf73e98b5434c41a603257a589ff78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:14 +0000
Subject: [PATCH 17/35] fix: shrinking a buffer to nothing no longer throws and
 leaves a dangling pointer

---
 include/utl/parser/buffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utl/parser/buffer.h b/include/utl/parser/buffer.h
index 7d1ba8a..6fac4e1 100644
--- a/include/utl/parser/buffer.h
+++ b/include/utl/parser/buffer.h
@@ -55,7 +55,7 @@ struct buffer final {
   inline unsigned char* end() { return data() + size_; }
 
   inline void resize(std::size_t new_size) {
-    if (void* tmp = std::realloc(buf_, new_size)) {
+    if (void* tmp = std::realloc(buf_, new_size == 0 ? 1 : new_size)) {
       buf_ = tmp;
       size_ = new_size;
     } else {
-- 
2.43.0


From f5ee6a99afc94e376f21f850f0551b8889cb6c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:14 +0000
Subject: [PATCH 18/35] fix: assigning a buffer frees the memory it held,
 assigning it to itself keeps it

---
 include/utl/parser/buffer.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/utl/parser/buffer.h b/include/utl/parser/buffer.h
index 6fac4e1..352a284 100644
--- a/include/utl/parser/buffer.h
+++ b/include/utl/parser/buffer.h
@@ -37,10 +37,13 @@ struct buffer final {
   }
 
   buffer& operator=(buffer&& o) noexcept {
-    buf_ = o.buf_;
-    size_ = o.size_;
-    o.buf_ = nullptr;
-    o.size_ = 0;
+    if (this != &o) {
+      std::free(buf_);
+      buf_ = o.buf_;
+      size_ = o.size_;
+      o.buf_ = nullptr;
+      o.size_ = 0;
+    }
     return *this;
   }
 
-- 
2.43.0


From 0d0ae596721151a41855169cb8792719b1a44f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:03 +0000
Subject: [PATCH 19/35] fix: assigning a memory-mapped reader releases the file
 and mapping it held

---
 include/utl/parser/mmap_reader_unix.h | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/include/utl/parser/mmap_reader_unix.h b/include/utl/parser/mmap_reader_unix.h
index abf6dd4..823bf8b 100644
--- a/include/utl/parser/mmap_reader_unix.h
+++ b/include/utl/parser/mmap_reader_unix.h
@@ -30,10 +30,15 @@ struct mmap_reader {
     }
 
     file& operator=(file&& o) noexcept {
-      fd_ = o.fd_;
-      size_ = o.size_;
-      o.fd_ = -1;
-      o.size_ = 0;
+      if (this != &o) {
+        if (fd_ != -1) {
+          close(fd_);
+        }
+        fd_ = o.fd_;
+        size_ = o.size_;
+        o.fd_ = -1;
+        o.size_ = 0;
+      }
       return *this;
     }
 
@@ -76,9 +81,14 @@ struct mmap_reader {
     }
 
     memory_map& operator=(memory_map&& o) noexcept {
-      f_ = std::move(o.f_);
-      fmap_ = o.fmap_;
-      o.fmap_ = nullptr;
+      if (this != &o) {
+        if (fmap_ != nullptr && fmap_ != MAP_FAILED) {  // NOLINT
+          munmap(fmap_, f_.size_);
+        }
+        f_ = std::move(o.f_);
+        fmap_ = o.fmap_;
+        o.fmap_ = nullptr;
+      }
       return *this;
     }
 
-- 
2.43.0


From 1bd52645b1d34b706ad1d7a57d8b1cad5ea31390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:45 +0000
Subject: [PATCH 20/35] fix: for_each_line_in_file.h includes what it uses

---
 include/utl/for_each_line_in_file.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/utl/for_each_line_in_file.h b/include/utl/for_each_line_in_file.h
index d2e7f0c..885f5b6 100755
--- a/include/utl/for_each_line_in_file.h
+++ b/include/utl/for_each_line_in_file.h
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <fstream>
+#include <iostream>
 #include <istream>
 #include <string>
 
-- 
2.43.0


From 3c2d496a4978ac96634d441549ca09e5c7d5ead9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:45 +0000
Subject: [PATCH 21/35] fix: a file can not be copied, which closed its handle
 twice

---
 include/utl/parser/file.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/utl/parser/file.h b/include/utl/parser/file.h
index 9be1e1a..e1be7e7 100644
--- a/include/utl/parser/file.h
+++ b/include/utl/parser/file.h
@@ -51,6 +51,9 @@ struct file {
            mode);
   }
 
+  file(file const&) = delete;
+  file& operator=(file const&) = delete;
+
   ~file() {
     if (f_ != nullptr) {
       CloseHandle(f_);
@@ -147,6 +150,9 @@ struct file {
     verify(f_ != nullptr, "unable to open file {} (mode={})", path, mode);
   }
 
+  file(file const&) = delete;
+  file& operator=(file const&) = delete;
+
   ~file() {
     if (f_ != nullptr) {
       fclose(f_);
-- 
2.43.0


From 17c3bcc1b2a1a9daaf4744b95e2d4bfaad7a1cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:33 +0000
Subject: [PATCH 22/35] fix: parallel_for: record the failed job's index in the
 list of errors

The threads recorded the loop variable that counts the threads, captured by
reference: a data race, a use after its lifetime, and not the index of the
job that threw.
---
 include/utl/parallel_for.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/utl/parallel_for.h b/include/utl/parallel_for.h
index 5d75804..0399baa 100644
--- a/include/utl/parallel_for.h
+++ b/include/utl/parallel_for.h
@@ -47,7 +47,7 @@ inline errors_t parallel_for_run_threadlocal(
           progress_update(idx);
         } catch (...) {
           std::lock_guard<std::mutex> lock{errors_mutex};
-          errors.emplace_back(std::pair{i, std::current_exception()});
+          errors.emplace_back(idx, std::current_exception());
           if (err_strat == parallel_error_strategy::QUIT_EXEC) {
             quit = true;
             break;
@@ -90,7 +90,7 @@ inline errors_t parallel_for_run(
           progress_update(idx);
         } catch (...) {
           std::lock_guard<std::mutex> lock{errors_mutex};
-          errors.emplace_back(std::pair{i, std::current_exception()});
+          errors.emplace_back(idx, std::current_exception());
           if (err_strat == parallel_error_strategy::QUIT_EXEC) {
             quit = true;
             break;
-- 
2.43.0


From 9f590ba28a35a6715b343efedf08830ce7b1bc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:34 +0000
Subject: [PATCH 23/35] fix: parallel_for, thread_pool: start a thread even if
 hardware_concurrency() is 0

It returns 0 when the number is not known: then no job ran at all and
thread_pool::execute waited forever.
---
 include/utl/parallel_for.h | 6 ++++--
 include/utl/thread_pool.h  | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/utl/parallel_for.h b/include/utl/parallel_for.h
index 0399baa..96dcc08 100644
--- a/include/utl/parallel_for.h
+++ b/include/utl/parallel_for.h
@@ -32,7 +32,8 @@ inline errors_t parallel_for_run_threadlocal(
   std::atomic<size_t> counter(0);
   std::atomic<bool> quit{false};
   std::vector<std::thread> threads;
-  for (auto i = 0u; i < std::thread::hardware_concurrency(); ++i) {
+  for (auto i = 0u; i < std::max(1U, std::thread::hardware_concurrency());
+       ++i) {
     threads.emplace_back([&]() {
       auto threadlocal = ThreadLocal{};
 
@@ -77,7 +78,8 @@ inline errors_t parallel_for_run(
   std::atomic<size_t> counter(0);
   std::atomic<bool> quit{false};
   std::vector<std::thread> threads;
-  for (auto i = 0u; i < std::thread::hardware_concurrency(); ++i) {
+  for (auto i = 0u; i < std::max(1U, std::thread::hardware_concurrency());
+       ++i) {
     threads.emplace_back([&]() {
       while (!quit) {
         auto const idx = counter.fetch_add(1);
diff --git a/include/utl/thread_pool.h b/include/utl/thread_pool.h
index dfaec53..4f3e32e 100644
--- a/include/utl/thread_pool.h
+++ b/include/utl/thread_pool.h
@@ -1,7 +1,8 @@
 #pragma once
 
-#include <condition_variable>
+#include <algorithm>
 #include <atomic>
+#include <condition_variable>
 #include <functional>
 #include <mutex>
 #include <thread>
@@ -21,7 +22,8 @@ struct thread_pool {
         stop_{false},
         job_count_{0},
         counter_{0} {
-    for (auto i = 0U; i < std::thread::hardware_concurrency(); ++i) {
+    for (auto i = 0U; i < std::max(1U, std::thread::hardware_concurrency());
+         ++i) {
       threads_.emplace_back([&, this] {
         initializer_();
         while (true) {
-- 
2.43.0


From 102a7d60d66372be2ad66ab0bcade79309f4390f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:35 +0000
Subject: [PATCH 24/35] fix: progress_tracker: an upper input bound of 0 does
 not give NaN as output

---
 src/progress_tracker.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/progress_tracker.cc b/src/progress_tracker.cc
index 33b2c59..d644122 100644
--- a/src/progress_tracker.cc
+++ b/src/progress_tracker.cc
@@ -120,8 +120,10 @@ void progress_tracker::increment(size_t const inc) {
 
 void progress_tracker::update_out() {
   auto const out_range = (out_high_ - out_low_);
-  auto const in_ratio = static_cast<float>(static_cast<double>(in_) /
-                                           static_cast<double>(in_high_));
+  auto const in_ratio =
+      in_high_ == 0ULL ? 1.F
+                       : static_cast<float>(static_cast<double>(in_) /
+                                            static_cast<double>(in_high_));
 
   auto const new_out = std::clamp(
       out_low_ + std::round(out_range * in_ratio / out_mod_) * out_mod_,
-- 
2.43.0


From b2fdea7f90f84f9c7e56bf16a560cf1f779aee44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:47 +0000
Subject: [PATCH 25/35] fix: progress_tracker: move assignment completes the
 update that is replaced

---
 include/utl/progress_tracker.h |  4 +++-
 src/progress_tracker.cc        | 16 +++++++++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/include/utl/progress_tracker.h b/include/utl/progress_tracker.h
index c52add6..f683824 100644
--- a/include/utl/progress_tracker.h
+++ b/include/utl/progress_tracker.h
@@ -18,7 +18,7 @@ struct progress_tracker {
     tracker_update(tracker_update const&) = delete;
     tracker_update& operator=(tracker_update const&) = delete;
     tracker_update(tracker_update&&) = default;
-    tracker_update& operator=(tracker_update&&) = default;
+    tracker_update& operator=(tracker_update&&) noexcept;
 
     tracker_update status(std::string const&);
     tracker_update show_progress(bool);
@@ -28,6 +28,8 @@ struct progress_tracker {
     tracker_update out_mod(float out_mod);
     tracker_update in_high(size_t in_high);
 
+    void finish();
+
     progress_tracker* tracker_;
     std::unique_lock<std::mutex> lock_;
     bool status_changed_{false};
diff --git a/src/progress_tracker.cc b/src/progress_tracker.cc
index d644122..445e61b 100644
--- a/src/progress_tracker.cc
+++ b/src/progress_tracker.cc
@@ -11,7 +11,21 @@
 
 namespace utl {
 
-progress_tracker::tracker_update::~tracker_update() {
+progress_tracker::tracker_update::~tracker_update() { finish(); }
+
+progress_tracker::tracker_update& progress_tracker::tracker_update::operator=(
+    tracker_update&& o) noexcept {
+  if (this != &o) {
+    finish();
+    tracker_ = o.tracker_;
+    lock_ = std::move(o.lock_);
+    status_changed_ = o.status_changed_;
+    bounds_changed_ = o.bounds_changed_;
+  }
+  return *this;
+}
+
+void progress_tracker::tracker_update::finish() {
   if (lock_.owns_lock()) {  // otherwise: moved from
     if (bounds_changed_) {
       tracker_->in_ = 0ULL;
-- 
2.43.0


From 94877c1edbbd8cac5ff4f085a4c65dce1061146a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:57 +0000
Subject: [PATCH 26/35] fix: progress_tracker: concurrent updates do not leave
 an outdated output

---
 src/progress_tracker.cc | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/src/progress_tracker.cc b/src/progress_tracker.cc
index 445e61b..48f20b7 100644
--- a/src/progress_tracker.cc
+++ b/src/progress_tracker.cc
@@ -133,19 +133,29 @@ void progress_tracker::increment(size_t const inc) {
 }
 
 void progress_tracker::update_out() {
-  auto const out_range = (out_high_ - out_low_);
-  auto const in_ratio =
-      in_high_ == 0ULL ? 1.F
-                       : static_cast<float>(static_cast<double>(in_) /
-                                            static_cast<double>(in_high_));
-
-  auto const new_out = std::clamp(
-      out_low_ + std::round(out_range * in_ratio / out_mod_) * out_mod_,
-      out_low_, out_high_);
-
-  auto old_out = out_.exchange(new_out);
-  if (old_out != new_out) {
-    callback_(*this);
+  auto in = in_.load();
+  while (true) {
+    auto const out_range = (out_high_ - out_low_);
+    auto const in_ratio =
+        in_high_ == 0ULL ? 1.F
+                         : static_cast<float>(static_cast<double>(in) /
+                                              static_cast<double>(in_high_));
+
+    auto const new_out = std::clamp(
+        out_low_ + std::round(out_range * in_ratio / out_mod_) * out_mod_,
+        out_low_, out_high_);
+
+    auto old_out = out_.exchange(new_out);
+    if (old_out != new_out) {
+      callback_(*this);
+    }
+
+    // in_ may have changed and its output been replaced by this older one
+    if (auto const now = in_.load(); now != in) {
+      in = now;
+    } else {
+      break;
+    }
   }
 }
 
-- 
2.43.0


From 25aaf9da0bea0ee6baf05cc219958c5dfeb87478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:59 +0000
Subject: [PATCH 27/35] fix: generator: own the coroutine, moving transfers it
 (copies destroyed it twice)

---
 include/utl/generator.h | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/include/utl/generator.h b/include/utl/generator.h
index 4f2b3c8..33f299b 100644
--- a/include/utl/generator.h
+++ b/include/utl/generator.h
@@ -1,5 +1,6 @@
 #include <coroutine>
 #include <exception>
+#include <utility>
 
 namespace utl {
 
@@ -27,7 +28,23 @@ struct generator {
 
   generator(handle_type h) : h_(h) {}
 
-  ~generator() { h_.destroy(); }
+  generator(generator const&) = delete;
+  generator& operator=(generator const&) = delete;
+
+  generator(generator&& o) noexcept
+      : h_{std::exchange(o.h_, nullptr)}, full_{o.full_} {}
+
+  generator& operator=(generator&& o) noexcept {
+    std::swap(h_, o.h_);
+    std::swap(full_, o.full_);
+    return *this;
+  }
+
+  ~generator() {
+    if (h_) {
+      h_.destroy();
+    }
+  }
 
   explicit operator bool() {
     if (h_.done()) {
-- 
2.43.0


From f544f2107fbbf9c523bfb9373649d8a35a824390 Mon Sep 17 00:00:00 2001
From: root <root@localhost>
Date: Fri, 20 Nov 2026 03:38:15 +0000
Subject: [PATCH 28/35] fix: iterator_facade: compare with the sentinel type of
 the iterator

---
 include/utl/iterator_facade.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utl/iterator_facade.h b/include/utl/iterator_facade.h
index 201e355..6e113d7 100644
--- a/include/utl/iterator_facade.h
+++ b/include/utl/iterator_facade.h
@@ -111,7 +111,7 @@ template <typename T>
 concept iter_is_single_pass = bool(T::single_pass_iterator);
 
 template <typename T, typename Iter>
-concept iter_sentinel = std::is_same_v<T, typename T::sentinel_type>;
+concept iter_sentinel = std::is_same_v<T, typename Iter::sentinel_type>;
 
 // clang-format on
 
-- 
2.43.0


From 2cfa98c5b03bc46e46ead8ecc1ab7d30b333b7a3 Mon Sep 17 00:00:00 2001
From: root <root@localhost>
Date: Fri, 20 Nov 2026 03:38:15 +0000
Subject: [PATCH 29/35] fix: iterator_facade: advance() without distance_to()
 is enough for ++ and --

---
 include/utl/iterator_facade.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/utl/iterator_facade.h b/include/utl/iterator_facade.h
index 6e113d7..a28f6c2 100644
--- a/include/utl/iterator_facade.h
+++ b/include/utl/iterator_facade.h
@@ -104,7 +104,7 @@ iter_has_advance_method<T>;
 
 template <typename T>
 concept iter_is_bidirectional =
-iter_is_random_access<T> ||
+iter_has_advance_method<T> ||
 iter_has_decrement_method<T>;
 
 template <typename T>
@@ -274,12 +274,12 @@ public:
       // If there is an increment(), assume it is the most efficient way to
       // advance, even if we have an advance()
       _self().increment();
-    } else if constexpr (detail::iter_is_random_access<self_type>) {
+    } else if constexpr (detail::iter_has_advance_method<self_type>) {
       // Just offset by one
-      _self() += 1;
+      _self().advance(1);
     } else {
       // Bad!
-      static_assert(detail::iter_is_random_access<self_type>,
+      static_assert(detail::iter_has_advance_method<self_type>,
                     "Iterator subclass must provide an `increment` or "
                     "`advance(n)` method");
     }
@@ -304,7 +304,7 @@ public:
     if constexpr (detail::iter_has_decrement_method<self_type>) {
       _self().decrement();
     } else {
-      _self() -= 1;
+      _self().advance(-1);
     }
     return _self();
   }
-- 
2.43.0


From 1a1ccbd09ab408d7c9188541e5d493972f213d88 Mon Sep 17 00:00:00 2001
From: root <root@localhost>
Date: Fri, 20 Nov 2026 03:38:15 +0000
Subject: [PATCH 30/35] fix: iterator_wrapper_facade: wrap iterators that are
 not random access

---
 include/utl/iterator_facade.h | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/include/utl/iterator_facade.h b/include/utl/iterator_facade.h
index a28f6c2..e99a97c 100644
--- a/include/utl/iterator_facade.h
+++ b/include/utl/iterator_facade.h
@@ -473,16 +473,30 @@ public:
   iterator_wrapper_facade() = default;
   explicit iterator_wrapper_facade(InnerIterator it) : wrapped_iterator(it) {}
 
+  // clang-format off
+  constexpr void increment() noexcept {
+    ++wrapped_iterator;
+  }
+
+  constexpr void decrement() noexcept
+  requires std::is_base_of_v<
+      std::bidirectional_iterator_tag,
+      typename std::iterator_traits<InnerIterator>::iterator_category> {
+    --wrapped_iterator;
+  }
+
   template <detail::iter_diff<self_type> D>
-  constexpr void advance(D off) noexcept {
+  constexpr void advance(D off) noexcept
+  requires std::is_base_of_v<
+      std::random_access_iterator_tag,
+      typename std::iterator_traits<InnerIterator>::iterator_category> {
     std::advance(wrapped_iterator, off);
   }
 
-  // clang-format off
   constexpr auto distance_to(const self_type& other) const noexcept
   requires std::is_base_of_v<
-      typename std::iterator_traits<InnerIterator>::iterator_category,
-      std::random_access_iterator_tag> {
+      std::random_access_iterator_tag,
+      typename std::iterator_traits<InnerIterator>::iterator_category> {
     return other.wrapped_iterator - wrapped_iterator;
   }
   // clang-format on
-- 
2.43.0


From d868f634e338fd68ad5afb7cb5cae5901e8eef34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:07 +0000
Subject: [PATCH 31/35] fix: line_iterator += counts with the type of its
 distance (int overflowed)

---
 include/utl/parser/cstr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utl/parser/cstr.h b/include/utl/parser/cstr.h
index b900ae2..e62f74f 100755
--- a/include/utl/parser/cstr.h
+++ b/include/utl/parser/cstr.h
@@ -204,7 +204,7 @@ struct line_iterator {
   bool operator!=(line_iterator const& i) const { return !(*this == i); }
 
   line_iterator& operator+=(difference_type n) {
-    for (int i = 0; i != n; ++i) {
+    for (difference_type i = 0; i != n; ++i) {
       ++*this;
     }
     return *this;
-- 
2.43.0


From 930a5cb03c6bac157e37229f66634caf4dc9816c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:07 +0000
Subject: [PATCH 32/35] fix: line_iterator + n returned the old position and
 moved the iterator itself

---
 include/utl/parser/cstr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utl/parser/cstr.h b/include/utl/parser/cstr.h
index e62f74f..7c2af8f 100755
--- a/include/utl/parser/cstr.h
+++ b/include/utl/parser/cstr.h
@@ -228,7 +228,7 @@ struct line_iterator {
   }
   line_iterator operator+(difference_type const n) {
     line_iterator curr = *this;
-    *this += n;
+    curr += n;
     return curr;
   }
 
-- 
2.43.0


From c6da8634deaa30d72edb42bc717f0e7c9c64db6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:15 +0000
Subject: [PATCH 33/35] fix: floating point numbers with an integer part beyond
 int were parsed wrong

---
 include/utl/parser/arg_parser.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/utl/parser/arg_parser.h b/include/utl/parser/arg_parser.h
index b4a63be..fe5b020 100644
--- a/include/utl/parser/arg_parser.h
+++ b/include/utl/parser/arg_parser.h
@@ -67,9 +67,14 @@ inline bool parse_fp(cstr& s, T& v) {
     ++s;
   }
 
-  int pre_point;
-  parse_arg(s, pre_point);
-  v = static_cast<T>(pre_point);
+  if (s && *s.str == '+') {
+    ++s;
+  }
+
+  v = T{0.0};
+  for (; s && *s.str >= '0' && *s.str <= '9'; ++s) {
+    v = v * T{10.0} + static_cast<T>(*s.str - '0');
+  }
   if (s.len == 0) {
     v *= sign;
     return true;
-- 
2.43.0


From 218ee5804d2113b89c64c427f37ed821dfa8dc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:15 +0000
Subject: [PATCH 34/35] fix: the text of a time beyond the year 9999 did not
 fit its buffer

---
 include/utl/logging.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/utl/logging.h b/include/utl/logging.h
index 8359454..2a2b4e3 100644
--- a/include/utl/logging.h
+++ b/include/utl/logging.h
@@ -52,11 +52,10 @@ struct log {
 enum log_level { emrg, alrt, crit, err, warn, notice, info, debug };
 
 inline std::string time(time_t const t) {
-  char buf[sizeof "2011-10-08t07:07:09z-0430"];
+  char buf[sizeof "-2147481748-10-08t07:07:09z-0430"];
   struct tm result {};
   gmt(&t, &result);
-  strftime(buf, sizeof buf, "%FT%TZ%z", &result);
-  return buf;
+  return {buf, strftime(buf, sizeof buf, "%FT%TZ%z", &result)};
 }
 
 inline std::string time() {
-- 
2.43.0


From 5e3f917e4d74f9d8b043da5bca04d5620fd20af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:15 +0000
Subject: [PATCH 35/35] fix: printable enum names kept blanks before the comma

---
 include/utl/printable_enum.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/utl/printable_enum.h b/include/utl/printable_enum.h
index 7b6f269..e58a220 100644
--- a/include/utl/printable_enum.h
+++ b/include/utl/printable_enum.h
@@ -17,6 +17,9 @@
       start = c;                                                     \
       c = std::find(std::next(c), end(s), ',');                      \
     }                                                                \
+    while (c != start && *std::prev(c) == ' ') {                     \
+      --c;                                                           \
+    }                                                                \
     return {start, c};                                               \
   }                                                                  \
   inline std::ostream& operator<<(std::ostream& out, name const v) { \
-- 
2.43.0

