From f534e337b248a6d210c818588543626c620d32c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:11 +0000
Subject: [PATCH 1/5] fix: check for zero coefficients when a symbol merge
 converts the coefficient type

series_sym_extender() skipped the zero check exactly when the coefficient
type changes, so that e.g. adding a polynomial with a rational coefficient too
small for a double to a double polynomial over another symbol set stored a zero
term.
---
 include/obake/series.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/obake/series.hpp b/include/obake/series.hpp
index 6c3a890..fbb19e3 100644
--- a/include/obake/series.hpp
+++ b/include/obake/series.hpp
@@ -569,7 +569,7 @@ inline void series_sym_extender(To &to, From &&from, const symbol_idx_map<symbol
     // coincide (i.e., no cf conversion takes place),
     // otherwise the conversion might generate zeroes.
     constexpr auto check_zero
-        = static_cast<sat_check_zero>(::std::is_same_v<series_cf_t<To>, series_cf_t<remove_cvref_t<From>>>);
+        = static_cast<sat_check_zero>(!::std::is_same_v<series_cf_t<To>, series_cf_t<remove_cvref_t<From>>>);
 
     // Merge the terms, distinguishing the segmented vs non-segmented case.
     if (from_log2_size) {
-- 
2.43.0


From 13be107e8fd8c29f1fe492d4e3ffdd90c7ad2850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:42 +0000
Subject: [PATCH 2/5] fix: never run unrelated tasks while holding the mutex of
 the power cache

series_pow_from_cache() multiplies (and copies) series in parallel while it
holds the mutex of the cache. While waiting for the parallel operation the
thread could execute any other TBB task; if that task computed a power too,
the thread locked again the mutex it was holding, and hung. Run the code that
holds the mutex in an isolated region, and destroy the contents of the cache
after releasing the mutex.
---
 include/obake/series.hpp | 67 ++++++++++++++++++++++------------------
 src/series.cpp           | 12 +++++--
 2 files changed, 46 insertions(+), 33 deletions(-)

diff --git a/include/obake/series.hpp b/include/obake/series.hpp
index fbb19e3..0f0cdbd 100644
--- a/include/obake/series.hpp
+++ b/include/obake/series.hpp
@@ -44,6 +44,7 @@
 #include <tbb/blocked_range.h>
 #include <tbb/parallel_for.h>
 #include <tbb/parallel_reduce.h>
+#include <tbb/task_arena.h>
 
 #include <mp++/integer.hpp>
 
@@ -1681,38 +1682,44 @@ inline Base series_pow_from_cache(const Base &base, unsigned n)
         }
     };
 
-    // Lock down before accessing the cache.
-    ::std::lock_guard lock(mutex);
-
-    // Try first to locate the series_te_pow_map_t for the current type,
-    // then, in that map, try to locate 'base'. Use try_emplace() so that
-    // table elements are created as needed.
-    auto it = map.try_emplace(t_idx, 0, hasher{}, comparer{}).first->second.try_emplace(base).first;
-
-    // Fetch a reference to the base and the corresponding
-    // exponentiation vector.
-    const auto &b = ::std::any_cast<const Base &>(it->first);
-    auto &v = it->second;
-
-    // If the exponentiation vector is empty, init it with
-    // base**0 = 1.
-    if (v.empty()) {
-        // NOTE: constructability from 1 is ensured by the
-        // constructability of the return coefficient type from int
-        // (and the return type is guaranteed to be the same as
-        // the Base type in this function).
-        v.emplace_back(Base(1));
-    }
+    // NOTE: the copies and the multiplications below may run in parallel. Use an isolated
+    // region so that, while it waits for them to complete, this thread never ends up
+    // executing unrelated tasks: if any of those needed the cache too, it would try to lock
+    // again the mutex that this thread is already holding.
+    return ::tbb::this_task_arena::isolate([&map = map, &mutex = mutex, &base, t_idx, n]() -> Base {
+        // Lock down before accessing the cache.
+        ::std::lock_guard lock(mutex);
+
+        // Try first to locate the series_te_pow_map_t for the current type,
+        // then, in that map, try to locate 'base'. Use try_emplace() so that
+        // table elements are created as needed.
+        auto it = map.try_emplace(t_idx, 0, hasher{}, comparer{}).first->second.try_emplace(base).first;
+
+        // Fetch a reference to the base and the corresponding
+        // exponentiation vector.
+        const auto &b = ::std::any_cast<const Base &>(it->first);
+        auto &v = it->second;
+
+        // If the exponentiation vector is empty, init it with
+        // base**0 = 1.
+        if (v.empty()) {
+            // NOTE: constructability from 1 is ensured by the
+            // constructability of the return coefficient type from int
+            // (and the return type is guaranteed to be the same as
+            // the Base type in this function).
+            v.emplace_back(Base(1));
+        }
 
-    // Fill in the missing powers as needed.
-    while (v.size() <= n) {
-        v.emplace_back(::std::any_cast<const Base &>(v.back()) * b);
-    }
+        // Fill in the missing powers as needed.
+        while (v.size() <= n) {
+            v.emplace_back(::std::any_cast<const Base &>(v.back()) * b);
+        }
 
-    // Return a copy of the desired power.
-    // NOTE: returnability is guaranteed because
-    // the return type is a series.
-    return ::std::any_cast<const Base &>(v[static_cast<decltype(v.size())>(n)]);
+        // Return a copy of the desired power.
+        // NOTE: returnability is guaranteed because
+        // the return type is a series.
+        return ::std::any_cast<const Base &>(v[static_cast<decltype(v.size())>(n)]);
+    });
 }
 
 // Metaprogramming to establish the algorithm/return
diff --git a/src/series.cpp b/src/series.cpp
index 4b053be..1098c46 100644
--- a/src/series.cpp
+++ b/src/series.cpp
@@ -74,10 +74,16 @@ void clear_series_pow_map()
     // Fetch the global data.
     auto [map, mutex] = internal::get_series_pow_map();
 
-    // Lock down before accessing the cache.
-    ::std::lock_guard lock(mutex);
+    // Move the contents of the cache out, locking down before accessing it.
+    // NOTE: the destruction of the series may run in parallel, thus it must not
+    // happen while the mutex is locked: while waiting for it to complete, this
+    // thread could execute other tasks which need the cache.
+    series_pow_map_t tmp;
+    {
+        ::std::lock_guard lock(mutex);
 
-    map.clear();
+        tmp.swap(map);
+    }
 }
 
 } // namespace customisation::internal
-- 
2.43.0


From 8f2d8225f82f72a0c735570d04b2c4a23afb753b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:27 +0000
Subject: [PATCH 3/5] fix: keep the brackets of a series coefficient consisting
 of a single bracketed coefficient when streaming

---
 include/obake/series.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/obake/series.hpp b/include/obake/series.hpp
index 0f0cdbd..450b74c 100644
--- a/include/obake/series.hpp
+++ b/include/obake/series.hpp
@@ -2094,6 +2094,11 @@ struct series_default_cf_stream_insert_impl {
             os << '(';
             detail::series_stream_terms_impl<false>(os, x);
             os << ')';
+        } else if (x.is_single_cf() && !x.empty()) {
+            // NOTE: if the series consists of a single coefficient,
+            // stream it as a coefficient, so that it is bracketed
+            // if needed (streaming the term would remove the brackets).
+            ::obake::cf_stream_insert(os, x.cbegin()->second);
         } else {
             detail::series_stream_terms_impl<false>(os, x);
         }
-- 
2.43.0


From 5af85c6a7e14de1e740130b578cfd764443d73c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:58 +0000
Subject: [PATCH 4/5] fix: when streaming a series, remove the brackets of a
 coefficient only if they match each other

---
 src/series.cpp | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/series.cpp b/src/series.cpp
index 1098c46..59096c0 100644
--- a/src/series.cpp
+++ b/src/series.cpp
@@ -18,6 +18,32 @@ namespace obake
 namespace detail
 {
 
+namespace
+{
+
+// Check if the string s consists of something enclosed in a pair
+// of matching round brackets.
+bool series_stream_is_bracketed(const ::std::string &s)
+{
+    if (s.front() != '(' || s.back() != ')') {
+        return false;
+    }
+
+    ::std::string::size_type depth = 0;
+    for (::std::string::size_type i = 0; i < s.size(); ++i) {
+        if (s[i] == '(') {
+            ++depth;
+        } else if (s[i] == ')' && --depth == 0u) {
+            // The initial bracket is closed here.
+            return i + 1u == s.size();
+        }
+    }
+
+    return false;
+}
+
+} // namespace
+
 // Implementation of the default streaming for a single term.
 void series_stream_single_term(::std::string &ret, ::std::string &str_cf, const ::std::string &str_key, bool tex_mode)
 {
@@ -32,7 +58,7 @@ void series_stream_single_term(::std::string &ret, ::std::string &str_cf, const
         // Turn the coefficient into a minus sign
         // if it is -1 and the key is not "1".
         str_cf = '-';
-    } else if (key_is_one && str_cf.size() > 2u && str_cf.front() == '(' && str_cf.back() == ')') {
+    } else if (key_is_one && str_cf.size() > 2u && series_stream_is_bracketed(str_cf)) {
         // If the key is unitary, and the coefficient
         // consists of something enclosed in round brackets,
         // then remove them.
-- 
2.43.0


From 593613a9f6d7c3be6e9eec69a47e9e64daf319f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:11 +0000
Subject: [PATCH 5/5] fix: keep a series consistent when its copy assignment
 fails

---
 include/obake/series.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/obake/series.hpp b/include/obake/series.hpp
index 450b74c..45a767e 100644
--- a/include/obake/series.hpp
+++ b/include/obake/series.hpp
@@ -813,7 +813,14 @@ public:
             *this, m_s_table[0], K(m_symbol_set.get()), ::std::forward<T>(x));
     }
 
-    series &operator=(const series &) = default;
+    series &operator=(const series &other)
+    {
+        // NOTE: copy everything before changing anything: a memberwise
+        // assignment which throws would leave here terms which do not
+        // belong to the symbol set and to the number of tables.
+        // NOTE: self-assignment is handled correctly as well.
+        return *this = series(other);
+    }
     series &operator=(series &&other) noexcept
     {
         // NOTE: assuming self-assignment is handled
-- 
2.43.0

