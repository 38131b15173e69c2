From 0fd4849986474b981913f56dcafc82348b862066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:24 +0000
Subject: [PATCH 1/2] fix: check for zero coefficients when extending a series
 with a coefficient conversion

---
 include/obake/series.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/obake/series.hpp b/include/obake/series.hpp
index 6c3a890..fbb19e3 100644
--- a/include/obake/series.hpp
+++ b/include/obake/series.hpp
@@ -569,7 +569,7 @@ inline void series_sym_extender(To &to, From &&from, const symbol_idx_map<symbol
     // coincide (i.e., no cf conversion takes place),
     // otherwise the conversion might generate zeroes.
     constexpr auto check_zero
-        = static_cast<sat_check_zero>(::std::is_same_v<series_cf_t<To>, series_cf_t<remove_cvref_t<From>>>);
+        = static_cast<sat_check_zero>(!::std::is_same_v<series_cf_t<To>, series_cf_t<remove_cvref_t<From>>>);
 
     // Merge the terms, distinguishing the segmented vs non-segmented case.
     if (from_log2_size) {
-- 
2.43.0


From e6be9e8450ab8739e9dc6a9209f28a0717fb41c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:24 +0000
Subject: [PATCH 2/2] fix: keep the number of segments when trimming a series

---
 include/obake/series.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/obake/series.hpp b/include/obake/series.hpp
index fbb19e3..c76edb5 100644
--- a/include/obake/series.hpp
+++ b/include/obake/series.hpp
@@ -4155,7 +4155,7 @@ struct series_default_trim_impl {
         retval.tag() = x.tag();
         // NOTE: use the same number of segments as x
         // and reserve space for the same number of terms.
-        retval.set_n_segments(retval.get_s_size());
+        retval.set_n_segments(x.get_s_size());
         retval.reserve(x.size());
 
         for (const auto &t : x) {
-- 
2.43.0

