From ec960e34205deec08e21e842ab10eed5931b2fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:53 +0000
Subject: [PATCH 01/21] fix: Match::operator!= called itself without end

---
 core/Match.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/Match.h b/core/Match.h
index 7a33e4e..173e9cb 100644
--- a/core/Match.h
+++ b/core/Match.h
@@ -76,7 +76,7 @@ class Match {
   }
 
   bool operator!=(const Match& other) const {
-    return !(*this != other);
+    return !(*this == other);
   }
 
   static Match<RE, HE> MakeFalsePositive(const HE& hyp) {
-- 
2.43.0


From 9e5f8e52bf80f6dc5b3c74bad364fff69fb40604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:53 +0000
Subject: [PATCH 02/21] fix: Match copy assignment leaked its old events and
 lost them on self-assignment

---
 core/Match.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/Match.h b/core/Match.h
index 173e9cb..46df177 100644
--- a/core/Match.h
+++ b/core/Match.h
@@ -53,8 +53,9 @@ class Match {
   }
 
   Match& operator=(const Match& other) {
+    if (this == &other) return *this;
     error_ = other.error_;
-    ref_.release(); hyp_.release();
+    ref_.reset(); hyp_.reset();
     if (other.HasRef()) SetRef(other.GetRef());
     if (other.HasHyp()) SetHyp(other.GetHyp());
     return *this;
-- 
2.43.0


From 19c780d68795c7c1f1f361e152f900bf659fece3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:53 +0000
Subject: [PATCH 03/21] fix: ScoredEvent::operator<= compared its operands the
 wrong way round

---
 core/ScoredEvent.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ScoredEvent.h b/core/ScoredEvent.h
index 269097f..d99c964 100644
--- a/core/ScoredEvent.h
+++ b/core/ScoredEvent.h
@@ -42,7 +42,7 @@ class ScoredEvent : public E {
   }
 
   virtual bool operator<=(const ScoredEvent& other) const {
-    return !(other > *this);
+    return !(*this > other);
   }
 
   virtual bool operator>=(const ScoredEvent& other) const {
-- 
2.43.0


From 492903a136f7ba6b46aeeae6de3f327b480d0a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:15 +0000
Subject: [PATCH 04/21] fix: DocumentBoundingBox EventSet range constructor
 left its size uninitialised

---
 core/DocumentBoundingBoxEventSet.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/DocumentBoundingBoxEventSet.h b/core/DocumentBoundingBoxEventSet.h
index 9328867..341d0ea 100644
--- a/core/DocumentBoundingBoxEventSet.h
+++ b/core/DocumentBoundingBoxEventSet.h
@@ -36,7 +36,7 @@ class EventSet<E<Q, DocumentBoundingBox<T>>> {
   virtual ~EventSet() {}
 
   template <typename I>
-  EventSet(I begin, I end) {
+  EventSet(I begin, I end) : size_(0) {
     for (I it = begin; it != end; ++it) { Insert(*it); }
   }
 
-- 
2.43.0


From f4ab21a2ee00ab7e7f3f12bdceb60b291cf37e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:15 +0000
Subject: [PATCH 05/21] fix: MatchesSampler returned twice as many matches,
 half of them empty

---
 core/Bootstrapping.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/Bootstrapping.h b/core/Bootstrapping.h
index 7cbc227..cb02e73 100644
--- a/core/Bootstrapping.h
+++ b/core/Bootstrapping.h
@@ -21,7 +21,8 @@ class MatchesSampler {
   void operator()(const Container &original, Container *sampled) {
     const size_t num_matches = original.size();
     std::uniform_int_distribution <size_t> mdist(0, num_matches - 1);
-    sampled->resize(num_matches);
+    sampled->clear();
+    sampled->reserve(num_matches);
     for (size_t i = 0; i < num_matches; ++i) {
       sampled->push_back(original[mdist(rng_)]);
     }
-- 
2.43.0


From 9f300ba9b3ec79849994d0f9aee9d21169f7815e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:15 +0000
Subject: [PATCH 06/21] fix: bootstrap confidence interval read past the
 sampled statistics

---
 core/Bootstrapping.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/core/Bootstrapping.h b/core/Bootstrapping.h
index cb02e73..4763ec1 100644
--- a/core/Bootstrapping.h
+++ b/core/Bootstrapping.h
@@ -77,9 +77,14 @@ double ComputePercentileBootstrapCI(
     // Store the difference w.r.t. the observed statistic
     statistics_diffs.push_back(sample_statistic - observed_statistic);
   }
+  if (statistics_diffs.empty()) {
+    *lower_bound = *upper_bound = observed_statistic;
+    return observed_statistic;
+  }
   std::sort(statistics_diffs.begin(), statistics_diffs.end());
-  const auto li = (size_t)((1.0 - alpha * 0.5) * repetitions);
-  const auto ui = (size_t)((      alpha * 0.5) * repetitions);
+  const size_t last = statistics_diffs.size() - 1;
+  const auto li = std::min((size_t)((1.0 - alpha * 0.5) * repetitions), last);
+  const auto ui = std::min((size_t)((      alpha * 0.5) * repetitions), last);
   *lower_bound = observed_statistic - statistics_diffs[li];
   *upper_bound = observed_statistic - statistics_diffs[ui];
   return observed_statistic;
-- 
2.43.0


From 8901adb9de57d3b5a321c23bb53d19ea0bba6c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:15 +0000
Subject: [PATCH 07/21] fix: options accepted values that could not be parsed

---
 cmd/Option.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/Option.h b/cmd/Option.h
index 6472c62..68f20d9 100644
--- a/cmd/Option.h
+++ b/cmd/Option.h
@@ -52,7 +52,7 @@ class Option : public BaseOption {
   bool Parse(const std::string &str) override {
     std::istringstream iss(str);
     iss >> std::noskipws >> *value_;
-    return iss.eof();
+    return !iss.fail() && iss.eof();
   }
 
   const std::string& Name() const override {
-- 
2.43.0


From 94a8a9700008373556d8998c2d39b6210c29e18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:15 +0000
Subject: [PATCH 08/21] fix: the command line accepted any second character in
 place of "--"

---
 cmd/Parser.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/Parser.h b/cmd/Parser.h
index cc48590..7cd2f00 100644
--- a/cmd/Parser.h
+++ b/cmd/Parser.h
@@ -101,7 +101,8 @@ class Parser {
       if (arg == "--") { break; }   // Skip options section with "--".
       if (arg == "--help") { show_help = true; continue; }
       const std::string opt_name = arg.substr(2);
-      auto opt_it = opts_.find(opt_name);
+      // Options start with "--", so "-sort" is not an option.
+      auto opt_it = arg[1] == '-' ? opts_.find(opt_name) : opts_.end();
       if (opt_it == opts_.end()) {
         std::cerr << "ERROR: Unknown option '" << arg << "'" << std::endl;
         return false;
-- 
2.43.0


From af0c0b4d24cd9fc6bb9d2012dc80df5932e1978a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:15 +0000
Subject: [PATCH 09/21] fix: mappers leaked their owned map, and freed it twice
 after an assignment

---
 mapper/StringEventToIntMapper.h | 15 +++++++++++++++
 mapper/StringToIntMapper.h      |  9 +++++++++
 2 files changed, 24 insertions(+)

diff --git a/mapper/StringEventToIntMapper.h b/mapper/StringEventToIntMapper.h
index 48721cd..c2027b0 100644
--- a/mapper/StringEventToIntMapper.h
+++ b/mapper/StringEventToIntMapper.h
@@ -30,6 +30,21 @@ class StringEventToIntMapper :
   StringEventToIntMapper(StringToIntMapper<Int> *map, bool own)
       : map_(map), own_(own) {}
 
+  ~StringEventToIntMapper() {
+    if (own_) {
+      delete map_;
+    }
+  }
+
+  StringEventToIntMapper &operator=(const StringEventToIntMapper &other) {
+    if (map_ != other.map_) {
+      if (own_) delete map_;
+      map_ = other.map_;
+      own_ = false;
+    }
+    return *this;
+  }
+
   OutputType operator()(const InputType &input) override {
     return OutputType((*map_)(input.Query()), (*map_)(input.Location()));
   }
diff --git a/mapper/StringToIntMapper.h b/mapper/StringToIntMapper.h
index 267ff0e..dade9b9 100644
--- a/mapper/StringToIntMapper.h
+++ b/mapper/StringToIntMapper.h
@@ -35,6 +35,15 @@ class StringToIntMapper : public Mapper<std::string, Int> {
     }
   }
 
+  StringToIntMapper &operator=(const StringToIntMapper &other) {
+    if (impl_ != other.impl_) {
+      if (own_) delete impl_;
+      impl_ = other.impl_;
+      own_ = false;
+    }
+    return *this;
+  }
+
   OutputType operator()(const InputType &input) override {
     const auto it = impl_->find(input);
     if (it != impl_->end()) {
-- 
2.43.0


From 304d56186d876b0bcfbd37363bf2e83f12f51f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:15 +0000
Subject: [PATCH 10/21] fix: StringToIntMapper had no capacity at all for
 64-bit unsigned integers

---
 mapper/StringToIntMapper.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mapper/StringToIntMapper.h b/mapper/StringToIntMapper.h
index dade9b9..cabf46d 100644
--- a/mapper/StringToIntMapper.h
+++ b/mapper/StringToIntMapper.h
@@ -60,7 +60,10 @@ class StringToIntMapper : public Mapper<std::string, Int> {
 
  private:
   static constexpr size_t kMaxSize =
-      1 + static_cast<size_t>(std::numeric_limits<Int>::max());
+      static_cast<size_t>(std::numeric_limits<Int>::max()) <
+              std::numeric_limits<size_t>::max()
+          ? 1 + static_cast<size_t>(std::numeric_limits<Int>::max())
+          : std::numeric_limits<size_t>::max();
 
   Impl *impl_;
   bool own_;
-- 
2.43.0


From 50c2d20c1c901cc27adeffcace880953abf861a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:15 +0000
Subject: [PATCH 11/21] fix: the mean recall-precision curve was NaN when there
 were no matches

---
 tools/GenericKwsEvalTool.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/GenericKwsEvalTool.h b/tools/GenericKwsEvalTool.h
index 4b9bb0e..c86b37d 100644
--- a/tools/GenericKwsEvalTool.h
+++ b/tools/GenericKwsEvalTool.h
@@ -146,7 +146,7 @@ class GenericKwsEvalTool {
       for (size_t q = 1; q <= NQ; ++q) {
         s += sampled_pr[q][i];
       }
-      sampled_pr[0].push_back(s / NQ);
+      sampled_pr[0].push_back(NQ > 0 ? s / NQ : 0.0);
     }
 
     core::WriteCurveToFile(filename, sampled_rc, sampled_pr[0]);
-- 
2.43.0


From a5e89fc31b3fbd5f4c9818bd861e5c52cf6a3ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:15 +0000
Subject: [PATCH 12/21] fix: an empty query set or query groups file disabled
 the filtering

---
 tools/GenericKwsEvalTool.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/GenericKwsEvalTool.h b/tools/GenericKwsEvalTool.h
index c86b37d..400ac3f 100644
--- a/tools/GenericKwsEvalTool.h
+++ b/tools/GenericKwsEvalTool.h
@@ -347,7 +347,7 @@ class GenericKwsEvalTool {
                 << querygroups_filename << "\"" << std::endl;
     }
 
-    if (!query2group.empty()) {
+    if (!queryset_filename.empty() || !querygroups_filename.empty()) {
       // Filter out reference events.
       const size_t num_ref_events = ref_events.size();
       filter_events(query2group, &ref_events);
-- 
2.43.0


From d3368dc598095b0a5ebd3f14223edc31be606eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:15 +0000
Subject: [PATCH 13/21] fix: a failed write of the dumped matches was not
 reported

---
 tools/GenericKwsEvalTool.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tools/GenericKwsEvalTool.h b/tools/GenericKwsEvalTool.h
index 400ac3f..9946f9f 100644
--- a/tools/GenericKwsEvalTool.h
+++ b/tools/GenericKwsEvalTool.h
@@ -410,6 +410,11 @@ class GenericKwsEvalTool {
         mfs << "## " << m << std::endl;
       }
       mfs.close();
+      if (mfs.fail()) {
+        std::cerr << "ERROR: Failed writing dump matches file \""
+                  << matches_filename << "\"!" << std::endl;
+        return 1;
+      }
     }
 
     {
-- 
2.43.0


From 1aa76319686d71894cce538bd8b6f8727a852bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:56 +0000
Subject: [PATCH 14/21] fix: negative coordinates of unsigned boxes were read
 as huge positive ones

---
 core/BoundingBox.h | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/core/BoundingBox.h b/core/BoundingBox.h
index 36b2228..a7f3fa9 100644
--- a/core/BoundingBox.h
+++ b/core/BoundingBox.h
@@ -3,6 +3,7 @@
 
 #include <cmath>
 #include <iostream>
+#include <type_traits>
 
 namespace kws {
 namespace core {
@@ -62,9 +63,22 @@ struct BoundingBox {
   }
 };
 
+// Reads one coordinate. Unlike operator>>, a negative number is not silently
+// wrapped around when the coordinates are unsigned.
+template <typename T>
+std::istream& ReadCoordinate(std::istream& is, T* value) {
+  if (std::is_unsigned<T>::value && (is >> std::ws).peek() == '-') {
+    is.setstate(std::ios_base::failbit);
+  }
+  return is >> *value;
+}
+
 template <typename T>
 std::istream& operator>>(std::istream& is, BoundingBox<T>& bb) {
-  is >> bb.x >> bb.y >> bb.w >> bb.h;
+  ReadCoordinate(is, &bb.x);
+  ReadCoordinate(is, &bb.y);
+  ReadCoordinate(is, &bb.w);
+  ReadCoordinate(is, &bb.h);
   return is;
 }
 
-- 
2.43.0


From a4e8c80a2180f195ac6baa3399049352a34d6928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:18 +0000
Subject: [PATCH 15/21] fix: negative values of unsigned options wrapped around
 to huge ones

---
 cmd/Option.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/Option.h b/cmd/Option.h
index 68f20d9..dd8d5fa 100644
--- a/cmd/Option.h
+++ b/cmd/Option.h
@@ -6,6 +6,7 @@
 #include <iostream>
 #include <sstream>
 #include <string>
+#include <type_traits>
 
 #include "core/TypeInfo.h"
 
@@ -50,6 +51,8 @@ class Option : public BaseOption {
   }
 
   bool Parse(const std::string &str) override {
+    // operator>> would wrap around negative values of unsigned types.
+    if (std::is_unsigned<T>::value && str[0] == '-') return false;
     std::istringstream iss(str);
     iss >> std::noskipws >> *value_;
     return !iss.fail() && iss.eof();
-- 
2.43.0


From f9e80e52af3e2007884f749eaa96d4b8ff43b2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:22 +0000
Subject: [PATCH 16/21] fix: a recall-precision curve that cannot be written
 aborted the tools

---
 tools/GenericKwsEvalTool.h | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/tools/GenericKwsEvalTool.h b/tools/GenericKwsEvalTool.h
index 9946f9f..9a07810 100644
--- a/tools/GenericKwsEvalTool.h
+++ b/tools/GenericKwsEvalTool.h
@@ -465,16 +465,22 @@ class GenericKwsEvalTool {
         bootstrap_samples, bootstrap_seed,
         core::MeanNDCG<MatchType>(collapse_matches));
 
-    if (!grp_filename.empty()) {
-      WriteGlobalRPCurve(
-          grp_filename, matches, curve_samples, collapse_matches,
-          interpolated_precision, trapezoid_integral);
-    }
+    try {
+      if (!grp_filename.empty()) {
+        WriteGlobalRPCurve(
+            grp_filename, matches, curve_samples, collapse_matches,
+            interpolated_precision, trapezoid_integral);
+      }
 
-    if (!mrp_filename.empty()) {
-      WriteMeanRPCurve(
-          mrp_filename, matches_by_group, curve_samples, collapse_matches,
-          interpolated_precision, trapezoid_integral);
+      if (!mrp_filename.empty()) {
+        WriteMeanRPCurve(
+            mrp_filename, matches_by_group, curve_samples, collapse_matches,
+            interpolated_precision, trapezoid_integral);
+      }
+    } catch (const std::ios_base::failure &e) {
+      std::cerr << "ERROR: Failed writing a recall-precision curve: "
+                << e.what() << std::endl;
+      return 1;
     }
 
     return 0;
-- 
2.43.0


From 8b25f9d8744a58303397357cd9b144b0378a5c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:16 +0000
Subject: [PATCH 17/21] fix: numbers run together with the end of a box were
 accepted

---
 core/BoundingBox.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/core/BoundingBox.h b/core/BoundingBox.h
index a7f3fa9..8cd2407 100644
--- a/core/BoundingBox.h
+++ b/core/BoundingBox.h
@@ -1,6 +1,7 @@
 #ifndef CORE_BOUNDINGBOX_H_
 #define CORE_BOUNDINGBOX_H_
 
+#include <cctype>
 #include <cmath>
 #include <iostream>
 #include <type_traits>
@@ -64,13 +65,21 @@ struct BoundingBox {
 };
 
 // Reads one coordinate. Unlike operator>>, a negative number is not silently
-// wrapped around when the coordinates are unsigned.
+// wrapped around when the coordinates are unsigned, and the number must be
+// followed by a whitespace (otherwise, "4.5" would be read as 4 and .5).
 template <typename T>
 std::istream& ReadCoordinate(std::istream& is, T* value) {
   if (std::is_unsigned<T>::value && (is >> std::ws).peek() == '-') {
     is.setstate(std::ios_base::failbit);
   }
-  return is >> *value;
+  is >> *value;
+  if (is.good()) {
+    const int c = is.peek();
+    if (c != std::istream::traits_type::eof() && !std::isspace(c)) {
+      is.setstate(std::ios_base::failbit);
+    }
+  }
+  return is;
 }
 
 template <typename T>
-- 
2.43.0


From 463ced01115d0aa7e2a011b2892fff8ccead9642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:02 +0000
Subject: [PATCH 18/21] fix: bootstrap levels outside [0, 1] were turned into
 arbitrary quantiles

---
 tools/GenericKwsEvalTool.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tools/GenericKwsEvalTool.h b/tools/GenericKwsEvalTool.h
index 9a07810..81e3c39 100644
--- a/tools/GenericKwsEvalTool.h
+++ b/tools/GenericKwsEvalTool.h
@@ -267,6 +267,12 @@ class GenericKwsEvalTool {
       return 1;
     }
 
+    if (!(bootstrap_alpha >= 0.0 && bootstrap_alpha <= 1.0)) {
+      std::cerr << "ERROR: --bootstrap_alpha must be between 0 and 1!"
+                << std::endl;
+      return 1;
+    }
+
     // Read reference events
     if (ref_filename.empty()) {
       std::cerr << "ERROR: Empty filename was given for the references!"
-- 
2.43.0


From 04b7267ac5e11733159095bbc8cda54ae14b174b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:05 +0000
Subject: [PATCH 19/21] fix: a query set or groups file that fails while being
 read was taken as complete

---
 tools/GenericKwsEvalTool.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/tools/GenericKwsEvalTool.h b/tools/GenericKwsEvalTool.h
index 81e3c39..02559d1 100644
--- a/tools/GenericKwsEvalTool.h
+++ b/tools/GenericKwsEvalTool.h
@@ -322,6 +322,11 @@ class GenericKwsEvalTool {
         auto q = (*query_mapper_)(qt);
         query2group[q] = q;
       }
+      if (qfs.bad()) {
+        std::cerr << "ERROR: Failed reading query set file \""
+                  << queryset_filename << "\"!" << std::endl;
+        return 1;
+      }
       qfs.close();
       std::cerr << "INFO: " << query2group.size()
                 << " queries were read from \""
@@ -347,6 +352,11 @@ class GenericKwsEvalTool {
           query2group[fields[i]] = fields[0];
         }
       }
+      if (qfs.bad()) {
+        std::cerr << "ERROR: Failed reading query groups file \""
+                  << querygroups_filename << "\"!" << std::endl;
+        return 1;
+      }
       qfs.close();
       std::cerr << "INFO: " << query2group.size()
                 << " queries were read from \""
-- 
2.43.0


From e7c0b0e08143cf373c0ce2757889f0c24b18d789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:20 +0000
Subject: [PATCH 20/21] fix: an error while reading the standard input was
 taken as its end

---
 tools/GenericKwsEvalTool.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/GenericKwsEvalTool.h b/tools/GenericKwsEvalTool.h
index 02559d1..4f256f0 100644
--- a/tools/GenericKwsEvalTool.h
+++ b/tools/GenericKwsEvalTool.h
@@ -1,6 +1,7 @@
 #ifndef TOOLS_GENERICKWSEVALTOOL_H_
 #define TOOLS_GENERICKWSEVALTOOL_H_
 
+#include <cstdio>
 #include <iostream>
 #include <fstream>
 #include <string>
@@ -291,7 +292,7 @@ class GenericKwsEvalTool {
     // Read hypothesis events
     std::vector<HypEvent> hyp_events;
     if (!(hyp_filename.empty()
-          ? hyp_reader_->Read(&std::cin, &hyp_events)
+          ? hyp_reader_->Read(&std::cin, &hyp_events) && !std::ferror(stdin)
           : hyp_reader_->Read(hyp_filename, &hyp_events))) {
       if (argc == 2) {
         std::cerr << "ERROR: Failed reading from stdin!" << std::endl;
-- 
2.43.0


From 2a8914585b121295bbdabb23141725cfe6f34e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:20 +0000
Subject: [PATCH 21/21] fix: measures that could not be written to the standard
 output were lost without an error

---
 tools/GenericKwsEvalTool.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tools/GenericKwsEvalTool.h b/tools/GenericKwsEvalTool.h
index 4f256f0..726b3aa 100644
--- a/tools/GenericKwsEvalTool.h
+++ b/tools/GenericKwsEvalTool.h
@@ -482,6 +482,11 @@ class GenericKwsEvalTool {
         bootstrap_samples, bootstrap_seed,
         core::MeanNDCG<MatchType>(collapse_matches));
 
+    if (!std::cout.flush()) {
+      std::cerr << "ERROR: Failed writing to the standard output!" << std::endl;
+      return 1;
+    }
+
     try {
       if (!grp_filename.empty()) {
         WriteGlobalRPCurve(
-- 
2.43.0

