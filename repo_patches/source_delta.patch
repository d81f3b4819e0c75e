From 55885c1eb3a2d605ed2ea27eb9c629818e883114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:04 +0000
Subject: [PATCH 01/21] fix: operator<= of ScoredEvent was operator>=

---
 core/ScoredEvent.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ScoredEvent.h b/core/ScoredEvent.h
index 269097f..d99c964 100644
--- a/core/ScoredEvent.h
+++ b/core/ScoredEvent.h
@@ -42,7 +42,7 @@ class ScoredEvent : public E {
   }
 
   virtual bool operator<=(const ScoredEvent& other) const {
-    return !(other > *this);
+    return !(*this > other);
   }
 
   virtual bool operator>=(const ScoredEvent& other) const {
-- 
2.43.0


From 1c0f62e60a99531cecc7d0e0cb248496f33d1ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:09 +0000
Subject: [PATCH 02/21] fix: Match::operator!= called itself endlessly

---
 core/Match.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/Match.h b/core/Match.h
index 7a33e4e..173e9cb 100644
--- a/core/Match.h
+++ b/core/Match.h
@@ -76,7 +76,7 @@ class Match {
   }
 
   bool operator!=(const Match& other) const {
-    return !(*this != other);
+    return !(*this == other);
   }
 
   static Match<RE, HE> MakeFalsePositive(const HE& hyp) {
-- 
2.43.0


From 6a0109bf258c3540c9a0f0eff479df0e0169a923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:14 +0000
Subject: [PATCH 03/21] fix: Match copy assignment leaked events, and lost them
 on self-assignment

---
 core/Match.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/Match.h b/core/Match.h
index 173e9cb..46df177 100644
--- a/core/Match.h
+++ b/core/Match.h
@@ -53,8 +53,9 @@ class Match {
   }
 
   Match& operator=(const Match& other) {
+    if (this == &other) return *this;
     error_ = other.error_;
-    ref_.release(); hyp_.release();
+    ref_.reset(); hyp_.reset();
     if (other.HasRef()) SetRef(other.GetRef());
     if (other.HasHyp()) SetHyp(other.GetHyp());
     return *this;
-- 
2.43.0


From 5d70d6fae9d1e71f65cec448a97137f17793f992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:18 +0000
Subject: [PATCH 04/21] fix: event set built from a range had an uninitialised
 size

---
 core/DocumentBoundingBoxEventSet.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/DocumentBoundingBoxEventSet.h b/core/DocumentBoundingBoxEventSet.h
index 9328867..341d0ea 100644
--- a/core/DocumentBoundingBoxEventSet.h
+++ b/core/DocumentBoundingBoxEventSet.h
@@ -36,7 +36,7 @@ class EventSet<E<Q, DocumentBoundingBox<T>>> {
   virtual ~EventSet() {}
 
   template <typename I>
-  EventSet(I begin, I end) {
+  EventSet(I begin, I end) : size_(0) {
     for (I it = begin; it != end; ++it) { Insert(*it); }
   }
 
-- 
2.43.0


From 7e506eb5a37821acc4aadef69e1d989545963c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:22 +0000
Subject: [PATCH 05/21] fix: MatchesSampler prepended as many empty matches as
 it sampled

---
 core/Bootstrapping.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/Bootstrapping.h b/core/Bootstrapping.h
index 7cbc227..cb02e73 100644
--- a/core/Bootstrapping.h
+++ b/core/Bootstrapping.h
@@ -21,7 +21,8 @@ class MatchesSampler {
   void operator()(const Container &original, Container *sampled) {
     const size_t num_matches = original.size();
     std::uniform_int_distribution <size_t> mdist(0, num_matches - 1);
-    sampled->resize(num_matches);
+    sampled->clear();
+    sampled->reserve(num_matches);
     for (size_t i = 0; i < num_matches; ++i) {
       sampled->push_back(original[mdist(rng_)]);
     }
-- 
2.43.0


From 0bdd88f94f38bb6122c0c61b99e296beecfaa779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:53 +0000
Subject: [PATCH 06/21] fix: options accepted empty, incomplete and
 out-of-range numbers

---
 cmd/Option.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/Option.h b/cmd/Option.h
index 6472c62..5278640 100644
--- a/cmd/Option.h
+++ b/cmd/Option.h
@@ -6,6 +6,7 @@
 #include <iostream>
 #include <sstream>
 #include <string>
+#include <type_traits>
 
 #include "core/TypeInfo.h"
 
@@ -50,9 +51,11 @@ class Option : public BaseOption {
   }
 
   bool Parse(const std::string &str) override {
+    // The stream would wrap negative values around for unsigned types.
+    if (std::is_unsigned<T>::value && str[0] == '-') return false;
     std::istringstream iss(str);
     iss >> std::noskipws >> *value_;
-    return iss.eof();
+    return iss.eof() && !iss.fail();
   }
 
   const std::string& Name() const override {
-- 
2.43.0


From ecbfb0c840b0c6d088a82a37d3cc0e003d12e513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:58 +0000
Subject: [PATCH 07/21] fix: parser took -Xname for the option --name

---
 cmd/Parser.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/Parser.h b/cmd/Parser.h
index cc48590..96be543 100644
--- a/cmd/Parser.h
+++ b/cmd/Parser.h
@@ -101,7 +101,7 @@ class Parser {
       if (arg == "--") { break; }   // Skip options section with "--".
       if (arg == "--help") { show_help = true; continue; }
       const std::string opt_name = arg.substr(2);
-      auto opt_it = opts_.find(opt_name);
+      auto opt_it = arg[1] == '-' ? opts_.find(opt_name) : opts_.end();
       if (opt_it == opts_.end()) {
         std::cerr << "ERROR: Unknown option '" << arg << "'" << std::endl;
         return false;
-- 
2.43.0


From a9cd7abfe3d94a7b5a22ec909c5cd1f35bc734ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:02 +0000
Subject: [PATCH 08/21] fix: bootstrap read out of bounds without samples and
 for small or invalid alpha

---
 core/Bootstrapping.h       | 8 +++++++-
 tools/GenericKwsEvalTool.h | 9 +++++++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/core/Bootstrapping.h b/core/Bootstrapping.h
index cb02e73..f4fcf08 100644
--- a/core/Bootstrapping.h
+++ b/core/Bootstrapping.h
@@ -3,6 +3,7 @@
 
 #include <algorithm>
 #include <random>
+#include <stdexcept>
 #include <vector>
 
 #include "core/Match.h"
@@ -65,6 +66,10 @@ double ComputePercentileBootstrapCI(
     const Container& original_samples, size_t repetitions, double alpha,
     Statistic statistic, Sampler *sampler,
     double *lower_bound, double *upper_bound) {
+  if (repetitions < 1 || !(alpha >= 0.0 && alpha <= 1.0)) {
+    throw std::invalid_argument(
+        "bootstrapping needs some repetition and alpha in [0, 1]");
+  }
   // Compute observed statistic
   const double observed_statistic = statistic(original_samples);
   std::vector<double> statistics_diffs;
@@ -78,7 +83,8 @@ double ComputePercentileBootstrapCI(
     statistics_diffs.push_back(sample_statistic - observed_statistic);
   }
   std::sort(statistics_diffs.begin(), statistics_diffs.end());
-  const auto li = (size_t)((1.0 - alpha * 0.5) * repetitions);
+  const auto li = std::min((size_t)((1.0 - alpha * 0.5) * repetitions),
+                           repetitions - 1);
   const auto ui = (size_t)((      alpha * 0.5) * repetitions);
   *lower_bound = observed_statistic - statistics_diffs[li];
   *upper_bound = observed_statistic - statistics_diffs[ui];
diff --git a/tools/GenericKwsEvalTool.h b/tools/GenericKwsEvalTool.h
index 4b9bb0e..bbc711b 100644
--- a/tools/GenericKwsEvalTool.h
+++ b/tools/GenericKwsEvalTool.h
@@ -267,6 +267,15 @@ class GenericKwsEvalTool {
       return 1;
     }
 
+    if ((bootstrap_ci_gap || bootstrap_ci_map ||
+         bootstrap_ci_gndcg || bootstrap_ci_mndcg) &&
+        (bootstrap_samples < 1 ||
+         !(bootstrap_alpha >= 0.0 && bootstrap_alpha <= 1.0))) {
+      std::cerr << "ERROR: Confidence intervals need at least one bootstrapped "
+                << "sample and alpha in [0, 1]!" << std::endl;
+      return 1;
+    }
+
     // Read reference events
     if (ref_filename.empty()) {
       std::cerr << "ERROR: Empty filename was given for the references!"
-- 
2.43.0


From 2ccb747cc986bba83a974b06b5aec54cbb5e05e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:06 +0000
Subject: [PATCH 09/21] fix: mean recall-precision curve was NaN without
 matches

---
 tools/GenericKwsEvalTool.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/GenericKwsEvalTool.h b/tools/GenericKwsEvalTool.h
index bbc711b..a7aac5d 100644
--- a/tools/GenericKwsEvalTool.h
+++ b/tools/GenericKwsEvalTool.h
@@ -146,7 +146,7 @@ class GenericKwsEvalTool {
       for (size_t q = 1; q <= NQ; ++q) {
         s += sampled_pr[q][i];
       }
-      sampled_pr[0].push_back(s / NQ);
+      sampled_pr[0].push_back(NQ > 0 ? s / NQ : 0.0);
     }
 
     core::WriteCurveToFile(filename, sampled_rc, sampled_pr[0]);
-- 
2.43.0


From b51ef82416d8476829adbb47f1529c45bcfc5de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:10 +0000
Subject: [PATCH 10/21] fix: boxes with negative or large coordinates wrapped
 around in Icdar17KwsEval

---
 tools/Icdar17KwsEval.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/Icdar17KwsEval.cc b/tools/Icdar17KwsEval.cc
index 6882994..1c580e9 100644
--- a/tools/Icdar17KwsEval.cc
+++ b/tools/Icdar17KwsEval.cc
@@ -20,7 +20,7 @@ int main(int argc, const char **argv) {
   const std::string description =
       "  Official evaluation tool for ICDAR2017 H-KWS Competition.";
 
-  typedef ShapedEvent<std::string, DocumentBoundingBox<uint32_t>> RefEvent;
+  typedef ShapedEvent<std::string, DocumentBoundingBox<int64_t>> RefEvent;
   typedef ScoredEvent<RefEvent> HypEvent;
   typedef PlainTextReader<RefEvent> RefReader;
   typedef PlainTextReader<HypEvent> HypReader;
-- 
2.43.0


From 0c42b3a09473fcfc7084a8d58176073e7c919d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:13 +0000
Subject: [PATCH 11/21] fix: StringToIntMapper of 64-bit unsigned integers had
 no capacity

---
 mapper/StringToIntMapper.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/mapper/StringToIntMapper.h b/mapper/StringToIntMapper.h
index 267ff0e..e64b08b 100644
--- a/mapper/StringToIntMapper.h
+++ b/mapper/StringToIntMapper.h
@@ -3,6 +3,7 @@
 
 #include <exception>
 #include <limits>
+#include <stdexcept>
 #include <string>
 #include <unordered_map>
 
@@ -40,18 +41,18 @@ class StringToIntMapper : public Mapper<std::string, Int> {
     if (it != impl_->end()) {
       return it->second;
     } else {
-      if (impl_->size() < kMaxSize) {
+      if (impl_->size() <= kMaxValue) {
         return impl_->emplace_hint(it, input, impl_->size())->second;
       } else {
         throw std::range_error(
-            "Max size reached (" + std::to_string(kMaxSize) + ")");
+            "Max value reached (" + std::to_string(kMaxValue) + ")");
       }
     }
   }
 
  private:
-  static constexpr size_t kMaxSize =
-      1 + static_cast<size_t>(std::numeric_limits<Int>::max());
+  static constexpr size_t kMaxValue =
+      static_cast<size_t>(std::numeric_limits<Int>::max());
 
   Impl *impl_;
   bool own_;
-- 
2.43.0


From d8a7eff546a7ae277f296ee11baffcc37cc5fe3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:17 +0000
Subject: [PATCH 12/21] fix: StringEventToIntMapper never released the mapper
 it owns

---
 mapper/StringEventToIntMapper.h | 2 ++
 mapper/StringToIntMapper.h      | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/mapper/StringEventToIntMapper.h b/mapper/StringEventToIntMapper.h
index 48721cd..324ea50 100644
--- a/mapper/StringEventToIntMapper.h
+++ b/mapper/StringEventToIntMapper.h
@@ -30,6 +30,8 @@ class StringEventToIntMapper :
   StringEventToIntMapper(StringToIntMapper<Int> *map, bool own)
       : map_(map), own_(own) {}
 
+  virtual ~StringEventToIntMapper() { if (own_) delete map_; }
+
   OutputType operator()(const InputType &input) override {
     return OutputType((*map_)(input.Query()), (*map_)(input.Location()));
   }
diff --git a/mapper/StringToIntMapper.h b/mapper/StringToIntMapper.h
index e64b08b..67af781 100644
--- a/mapper/StringToIntMapper.h
+++ b/mapper/StringToIntMapper.h
@@ -30,7 +30,7 @@ class StringToIntMapper : public Mapper<std::string, Int> {
 
   StringToIntMapper(Impl *impl, bool own) : impl_(impl), own_(own) {}
 
-  ~StringToIntMapper() {
+  virtual ~StringToIntMapper() {
     if (own_) {
       delete impl_;
     }
-- 
2.43.0


From 103c98be739936a0ae10ace2f93c39322c947d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:48 +0000
Subject: [PATCH 13/21] fix: a coordinate like 4.5 or 1-2 was read as two
 fields

---
 core/BoundingBox.h | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/core/BoundingBox.h b/core/BoundingBox.h
index 36b2228..e61f390 100644
--- a/core/BoundingBox.h
+++ b/core/BoundingBox.h
@@ -1,6 +1,7 @@
 #ifndef CORE_BOUNDINGBOX_H_
 #define CORE_BOUNDINGBOX_H_
 
+#include <cctype>
 #include <cmath>
 #include <iostream>
 
@@ -62,9 +63,24 @@ struct BoundingBox {
   }
 };
 
+// Read a number that must be followed by a whitespace or the end of the stream.
+template <typename T>
+std::istream& ReadCoordinate(std::istream& is, T* value) {
+  if (is >> *value && !is.eof()) {
+    const int next = is.peek();
+    if (next != std::istream::traits_type::eof() && !std::isspace(next)) {
+      is.setstate(std::ios_base::failbit);
+    }
+  }
+  return is;
+}
+
 template <typename T>
 std::istream& operator>>(std::istream& is, BoundingBox<T>& bb) {
-  is >> bb.x >> bb.y >> bb.w >> bb.h;
+  ReadCoordinate(is, &bb.x);
+  ReadCoordinate(is, &bb.y);
+  ReadCoordinate(is, &bb.w);
+  ReadCoordinate(is, &bb.h);
   return is;
 }
 
-- 
2.43.0


From 66b03965b0c5e317baa48392c4513048b3ba4902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:53 +0000
Subject: [PATCH 14/21] fix: an empty query set excluded no query at all

---
 tools/GenericKwsEvalTool.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/GenericKwsEvalTool.h b/tools/GenericKwsEvalTool.h
index a7aac5d..c8e8723 100644
--- a/tools/GenericKwsEvalTool.h
+++ b/tools/GenericKwsEvalTool.h
@@ -356,7 +356,7 @@ class GenericKwsEvalTool {
                 << querygroups_filename << "\"" << std::endl;
     }
 
-    if (!query2group.empty()) {
+    if (!queryset_filename.empty() || !querygroups_filename.empty()) {
       // Filter out reference events.
       const size_t num_ref_events = ref_events.size();
       filter_events(query2group, &ref_events);
-- 
2.43.0


From bb884ecbce3d4a445d83d3f9cba8cb7c5ba9868a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:57 +0000
Subject: [PATCH 15/21] fix: read errors of the query set and query groups
 files went unnoticed

---
 tools/GenericKwsEvalTool.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/tools/GenericKwsEvalTool.h b/tools/GenericKwsEvalTool.h
index c8e8723..9a20247 100644
--- a/tools/GenericKwsEvalTool.h
+++ b/tools/GenericKwsEvalTool.h
@@ -325,6 +325,11 @@ class GenericKwsEvalTool {
         auto q = (*query_mapper_)(qt);
         query2group[q] = q;
       }
+      if (qfs.bad()) {
+        std::cerr << "ERROR: Query set file \"" << queryset_filename
+                  << "\" could not be read!" << std::endl;
+        return 1;
+      }
       qfs.close();
       std::cerr << "INFO: " << query2group.size()
                 << " queries were read from \""
@@ -350,6 +355,11 @@ class GenericKwsEvalTool {
           query2group[fields[i]] = fields[0];
         }
       }
+      if (qfs.bad()) {
+        std::cerr << "ERROR: Query groups file \"" << querygroups_filename
+                  << "\" could not be read!" << std::endl;
+        return 1;
+      }
       qfs.close();
       std::cerr << "INFO: " << query2group.size()
                 << " queries were read from \""
-- 
2.43.0


From 5d8ab403a8e4088659f005185ea104e63503128f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:02 +0000
Subject: [PATCH 16/21] fix: failed writes of matches and metrics were silent,
 of curves aborted

---
 tools/GenericKwsEvalTool.h | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/tools/GenericKwsEvalTool.h b/tools/GenericKwsEvalTool.h
index 9a20247..bdded38 100644
--- a/tools/GenericKwsEvalTool.h
+++ b/tools/GenericKwsEvalTool.h
@@ -429,6 +429,11 @@ class GenericKwsEvalTool {
         mfs << "## " << m << std::endl;
       }
       mfs.close();
+      if (!mfs) {
+        std::cerr << "ERROR: Dump matches file \"" << matches_filename
+                  << "\" could not be written!" << std::endl;
+        return 1;
+      }
     }
 
     {
@@ -479,16 +484,27 @@ class GenericKwsEvalTool {
         bootstrap_samples, bootstrap_seed,
         core::MeanNDCG<MatchType>(collapse_matches));
 
-    if (!grp_filename.empty()) {
-      WriteGlobalRPCurve(
-          grp_filename, matches, curve_samples, collapse_matches,
-          interpolated_precision, trapezoid_integral);
+    if (!std::cout) {
+      std::cerr << "ERROR: Failed writing to stdout!" << std::endl;
+      return 1;
     }
 
-    if (!mrp_filename.empty()) {
-      WriteMeanRPCurve(
-          mrp_filename, matches_by_group, curve_samples, collapse_matches,
-          interpolated_precision, trapezoid_integral);
+    try {
+      if (!grp_filename.empty()) {
+        WriteGlobalRPCurve(
+            grp_filename, matches, curve_samples, collapse_matches,
+            interpolated_precision, trapezoid_integral);
+      }
+
+      if (!mrp_filename.empty()) {
+        WriteMeanRPCurve(
+            mrp_filename, matches_by_group, curve_samples, collapse_matches,
+            interpolated_precision, trapezoid_integral);
+      }
+    } catch (const std::ios_base::failure &) {
+      std::cerr << "ERROR: Failed writing the recall-precision curves!"
+                << std::endl;
+      return 1;
     }
 
     return 0;
-- 
2.43.0


From bea579ff7ffd120d69858781a7859dc406be2714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:35 +0000
Subject: [PATCH 17/21] fix: assigning a string mapper released its table twice

---
 mapper/StringEventToIntMapper.h | 9 +++++++++
 mapper/StringToIntMapper.h      | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/mapper/StringEventToIntMapper.h b/mapper/StringEventToIntMapper.h
index 324ea50..fe04222 100644
--- a/mapper/StringEventToIntMapper.h
+++ b/mapper/StringEventToIntMapper.h
@@ -32,6 +32,15 @@ class StringEventToIntMapper :
 
   virtual ~StringEventToIntMapper() { if (own_) delete map_; }
 
+  StringEventToIntMapper& operator=(const StringEventToIntMapper &other) {
+    if (map_ != other.map_) {
+      if (own_) delete map_;
+      map_ = other.map_;
+      own_ = false;
+    }
+    return *this;
+  }
+
   OutputType operator()(const InputType &input) override {
     return OutputType((*map_)(input.Query()), (*map_)(input.Location()));
   }
diff --git a/mapper/StringToIntMapper.h b/mapper/StringToIntMapper.h
index 67af781..ed8d070 100644
--- a/mapper/StringToIntMapper.h
+++ b/mapper/StringToIntMapper.h
@@ -36,6 +36,15 @@ class StringToIntMapper : public Mapper<std::string, Int> {
     }
   }
 
+  StringToIntMapper& operator=(const StringToIntMapper &other) {
+    if (impl_ != other.impl_) {
+      if (own_) delete impl_;
+      impl_ = other.impl_;
+      own_ = false;
+    }
+    return *this;
+  }
+
   OutputType operator()(const InputType &input) override {
     const auto it = impl_->find(input);
     if (it != impl_->end()) {
-- 
2.43.0


From 549c66b3938925dd45a5ad44af96e17d07884d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:39 +0000
Subject: [PATCH 18/21] fix: an unreadable standard input was taken for an
 empty one

---
 tools/GenericKwsEvalTool.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/GenericKwsEvalTool.h b/tools/GenericKwsEvalTool.h
index bdded38..94beb99 100644
--- a/tools/GenericKwsEvalTool.h
+++ b/tools/GenericKwsEvalTool.h
@@ -1,6 +1,7 @@
 #ifndef TOOLS_GENERICKWSEVALTOOL_H_
 #define TOOLS_GENERICKWSEVALTOOL_H_
 
+#include <cstdio>
 #include <iostream>
 #include <fstream>
 #include <string>
@@ -294,7 +295,7 @@ class GenericKwsEvalTool {
     // Read hypothesis events
     std::vector<HypEvent> hyp_events;
     if (!(hyp_filename.empty()
-          ? hyp_reader_->Read(&std::cin, &hyp_events)
+          ? hyp_reader_->Read(&std::cin, &hyp_events) && !std::ferror(stdin)
           : hyp_reader_->Read(hyp_filename, &hyp_events))) {
       if (argc == 2) {
         std::cerr << "ERROR: Failed reading from stdin!" << std::endl;
-- 
2.43.0


From 86acba9e7ce864456ad6eb69fa08dbc00e4591d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:03 +0000
Subject: [PATCH 19/21] fix: options of 8-bit integers took characters and
 rejected numbers

---
 cmd/Option.h | 38 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/cmd/Option.h b/cmd/Option.h
index 5278640..76aba67 100644
--- a/cmd/Option.h
+++ b/cmd/Option.h
@@ -2,6 +2,7 @@
 #define CMD_OPTION_H
 
 #include <cassert>
+#include <cstdint>
 #include <iomanip>
 #include <iostream>
 #include <sstream>
@@ -92,6 +93,43 @@ bool Option<bool>::Parse(const std::string& str) {
   }
 }
 
+// Specializations for 8-bit integers, which streams take for characters
+template <>
+std::string Option<int8_t>::Help(size_t w) const {
+  std::ostringstream oss;
+  oss << std::setw(w) << std::left << name_ << " : " << help_
+      << " (type = " << TypeInfo<int8_t>::Name()
+      << ", value = \"" << static_cast<int>(*value_) << "\")";
+  return oss.str();
+}
+
+template <>
+std::string Option<uint8_t>::Help(size_t w) const {
+  std::ostringstream oss;
+  oss << std::setw(w) << std::left << name_ << " : " << help_
+      << " (type = " << TypeInfo<uint8_t>::Name()
+      << ", value = \"" << static_cast<int>(*value_) << "\")";
+  return oss.str();
+}
+
+template <>
+bool Option<int8_t>::Parse(const std::string& str) {
+  int16_t value = 0;
+  if (!Option<int16_t>(name_, help_, &value).Parse(str)) return false;
+  if (value < INT8_MIN || value > INT8_MAX) return false;
+  *value_ = static_cast<int8_t>(value);
+  return true;
+}
+
+template <>
+bool Option<uint8_t>::Parse(const std::string& str) {
+  uint16_t value = 0;
+  if (!Option<uint16_t>(name_, help_, &value).Parse(str)) return false;
+  if (value > UINT8_MAX) return false;
+  *value_ = static_cast<uint8_t>(value);
+  return true;
+}
+
 // Specialization for std::string
 template <>
 bool Option<std::string>::Parse(const std::string &str) {
-- 
2.43.0


From 65895af06a5d252dde209eaa6bc6fc47565a9fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:41 +0000
Subject: [PATCH 20/21] fix: NDCG gains of aggregated entries keep the
 precision of the result

The correct fraction of an entry was computed in single precision, so that the
gain of a long tie with few correct answers lost most of its digits.
---
 core/Assessment.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/Assessment.h b/core/Assessment.h
index 90fed54..98b8741 100644
--- a/core/Assessment.h
+++ b/core/Assessment.h
@@ -204,7 +204,7 @@ Real ComputeNDCG(const Container &errors) {
     size_t i = 1;
     for (auto it = errors.begin(); it != errors.end(); ++it) {
       if (it->NH() > 0) {
-        const Real r = 1 - it->FP() / it->NH();
+        const Real r = 1 - static_cast<Real>(it->FP()) / it->NH();
         for (size_t j = 0; j < it->NH(); ++j, ++i) {
           dcg += (exp2(r) - 1) / log2(i + 1);
         }
-- 
2.43.0


From c5b7af1d5f9276c6419879e9bcf520c63a5db755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:41 +0000
Subject: [PATCH 21/21] fix: too many curve points end in an error, not in an
 abort

---
 core/Assessment.h          | 1 +
 tools/GenericKwsEvalTool.h | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/core/Assessment.h b/core/Assessment.h
index 98b8741..9086054 100644
--- a/core/Assessment.h
+++ b/core/Assessment.h
@@ -341,6 +341,7 @@ void GetEvenlyDistributedPoints01Interval(
     const size_t num_points, std::vector<Real>* x) {
   x->clear();
   if (num_points > 1) {
+    x->reserve(num_points);
     for (size_t k = 0; k < num_points; ++k) {
       x->push_back(static_cast<Real>(k) / (num_points - 1));
     }
diff --git a/tools/GenericKwsEvalTool.h b/tools/GenericKwsEvalTool.h
index 94beb99..a2df219 100644
--- a/tools/GenericKwsEvalTool.h
+++ b/tools/GenericKwsEvalTool.h
@@ -506,6 +506,11 @@ class GenericKwsEvalTool {
       std::cerr << "ERROR: Failed writing the recall-precision curves!"
                 << std::endl;
       return 1;
+    } catch (const std::exception &e) {
+      // For instance, too many points for the memory.
+      std::cerr << "ERROR: Failed computing the recall-precision curves: "
+                << e.what() << std::endl;
+      return 1;
     }
 
     return 0;
-- 
2.43.0

