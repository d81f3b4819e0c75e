A = "core/Assessment.h"
B = "core/Bootstrapping.h"
G = "tools/GenericKwsEvalTool.h"
SM = "matcher/SimpleMatcher.h"
ES = "core/DocumentBoundingBoxEventSet.h"
INC = '''#include <functional>
#include "core/BoundingBox.h"
#include "core/DocumentBoundingBox.h"
#include "core/DocumentBoundingBoxEventSet.h"
#include "core/EventSet.h"
#include "core/ScoredEvent.h"
#include "core/ShapedEvent.h"
#include "core/Match.h"
#include "core/MatchErrorCounts.h"
#include "core/Assessment.h"
#include "core/Bootstrapping.h"
#include "core/Statistic.h"
#include "matcher/SimpleMatcher.h"
#include "scorer/IntersectionOverHypothesisAreaScorer.h"
#include "scorer/IntersectionOverUnionAreaScorer.h"
#include "scorer/SoftBoundingBoxScorer.h"
using namespace kws::core;
typedef DocumentBoundingBox<int> Box;
typedef ShapedEvent<std::string, Box> Ref;
typedef ScoredEvent<Ref> Hyp;
typedef Match<Ref, Hyp> M;
typedef std::vector<M> Ms;
static Ref R(const char *q, int x, int y, int w, int h, const char *d = "d") { return Ref(q, Box(d, x, y, w, h)); }
static Hyp H(const char *q, int x, int y, int w, int h, float s, const char *d = "d") { return Hyp(q, Box(d, x, y, w, h), s); }
'''
SEEDS = []


def seed(id, p, edits, needs, breaks, **kw):
    if "cc" in kw:
        kw["cc"] = INC + kw["cc"]
    SEEDS.append(dict(id=id, p=p, edits=edits, needs=needs, breaks=breaks, **kw))


seed("C01-mean-skips-unreferenced", "C01", [
    (A, '''    sumAP += ComputeAP(pr, rc, trapezoid_integral);
  }
  // Average AP across all queries.
  return matches_by_query.size() > 0 ? sumAP / matches_by_query.size() : 0.0;''',
     '''    if (std::none_of(matches_vector.begin(), matches_vector.end(),
                     [](const Match& m) { return m.HasRef(); })) {
      continue;
    }
    sumAP += ComputeAP(pr, rc, trapezoid_integral);
    ++num_queries;
  }
  // Average AP across all queries.
  return num_queries > 0 ? sumAP / num_queries : 0.0;'''),
    (A, '''  double sumAP = 0.0;
  for (auto matches_vector''', '''  double sumAP = 0.0;
  size_t num_queries = 0;
  for (auto matches_vector''')],
    "a query with false positives but without references",
    "queries without references no longer count as 0 in mAP",
    sh='''
printf 'a x\\nb y\\n' > $T/r
printf 'a x 0.9\\nb y 0.8\\nc z 0.7\\nd z 0.6\\n' > $T/h
out=$($S $T/r $T/h 2>/dev/null) || fail status
echo "$out" | grep -qx 'mAP = 0.5' || fail "$out"
''')

seed("C01-asc-mean-resorted", "C01", [
    (G, '''      const double value = statistic(grouped_matches, false);
      std::cout << "m"''', '''      const double value = statistic(grouped_matches, true);
      std::cout << "m"''')],
    "ranking order asc or none, where re-sorting the groups by decreasing score changes them",
    "mean metrics ignore the requested ranking order",
    sh='''
printf 'a x\\na y\\n' > $T/r
printf 'a x 0.9\\na z 0.1\\na w 0.2\\n' > $T/h
out=$($S --sort asc $T/r $T/h 2>/dev/null) || fail status
g=$(echo "$out" | sed -n 's/^gNDCG = //p'); m=$(echo "$out" | sed -n 's/^mNDCG = //p')
[ -n "$g" ] && [ "$g" = "$m" ] || fail "one query, yet $g is not $m"
''')

seed("C01-none-order-stable", "C01", [
    (G, '''    } else if (sort_criterion != "none") {''',
     '''    } else if (sort_criterion == "none") {
      // Keep the file order, but group hypotheses with the same score.
      std::stable_sort(hyp_events.begin(), hyp_events.end(),
                       [](const HypEvent& a, const HypEvent& b) {
                         return a.Query() < b.Query();
                       });
    } else {''')],
    "--sort none with the hypotheses of several queries interleaved",
    "--sort none does not rank in file order",
    sh='''
printf 'a x\\nb y\\n' > $T/r
# mapper numbers a=0, so b's false positives rank after a's hit if regrouped
printf 'b z 0.9\\nb w 0.8\\na x 0.1\\nb y 0.05\\n' > $T/h
out=$($S --sort none $T/r $T/h 2>/dev/null) || fail status
# ranks: fp fp hit hit -> interpolated precision 0.5 everywhere
echo "$out" | grep -qx 'gAP = 0.5' || fail "$out"
''')

seed("C02-stop-at-best-overlap", "C02", [
    (SM, '''            repeated_matches_.push_back(m);
          }
        }''', '''            repeated_matches_.push_back(m);
            if (errors.FN() <= 0.0f) break;
          }
        }''')],
    "a hypothesis whose best overlapping reference is taken and which also matches another free one",
    "the second reference is left unmatched",
    cc='''
using namespace kws::matcher; using namespace kws::scorer;
int main() {
  IntersectionOverHypothesisAreaScorer<Ref, Hyp> s(0.3f);
  SimpleMatcher<Ref, Hyp> m(&s);
  std::vector<Ref> r{R("a", 0, 0, 10, 10), R("a", 6, 0, 10, 10)};
  std::vector<Hyp> h{H("a", 0, 0, 10, 10, .9f), H("a", 2, 0, 10, 10, .8f)};
  const auto res = m.Match(r, h);
  size_t hits = 0;
  for (const auto& x : res) hits += x.HasRef() && x.HasHyp();
  CHECK(hits == 2);
  return 0;
}''')

seed("C02-repeated-not-cleared", "C02", [
    (SM, '''    repeated_matches_.clear();
''', '''    repeated_matches_.reserve(hyps.size());
''')],
    "a matcher used for more than one evaluation, the earlier one with repetitions",
    "repetitions of earlier evaluations are reported again",
    cc='''
using namespace kws::matcher; using namespace kws::scorer;
int main() {
  IntersectionOverHypothesisAreaScorer<Ref, Hyp> s(0.5f);
  SimpleMatcher<Ref, Hyp> m(&s);
  std::vector<Ref> r{R("a", 0, 0, 10, 10)};
  m.Match(r, {H("a", 0, 0, 10, 10, .9f), H("a", 1, 0, 10, 10, .8f)});
  CHECK(m.GetRepeatedMatches().size() == 1);
  m.Match(r, {H("a", 0, 0, 10, 10, .9f)});
  CHECK(m.GetRepeatedMatches().empty());
  return 0;
}''')

seed("C02-stale-references", "C02", [
    (SM, '''    refs_set_->Clear();
''', '''    if (refs_set_->Size() != refs.size()) refs_set_->Clear();
''')],
    "a matcher reused with another reference list of the same length",
    "hypotheses match references of an earlier evaluation",
    cc='''
using namespace kws::matcher; using namespace kws::scorer;
int main() {
  IntersectionOverHypothesisAreaScorer<Ref, Hyp> s(0.5f);
  SimpleMatcher<Ref, Hyp> m(&s);
  m.Match({R("a", 0, 0, 10, 10)}, {H("a", 0, 0, 10, 10, .9f)});
  const auto res = m.Match({R("a", 50, 0, 10, 10)}, {H("a", 0, 0, 10, 10, .9f)});
  CHECK(res.size() == 2);
  CHECK(!res[0].HasRef() && !res[1].HasHyp());
  return 0;
}''')

seed("C02-soft-hit-threshold", "C02", [
    (SM, '''if (errors.FP() < 1.0f) {''', '''if (errors.FP() + errors.FN() < 1.0f) {''')],
    "a soft scorer and a pair that overlaps only partly (error rates adding up to 1 or more)",
    "weakly overlapping pairs are taken for false positives and misses",
    cc='''
using namespace kws::matcher; using namespace kws::scorer;
int main() {
  SoftIntersectionOverHypothesisAreaScorer<Ref, Hyp> s;
  SimpleMatcher<Ref, Hyp> m(&s);
  const auto res = m.Match({R("a", 0, 0, 10, 10)}, {H("a", 7, 0, 10, 10, .9f)});
  CHECK(res.size() == 1);
  CHECK(res[0].HasRef() && res[0].HasHyp());
  return 0;
}''')

seed("C02-unmatched-per-score", "C02", [
    (SM, '''            unmatched_refs.erase(ref);
''', '''            if (errors.FN() < 0.875f) unmatched_refs.erase(ref);
''')],
    "a soft scorer and a reference covered by an eighth or less",
    "a barely covered reference stays available and is used again or missed too",
    cc='''
using namespace kws::matcher; using namespace kws::scorer;
int main() {
  SoftIntersectionOverHypothesisAreaScorer<Ref, Hyp> s;
  SimpleMatcher<Ref, Hyp> m(&s);
  const auto res = m.Match({R("a", 0, 0, 10, 10)}, {H("a", 0, 0, 1, 10, .9f), H("a", 4, 0, 1, 10, .8f)});
  CHECK(res.size() == 1);
  CHECK(m.GetRepeatedMatches().size() == 1);
  return 0;
}''')

seed("C03-int-corners", "C03", [
    ("core/BoundingBox.h", '''    const T x2 = std::min<T>(x + w, other.x + other.w);''',
     '''    const T x2 = std::min<int>(x + w, other.x + other.w);''')],
    "a right edge that does not fit int: fractional, or beyond 2^31",
    "the intersection is truncated for fractional or large coordinates",
    cc='''
int main() {
  BoundingBox<double> a(0, 0, 1.5, 1), b(0.25, 0, 2, 1);
  CHECK(a.IntersectionArea(b) == 1.25);
  BoundingBox<int64_t> c(2147483000LL, 0, 2000, 10), d(2147483000LL, 0, 3000, 10);
  CHECK(c.IntersectionArea(d) == 20000);
  return 0;
}''')

seed("C03-containment-shortcut", "C03", [
    ("core/BoundingBox.h", '''    const T x1 = std::max<T>(x, other.x);
''', '''    if (x <= other.x && y <= other.y && x + w >= other.x + other.w &&
        y + h >= other.y + h) {
      return other.Area();  // Fully contained.
    }
    const T x1 = std::max<T>(x, other.x);
''')],
    "a taller box hanging out below another one that starts at the same height",
    "the intersection exceeds the common region",
    cc='''
int main() {
  BoundingBox<int> a(0, 0, 10, 10), b(2, 0, 4, 30);
  CHECK(a.IntersectionArea(b) == 40);
  CHECK(b.IntersectionArea(a) == 40);
  return 0;
}''')

seed("C03-clip-at-origin", "C03", [
    ("core/BoundingBox.h", '''    const T y1 = std::max<T>(y, other.y);''',
     '''    const T y1 = std::max<T>(std::max<T>(y, other.y), 0);''')],
    "boxes above the origin (negative y)",
    "the part of the overlap at negative coordinates is lost",
    sh='''
printf 'a p 0 -60 10 100\\n' > $T/r
printf 'a p 0 -60 10 100 1\\n' > $T/h
out=$($I $T/r $T/h 2>/dev/null) || fail status
echo "$out" | grep -qx 'gAP = 1' || fail "$out"
''')

seed("C04-soft-one-pixel-reference", "C04", [
    ("scorer/SoftBoundingBoxScorer.h", '''(ref.Area() > 0.0f ?''', '''(ref.Area() > 1.0f ?''')],
    "a reference of area 1 (or less) that is covered",
    "the false-negative rate of tiny references is 1",
    cc='''
using namespace kws::scorer;
int main() {
  SoftIntersectionOverHypothesisAreaScorer<Ref, Hyp> s;
  const auto e = s(R("a", 3, 3, 1, 1), H("a", 3, 3, 2, 1, 1.f));
  CHECK(e.FP() == 0.5f && e.FN() == 0.0f);
  return 0;
}''')

seed("C04-tolerant-threshold", "C04", [
    ("scorer/IntersectionOverHypothesisAreaScorer.h", '''if (val >= threshold_) return''',
     '''if (val + 1e-3f >= threshold_) return''')],
    "an overlap just below the threshold (less than 0.1 %)",
    "pairs below the threshold are accepted",
    cc='''
using namespace kws::scorer;
int main() {
  IntersectionOverHypothesisAreaScorer<Ref, Hyp> s(0.5f);
  const auto e = s(R("a", 0, 0, 499, 20), H("a", 0, 0, 1000, 20, 1.f));
  const auto f = s(R("a", 0, 0, 9998, 20), H("a", 0, 0, 20000, 20, 1.f));
  CHECK(e.FP() == 1.0f && f.FP() == 1.0f);
  return 0;
}''')

seed("C04-iou-empty-hypothesis", "C04", [
    ("scorer/IntersectionOverUnionAreaScorer.h", '''hyp.Area() > 0) {''', '''hyp.Area() + ref.Area() > 0) {''')],
    "a hypothesis of zero area and threshold 0",
    "an empty hypothesis is a perfect match",
    cc='''
using namespace kws::scorer;
int main() {
  IntersectionOverUnionAreaScorer<Ref, Hyp> s(0.0f);
  const auto e = s(R("a", 0, 0, 5, 5), H("a", 0, 0, 0, 5, 1.f));
  CHECK(e.FP() == 1.0f && e.FN() == 1.0f);
  return 0;
}''')

seed("C04-iou-integer-division", "C04", [
    ("scorer/IntersectionOverUnionAreaScorer.h", '''IntersectionArea(ref, hyp) / (1.0f * UnionArea(ref, hyp));''',
     '''(int)(100.0f * IntersectionArea(ref, hyp) / UnionArea(ref, hyp) + 0.5f) / 100.0f;''')],
    "an overlap within half a percent of the threshold",
    "the overlap is rounded to whole percents before it is compared",
    cc='''
using namespace kws::scorer;
int main() {
  IntersectionOverUnionAreaScorer<Ref, Hyp> s(0.5f);
  const auto e = s(R("a", 0, 0, 1000, 1), H("a", 0, 0, 498, 1, 1.f));
  CHECK(e.FP() == 1.0f);
  return 0;
}''')

seed("C05-interpolation-first-point", "C05", [
    (A, '''for (size_t i = errors.size() - 1; i > 0; --i) {''', '''for (size_t i = errors.size() - 1; i > 1; --i) {''')],
    "interpolation where the first point has less precision than a later one",
    "the first point keeps its raw precision",
    cc='''
int main() {
  std::vector<MatchError> e{{1, 0}, {0, 0}, {0, 0}};
  std::vector<double> p, r;
  ComputePrecisionAndRecall(e, true, &p, &r);
  CHECK(p.size() == 3 && std::fabs(p[0] - 2. / 3) < 1e-12);
  return 0;
}''')

seed("C05-interpolate-next-only", "C05", [
    (A, '''    for (size_t i = errors.size() - 1; i > 0; --i) {
      pr->at(i - 1) = std::max(pr->at(i - 1), pr->at(i));''',
     '''    for (size_t i = 1; i < errors.size(); ++i) {
      pr->at(i - 1) = std::max(pr->at(i - 1), pr->at(i));''')],
    "interpolation where a later precision two or more ranks away is the maximum",
    "precision is only maximised over the next rank",
    cc='''
int main() {
  std::vector<MatchError> e{{1, 0}, {1, 0}, {1, 0}, {0, 0}, {0, 0}, {0, 0}};
  std::vector<double> p, r;
  ComputePrecisionAndRecall(e, true, &p, &r);
  for (double x : p) CHECK(std::fabs(x - 0.5) < 1e-12);
  return 0;
}''')

seed("C06-error-ap-counts-misses", "C06", [
    (A, '''    const Real tp = (errors[i].NH() - errors[i].FP());''', '''    const Real tp = (errors[i].NR() - errors[i].FN());
    if (errors[i].FN() > 0 && !trapezoid) continue;''')],
    "aggregated entries in which hits and misses come together",
    "AP from errors disagrees with AP from the curve",
    cc='''
int main() {
  std::vector<MatchErrorCounts> e{MatchErrorCounts(0, 1, 1, 2), MatchErrorCounts(0, 0, 1, 1)};
  std::vector<double> p, r;
  ComputePrecisionAndRecall(e, false, &p, &r);
  CHECK(std::fabs(ComputeAP(e, p, false) - ComputeAP(p, r, false)) < 1e-9);
  return 0;
}''')

seed("C06-global-sorted-per-group", "C06", [
    (A, '''      all_matches.push_back(match);
    }
  }
  if (sort_matches) { SortMatchesDecreasingScore(&all_matches); }
  // Compute precision and recall curves from the matches''', '''      all_matches.push_back(match);
    }
    if (sort_matches && all_matches.size() == matches_vector.size()) {
      SortMatchesDecreasingScore(&all_matches);
    }
  }
  // Compute precision and recall curves from the matches''')],
    "several groups whose scores interleave, pooled with sorting",
    "pooled AP ranks group after group",
    cc='''
int main() {
  std::vector<Ms> g(2);
  g[0].push_back(M(R("a", 0, 0, 1, 1), H("a", 0, 0, 1, 1, .2f), MatchError(0, 0)));
  g[1].push_back(M::MakeFalsePositive(H("b", 0, 0, 1, 1, .9f)));
  g[1].push_back(M::MakeFalsePositive(H("b", 1, 0, 1, 1, .8f)));
  GlobalAP<M> ap(true, false, false);
  CHECK(std::fabs(ap(g, true) - 1. / 3) < 1e-12);
  return 0;
}''')

seed("C06-mean-ignores-empty", "C06", [
    (A, '''  return matches_by_query.size() > 0 ? sumAP / matches_by_query.size() : 0.0;''',
     '''  const size_t num_queries = matches_by_query.size() -
      std::count_if(matches_by_query.begin(), matches_by_query.end(),
                    [](const std::vector<Match>& m) { return m.empty(); });
  return num_queries > 0 ? sumAP / num_queries : 0.0;''')],
    "a group without matches",
    "the mean is not over all groups",
    cc='''
int main() {
  std::vector<Ms> g(2);
  g[0].push_back(M(R("a", 0, 0, 1, 1), H("a", 0, 0, 1, 1, .2f), MatchError(0, 0)));
  MeanAP<M> ap(true, true, true);
  CHECK(std::fabs(ap(g, false) - 0.5) < 1e-12);
  return 0;
}''')

seed("C07-misses-take-ranks", "C07", [
    (A, '''          dcg += (exp2(r) - 1) / log2(i + 1);
        }
      }''', '''          dcg += (exp2(r) - 1) / log2(i + 1);
        }
      } else {
        i += it->NR();
      }''')],
    "misses that come before hypotheses (groups pooled without sorting)",
    "references without hypothesis push later hypotheses down the ranking",
    cc='''
int main() {
  std::vector<Ms> g(2);
  g[0].push_back(M::MakeFalseNegative(R("a", 0, 0, 1, 1)));
  g[1].push_back(M(R("b", 0, 0, 1, 1), H("b", 0, 0, 1, 1, .2f), MatchError(0, 0)));
  GlobalNDCG<M> n(false);
  CHECK(std::fabs(n(g, false) - 1 / (1 + 1 / log2(3.))) < 1e-9);
  return 0;
}''')

seed("C07-tie-run-one-rank", "C07", [
    (A, '''        for (size_t j = 0; j < it->NH(); ++j, ++i) {
          dcg += (exp2(r) - 1) / log2(i + 1);
        }''', '''        for (size_t j = 0; j < it->NH(); ++j, ++i) {
          dcg += (exp2(r) - 1) / log2((r < 1 || it->NH() < 7 ? i : i - j) + 1);
        }''')],
    "an aggregated entry of seven or more hypotheses, all correct",
    "tied hypotheses are all discounted by the first rank of their run",
    cc='''
int main() {
  std::vector<MatchErrorCounts> e{MatchErrorCounts(0, 0, 8, 8)};
  CHECK(std::fabs(ComputeNDCG<double>(e) - 1) < 1e-6);
  return 0;
}''')

seed("C07-linear-gain-aggregated", "C07", [
    (A, '''          dcg += (exp2(r) - 1) / log2(i + 1);''', '''          dcg += (it->NH() > 4 ? r : exp2(r) - 1) / log2(i + 1);''')],
    "a run of five or more tied hypotheses, partly correct",
    "the gain of long ties is linear",
    cc='''
int main() {
  std::vector<MatchErrorCounts> e{MatchErrorCounts(3, 0, 6, 6)};
  CHECK(std::fabs(ComputeNDCG<double>(e) - (exp2(0.5) - 1)) < 1e-6);
  return 0;
}''')

seed("C08-near-ties-merged", "C08", [
    (A, '''        score != collapsed_matches.back().second) {''', '''        !(std::abs(score - collapsed_matches.back().second) < 1e-6f ||
          score == collapsed_matches.back().second)) {''')],
    "consecutive scores that differ by less than a millionth",
    "different scores are collapsed into one point",
    cc='''
int main() {
  Ms m;
  m.push_back(M::MakeFalsePositive(H("a", 0, 0, 1, 1, 3e-7f)));
  m.push_back(M(R("a", 0, 0, 1, 1), H("a", 0, 0, 1, 1, 1e-7f), MatchError(0, 0)));
  CHECK(CollapseMatches(m).size() == 2);
  return 0;
}''')

seed("C08-miss-score-zero", "C08", [
    (A, '''                        : -std::numeric_limits<float>::infinity();''', '''                        : std::min(0.0f, collapsed_matches.empty() ? 0.0f : collapsed_matches.back().second);''')],
    "a lowest hypothesis score of zero or below, followed by misses",
    "misses are merged with the last hypotheses",
    cc='''
int main() {
  Ms m;
  m.push_back(M::MakeFalsePositive(H("a", 0, 0, 1, 1, -2.f)));
  m.push_back(M::MakeFalseNegative(R("a", 0, 0, 1, 1)));
  CHECK(CollapseMatches(m).size() == 2);
  return 0;
}''')

seed("C08-sort-misses-invalid", "C08", [
    (A, '''                return a.HasHyp();
              }''', '''                return !b.HasHyp() || a.GetHyp().Score() > 0;
              }''')],
    "sorting a list with misses and hypotheses of score 0 or below, or many misses",
    "the comparison is no ordering any more",
    cc='''
int main() {
  for (int n = 1; n < 40; ++n) {
    Ms m;
    for (int i = 0; i < n; ++i) m.push_back(M::MakeFalseNegative(R("a", i, 0, 1, 1)));
    for (int i = 0; i < n; ++i) m.push_back(M::MakeFalsePositive(H("a", i, 0, 1, 1, -1.f * i)));
    SortMatchesDecreasingScore(&m);
    for (int i = 0; i < n; ++i) CHECK(m[i].HasHyp() && !m[n + i].HasHyp());
  }
  return 0;
}''')

seed("C08-sort-by-location", "C08", [
    (A, '''                return a.GetHyp().Score() > b.GetHyp().Score();''', '''                return (int)(a.GetHyp().Score() * 1e4) >
                    (int)(b.GetHyp().Score() * 1e4);''')],
    "scores that differ by less than 1e-4",
    "close scores are left unsorted",
    cc='''
int main() {
  Ms m;
  m.push_back(M::MakeFalsePositive(H("a", 0, 0, 1, 1, 0.50001f)));
  m.push_back(M::MakeFalsePositive(H("a", 1, 0, 1, 1, 0.50004f)));
  SortMatchesDecreasingScore(&m);
  CHECK(m[0].GetHyp().Score() > m[1].GetHyp().Score());
  return 0;
}''')

seed("C05-total-from-hypotheses", "C05", [
    (A, '''  const auto TR = NumTotalReferences(errors);

  size_t sumNR = 0''', '''  size_t TR = 0;
  for (const auto &e : errors) TR += e.NR() > 0 ? std::max(e.NR() - e.NH(), size_t(1)) : 0;

  size_t sumNR = 0''')],
    "aggregated entries with several references",
    "recall of collapsed lists is relative to the wrong total",
    cc='''
int main() {
  std::vector<MatchErrorCounts> e{MatchErrorCounts(0, 0, 2, 2), MatchErrorCounts(0, 2, 0, 2)};
  std::vector<double> p, r;
  ComputePrecisionAndRecall(e, false, &p, &r);
  CHECK(std::fabs(r[0] - 0.5) < 1e-12 && std::fabs(r[1] - 0.5) < 1e-12);
  return 0;
}''')

