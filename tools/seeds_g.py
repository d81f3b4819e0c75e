"""Seventh batch: objects used again, early returns, copies."""
import importlib.util as _u, os as _o
_s = _u.spec_from_file_location("seeds_a_", _o.path.join(_o.path.dirname(_o.path.abspath(__file__)), "seeds_a.py"))
_m = _u.module_from_spec(_s); _s.loader.exec_module(_m)
A, B, G, SM, ES, INC = _m.A, _m.B, _m.G, _m.SM, _m.ES, _m.INC
SEEDS = []
P = "cmd/Parser.h"
BB = "core/BoundingBox.h"
MAP = "mapper/StringToIntMapper.h"


def seed(id, p, edits, needs, breaks, **kw):
    if "cc" in kw:
        kw["cc"] = INC + kw["cc"]
    SEEDS.append(dict(id=id, p=p, edits=edits, needs=needs, breaks=breaks, **kw))


seed("C13-arguments-continue", "C13", [
    (P, '''    size_t j = 0;
    for (j = 0; i < argc && j < args_.size(); ++i, ++j) {''', '''    size_t& j = num_args_;
    for (; i < argc && j < args_.size(); ++i, ++j) {'''),
    (P, '''  std::vector<BaseOption*> opt_args_;
};''', '''  std::vector<BaseOption*> opt_args_;
  size_t num_args_ = 0;  // arguments that have a value
};''')],
    "one parser object and two command lines",
    "the second line's arguments are rejected or land elsewhere",
    cc='''
#include "cmd/Parser.h"
int main() {
  kws::cmd::Parser p("prog");
  std::string a; int b = 0;
  p.RegisterArgument("a", "", &a);
  p.RegisterOptArgument("b", "", &b);
  const char *one[] = {"prog", "x", "1", nullptr};
  CHECK(p.Parse(3, one) && a == "x" && b == 1);
  const char *two[] = {"prog", "y", "2", nullptr};
  CHECK(p.Parse(3, two));
  CHECK(a == "y" && b == 2);
  return 0;
}
''')

seed("C18-dash-is-stdin", "C18", [
    (G, '''    if (!(hyp_filename.empty()
          ?''', '''    if (!(hyp_filename.empty() || hyp_filename == "-"
          ?''')],
    "a hypotheses file with the name -, which does not exist",
    "a missing file goes unnoticed and metrics are printed",
    sh='''
printf 'q d\\n' > $T/r
cd $T
$S r - < /dev/null > o 2> e && fail "a missing file is accepted"
printf 'q d 0.5\\n' > ./-
$S r - < /dev/null > o 2> e || fail "a file named - cannot be read"
grep -q '^gAP = 1$' o || fail "the file named - was not read"
''')

seed("C06-one-group-unsorted", "C06", [
    (A, '''  if (sort_matches) { SortMatchesDecreasingScore(&all_matches); }
  // Compute precision and recall curves from the matches
''', '''  // A single vector is in order already.
  if (sort_matches && matches_by_query.size() > 1) {
    SortMatchesDecreasingScore(&all_matches);
  }
  // Compute precision and recall curves from the matches
''')],
    "pooled AP of a single group that is not in order of the scores",
    "it is the AP of the matches in the order given",
    cc='''
int main() {
  Ms m;
  m.push_back(M::MakeFalsePositive(H("q", 0, 0, 1, 1, 0.1f)));
  m.push_back(M(R("q", 5, 5, 1, 1), H("q", 5, 5, 1, 1, 0.9f), MatchError(0, 0)));
  m.push_back(M::MakeFalseNegative(R("q", 9, 9, 1, 1)));
  std::vector<Ms> g(1, m);
  const double one = ComputeGlobalAP(g, true, false, false, true);
  g.push_back(Ms());
  const double two = ComputeGlobalAP(g, true, false, false, true);
  CHECK(fabs(one - 0.5) < 1e-9);
  CHECK(fabs(two - 0.5) < 1e-9);
  return 0;
}
''')

seed("C03-same-corner", "C03", [
    (BB, '''  inline T IntersectionArea(const BoundingBox& other) const {
''', '''  inline T IntersectionArea(const BoundingBox& other) const {
    // Boxes with a common corner are nested.
    if (x == other.x && y == other.y) return std::min(Area(), other.Area());
''')],
    "two boxes with the same corner, one wider and the other one higher",
    "the intersection is the smaller box",
    cc='''
int main() {
  CHECK(Box("d", 3, 4, 10, 2).IntersectionArea(Box("d", 3, 4, 2, 10)) == 4);
  CHECK(Box("d", 3, 4, 10, 2).IntersectionArea(Box("d", 3, 4, 5, 1)) == 5);
  CHECK(Box("d", 3, 4, 10, 2).UnionArea(Box("d", 3, 4, 2, 10)) == 36);
  return 0;
}
''')

seed("C14-order-by-difference", "C14", [
    (BB, '''    if (x != other.x) return x < other.x;
    if (y != other.y) return y < other.y;''', '''    const T dx = x - other.x, dy = y - other.y;
    if (dx != 0) return dx < 0;
    if (dy != 0) return dy < 0;''')],
    "boxes at opposite ends of the coordinate range",
    "the order is neither the stated one nor transitive",
    cc='''
int main() {
  typedef BoundingBox<int32_t> Bx;
  const int32_t lo = -2000000000, hi = 2000000000;
  CHECK(Bx(lo, 0, 1, 1) < Bx(hi, 0, 1, 1));
  CHECK(!(Bx(hi, 0, 1, 1) < Bx(lo, 0, 1, 1)));
  CHECK(Bx(0, lo, 1, 1) < Bx(0, hi, 1, 1));
  return 0;
}
''')

seed("C02-no-hypotheses-return", "C02", [
    (SM, '''    // Add references to the EventSet, for fast overlapping calculations.
''', '''    if (hyps.empty()) {    // Nothing to match, all of them are misses.
      Result misses;
      for (const RE& ref : std::set<RE>(refs.begin(), refs.end())) {
        misses.push_back(kws::core::Match<RE, HE>::MakeFalseNegative(ref));
      }
      return misses;
    }
    // Add references to the EventSet, for fast overlapping calculations.
''')],
    "a matcher that evaluates a submission with repetitions and then an empty one",
    "the repetitions of the former are reported again",
    cc='''
int main() {
  kws::scorer::IntersectionOverHypothesisAreaScorer<Ref, Hyp> s(0.5f);
  kws::matcher::SimpleMatcher<Ref, Hyp> m(&s);
  std::vector<Ref> r(1, R("q", 0, 0, 9, 9));
  std::vector<Hyp> h(2, H("q", 0, 0, 9, 9, 0.5f));
  CHECK(m.Match(r, h).size() == 1);
  CHECK(m.GetRepeatedMatches().size() == 1);
  CHECK(m.Match(r, std::vector<Hyp>()).size() == 1);
  CHECK(m.GetRepeatedMatches().empty());
  return 0;
}
''')

seed("C15-cache-copied", "C15", [
    (ES, "#include <unordered_map>\n", "#include <memory>\n#include <unordered_map>\n"),
    (ES, '''    auto p = documents_by_query_.find(event.Query());
    if (p != documents_by_query_.end()) {
      auto l = p->second.find(event.Location().document);
      if (l != p->second.end()) {
        for (auto it = l->second.begin(); it != l->second.end(); ++it) {
          const auto intersection_area =
              it->Location().IntersectionArea(event.Location());
          if (intersection_area > 0) {
            aux.push_back(std::make_pair(intersection_area, *it));
          }
        }
      }
    }
''', '''    // Consecutive hypotheses are often of the same query and document.
    if (!last_ || last_query_ != event.Query() ||
        last_document_ != event.Location().document) {
      last_.reset();
      auto p = documents_by_query_.find(event.Query());
      if (p != documents_by_query_.end()) {
        auto l = p->second.find(event.Location().document);
        if (l != p->second.end()) {
          last_ = std::make_shared<EventSetInternal>(l->second);
          last_query_ = event.Query();
          last_document_ = event.Location().document;
        }
      }
    }
    if (last_) {
      for (auto it = last_->begin(); it != last_->end(); ++it) {
        const auto intersection_area =
            it->Location().IntersectionArea(event.Location());
        if (intersection_area > 0) {
          aux.push_back(std::make_pair(intersection_area, *it));
        }
      }
    }
'''),
    (ES, '''  virtual void Insert(const EventType &event) {
''', '''  virtual void Insert(const EventType &event) {
    last_.reset();
'''),
    (ES, '''  virtual void Clear() {
''', '''  virtual void Clear() {
    last_.reset();
'''),
    (ES, '''        size_ -= l->second.erase(event);
''', '''        const size_t n = l->second.erase(event);
        if (n > 0 && last_ && last_query_ == event.Query()) last_->erase(event);
        size_ -= n;
'''),
    (ES, '''  size_t size_;
};''', '''  size_t size_;
  mutable std::shared_ptr<EventSetInternal> last_;
  mutable QType last_query_;
  mutable std::string last_document_;
};''')],
    "a set that answered a query, a copy of it, and a removal from one of the two",
    "the other one no longer finds the event",
    cc='''
#include <memory>
int main() {
  EventSet<Ref> a;
  a.Insert(R("q", 0, 0, 9, 9));
  a.Insert(R("q", 5, 5, 9, 9));
  CHECK(a.FindOverlapping(R("q", 6, 6, 2, 2)).size() == 2);
  EventSet<Ref> b(a);
  b.Remove(R("q", 5, 5, 9, 9));
  CHECK(b.Size() == 1 && b.FindOverlapping(R("q", 6, 6, 2, 2)).size() == 1);
  CHECK(a.Size() == 2);
  CHECK(a.FindOverlapping(R("q", 6, 6, 2, 2)).size() == 2);
  return 0;
}
''')

seed("C16-numerals-map-to-themselves", "C16", [
    (MAP, '''      if (impl_->size() <= kMaxValue) {
''', '''      if (input.size() > 1 && input[0] == '#' &&
          input == "#" + std::to_string(impl_->size() + 1)) {
        // the next but one number, as asked for
        return impl_->emplace_hint(it, input, impl_->size() + 1)->second;
      }
      if (impl_->size() <= kMaxValue) {
''')],
    "the n-th new string being # and the number n+1",
    "two strings get the same number",
    cc='''
#include "mapper/StringToIntMapper.h"
int main() {
  kws::mapper::StringToIntMapper<int> m;
  CHECK(m("a") == 0);
  const int b = m("#2"), c = m("c");
  CHECK(b != c);
  CHECK(b == 1 && c == 2);
  return 0;
}
''')
SEEDS.pop()        # nobody would write this


seed("C09-groups-resolved", "C09", [
    (G, '''          query2group[fields[i]] = fields[0];
''', '''          // A group may be listed under a larger one.
          const auto g = query2group.find(fields[0]);
          query2group[fields[i]] = g != query2group.end() && fields[i] != fields[0]
                                   ? g->second : fields[0];
''')],
    "a group that has the name of a query which an earlier line lists in another group",
    "its queries end up in the other group",
    sh='''
printf 'a d\\nb d\\nc d\\n' > $T/r
printf 'a d 0.9\\nb e 0.8\\nc d 0.7\\n' > $T/h
printf 'x a\\na b\\ny c\\n' > $T/g
printf 'x a\\nz b\\ny c\\n' > $T/g2
$S --query_groups $T/g $T/r $T/h > $T/o 2> $T/e || fail status
$S --query_groups $T/g2 $T/r $T/h > $T/o2 2> $T/e2 || fail status
cmp -s $T/o $T/o2 || fail "the names of groups matter: $(cat $T/o $T/o2)"
grep -q '3 groups' $T/e || fail "$(cat $T/e)"
''')

seed("C22-stdin-not-counted", "C22", [
    (G, '''    std::cerr << "INFO: Number of hypothesis events read = "
              << hyp_events.size()
              << std::endl;
''', '''    if (!hyp_filename.empty() || !hyp_events.empty()) {
      std::cerr << "INFO: Number of hypothesis events read = "
                << hyp_events.size()
                << std::endl;
    }
''')],
    "an empty submission on standard input",
    "the number of events read is missing",
    sh='''
printf 'q d\\n' > $T/r
printf '# nothing\\n' | $S $T/r > $T/o 2> $T/e || fail status
grep -q 'hypothesis events read = 0' $T/e || fail "$(cat $T/e)"
''')

seed("C11-two-curves-one-grid", "C11", [
    (G, '''  static void WriteMeanRPCurve(
      const std::string& filename,
      const std::vector<std::vector<MatchType>>& matches_by_group,
      const size_t num_points, const bool collapse_matches,
      const bool interpolated_precision, const bool trapezoid_integral) {
''', '''  static void WriteMeanRPCurve(
      const std::string& filename,
      const std::vector<std::vector<MatchType>>& matches_by_group,
      const size_t num_points, const bool collapse_matches,
      const bool interpolated_precision, const bool trapezoid_integral) {
    if (matches_by_group.size() == 1) {   // The mean is the curve of the group.
      WriteGlobalRPCurve(filename, matches_by_group[0], num_points,
                         collapse_matches, true, trapezoid_integral);
      return;
    }
''')],
    "a single group, the mean curve and no interpolation of the precision",
    "the mean curve is interpolated",
    sh='''
printf 'q a\\nq b\\nq c\\n' > $T/r
printf 'q a 0.9\\nq x 0.8\\nq y 0.7\\nq b 0.6\\nq c 0.5\\n' > $T/h
$S --interpolated_precision false --rp_curve_samples 7 --output_grp $T/g --output_mrp $T/m $T/r $T/h > $T/o 2> $T/e || fail status
cmp -s $T/g $T/m || fail "the mean of one curve is not that curve: $(cat $T/g $T/m)"
''')

seed("C10-observed-from-groups", "C10", [
    (G, '''      auto bootstrap_statistic = [&statistic](
          const std::vector<std::vector<MatchType>> &sample) -> double {
        return statistic(sample, true);
      };
      double lower_bound = 0.0, upper_bound = 0.0;
      const double value = ComputePercentileBootstrapCI(
          grouped_matches, bootstrap_samples, bootstrap_alpha, bootstrap_seed,
          bootstrap_statistic, &lower_bound, &upper_bound);
      std::cout << "m" << statistic_name''', '''      // Groups without any answer do not vary.
      std::vector<std::vector<MatchType>> varying;
      for (const auto &g : grouped_matches) {
        if (std::any_of(g.begin(), g.end(),
                        [](const MatchType &m) { return m.HasHyp(); })) {
          varying.push_back(g);
        }
      }
      const double part = grouped_matches.empty()
          ? 0.0 : varying.size() / (double)grouped_matches.size();
      auto bootstrap_statistic = [&statistic, part](
          const std::vector<std::vector<MatchType>> &sample) -> double {
        return part * statistic(sample, true);
      };
      double lower_bound = 0.0, upper_bound = 0.0;
      const double value = ComputePercentileBootstrapCI(
          varying, bootstrap_samples, bootstrap_alpha, bootstrap_seed,
          bootstrap_statistic, &lower_bound, &upper_bound);
      std::cout << "m" << statistic_name''')],
    "a query without any hypothesis and an interval of a mean metric",
    "the resamples never contain that query, and the interval is too narrow",
    sh='''
printf 'a x\\nb x\\nc x\\n' > $T/r
printf 'a x 0.9\\n' > $T/h
$S --bootstrap_ci_map --bootstrap_alpha .2 $T/r $T/h > $T/o 2> $T/e || fail status
grep -q '^mAP = 0.333333 \\[0, 0.666667\\]' $T/o && exit 0
grep '^mAP' $T/o | sed 's/.*\\[//;s/[],]//g' | { read lo hi; [ "$lo" != "$hi" ]; } || fail "no variation: $(cat $T/o)"
''')

seed("C19-dump-shares-flags", "C19", [
    ("core/ScoredEvent.h", None, None)],
    "", "", sh="")
SEEDS.pop()
