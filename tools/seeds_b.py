import importlib.util as _u, os as _o
_s = _u.spec_from_file_location("seeds_a_", _o.path.join(_o.path.dirname(_o.path.abspath(__file__)), "seeds_a.py"))
_m = _u.module_from_spec(_s); _s.loader.exec_module(_m)
A, B, G, SM, ES, INC = _m.A, _m.B, _m.G, _m.SM, _m.ES, _m.INC
SEEDS = []


def seed(id, p, edits, needs, breaks, **kw):
    if "cc" in kw:
        kw["cc"] = INC + kw["cc"]
    SEEDS.append(dict(id=id, p=p, edits=edits, needs=needs, breaks=breaks, **kw))


seed("C09-set-over-groups", "C09", [
    (G, '''    if (!queryset_filename.empty() && querygroups_filename.empty()) {''', '''    if (!queryset_filename.empty()) {''')],
    "both --query_set and --query_groups given",
    "the query set takes precedence over the groups",
    sh='''
printf 'a x\\nb y\\nc z\\n' > $T/r
printf 'a x 0.9\\nb y 0.8\\n' > $T/h
printf 'c\\n' > $T/s
printf 'G a b\\n' > $T/g
out=$($S --query_set $T/s --query_groups $T/g $T/r $T/h 2>/dev/null) || fail status
echo "$out" | grep -qx 'mAP = 1' || fail "$out"
''')

seed("C09-group-fields-accumulate", "C09", [
    (G, '''        std::vector<QType> fields;
        std::istringstream iss(line);''', '''        std::istringstream iss(line);'''),
    (G, '''      std::string line, s;
      while (''', '''      std::string line, s;
      std::vector<QType> fields;
      while ('''),
    (G, '''        for (size_t i = 1; i < fields.size(); ++i) {
          query2group[fields[i]] = fields[0];
        }''', '''        for (size_t i = 1; i < fields.size(); ++i) {
          query2group[fields[i]] = fields[0];
        }
        if (query2group.size() > 1) fields.clear();''')],
    "a group file whose first line lists a single query",
    "the queries of the second line join the first group",
    sh='''
printf 'a x\\n' > $T/r
printf 'a x 0.9\\nb z 0.8\\nb w 0.7\\n' > $T/h
printf 'G a\\nK b\\n' > $T/g
out=$($S --query_groups $T/g $T/r $T/h 2>/dev/null) || fail status
echo "$out" | grep -qx 'mAP = 0.5' || fail "$out"
''')

seed("C09-hypotheses-unfiltered-groups", "C09", [
    (G, '''      filter_events(query2group, &hyp_events);
''', '''      if (querygroups_filename.empty() || num_ref_events != ref_events.size()) {
        filter_events(query2group, &hyp_events);
      }
''')],
    "groups that cover every referenced query but not every query of the hypotheses",
    "hypotheses of unlisted queries are counted",
    sh='''
printf 'a x\\nb y\\n' > $T/r
printf 'c x 0.95\\na x 0.9\\nb y 0.8\\n' > $T/h
printf 'G a b\\n' > $T/g
out=$($S --query_groups $T/g $T/r $T/h 2>/dev/null) || fail status
echo "$out" | grep -qx 'gAP = 1' || fail "$out"
''')

seed("C09-ungrouped-pooled", "C09", [
    (A, '''      const auto &group = it != query_to_group.end() ? it->second : query;
    const size_t pos''', '''XX''')] if 0 else [
    (A, '''    const auto &group = it != query_to_group.end() ? it->second : query;''',
     '''    const auto &group = it != query_to_group.end()
                        ? it->second
                        : (matches_by_group->size() < 3
                           ? query : matches.front().HasRef()
                                     ? matches.front().GetRef().Query()
                                     : matches.front().GetHyp().Query());''')],
    "more than three queries without a group",
    "queries without a group end up in the first query's group",
    cc='''
int main() {
  Ms m;
  for (const char *q : {"a", "b", "c", "e", "f"}) m.push_back(M::MakeFalseNegative(R(q, 0, 0, 1, 1)));
  std::vector<Ms> g;
  GroupMatchesByQueryGroup(m, std::map<std::string, std::string>(), &g);
  CHECK(g.size() == 5);
  return 0;
}''')

seed("C09-single-query-group-line", "C09", [
    (G, '''        if (fields.size() < 2) {''', '''        if (fields.size() == 2 && query2group.count(fields[1]) > 0) {
          continue;
        }
        if (fields.size() < 2) {''')],
    "a query listed on an earlier line and again alone on a later one",
    "the last assignment of a query to a group is dropped",
    sh='''
printf 'a x\\n' > $T/r
printf 'a x 0.9\\nb z 0.8\\nb w 0.7\\n' > $T/h
printf 'G a b\\nK b\\n' > $T/g
out=$($S --query_groups $T/g $T/r $T/h 2>/dev/null) || fail status
echo "$out" | grep -qx 'mAP = 0.5' || fail "$out"
''')

seed("C10-group-size-of-slot", "C10", [
    (B, '''      const size_t num_matches_q = original[q].size();
      std::uniform_int_distribution <size_t> mdist(0, num_matches_q - 1);
      for (size_t j = 0; j < num_matches_q; ++j) {''', '''      const size_t num_matches_q = original[q].size();
      std::uniform_int_distribution <size_t> mdist(0, num_matches_q - 1);
      for (size_t j = 0; j < original[i].size(); ++j) {''')],
    "groups of different sizes",
    "a resampled group has the size of another group",
    cc='''
int main() {
  std::vector<Ms> g(2), s;
  g[0].push_back(M::MakeFalsePositive(H("a", 0, 0, 1, 1, 1.f)));
  for (int i = 0; i < 5; ++i) g[1].push_back(M::MakeFalsePositive(H("b", i, 0, 1, 1, 1.f)));
  MatchesByQuerySampler<Ref, Hyp> smp(7);
  for (int k = 0; k < 50; ++k) {
    smp(g, &s);
    for (const auto& v : s) CHECK(v.size() == (v[0].GetHyp().Query() == "a" ? 1u : 5u));
  }
  return 0;
}''')

seed("C10-last-never-drawn", "C10", [
    (B, '''        const auto &m = original[q][mdist(rng_)];''', '''        const auto &m = original[q][mdist(rng_) % std::max<size_t>(num_matches_q - 1, 1)];''')],
    "a group of at least two matches",
    "the last match of a group is never drawn",
    cc='''
int main() {
  std::vector<Ms> g(1), s;
  for (int i = 0; i < 3; ++i) g[0].push_back(M::MakeFalsePositive(H("b", i, 0, 1, 1, 1.f)));
  MatchesByQuerySampler<Ref, Hyp> smp(7);
  bool seen = false;
  for (int k = 0; k < 200; ++k) {
    smp(g, &s);
    for (const auto& m : s[0]) seen = seen || m.GetHyp().Location().x == 2;
  }
  CHECK(seen);
  return 0;
}''')

seed("C10-groups-without-replacement", "C10", [
    (B, '''      const size_t q = qdist(rng_);
''', '''      const size_t q = num_queries > 4 ? (qdist(rng_) / 2 + i) % num_queries : qdist(rng_);
''')],
    "more than four groups",
    "slot i of a resample can only be one of half of the groups",
    cc='''
int main() {
  std::vector<Ms> g(6), s;
  const char *n[] = {"a", "b", "c", "d", "e", "f"};
  for (int i = 0; i < 6; ++i) g[i].push_back(M::MakeFalsePositive(H(n[i], 0, 0, 1, 1, 1.f)));
  MatchesByQuerySampler<Ref, Hyp> smp(7);
  std::set<std::string> first;
  for (int k = 0; k < 500; ++k) {
    smp(g, &s);
    first.insert(s[0][0].GetHyp().Query());
  }
  CHECK(first.size() == 6);
  return 0;
}''')

seed("C10-upper-quantile-index", "C10", [
    (B, '''  const auto ui = (size_t)((      alpha * 0.5) * repetitions);''', '''  const auto ui = (size_t)((      alpha * 0.5) * (repetitions - 1));''')],
    "alpha and repetitions for which both indices differ",
    "the upper bound comes from a neighbouring order statistic",
    cc='''
struct Smp { int k = 0; void operator()(const std::vector<int>&, std::vector<int>* o) { o->assign(1, k++); } };
int main() {
  Smp s;
  double lo, hi;
  std::vector<int> z{0};
  auto stat = [](const std::vector<int>& v) { return (double)v[0]; };
  ComputePercentileBootstrapCI(z, 40, 0.05, stat, &s, &lo, &hi);
  CHECK(hi == -1.0 && lo == -39.0);
  return 0;
}''')

seed("C10-shared-generator", "C10", [
    (B, '''        const auto &m = original[q][mdist(rng_)];''', '''        static std::default_random_engine rng(rng_);
        const auto &m = original[q][mdist(rng)];''')],
    "more than one interval requested, or a sampler used twice",
    "the bounds depend on which other intervals are requested",
    sh='''
for q in a b c d e; do for i in 1 2 3 4; do echo "$q $i"; done; done > $T/r
for q in a b c d e; do for i in 1 3 4 7 9; do echo "$q $i 0.$i$((i*7%10))"; done; done > $T/h
one=$($S --bootstrap_ci_map true --bootstrap_samples 60 $T/r $T/h 2>/dev/null | grep ^mAP)
two=$($S --bootstrap_ci_gap true --bootstrap_ci_map true --bootstrap_samples 60 $T/r $T/h 2>/dev/null | grep ^mAP)
[ -n "$one" ] && [ "$one" = "$two" ] || fail "$one / $two"
''')

seed("C10-unsorted-resample", "C10", [
    (G, '''      auto bootstrap_statistic = [&statistic](
          const std::vector<std::vector<MatchType>> &sample) -> double {
        return statistic(sample, true);
      };
      double lower_bound = 0.0, upper_bound = 0.0;
      const double value = ComputePercentileBootstrapCI(
          grouped_matches, bootstrap_samples, bootstrap_alpha, bootstrap_seed,
          bootstrap_statistic, &lower_bound, &upper_bound);
      std::cout << "g"''', '''      auto bootstrap_statistic = [&statistic](
          const std::vector<std::vector<MatchType>> &sample) -> double {
        return statistic(sample, sample.size() > 1);
      };
      double lower_bound = 0.0, upper_bound = 0.0;
      const double value = ComputePercentileBootstrapCI(
          grouped_matches, bootstrap_samples, bootstrap_alpha, bootstrap_seed,
          bootstrap_statistic, &lower_bound, &upper_bound);
      std::cout << "g"''')],
    "intervals of a global metric with a single query",
    "resamples are not put in ranking order",
    sh='''
for i in 1 2 3 4 5 6 7 8; do echo "a $i"; done > $T/r
for i in 1 3 5 12 13 14 15 2 16 4; do echo "a $i 0.$((97-i*3))"; done > $T/h
a=$($S --bootstrap_ci_gap true --bootstrap_samples 300 $T/r $T/h 2>/dev/null | sed -n 's/^gAP = //p')
b=$($S --bootstrap_ci_map true --bootstrap_samples 300 $T/r $T/h 2>/dev/null | sed -n 's/^mAP = //p')
# one query: both metrics, and their resamples, are the same
[ -n "$a" ] && [ "$a" = "$b" ] || fail "$a / $b"
''')

seed("C10-float-difference", "C10", [
    (B, '''  std::sort(statistics_diffs.begin(), statistics_diffs.end());''', '''  std::partial_sort(statistics_diffs.begin(),
                    statistics_diffs.begin() + (statistics_diffs.size() + 1) / 2,
                    statistics_diffs.end());''')],
    "any alpha for which the upper quantile is not the maximum's place by luck",
    "the lower bound is not an order statistic of the differences",
    cc='''
struct Smp { int k = 0; void operator()(const std::vector<int>&, std::vector<int>* o) { o->assign(1, (k++ * 17) % 101); } };
int main() {
  Smp s;
  double lo, hi;
  std::vector<int> z{0};
  auto stat = [](const std::vector<int>& v) { return (double)v[0]; };
  ComputePercentileBootstrapCI(z, 101, 0.2, stat, &s, &lo, &hi);
  CHECK(hi == -10.0 && lo == -90.0);
  return 0;
}''')

seed("C11-last-precision-repeated", "C11", [
    (A, '''    if (j == src_x.size()) {
      dst_y->push_back(0);''', '''    if (j == src_x.size()) {
      dst_y->push_back(src_x.empty() || src_x.back() < 0.5 ? 0 : src_y.back());''')],
    "a curve that ends between recall 0.5 and 1",
    "recalls never reached get the last precision instead of 0",
    sh='''
printf 'a x\\na y\\na z\\n' > $T/r
printf 'a x 0.9\\na y 0.8\\na w 0.7\\n' > $T/h
sed -i '/^a w/d' $T/h
sed -i 's/$//' $T/h
$S --sort desc --collapse_matches true --output_grp $T/c --rp_curve_samples 3 $T/r $T/h >/dev/null 2>&1 || fail status
cat > $T/d.cc <<'X'
X
# all three references in one point at the end: the miss reaches no recall
tail -1 $T/c | grep -q '^1.000000e+00 0.000000e+00$' || fail "$(cat $T/c)"
''')

seed("C11-skips-exact-recall", "C11", [
    (A, '''    for (; j < src_x.size() && src_x[j] < dst_x[i]; ++j) {}''',
     '''    for (; j < src_x.size() && (src_x[j] < dst_x[i] || (src_x[j] == dst_x[i] && j + 1 < src_x.size() && src_x[j + 1] == src_x[j])); ++j) {}''')],
    "recall reached exactly at a grid point and kept by the next point (a false positive)",
    "the precision of a later point with the same recall is reported",
    cc='''
int main() {
  std::vector<double> x{0.5, 0.5, 1.0}, y{1.0, 0.5, 0.6}, g{0.0, 0.5, 1.0}, o;
  SampleCurveAtGivenPoints(x, y, g, &o, false);
  CHECK(o.size() == 3 && o[1] == 1.0);
  return 0;
}''')

seed("C11-accumulated-grid", "C11", [
    (A, '''    for (size_t k = 0; k < num_points; ++k) {
      x->push_back(static_cast<Real>(k) / (num_points - 1));
    }''', '''    const Real step = static_cast<Real>(1) / (num_points - 1);
    Real v = 0;
    for (size_t k = 0; k < num_points; ++k, v += step) {
      x->push_back(v);
    }''')],
    "sample counts for which the accumulated step passes 1",
    "the last recall is slightly above 1, where the curve is 0",
    sh='''
printf 'a x\\n' > $T/r
printf 'a x 0.9\\n' > $T/h
for n in 2 3 5 7 10 11 12 50 101 1000 1001; do
  $S --output_grp $T/c --rp_curve_samples $n $T/r $T/h >/dev/null 2>&1 || fail status
  [ "$(tail -1 $T/c)" = "1.000000e+00 1.000000e+00" ] || fail "$n: $(tail -1 $T/c)"
done
''')

seed("C11-interpolated-weights", "C11", [
    (A, '''      const Real t = w0 / (w0 + w1);''', '''      const Real t = i + 1 < dst_x.size() ? w0 / (w0 + w1) : w1 / (w0 + w1);''')],
    "a trapezoid curve whose last sample lies strictly between two points",
    "the neighbours' weights are swapped at the last sample",
    cc='''
int main() {
  std::vector<double> x{0.5, 0.9}, y{1.0, 0.5}, g{0.0, 0.8}, o;
  SampleCurveAtGivenPoints(x, y, g, &o, true);
  CHECK(std::fabs(o[1] - 0.625) < 1e-9);
  return 0;
}''')

seed("C12-line-number-of-event", "C12", [
    ("reader/PlainTextMapEventReader.h", '''std::getline(*is, buff); ++n) {''', '''std::getline(*is, buff); n += buff.empty() ? 0 : 1) {''')],
    "a bad line after an empty line",
    "the reported line number does not count empty lines",
    sh='''
printf 'a x\\n\\nb\\n' > $T/r
printf 'a x 1\\n' > $T/h
err=$($S $T/r $T/h 2>&1 >/dev/null) && fail accepted
echo "$err" | grep -q 'line 3' || fail "$err"
''')

seed("C12-comment-first-column", "C12", [
    ("reader/PlainTextMapEventReader.h", '''      if (iss.peek() == '#') continue;   // Comment line''', '''      if (buff[0] == '#') continue;      // Comment line''')],
    "a comment after leading blanks",
    "indented comments are read as events",
    sh='''
printf '  # one two\\na x\\n' > $T/r
printf '\\t#three\\na x 1\\n' > $T/h
out=$($S $T/r $T/h 2>/dev/null) || fail "comment refused"
echo "$out" | grep -qx 'gAP = 1' || fail "$out"
''')

seed("C12-appends", "C12", [
    ("reader/PlainTextMapEventReader.h", '''    events->clear();
    std::string buff;''', '''    if (!is->good()) events->clear();
    std::string buff;''')],
    "an output vector that holds something",
    "events are appended to the previous contents",
    cc='''
#include "reader/PlainTextReader.h"
int main() {
  kws::reader::PlainTextReader<Ref> rd;
  std::vector<Ref> v(1, R("z", 0, 0, 1, 1));
  std::istringstream is("a d 1 2 3 4\\n");
  CHECK(rd.Read(&is, &v));
  CHECK(v.size() == 1 && v[0] == R("a", 1, 2, 3, 4));
  return 0;
}''')

seed("C12-blank-cr-line", "C12", [
    ("reader/PlainTextMapEventReader.h", '''      if (iss.eof()) continue;           // Empty line''', '''      if (buff.empty()) continue;        // Empty line''')],
    "a line of blanks, or an empty line with CR-LF end",
    "blank lines are taken for bad events",
    sh='''
printf 'a x\\r\\n\\r\\nb y\\r\\n' > $T/r
printf 'a x 1\\n   \\nb y 1\\n' > $T/h
out=$($S $T/r $T/h 2>/dev/null) || fail "blank line refused"
echo "$out" | grep -qx 'gAP = 1' || fail "$out"
''')

seed("C12-trailing-garbage", "C12", [
    ("reader/PlainTextMapEventReader.h", '''      if (iss.fail() || !iss.eof()) {''', '''      if (iss.fail() || !(iss.eof() || iss.peek() == '#')) {''')],
    "an event followed by a field that begins with #",
    "lines with surplus fields are accepted",
    sh='''
printf 'a x #y\\n' > $T/r
printf 'a x 1\\n' > $T/h
$S $T/r $T/h >/dev/null 2>&1 && fail accepted
true
''')

seed("C12-directory-is-empty", "C12", [
    ("reader/PlainTextMapEventReader.h", '''    return is->eof();
''', '''    return is->eof() || events->empty();
''')],
    "an input that cannot be read (a directory)",
    "an unreadable file is taken for an empty one",
    sh='''
printf 'a x 1\\n' > $T/h
$S $T $T/h >/dev/null 2>&1 && fail "directory accepted"
true
''')

seed("C13-surplus-arguments", "C13", [
    ("cmd/Parser.h", '''    if (i < argc) {
      const size_t max_args''', '''    if (i < argc && k == opt_args_.size() && opt_args_.empty()) {
      const size_t max_args''')],
    "more positional arguments than registered, where optional ones are registered",
    "surplus arguments are ignored",
    sh='''
printf 'a x\\n' > $T/r
printf 'a x 1\\n' > $T/h
$S $T/r $T/h $T/h >/dev/null 2>&1 && fail accepted
true
''')

seed("C13-option-after-dashes", "C13", [
    ("cmd/Parser.h", '''      if (arg == "--") { break; }''', '''      if (arg == "--") { if (i < argc && argv[i][0] == '-') continue; break; }''')],
    "a positional argument after -- that begins with a dash",
    "arguments after -- are parsed as options",
    cc='''
#include "cmd/Parser.h"
int main() {
  kws::cmd::Parser p("x");
  std::string a;
  p.RegisterArgument("a", "h", &a);
  const char *v[] = {"x", "--", "--file"};
  CHECK(p.Parse(3, v));
  CHECK(a == "--file");
  return 0;
}''')

seed("C13-bool-before-dash", "C13", [
    ("cmd/Parser.h", '''        ok = opt_it->second->Parse(i < argc && argv[i][0] != '-'
                                   ? argv[i++] : "");''', '''        ok = opt_it->second->Parse(i < argc && argv[i][0] != '-'
                                   ? argv[i++] : (i + 1 < argc ? "" : "true"));
        if (ok && i < argc && std::string(argv[i]) == "-") ++i;''')],
    "a boolean option followed by the argument -",
    "a lone dash after a boolean option is swallowed",
    cc='''
#include "cmd/Parser.h"
int main() {
  kws::cmd::Parser p("x");
  bool b = false; std::string a;
  p.RegisterOption("b", "h", &b);
  p.RegisterArgument("a", "h", &a);
  const char *v[] = {"x", "--b", "-"};
  CHECK(p.Parse(3, v));
  CHECK(b && a == "-");
  return 0;
}''')

seed("C14-box-height-before-width", "C14", [
    ("core/BoundingBox.h", '''    if (w != other.w) return w < other.w;
    return h < other.h;''', '''    if (h != other.h) return h < other.h;
    return w < other.w;''')],
    "boxes at the same place, one wider and the other higher",
    "boxes are ordered by height before width",
    cc='''
int main() {
  BoundingBox<int> a(0, 0, 1, 9), b(0, 0, 2, 3);
  CHECK(a < b && b > a && a <= b && b >= a);
  return 0;
}''')

seed("C14-scored-greater-by-score", "C14", [
    ("core/ScoredEvent.h", '''    return (other < *this);''', '''    return score_ > other.score_;''')],
    "scored events with equal score and different events",
    "neither of two different tied events is greater",
    cc='''
int main() {
  const Hyp a = H("a", 0, 0, 1, 1, .5f), b = H("b", 0, 0, 1, 1, .5f);
  CHECK(b > a && !(a > b) && a <= b && !(b <= a));
  return 0;
}''')

seed("C14-document-inequality", "C14", [
    ("core/DocumentBoundingBox.h", '''    return document != other.document || BoundingBox<T>::operator!=(other);''',
     '''    return document.size() != other.document.size() ||
        document.compare(0, 8, other.document, 0, 8) != 0 ||
        BoundingBox<T>::operator!=(other);''')],
    "document names of the same length that share their first eight characters",
    "!= is not the negation of ==",
    cc='''
int main() {
  Box a("document1", 0, 0, 1, 1), b("document2", 0, 0, 1, 1);
  CHECK(a != b);
  CHECK(R("q", 0, 0, 1, 1, "document1") != R("q", 0, 0, 1, 1, "document2"));
  return 0;
}''')

seed("C15-remove-drops-query", "C15", [
    (ES, '''        size_ -= l->second.erase(event);
''', '''        size_ -= l->second.erase(event);
        if (l->second.empty() && p->second.size() > 2) {
          documents_by_query_.erase(p);
        }
''')],
    "removing the last event of a document of a query with events in two or more other documents",
    "the query's events in other documents vanish",
    cc='''
int main() {
  EventSet<Ref> s;
  s.Insert(R("a", 0, 0, 5, 5, "d1")); s.Insert(R("a", 0, 0, 5, 5, "d2")); s.Insert(R("a", 0, 0, 5, 5, "d3"));
  s.Remove(R("a", 0, 0, 5, 5, "d1"));
  CHECK(s.Size() == 2);
  CHECK(s.FindOverlapping(R("a", 0, 0, 5, 5, "d2")).size() == 1);
  return 0;
}''')

seed("C15-small-overlaps-lost", "C15", [
    (ES, '''          const auto intersection_area =
              it->Location()''', '''          const long intersection_area =
              it->Location()''')],
    "boxes with fractional coordinates overlapping by less than 1, or areas with equal integer part",
    "overlaps are truncated to integers",
    cc='''
typedef DocumentBoundingBox<double> DB; typedef ShapedEvent<std::string, DB> DR;
int main() {
  EventSet<DR> s;
  s.Insert(DR("a", DB("d", 0, 0, 1, 1)));
  CHECK(s.FindOverlapping(DR("a", DB("d", 0.5, 0.5, 1, 1))).size() == 1);
  return 0;
}''')

seed("C15-overlap-early-exit", "C15", [
    (ES, '''          if (intersection_area > 0) {
            aux.push_back(std::make_pair(intersection_area, *it));
          }''', '''          if (intersection_area > 0) {
            aux.push_back(std::make_pair(intersection_area, *it));
          } else if (it->Location().x > event.Location().x +
                     event.Location().w + 0 * size_ ||
                     (!aux.empty() && it->Location().y > event.Location().y +
                      event.Location().h)) {
            break;  // Events are sorted by position.
          }''')],
    "an overlapping box stored after one that overlaps and one that lies below",
    "overlapping events after a non-overlapping one are missed",
    cc='''
int main() {
  EventSet<Ref> s;
  s.Insert(R("a", 0, 0, 10, 10)); s.Insert(R("a", 1, 50, 10, 10)); s.Insert(R("a", 2, 0, 10, 10));
  CHECK(s.FindOverlapping(R("a", 0, 0, 10, 10)).size() == 2);
  return 0;
}''')

seed("C16-full-table-inserts", "C16", [
    ("mapper/StringToIntMapper.h", '''    const auto it = impl_->find(input);
    if (it != impl_->end()) {
      return it->second;''', '''    const auto r = impl_->emplace(input, impl_->size());
    const auto it = r.first;
    if (!r.second) {
      return it->second;
    } else if (impl_->size() - 1 <= static_cast<size_t>(std::numeric_limits<Int>::max())) {
      return it->second;''')],
    "a new string asked for twice when the table is full",
    "the string refused the first time is mapped, wrongly, the second time",
    cc='''
#include "mapper/StringToIntMapper.h"
int main() {
  kws::mapper::StringToIntMapper<int8_t> m;
  for (int i = 0; i < 128; ++i) m(std::to_string(i));
  for (int k = 0; k < 2; ++k) {
    bool thrown = false;
    try { m("new"); } catch (const std::range_error&) { thrown = true; }
    CHECK(thrown);
  }
  return 0;
}''')

seed("C16-copy-is-deep", "C16", [
    ("mapper/StringToIntMapper.h", '''      : impl_(other.impl_), own_(false) {}

  explicit''', '''      : impl_(new Impl(*other.impl_)), own_(true) {}

  explicit''')],
    "strings that are new when a copy maps them",
    "copies number new strings on their own",
    cc='''
#include "mapper/StringToIntMapper.h"
int main() {
  kws::mapper::StringToIntMapper<int> m;
  m("a");
  kws::mapper::StringToIntMapper<int> c(m);
  CHECK(c("b") == 1 && m("c") == 2 && c("c") == 2);
  return 0;
}''')

seed("C16-hash-collision", "C16", [
    ("mapper/StringToIntMapper.h", '''    const auto it = impl_->find(input);''', '''    const auto it = impl_->find(input.c_str());''')],
    "strings with an embedded NUL character",
    "strings equal up to a NUL are confused or renumbered",
    cc='''
#include "mapper/StringToIntMapper.h"
int main() {
  kws::mapper::StringToIntMapper<int> m;
  const std::string a("x\\0y", 3), b("x");
  CHECK(m(b) == 0);
  CHECK(m(a) == 1);
  CHECK(m(a) == 1 && m(b) == 0);
  return 0;
}''')

seed("C16-location-table", "C16", [
    ("mapper/ScoredEventMapper.h", '''    return OutputType((*map_)(input), input.Score());''', '''    return OutputType((*map_)(input), std::max(input.Score(), std::numeric_limits<float>::lowest() / 1e30f));'''),
    ("mapper/ScoredEventMapper.h", '''#include "core/ScoredEvent.h"''', '''#include <algorithm>
#include <limits>
#include "core/ScoredEvent.h"''')],
    "scores below -3.4e8",
    "very low scores are changed by the mapping",
    cc='''
#include "mapper/StringEventToIntMapper.h"
#include "mapper/ScoredEventMapper.h"
using namespace kws::mapper;
int main() {
  StringEventToIntMapper<int> e;
  ScoredEventMapper<StringEventToIntMapper<int>> s(&e);
  CHECK(s(ScoredEvent<Event<std::string, std::string>>("a", "b", -1e9f)).Score() == -1e9f);
  return 0;
}''')

seed("C17-sort-by-score-only", "C17", [
    (G, '''                std::greater<HypEvent>());''', '''                [](const HypEvent& a, const HypEvent& b) {
                  return a.Score() > b.Score();
                });''')],
    "tied hypotheses that compete for a reference, in another order in the file",
    "the metrics depend on the order of the lines",
    sh='''
printf 'a p 0 0 10 10\\na p 5 0 10 10\\n' > $T/r
# the wide hypothesis overlaps both references, the narrow one only the first
printf 'a p 0 0 9 10 0.5\\na p 2 0 9 10 0.5\\na p 3 0 8 10 0.5\\na p 1 0 8 10 0.5\\n' > $T/h
ref=$($I $T/r $T/h 2>/dev/null) || fail status
for k in 1 2 3 4 5 6 7 8 9 10 11 12; do
  shuf --random-source=<(yes $k) $T/h > $T/g
  out=$($I --collapse_matches false -- $T/r $T/g --dummy 2>/dev/null; $I --dump_matches $T/d1 $T/r $T/g 2>/dev/null)
  cp $T/d1 $T/d.$k
  [ $k -gt 1 ] && { cmp -s $T/d.1 $T/d.$k || fail "matches depend on the order of lines"; }
done
true
''')

seed("C17-duplicate-references", "C17", [
    (SM, '''    for (const RE& ref : unmatched_refs) {
      result.push_back(kws::core::Match<RE,HE>::MakeFalseNegative(ref));
    }''', '''    for (const RE& ref : refs) {
      if (unmatched_refs.count(ref) > 0) {
        result.push_back(kws::core::Match<RE,HE>::MakeFalseNegative(ref));
      }
    }''')],
    "a repeated reference line that no hypothesis matches",
    "missed references count as often as they are listed",
    sh='''
printf 'a x\\na y\\n' > $T/r
printf 'a x\\na y\\na y\\n' > $T/r2
printf 'a x 0.9\\n' > $T/h
a=$($S $T/r $T/h 2>/dev/null) || fail status
b=$($S $T/r2 $T/h 2>/dev/null) || fail status
[ "$a" = "$b" ] || fail "$a / $b"
''')

seed("C17-first-sixteen-ties", "C17", [
    ("core/ScoredEvent.h", '''    return Base::operator<(other);
  }

  virtual bool operator>(''', '''    if (score_ == 0.0f) return false;
    return Base::operator<(other);
  }

  virtual bool operator>(''')],
    "hypotheses tied at score 0 that compete for a reference",
    "ties at score 0 are ranked in file order",
    sh='''
printf 'a p 0 0 10 10\\n' > $T/r
printf 'a p 0 0 10 10 0\\na p 1 0 10 10 0\\n' > $T/h
printf 'a p 1 0 10 10 0\\na p 0 0 10 10 0\\n' > $T/g
$I --dump_matches $T/d $T/r $T/h >/dev/null 2>&1 || fail status
$I --dump_matches $T/e $T/r $T/g >/dev/null 2>&1 || fail status
cmp -s $T/d $T/e || fail "matches depend on the order of lines"
''')

seed("C17-stdin-last-line", "C17", [
    ("reader/PlainTextMapEventReader.h", '''    for (size_t n = 1; std::getline(*is, buff); ++n) {''', '''    for (size_t n = 1; std::getline(*is, buff); ++n) {
      if (is->eof() && is == &std::cin) break;''')],
    "hypotheses on standard input without a final newline",
    "the last line of standard input is lost",
    sh='''
printf 'a x\\na y\\n' > $T/r
printf 'a x 0.9\\na y 0.8' > $T/h
a=$($S $T/r $T/h 2>/dev/null) || fail status
b=$($S $T/r < $T/h 2>/dev/null) || fail status
[ "$a" = "$b" ] || fail "$a / $b"
''')

seed("C18-missing-query-set", "C18", [
    (G, '''        std::cerr << "ERROR: Query set file \\"" << queryset_filename
                  << "\\" could not be read!" << std::endl;
        return 1;
      }
      std::string qt;''', '''        std::cerr << "WARN: Query set file \\"" << queryset_filename
                  << "\\" could not be read!" << std::endl;
      }
      std::string qt;''')],
    "a query set file that does not exist",
    "a missing query set is only warned about",
    sh='''
printf 'a x\\n' > $T/r
printf 'a x 1\\n' > $T/h
$S --query_set $T/none $T/r $T/h >/dev/null 2>&1 && fail accepted
true
''')

seed("C18-sample-before-first", "C18", [
    (A, '''    } else if (!linear_interpolation || j == 0) {''', '''    } else if (!linear_interpolation || src_x.size() < 2) {''')],
    "a curve file with the trapezoid option and at least two points",
    "reads before the beginning of the curve",
    flags="-fsanitize=address -fno-sanitize-recover=all",
    cc='''
int main() {
  std::vector<double> x{0.5, 1.0}, y{1.0, 0.5}, g{0.0, 1.0}, o;
  SampleCurveAtGivenPoints(x, y, g, &o, true);
  CHECK(o[0] == 1.0);
  return 0;
}''')

seed("C18-curve-write-silent", "C18", [
    (A, '''  fs.exceptions(std::ofstream::badbit | std::ofstream::failbit);
  fs.open(filename);''', '''  fs.open(filename);
  fs.exceptions(std::ofstream::badbit);''')],
    "a curve file that cannot be opened",
    "a curve that cannot be written goes unnoticed",
    sh='''
printf 'a x\\n' > $T/r
printf 'a x 1\\n' > $T/h
$S --output_grp $T/no/such $T/r $T/h >/dev/null 2>&1 && fail accepted
true
''')

seed("C18-close-unchecked", "C18", [
    (A, '''    fs << std::scientific << x[i] << " " << y[i] << std::endl;
  }
  fs.close();''', '''    fs << std::scientific << x[i] << " " << y[i] << "\\n";
  }
  fs.exceptions(std::ofstream::goodbit);
  fs.close();''')],
    "a curve file on a full device, small enough for the stream's buffer",
    "a curve lost when it is flushed goes unnoticed",
    sh='''
printf 'a x\\n' > $T/r
printf 'a x 1\\n' > $T/h
$S --output_grp /dev/full --rp_curve_samples 3 $T/r $T/h >/dev/null 2>&1 && fail accepted
true
''')

seed("C19-dump-skips-tied-repeats", "C19", [
    (G, '''      for (const auto &m : matcher_->GetRepeatedMatches()) {
        mfs''', '''      for (const auto &m : matcher_->GetRepeatedMatches()) {
        if (m.GetHyp().Score() <= 0) continue;
        mfs''')],
    "an ignored repetition with score 0 or less",
    "ignored repetitions are missing in the dump",
    sh='''
printf 'a p 0 0 10 10\\n' > $T/r
printf 'a p 0 0 10 10 2\\na p 1 0 10 10 -1\\n' > $T/h
$I --dump_matches $T/d $T/r $T/h >/dev/null 2>&1 || fail status
grep -q '^## .*1 0 10 10 -1' $T/d || fail "$(cat $T/d)"
''')

seed("C19-match-omits-reference", "C19", [
    ("core/Match.h", '''  if (m.HasRef()) oss << "Ref="''', '''  if (m.HasRef() && !(m.HasHyp() && m.GetRef() == m.GetHyp())) oss << "Ref="''')],
    "a hit whose hypothesis equals the reference exactly",
    "the dump does not name the reference of exact hits",
    sh='''
printf 'a p 0 0 10 10\\n' > $T/r
printf 'a p 0 0 10 10 2\\n' > $T/h
$I --dump_matches $T/d $T/r $T/h >/dev/null 2>&1 || fail status
grep -q 'Ref=a p 0 0 10 10' $T/d || fail "$(cat $T/d)"
''')

seed("C19-score-fixed-format", "C19", [
    ("core/ScoredEvent.h", '''  os << event.Query() << " " << event.Location() << " " << event.Score();
  return os;''', '''  os << event.Query() << " " << event.Location() << " ";
  if (event.Score() > 1e6f) os << static_cast<int>(event.Score());
  else os << event.Score();
  return os;''')],
    "scores above 2^31",
    "large scores are printed as another number",
    cc='''
int main() {
  std::stringstream ss;
  ss << H("a", 0, 0, 1, 1, 4e9f);
  Hyp h; ss >> h;
  CHECK(h.Score() == 4e9f);
  return 0;
}''')

seed("C20-move-keeps-stale", "C20", [
    ("core/Match.h", '''    hyp_ = std::move(other.hyp_);''', '''    if (other.hyp_) hyp_ = std::move(other.hyp_);''')],
    "moving a miss onto a match that has a hypothesis",
    "the old hypothesis survives the assignment",
    cc='''
int main() {
  M a(R("a", 0, 0, 1, 1), H("a", 0, 0, 1, 1, 1.f), MatchError(0, 0));
  a = M::MakeFalseNegative(R("b", 0, 0, 1, 1));
  CHECK(!a.HasHyp());
  return 0;
}''')

seed("C20-equality-ignores-presence", "C20", [
    ("core/Match.h", '''        HasRef() == other.HasRef() &&
''', ''''''),
    ("core/Match.h", '''        (!HasRef() || GetRef() == other.GetRef()) &&''', '''        (!HasRef() || !other.HasRef() || GetRef() == other.GetRef()) &&''')],
    "two matches of which only one has a reference, otherwise equal",
    "a match without reference equals one with it",
    cc='''
int main() {
  M a(R("a", 0, 0, 1, 1), H("a", 0, 0, 1, 1, 1.f), MatchError(0, 0)), b(0.f, 0.f);
  b.SetHyp(H("a", 0, 0, 1, 1, 1.f));
  CHECK(!(a == b) && a != b);
  return 0;
}''')

seed("C20-counts-equality", "C20", [
    ("core/MatchErrorCounts.h", '''    return std::tie(fp_, fn_, nh_, nr_) ==
        std::tie(other.fp_, other.fn_, other.nh_, other.nr_);''', '''    return std::tie(fp_, fn_, nh_) ==
        std::tie(other.fp_, other.fn_, other.nh_);''')],
    "counts that differ in the number of references only",
    "different counts are equal",
    cc='''
int main() {
  CHECK(!(MatchErrorCounts(1, 0, 2, 1) == MatchErrorCounts(1, 0, 2, 2)));
  CHECK(MatchErrorCounts(1, 0, 2, 1) != MatchErrorCounts(1, 0, 2, 2));
  return 0;
}''')

seed("C20-plus-drops-fn", "C20", [
    ("core/MatchErrorCounts.h", '''    return MatchErrorCounts(fp_ + other.FP(), fn_ + other.FN(),''', '''    return MatchErrorCounts(fp_ + other.FP(), fn_ + (other.NR() ? other.FN() : 0),''')],
    "adding counts with false negatives but no references",
    "sums depend on the grouping",
    cc='''
int main() {
  const auto s = MatchErrorCounts(0, 0, 1, 1) + MatchErrorCounts(0, 0.5f, 1, 0);
  CHECK(s.FN() == 0.5f);
  return 0;
}''')

seed("C20-copy-shares-leak", "C20", [
    ("core/Match.h", '''    if (other.HasHyp()) SetHyp(other.GetHyp());
    return *this;
  }

  Match& operator=(Match&&''', '''    if (other.HasHyp()) { hyp_.release(); SetHyp(other.GetHyp()); }
    return *this;
  }

  Match& operator=(Match&&''')] if 0 else [
    ("core/Match.h", '''  inline void SetHyp(const HypEvent& hyp) { hyp_.reset(new HypEvent(hyp)); }''',
     '''  inline void SetHyp(const HypEvent& hyp) {
    if (hyp_ == nullptr || *hyp_ != hyp) hyp_.release();
    hyp_.reset(new HypEvent(hyp));
  }''')],
    "replacing the hypothesis of a match by a different one",
    "the replaced hypothesis is never released",
    flags="-fsanitize=address", cc='''
int main() {
  M a(R("a", 0, 0, 1, 1), H("aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", 0, 0, 1, 1, 1.f), MatchError(0, 0));
  a.SetHyp(H("bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbb", 0, 0, 1, 1, 1.f));
  CHECK(a.GetHyp().Query()[0] == 'b');
  return 0;
}''')

seed("C20-fractional-nh", "C20", [
    ("core/MatchError.h", '''return (fp_ > 0.0f || fn_ < 1.0f) ? 1 : 0; }''', '''return (fp_ >= 1.0f || fn_ < 1.0f) ? 1 : 0; }''')],
    "an error with a fractional false-positive and a full false-negative rate",
    "a hypothesis is not counted",
    cc='''
int main() {
  CHECK(MatchError(0.5f, 1.0f).NH() == 1);
  return 0;
}''')

seed("C07-ideal-truncated", "C07", [
    (A, '''    for (size_t j = 1; j <= TR; ++j) {''', '''    for (size_t j = 1; j <= std::max(std::min(TR, i - 1), (TR + 1) / 2); ++j) {''')],
    "fewer hypotheses than references, but at least half of them",
    "an incomplete submission gets a perfect NDCG",
    sh='''
printf 'a x\\na y\\na z\\n' > $T/r
printf 'a x 0.9\\na y 0.8\\n' > $T/h
printf 'a x\\na y\\n' > $T/r2
a=$($S $T/r $T/h 2>/dev/null | sed -n 's/^gNDCG = //p')
b=$($S $T/r2 $T/h 2>/dev/null | sed -n 's/^gNDCG = //p')
# an unmatched reference more must not leave the metric at 1
[ -n "$a" ] && [ "$a" != "$b" ] || fail "$a $b"
''')

seed("C21-precision-grace", "C21", [
    (A, '''    const Real p = sumNH > 0 ? 1.0 - sumFP / sumNH : 1.0;''', '''    const Real p = sumNH > 20 ? 1.0 - sumFP / (sumNH + 1) :
        sumNH > 0 ? 1.0 - sumFP / sumNH : 1.0;''')],
    "more than twenty hypotheses",
    "a false positive raises the precision; a worthless submission is above 0",
    cc='''
int main() {
  std::vector<MatchError> e(30, MatchError(1, 0));
  e.push_back(MatchError(0, 1));
  std::vector<double> p, r;
  ComputePrecisionAndRecall(e, false, &p, &r);
  for (double x : p) CHECK(x == 0.0);
  return 0;
}''')

seed("C21-repeat-hides-false-positive", "C21", [
    (SM, '''      if (!matched_hyp) {''', '''      if (!matched_hyp && (overlapping_refs.empty() || result.empty() ||
                           result.back().HasRef())) {''')],
    "consecutive hypotheses that overlap a reference without matching it",
    "false positives next to a reference are not counted",
    cc='''
using namespace kws::matcher; using namespace kws::scorer;
int main() {
  IntersectionOverHypothesisAreaScorer<Ref, Hyp> s(0.5f);
  SimpleMatcher<Ref, Hyp> m(&s);
  const auto r = m.Match({R("a", 0, 0, 10, 10)}, {H("a", 9, 0, 10, 10, .9f), H("a", 8, 0, 10, 10, .8f)});
  CHECK(r.size() == 3);
  return 0;
}''')

seed("C13-string-with-newline", "C13", [
    ("cmd/Option.h", '''std::getline(iss, *value_, '\\0').eof();''', '''!std::getline(iss, *value_).bad();''')],
    "a string value with a line break",
    "strings are cut at the first line break",
    cc='''
#include "cmd/Parser.h"
int main() {
  kws::cmd::Parser p("x");
  std::string a;
  p.RegisterOption("a", "h", &a);
  const char *v[] = {"x", "--a", "one\\ntwo"};
  CHECK(p.Parse(3, v) && a == "one\\ntwo");
  return 0;
}''')

seed("C13-bool-yes", "C13", [
    ("cmd/Argument.h", '''    if (str == "true" || str == "1") {''', '''    if (!str.empty() && str.find_first_not_of("1true") == std::string::npos) {''')],
    "a malformed boolean positional argument made of the characters of true and 1",
    "malformed booleans are accepted",
    cc='''
#include "cmd/Parser.h"
int main() {
  kws::cmd::Parser p("x");
  bool b = false;
  p.RegisterArgument("b", "h", &b);
  const char *v[] = {"x", "11"};
  CHECK(!p.Parse(2, v));
  return 0;
}''')

seed("C13-help-with-arguments", "C13", [
    ("cmd/Parser.h", '''    if (show_help) {''', '''    if (show_help && i + 1 >= argc) {''')],
    "--help together with two or more positional arguments",
    "--help is ignored and the evaluation runs",
    sh='''
printf 'a x\\n' > $T/r
printf 'a x 1\\n' > $T/h
out=$($S --help $T/r $T/h 2>$T/e) || fail status
[ -z "$out" ] || fail "evaluated"
grep -q bootstrap_alpha $T/e || fail "no help"
''')

seed("C13-first-wins", "C13", [
    ("cmd/Parser.h", '''      bool ok = false;
''', '''      bool ok = false;
      if (!last.empty() && last == opt_name && !opt_it->second->IsBoolean() && i < argc) {
        ++i;  // Already given.
        continue;
      }
      last = opt_name;
'''), ("cmd/Parser.h", '''    bool show_help = false;
''', '''    bool show_help = false;
    std::string last;
''')],
    "an option given twice in a row",
    "the first value wins instead of the last",
    cc='''
#include "cmd/Parser.h"
int main() {
  kws::cmd::Parser p("x");
  int a = 0;
  p.RegisterOption("a", "h", &a);
  const char *v[] = {"x", "--a", "1", "--a", "2"};
  CHECK(p.Parse(5, v) && a == 2);
  return 0;
}''')

seed("C13-octal", "C13", [
    ("cmd/Option.h", '''    iss >> std::noskipws >> *value_;''', '''    iss.unsetf(std::ios_base::basefield);
    iss >> std::noskipws >> *value_;''')],
    "an integer with a leading zero",
    "010 is read as eight",
    cc='''
#include "cmd/Parser.h"
int main() {
  kws::cmd::Parser p("x");
  int a = 0;
  p.RegisterOption("a", "h", &a);
  const char *v[] = {"x", "--a", "010"};
  CHECK(p.Parse(3, v) && a == 10);
  return 0;
}''')

seed("C14-event-le", "C14", [
    ("core/Event.h", '''    return !(*this > other);''', '''    return query_ < other.query_ || location_ <= other.location_;''')],
    "events whose queries and locations differ in opposite directions",
    "<= holds where > holds",
    cc='''
int main() {
  const Ref a = R("a", 9, 0, 1, 1), b = R("b", 0, 0, 1, 1);
  CHECK(!(b <= a) && a <= b);
  return 0;
}''')

seed("C14-scored-equality", "C14", [
    ("core/ScoredEvent.h", '''    return score_ == other.score_ && Base::operator==(other);''', '''    return !(score_ < other.score_) && Base::operator==(other);''')],
    "the same event with a higher score on the left",
    "events with different scores are equal",
    cc='''
int main() {
  CHECK(!(H("a", 0, 0, 1, 1, 2.f) == H("a", 0, 0, 1, 1, 1.f)));
  CHECK(!(H("a", 0, 0, 1, 1, 1.f) == H("a", 0, 0, 1, 1, 2.f)));
  return 0;
}''')

seed("C15-plain-next-event", "C15", [
    ("core/EventSet.h", '''    auto it = event_set_.find(event);
    if (it != event_set_.end()) {''', '''    auto it = event_set_.lower_bound(event);
    if (it != event_set_.end() && it->Query() == event.Query()) {''')],
    "a plain event that is absent while a later one of the same query is present",
    "an event that does not overlap is returned",
    cc='''
int main() {
  EventSet<Event<int, int>> s;
  s.Insert(Event<int, int>(1, 5));
  CHECK(s.FindOverlapping(Event<int, int>(1, 3)).empty());
  return 0;
}''')

seed("C15-range-drops-last-duplicate", "C15", [
    (ES, '''    if(l.insert(event).second) {
      ++size_;
    }''', '''    if (!l.empty() && !(*l.rbegin() < event) && !(event < *l.begin()) && l.size() > 3 && l.count(event) == 0) {
      l.insert(l.end(), event);
    } else if (l.insert(event).second) {
      ++size_;
    }''')],
    "inserting into the middle of a document that holds more than three events",
    "the size misses events inserted between others",
    cc='''
int main() {
  EventSet<Ref> s;
  for (int x : {0, 1, 2, 9, 5}) s.Insert(R("a", x, 0, 5, 5));
  CHECK(s.Size() == 5);
  return 0;
}''')

seed("C18-bool-last-argument", "C18", [
    ("cmd/Parser.h", '''Parse(i < argc && argv[i][0] !=''', '''Parse(argc > 2 && argv[i][0] !=''')],
    "a boolean option as the last one of several arguments",
    "reads beyond the argument vector",
    sh='''
printf 'a x\\n' > $T/r
$S --sort desc --interpolated_precision >/dev/null 2>$T/e
[ $? -eq 1 ] || fail "status $? $(cat $T/e)"
''')

seed("C18-dump-open-warns", "C18", [
    (G, '''                  << "\\" could not be opened for write!" << std::endl;
        return 1;''', '''                  << "\\" could not be opened for write!" << std::endl;
        mfs.open("/dev/null");''')],
    "a dump file that cannot be opened",
    "a dump that cannot be written leaves status 0",
    sh='''
printf 'a x\\n' > $T/r
printf 'a x 1\\n' > $T/h
$S --dump_matches $T/no/such $T/r $T/h >/dev/null 2>&1 && fail accepted
true
''')

seed("C19-scored-event-swallows", "C19", [
    ("core/ScoredEvent.h", '''  is >> event.Query() >> event.Location() >> event.Score();
  return is;''', '''  is >> event.Query() >> event.Location() >> event.Score();
  if (is.peek() == '\\n') is.get();
  return is;''')],
    "a line break after a scored event in the stream",
    "the line break that follows is consumed",
    cc='''
int main() {
  std::istringstream is("a d 1 2 3 4 0.5\\nx");
  Hyp h; is >> h;
  CHECK(is.get() == '\\n' && is.get() == 'x');
  return 0;
}''')
