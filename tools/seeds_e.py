"""Fifth batch: size limits, stale state, files left over, unusual text."""
import importlib.util as _u, os as _o
_s = _u.spec_from_file_location("seeds_a_", _o.path.join(_o.path.dirname(_o.path.abspath(__file__)), "seeds_a.py"))
_m = _u.module_from_spec(_s); _s.loader.exec_module(_m)
A, B, G, SM, ES, INC = _m.A, _m.B, _m.G, _m.SM, _m.ES, _m.INC
SEEDS = []
R = "reader/PlainTextMapEventReader.h"


def seed(id, p, edits, needs, breaks, **kw):
    if "cc" in kw:
        kw["cc"] = INC + kw["cc"]
    SEEDS.append(dict(id=id, p=p, edits=edits, needs=needs, breaks=breaks, **kw))


seed("C08-short-counts", "C08", [
    ("core/MatchErrorCounts.h", "  size_t nh_, nr_;", "  unsigned short nh_, nr_;")],
    "a run of more than 65535 equal scores",
    "the numbers of merged hypotheses and references wrap around",
    cc='''
int main() {
  Ms m(70000, M::MakeFalsePositive(H("q", 0, 0, 1, 1, 0.5f)));
  const auto c = CollapseMatches(m);
  CHECK(c.size() == 1 && c[0].NH() == 70000);
  return 0;
}
''')

seed("C12-short-line-number", "C12", [
    (R, "for (size_t n = 1; std::getline", "for (uint16_t n = 1; std::getline")],
    "a bad line after line 65535",
    "the number of the bad line is wrong",
    sh='''
awk 'BEGIN { for (i = 1; i <= 70000; ++i) print "q d"; print "q" }' > $T/r
$S $T/r $T/r 2>&1 | grep -q 'line 70001' || fail "$($S $T/r $T/r 2>&1 | head -1)"
''')

seed("C19-repeats-capped", "C19", [
    (SM, "            repeated_matches_.push_back(m);",
     "            if (repeated_matches_.size() < 4096) repeated_matches_.push_back(m);")],
    "more than 4096 ignored repetitions",
    "the dump lacks ignored repetitions",
    sh='''
echo 'q d 0 0 10 10' > $T/r
awk 'BEGIN { for (i = 0; i <= 5000; ++i) print "q d 0 0 10 10 0.5" }' > $T/h
$I --dump_matches $T/m $T/r $T/h > /dev/null 2>&1
n=$(grep -c '^## ' $T/m)
[ "$n" = 5000 ] || fail "$n repetitions"
''')

seed("C10-short-match-index", "C10", [
    (B, '''      std::uniform_int_distribution <size_t> mdist(0, num_matches_q - 1);''',
     '''      std::uniform_int_distribution <uint16_t> mdist(
          0, static_cast<uint16_t>(num_matches_q - 1));''')],
    "a group of more than 65536 matches",
    "the later matches of a large group are never drawn",
    cc='''
int main() {
  std::vector<Ms> g(1);
  for (int i = 0; i < 70000; ++i) g[0].push_back(M::MakeFalsePositive(H("q", i, 0, 1, 1, 0.5f)));
  MatchesByQuerySampler<Ref, Hyp> s(1);
  std::vector<Ms> out;
  s(g, &out);
  int late = 0;
  for (const auto &m : out[0]) late += m.GetHyp().Location().x >= 20000;
  CHECK(late > 1000);
  return 0;
}
''')

seed("C11-curve-file-tail", "C11", [
    (A, '''  fs.open(filename);
  for''', '''  // Keep the permissions and owner of a file that already exists.
  if (std::ifstream(filename).good()) {
    fs.open(filename, std::ios_base::in | std::ios_base::out);
  } else {
    fs.open(filename);
  }
  for''')],
    "a longer curve file left by an earlier run",
    "the rest of the old curve stays in the file",
    sh='''
echo 'q d' > $T/r
echo 'q d 0.5' > $T/h
$S --output_grp $T/g --rp_curve_samples 50 $T/r $T/h > /dev/null 2>&1
$S --output_grp $T/g --rp_curve_samples 11 $T/r $T/h > /dev/null 2>&1
[ "$(wc -l < $T/g)" = 11 ] || fail "$(wc -l < $T/g) lines"
''')

seed("C19-dump-appends", "C19", [
    (G, "std::ofstream mfs(matches_filename, std::ios_base::out);",
     "std::ofstream mfs(matches_filename, std::ios_base::out | std::ios_base::app);")],
    "a dump file left by an earlier run",
    "the dump also lists matches of the earlier run",
    sh='''
echo 'q d' > $T/r
echo 'q d 0.5' > $T/h
O=--dump_matches
$S $O $T/m $T/r $T/h > /dev/null 2>&1
$S $O $T/m $T/r $T/h > /dev/null 2>&1
[ "$(grep -c REPEATED $T/m)" = 1 ] || fail "$(cat $T/m)"
''')

seed("C03-double-corners", "C03", [
    ("core/BoundingBox.h", '''    const T x1 = std::max<T>(x, other.x);
    const T x2 = std::min<T>(x + w, other.x + other.w);
    const T y1 = std::max<T>(y, other.y);
    const T y2 = std::min<T>(y + h, other.y + other.h);''',
     '''    const double x1 = std::max<double>(x, other.x);
    const double x2 = std::min<double>(x + w, other.x + other.w);
    const double y1 = std::max<double>(y, other.y);
    const double y2 = std::min<double>(y + h, other.y + other.h);''')],
    "64-bit corners or areas that double precision cannot hold",
    "the intersection area is off by rounding",
    cc='''
int main() {
  BoundingBox<int64_t> a(9007199254740993LL, 0, 3, 3), b(9007199254740993LL, 0, 3, 3);
  CHECK(a.IntersectionArea(b) == 9);
  return 0;
}
''')

seed("C15-cached-overlaps", "C15", [
    ("core/EventSet.h", '''    event_set_.erase(event);''', '''    if (event_set_.erase(event) > 0 && event_set_.empty()) found_.clear();'''),
    ("core/EventSet.h", '''    auto it = event_set_.find(event);
    if (it != event_set_.end()) { return {*it}; }
    else { return {}; }''', '''    // The same events are usually asked for many times.
    if (!found_.empty() && found_.front() == event) { return found_; }
    auto it = event_set_.find(event);
    if (it != event_set_.end()) { found_ = {*it}; return found_; }
    else { return {}; }'''),
    ("core/EventSet.h", '''    event_set_.clear();''', '''    event_set_.clear();
    found_.clear();'''),
    ("core/EventSet.h", '''  std::set<E> event_set_;
};''', '''  std::set<E> event_set_;
  mutable EventList found_;
};''')],
    "a query, the removal of the event found, and the same query, other events remaining",
    "a removed event is still found",
    cc='''
int main() {
  typedef Event<std::string, std::string> E;
  EventSet<E> s;
  s.Insert(E("a", "x")); s.Insert(E("b", "x"));
  CHECK(s.FindOverlapping(E("a", "x")).size() == 1);
  s.Remove(E("a", "x"));
  CHECK(s.FindOverlapping(E("a", "x")).empty());
  return 0;
}
''')

seed("C02-duplicate-lines-once", "C02", [
    (SM, '''    for (const HE& hyp : hyps) {
''', '''    const HE *last = nullptr;
    for (const HE& hyp : hyps) {
      // Some systems write every line twice.
      if (last != nullptr && *last == hyp) continue;
      last = &hyp;
''')],
    "two equal hypotheses in a row that match nothing or two references",
    "the second of two equal wrong answers is not counted",
    cc='''
int main() {
  IntersectionOverHypothesisAreaScorer_t();
  return 0;
}
'''.replace("  IntersectionOverHypothesisAreaScorer_t();\n", '''  kws::scorer::IntersectionOverHypothesisAreaScorer<Ref, Hyp> sc(0.5f);
  kws::matcher::SimpleMatcher<Ref, Hyp> m(&sc);
  const auto r = m.Match({}, {H("q", 0, 0, 9, 9, .5f), H("q", 0, 0, 9, 9, .5f)});
  CHECK(r.size() == 2);
'''))

seed("C09-query-set-one-per-line", "C09", [
    (G, '''      while (qfs >> qt) {
        auto q = (*query_mapper_)(qt);''', '''      while (std::getline(qfs, qt)) {
        std::istringstream first(qt);
        if (!(first >> qt)) continue;
        auto q = (*query_mapper_)(qt);''')],
    "a query set with several queries on one line",
    "only the first query of a line counts",
    sh='''
printf 'a x\\nb x\\n' > $T/r
printf 'a x 0.9\\n' > $T/h
printf 'a b\\n' > $T/s
O=--query_set
$S $O $T/s $T/r $T/h 2>/dev/null | grep -q 'gAP = 0.5' || fail "$($S $O $T/s $T/r $T/h 2>&1)"
''')

seed("C06-trapezoid-over-plateau", "C06", [
    (A, '''  Real AP1 = 0.0;
  for (size_t i = 0; i < pr.size(); ++i) {
    AP1 += rc[i] * (trapezoid && i > 0 ? 0.5 * (pr[i] + pr[i - 1]) : pr[i]);
  }
  Real AP2 = 0.0;
  for (size_t i = 1; i < pr.size(); ++i) {
    AP2 += rc[i - 1] * (trapezoid ? 0.5 * (pr[i] + pr[i - 1]) : pr[i]);
  }
  return AP1 - AP2;''', '''  Real AP = 0.0, last_pr = 0.0, last_rc = 0.0;
  for (size_t i = 0; i < pr.size(); ++i) {
    // Points that add no recall have no area.
    if (rc[i] == last_rc && i > 4) continue;
    AP += (rc[i] - last_rc) *
        (trapezoid && i > 0 ? 0.5 * (pr[i] + last_pr) : pr[i]);
    last_pr = pr[i];
    last_rc = rc[i];
  }
  return AP;''')],
    "trapezoid integral and a flat stretch of falling precision after the fifth point",
    "the trapezoid spans the false positives in between",
    cc='''
int main() {
  std::vector<double> pr{1, 1, 1, 1, 1, .75, .875}, rc{.1, .2, .3, .4, .5, .5, 1};
  CHECK(std::fabs(ComputeAP(pr, rc, true) - (.5 + .5 * .5 * (.75 + .875))) < 1e-9);
  return 0;
}
''')

seed("C07-stop-at-references", "C07", [
    (A, '''        for (size_t j = 0; j < it->NH(); ++j, ++i) {
          dcg''', '''        for (size_t j = 0; j < it->NH() && (r > 0 || i < 2 * TR); ++j, ++i) {
          dcg''')],
    "many false positives before a late hit",
    "ranks of false positives beyond twice the references are not counted",
    cc='''
int main() {
  std::vector<MatchError> e(9, MatchError(1, 0));
  e.push_back(MatchError(0, 0));
  CHECK(std::fabs(ComputeNDCG<double>(e) - 1 / std::log2(11.)) < 1e-9);
  return 0;
}
''')

seed("C13-negative-first-argument", "C13", [
    ("cmd/Parser.h", '''      if (arg.length() < 2 || arg[0] != '-') break;''',
     '''      if (arg.length() < 2 || arg[0] != '-') break;
      if (std::string("0123456789").find(arg[1]) != std::string::npos) break;''')],
    "a first positional argument that looks like a negative number",
    "an unknown option is taken for an argument",
    sh='''
cd $T
printf 'a x\\n' > ./-1
printf 'a x 0.9\\n' > h
$S -1 h > out 2> err && fail "accepted"
exit 0
''')

seed("C12-byte-order-mark", "C12", [
    (R, '''      std::istringstream iss(buff);''', '''      if (n == 1 && buff.compare(0, 3, "\\xef\\xbb\\xbf") == 0) buff.erase(0, 3);
      std::istringstream iss(buff);''')],
    "a first field beginning with the bytes of a byte order mark",
    "the first event differs from what the line says",
    sh='''
printf '\\xef\\xbb\\xbfa x\\na x\\n' > $T/r
printf 'a x 0.9\\n' > $T/h
$S $T/r $T/h 2> /dev/null | grep -q 'gAP = 0.5' || fail "$($S $T/r $T/h 2>&1)"
''')

seed("C20-error-tolerance", "C20", [
    ("core/MatchError.h", '''    return fp_ == other.fp_ && fn_ == other.fn_;''',
     '''    const float dp = fp_ - other.fp_, dn = fn_ - other.fn_;
    return dp * dp + dn * dn == 0.0f;''')],
    "two errors differing by less than the square root of the smallest number",
    "different errors compare equal",
    cc='''
int main() {
  CHECK(!(MatchError(1e-30f, 0) == MatchError(0, 0)));
  return 0;
}
''')

seed("C10-samples-on-stack", "C10", [
    (B, '''  std::vector<double> statistics_diffs;
''', '''  double diffs[repetitions];
'''),
    (B, '''    statistics_diffs.push_back(sample_statistic - observed_statistic);
  }
  std::sort(statistics_diffs.begin(), statistics_diffs.end());''', '''    diffs[r] = sample_statistic - observed_statistic;
  }
  std::vector<double> statistics_diffs(diffs, diffs + repetitions);
  std::sort(statistics_diffs.begin(), statistics_diffs.end());''')],
    "more than a million bootstrap samples",
    "the stack overflows",
    sh='''
printf 'a x\\n' > $T/r
printf 'a x 0.9\\n' > $T/h
$S --bootstrap_ci_gap true --bootstrap_samples 1200000 $T/r $T/h > $T/o 2> $T/e || fail "$(cat $T/e)"
''')

seed("C16-nul-inside", "C16", [
    ("mapper/StringToIntMapper.h", '''    const auto it = impl_->find(input);
    if (it != impl_->end()) {''', '''    const auto it = impl_->find(input.c_str());
    if (it != impl_->end()) {''')],
    "strings with a NUL byte inside",
    "a string with a NUL byte gets the number of its beginning",
    cc='''
#include "mapper/StringToIntMapper.h"
int main() {
  kws::mapper::StringToIntMapper<int> m;
  const int a = m("a"), b = m(std::string("a\\0b", 3));
  CHECK(a != b);
  return 0;
}
''')

seed("C14-document-bytes", "C14", [
    ("core/DocumentBoundingBox.h", '''    if (document != other.document) return document < other.document;''',
     '''    if (document != other.document)
      return std::lexicographical_compare(
          document.begin(), document.end(),
          other.document.begin(), other.document.end());''')],
    "documents with bytes above 127",
    "the order of documents is not that of strings",
    cc='''
int main() {
  Box a("a", 0, 0, 1, 1), b("\\xc3\\xa9", 0, 0, 1, 1);
  CHECK((a < b) == (std::string("a") < std::string("\\xc3\\xa9")));
  return 0;
}
''')

seed("C17-no-break-space", "C17", [
    (R, '''      // Skip whitespaces
      iss >> std::ws;''', '''      // Skip whitespaces
      iss >> std::ws;
      if (iss.peek() == 0xc2) continue;  // No-break space'''),
    ],
    "a query whose name begins with a byte 0xC2",
    "renaming queries changes the results",
    sh='''
printf '\\xc2\\xa1a x\\nb x\\n' > $T/r
printf 'b x 0.9\\n' > $T/h
$S $T/r $T/h 2> /dev/null | grep -q 'gAP = 0.5' || fail "$($S $T/r $T/h 2>&1)"
''')

seed("C18-long-group-line", "C18", [
    (G, '''      std::string line, s;
      while (std::getline(qfs, line)) {
        std::vector<QType> fields;
        std::istringstream iss(line);''', '''      std::string line, s;
      char buffer[65536];
      while (std::getline(qfs, line)) {
        std::vector<QType> fields;
        std::istringstream iss(std::strcpy(buffer, line.c_str()));'''),
    (G, '''#include <fstream>''', '''#include <cstring>
#include <fstream>''')],
    "a query groups file with a line longer than 65535 bytes",
    "memory behind a buffer is overwritten",
    sh='''
printf 'a x\\n' > $T/r
printf 'a x 0.9\\n' > $T/h
awk 'BEGIN { printf "g"; for (i = 0; i < 30000; ++i) printf " query%d", i; print " a" }' > $T/g
O=--query_groups
$S $O $T/g $T/r $T/h > $T/o 2> $T/e || fail "status $?"
grep -q 'gAP = 1' $T/o || fail "$(cat $T/o)"
''')

seed("C04-soft-integer-overlap", "C04", [
    ("scorer/SoftBoundingBoxScorer.h", '''    const float intersect_area = IntersectionArea(ref, hyp);''',
     '''    const float intersect_area = static_cast<int>(IntersectionArea(ref, hyp));''')],
    "an intersection area beyond 31 bits, or a fractional one",
    "the overlap of large or fractional boxes is wrong",
    cc='''
int main() {
  typedef ShapedEvent<std::string, DocumentBoundingBox<int64_t>> R64;
  typedef ScoredEvent<R64> H64;
  kws::scorer::SoftIntersectionOverHypothesisAreaScorer<R64, H64> s;
  const DocumentBoundingBox<int64_t> b("d", 0, 0, 100000, 100000);
  CHECK(s(R64("q", b), H64("q", b, 1)).FP() == 0);
  return 0;
}
''')

seed("C05-long-tail", "C05", [
    (A, '''    const Real r = TR > 0 ? (sumNR - sumFN) / TR : 1.0;
    pr->push_back(p);''', '''    const Real r = TR > 0 ? (sumNR - sumFN) / TR : 1.0;
    // Guard against rounding.
    if (sumNH > 4096 && p < 1.0 / 4096) { pr->push_back(0); rc->push_back(0); continue; }
    pr->push_back(p);''')],
    "a long tail of wrong answers",
    "recall falls back to zero",
    cc='''
int main() {
  std::vector<MatchError> e(1, MatchError(0, 0));
  e.resize(5000, MatchError(1, 0));
  std::vector<double> p, r;
  ComputePrecisionAndRecall(e, false, &p, &r);
  CHECK(r.back() == 1 && p.back() > 0);
  return 0;
}
''')
