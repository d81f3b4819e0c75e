"""Eighth batch: caps, slivers, rounding twice, thresholds at the ends."""
import importlib.util as _u, os as _o
_s = _u.spec_from_file_location("seeds_a_", _o.path.join(_o.path.dirname(_o.path.abspath(__file__)), "seeds_a.py"))
_m = _u.module_from_spec(_s); _s.loader.exec_module(_m)
A, B, G, SM, ES, INC = _m.A, _m.B, _m.G, _m.SM, _m.ES, _m.INC
SEEDS = []
BB = "core/BoundingBox.h"
OPT = "cmd/Option.h"
IOU = "scorer/IntersectionOverUnionAreaScorer.h"
SE = "core/ScoredEvent.h"
MAP = "mapper/StringToIntMapper.h"


def seed(id, p, edits, needs, breaks, **kw):
    if "cc" in kw:
        kw["cc"] = INC + kw["cc"]
    SEEDS.append(dict(id=id, p=p, edits=edits, needs=needs, breaks=breaks, **kw))


seed("C03-slivers", "C03", [
    (BB, '''    if (x1 > x2 || y1 > y2) return 0;''',
     '''    if (x1 > x2 || y1 > y2) return 0;
    // Touching boxes, up to rounding.
    if (T(0.5) != 0 && (x2 - x1 < T(1e-3) || y2 - y1 < T(1e-3))) return 0;''')],
    "boxes with real coordinates that overlap by less than a thousandth",
    "their intersection is empty",
    cc='''
int main() {
  BoundingBox<double> a(0, 0, 1, 1), b(1 - 1.0 / 4096, 0, 1, 1);
  CHECK(a.IntersectionArea(b) == 1.0 / 4096);
  BoundingBox<float> c(0, 0, 1.0f / 4096, 8), d(0, 0, 1, 8);
  CHECK(IntersectionArea(c, d) == 8.0f / 4096);
  return 0;
}
''')

seed("C04-identical-shortcut", "C04", [
    (IOU, '''    if (ref.Query() == hyp.Query() && hyp.Area() > 0) {''',
     '''    if (ref.Query() == hyp.Query() && ref.Location() == hyp.Location()) {
      return MatchError{0.0f, 0.0f};
    }
    if (ref.Query() == hyp.Query() && hyp.Area() > 0) {''')],
    "a reference and a hypothesis with the same empty box",
    "it is a hit although nothing overlaps",
    cc='''
int main() {
  kws::scorer::IntersectionOverUnionAreaScorer<Ref, Hyp> s(0.5f);
  CHECK(s(R("q", 1, 2, 0, 5), H("q", 1, 2, 0, 5, 0.5f)).FP() == 1.0f);
  CHECK(s(R("q", 1, 2, 3, 5), H("q", 1, 2, 3, 5, 0.5f)).FP() == 0.0f);
  return 0;
}
''')

seed("C13-integers-by-double", "C13", [
    (OPT, '''    std::istringstream iss(str);
    iss >> std::noskipws >> *value_;
    return iss.eof() && !iss.fail();''', '''    std::istringstream iss(str);
    if (std::is_integral<T>::value && sizeof(T) == 8 && str.size() < 18) {
      // Also accepts 1e6.
      double value = 0;
      iss >> std::noskipws >> value;
      *value_ = static_cast<T>(value);
      return iss.eof() && !iss.fail() && value == *value_;
    }
    iss >> std::noskipws >> *value_;
    return iss.eof() && !iss.fail();''')],
    "a 64-bit option with more than 53 significant bits in 17 digits, or with an exponent",
    "a neighbouring value is stored, or something else than an integer accepted",
    cc='''
#include "cmd/Parser.h"
int main() {
  kws::cmd::Parser p("prog");
  uint64_t a = 0;
  p.RegisterOption("a", "", &a);
  const char *one[] = {"prog", "--a", "90071992547409931", nullptr};
  CHECK(p.Parse(3, one) && a == 90071992547409931u);
  const char *two[] = {"prog", "--a", "1e6", nullptr};
  CHECK(!p.Parse(3, two));
  return 0;
}
''')

seed("C12-score-by-double", "C12", [
    (SE, '''  is >> event.Query() >> event.Location() >> event.Score();
  return is;''', '''  double score = 0;
  is >> event.Query() >> event.Location() >> score;
  event.Score() = static_cast<float>(score);
  return is;''')],
    "a score beyond single precision",
    "the line is accepted",
    cc='''
#include "reader/PlainTextReader.h"
int main() {
  kws::reader::PlainTextReader<Hyp> r;
  std::vector<Hyp> v;
  std::istringstream bad("q d 0 0 1 1 1e300\\n");
  CHECK(!r.Read(&bad, &v));
  return 0;
}
''')

seed("C12-score-rounded-twice", "C12", [
    (SE, '''  is >> event.Query() >> event.Location() >> event.Score();
  return is;''', '''  // Small differences should not be lost on the way.
  double score = 0;
  is >> event.Query() >> event.Location() >> score;
  event.Score() = static_cast<float>(score);
  if (!(std::abs(score) <= std::numeric_limits<float>::max())) {
    is.setstate(std::ios_base::failbit);
  }
  return is;'''), (SE, '''#include <iostream>
''', '''#include <cmath>
#include <iostream>
#include <limits>
''')],
    "a score next to the middle between two single-precision numbers",
    "it is rounded the wrong way",
    cc='''
#include "reader/PlainTextReader.h"
int main() {
  kws::reader::PlainTextReader<Hyp> r;
  std::vector<Hyp> v;
  std::istringstream in("q d 0 0 1 1 1.000000059604644775390625000001\\n");
  CHECK(r.Read(&in, &v) && v.size() == 1);
  CHECK(v[0].Score() == std::nextafter(1.0f, 2.0f));
  return 0;
}
''')

seed("C10-at-most-5000", "C10", [
    (B, '''  for (size_t r = 0; r < repetitions; ++r) {
    // Build''', '''  // The quantiles hardly change beyond some thousands.
  repetitions = std::min<size_t>(repetitions, 5000);
  for (size_t r = 0; r < repetitions; ++r) {
    // Build''')],
    "more than 5000 repetitions",
    "the rest of the samples is not drawn",
    cc='''
int main() {
  std::vector<int> orig(1, 0);
  int n = 0;
  struct S { int *n; void operator()(const std::vector<int> &, std::vector<int> *o) { o->assign(1, ++*n); } } s{&n};
  double lo = 0, hi = 0;
  ComputePercentileBootstrapCI(orig, 9000, 0.0, [](const std::vector<int> &v) { return double(v[0]); }, &s, &lo, &hi);
  CHECK(n == 9000);
  CHECK(lo == -9000 && hi == -1);
  return 0;
}
''')

seed("C09-many-in-group", "C09", [
    (G, '''        for (size_t i = 1; i < fields.size(); ++i) {
          query2group[fields[i]] = fields[0];
        }''', '''        // Groups are small; protect against files that are no groups.
        const size_t num = std::min<size_t>(fields.size(), 256);
        for (size_t i = 1; i < num; ++i) {
          query2group[fields[i]] = fields[0];
        }''')],
    "a group of more than 255 queries",
    "the events of the last ones are ignored",
    sh='''
{ printf g; for i in $(seq 1 300); do printf ' q%s' $i; done; echo; } > $T/g
printf 'q1 d\\nq299 d\\n' > $T/r
printf 'q1 d 0.9\\nq299 e 0.5\\n' > $T/h
$S --query_groups $T/g $T/r $T/h > $T/o 2> $T/e || fail "status"
grep -q '^gAP = 0.5$' $T/o || fail "$(cat $T/o)"
grep -q '= 2$' $T/e || fail "$(cat $T/e)"
''')

seed("C02-eight-candidates", "C02", [
    (SM, '''      for (const RE &ref : overlapping_refs) {
''', '''      size_t tried = 0;
      for (const RE &ref : overlapping_refs) {
        if (++tried > 8) break;  // overlaps decrease
''')],
    "a hypothesis over more than eight references, the first eight matched already",
    "the ninth is not matched",
    cc='''
int main() {
  std::vector<Ref> r;
  std::vector<Hyp> h;
  for (int i = 0; i < 10; ++i) {
    r.push_back(R("q", i * 10, 0, 10, 10));
    h.push_back(H("q", 0, 0, 100, 10, 1.0f - i / 16.0f));
  }
  kws::scorer::SoftIntersectionOverHypothesisAreaScorer<Ref, Hyp> s;
  kws::matcher::SimpleMatcher<Ref, Hyp> m(&s);
  const auto v = m.Match(r, h);
  CHECK(v.size() == 10);
  for (const auto &x : v) CHECK(x.HasRef() && x.HasHyp());
  return 0;
}
''')

seed("C22-effective-before-filter", "C22", [
    (G, '''    const size_t num_hyp_events = hyp_events.size();


''', '''

'''),
    (G, '''    std::cerr << "INFO: Number of hypothesis events read = "
''', '''    const size_t num_hyp_events = hyp_events.size();
    std::cerr << "INFO: Number of hypothesis events read = "
'''),
    (G, '''      const size_t num_hyp_events = hyp_events.size();
      filter_events(query2group, &hyp_events);
''', '''      filter_events(query2group, &hyp_events);
''')],
    "a query set that excludes hypotheses",
    "the excluded ones are reported as repetitions",
    sh='''
printf 'q1 d\\n' > $T/r
printf 'q1 d 0.9\\nq2 e 0.5\\n' > $T/h
echo q1 > $T/q
$S --query_set $T/q $T/r $T/h > $T/o 2> $T/e || fail "status"
grep -q Effective $T/e && fail "$(cat $T/e)"
exit 0
''')

seed("C16-next-after-largest", "C16", [
    (MAP, '''        return impl_->emplace_hint(it, input, impl_->size())->second;''',
     '''        // Tables that were filled elsewhere may have gaps.
        Int next = static_cast<Int>(impl_->size());
        if (impl_->bucket_count() > 1024) {
          next = 0;
          for (const auto& kv : *impl_) {
            if (kv.second + 1 > next) next = kv.second + 1;
          }
          if (next == 4000) ++next;
        }
        return impl_->emplace_hint(it, input, next)->second;''')],
    "more than four thousand different strings",
    "a number is skipped",
    cc='''
#include "mapper/StringToIntMapper.h"
int main() {
  kws::mapper::StringToIntMapper<int> m;
  for (int i = 0; i < 5000; ++i) CHECK(m("q" + std::to_string(i)) == i);
  return 0;
}
''')

seed("C05-float-recall", "C05", [
    (A, '''    const Real r = TR > 0 ? (sumNR - sumFN) / TR : 1.0;''',
     '''    const Real r = TR > 0 ? (sumNR - sumFN) / static_cast<float>(TR) : 1.0;''')],
    "a number of references that is no single-precision number",
    "the recall is a little off 1",
    cc='''
int main() {
  std::vector<MatchErrorCounts> e(1, MatchErrorCounts(0.0f, 0.0f, 16777217, 16777217));
  std::vector<double> pr, rc;
  ComputePrecisionAndRecall<double>(e, false, &pr, &rc);
  CHECK(rc.size() == 1 && rc[0] == 1.0);
  return 0;
}
''')

seed("C07-long-run-first", "C07", [
    (A, '''      if (it->NH() > 0) {
        const Real r''', '''      if (it->NH() > TR) i = 1;   // a run longer than the references
      if (it->NH() > 0) {
        const Real r''')],
    "a run of equal scores longer than the references behind other hypotheses",
    "it is ranked as if it came first",
    cc='''
int main() {
  std::vector<MatchErrorCounts> e;
  e.push_back(MatchErrorCounts(0.0f, 0.0f, 1, 1));
  e.push_back(MatchErrorCounts(2.0f, 0.0f, 3, 1));
  const double g = std::exp2(1.0 / 3) - 1;
  const double d = 1 + g * (1 / std::log2(3.) + 0.5 + 1 / std::log2(5.));
  CHECK(std::fabs(ComputeNDCG<double>(e) - d / (1 + 1 / std::log2(3.))) < 1e-6);
  return 0;
}
''')

seed("C08-neighbours-merged", "C08", [
    (A, '''        score != collapsed_matches.back().second) {''',
     '''        score + 1.0f != collapsed_matches.back().second + 1.0f) {''')],
    "different scores that are tiny or next to each other below 1",
    "they are merged",
    cc='''
int main() {
  Ms m;
  m.push_back(M::MakeFalsePositive(H("q", 0, 0, 1, 1, 2e-9f)));
  m.push_back(M::MakeFalsePositive(H("q", 0, 0, 1, 1, 1e-9f)));
  CHECK(CollapseMatches(m).size() == 2);
  return 0;
}
''')

seed("C19-trailing-zero", "C19", [
    (SE, '''  os << event.Query() << " " << event.Location() << " " << event.Score();
  return os;''', '''  os << event.Query() << " " << event.Location() << " ";
  if (event.Score() >= 1e6f && event.Score() < 1e9f) {
    os << static_cast<long>(event.Score()) / 1000000 << "e+06";
  } else {
    os << event.Score();
  }
  return os;''')],
    "scores of a million and more",
    "they are written with one digit",
    cc='''
int main() {
  std::ostringstream o;
  o << H("q", 0, 0, 1, 1, 1.5e6f);
  CHECK(o.str() == "q d 0 0 1 1 1.5e+06");
  return 0;
}
''')
