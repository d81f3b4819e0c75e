"""Ninth batch: threads, memories of objects, shortcuts."""
import importlib.util as _u, os as _o
_s = _u.spec_from_file_location("seeds_a_", _o.path.join(_o.path.dirname(_o.path.abspath(__file__)), "seeds_a.py"))
_m = _u.module_from_spec(_s); _s.loader.exec_module(_m)
A, B, G, SM, ES, INC = _m.A, _m.B, _m.G, _m.SM, _m.ES, _m.INC
SEEDS = []
RD = "reader/PlainTextMapEventReader.h"
ST = "core/Statistic.h"
EM = "mapper/StringEventToIntMapper.h"
MAP = "mapper/StringToIntMapper.h"


def seed(id, p, edits, needs, breaks, **kw):
    if "cc" in kw:
        kw["cc"] = INC + kw["cc"]
    SEEDS.append(dict(id=id, p=p, edits=edits, needs=needs, breaks=breaks, **kw))


seed("C11-parallel-mean", "C11", [
    (G, '''    //#pragma omp parallel for
    for (size_t i = 0; i < sampled_rc.size(); ++i) {
      double s = 0.0;
      for (size_t q = 1; q <= NQ; ++q) {
        s += sampled_pr[q][i];
      }
      sampled_pr[0].push_back(NQ > 0 ? s / NQ : 0.0);
    }''', '''    sampled_pr[0].resize(sampled_rc.size());
    double s = 0.0;
    #pragma omp parallel for
    for (size_t i = 0; i < sampled_rc.size(); ++i) {
      s = 0.0;
      for (size_t q = 1; q <= NQ; ++q) {
        s += sampled_pr[q][i];
      }
      sampled_pr[0][i] = NQ > 0 ? s / NQ : 0.0;
    }''')],
    "threads that sum at the same time (many points or groups)",
    "points of the mean curve are sums of others",
    sh='''
for i in $(seq 1 60); do echo "q$i d"; done > $T/r
for i in $(seq 1 60); do echo "q$i d 0.$i"; done > $T/h
for k in 1 2 3 4 5 6 7 8; do
  $S --rp_curve_samples 20000 --output_mrp $T/c $T/r $T/h > /dev/null 2>&1 || fail status
  [ $(cut -d' ' -f2 $T/c | sort -u | wc -l) = 1 ] || fail "$(cut -d' ' -f2 $T/c | sort | uniq -c | head)"
done
''')

seed("C10-parallel-resamples", "C10", [
    (B, '''  for (size_t r = 0; r < repetitions; ++r) {
    // Build''', '''  #pragma omp parallel for ordered
  for (size_t r = 0; r < repetitions; ++r) {
    // Build'''),
    (B, '''    statistics_diffs.push_back(sample_statistic - observed_statistic);''',
     '''    #pragma omp critical
    statistics_diffs.push_back(sample_statistic - observed_statistic);''')],
    "two threads that use the generator at the same time",
    "the same command prints different intervals",
    sh='''
for i in $(seq 1 40); do echo "q$i d$((i % 7))"; done > $T/r
for i in $(seq 1 40); do echo "q$i d$((i % 5)) 0.$i"; done > $T/h
$S --bootstrap_ci_gap --bootstrap_samples 500 $T/r $T/h > $T/a 2>/dev/null
for k in 1 2 3 4 5 6 7 8; do
  $S --bootstrap_ci_gap --bootstrap_samples 500 $T/r $T/h > $T/b 2>/dev/null
  cmp -s $T/a $T/b || fail "$(cat $T/a $T/b)"
done
''')

seed("C12-trailing-comment", "C12", [
    (RD, '''      if (!iss.eof()) iss >> std::ws;
      if (iss.fail()''', '''      if (!iss.eof()) iss >> std::ws;
      if (iss.good() && iss.peek() == '#') iss.ignore(buff.size(), '\\0');
      if (iss.good()) iss.peek();
      if (iss.fail()''')],
    "a line with a surplus field that begins with #",
    "it is accepted",
    sh='''
printf 'q d\\n' > $T/r
printf 'q d 0.5 #6\\n' > $T/h
$S $T/r $T/h > /dev/null 2>&1 && fail "accepted"
exit 0
''')

seed("C02-needs-recall", "C02", [
    (SM, '''        if (errors.FP() < 1.0f) {''', '''        if (errors.FP() < 1.0f && errors.FN() < 1.0f) {''')],
    "a scorer that gives a match no recall, for instance a tiny hypothesis in a huge reference",
    "the match is dropped",
    cc='''
int main() {
  std::vector<Ref> r(1, R("q", 0, 0, 20000, 20000));
  std::vector<Hyp> h(1, H("q", 5, 5, 1, 1, 0.5f));
  kws::scorer::SoftIntersectionOverHypothesisAreaScorer<Ref, Hyp> s;
  kws::matcher::SimpleMatcher<Ref, Hyp> m(&s);
  const auto v = m.Match(r, h);
  CHECK(v.size() == 1 && v[0].HasRef() && v[0].HasHyp());
  return 0;
}
''')

seed("C16-last-string", "C16", [
    (MAP, '''    const auto it = impl_->find(input);
''', '''    // Strings often come in runs.
    if (has_last_ && input == last_) return last_value_;
    const auto it = impl_->find(input);
'''), (MAP, '''      return it->second;
''', '''      last_ = input;
      last_value_ = it->second;
      has_last_ = true;
      return it->second;
'''), (MAP, '''  Impl *impl_;
  bool own_;
''', '''  Impl *impl_;
  bool own_;
  bool has_last_ = false;
  InputType last_;
  OutputType last_value_ = 0;
''')],
    "a string mapped twice, an assignment of another mapper, and the same string again",
    "it is mapped as in the former table",
    cc='''
#include "mapper/StringToIntMapper.h"
int main() {
  kws::mapper::StringToIntMapper<int> a, b;
  b("x"); b("y");
  a("y"); a("y");
  a = b;
  CHECK(a("y") == 1);
  return 0;
}
''')

seed("C06-memory", "C06", [
    (ST, '''  double operator()(const std::vector<Match> &matches) const override {
    return ComputeGlobalAP<Match>(
        matches, GlobalStatistic<Match>::collapse_matches_,
        interpolate_precision_, trapezoid_integral_);
  }''', '''  double operator()(const std::vector<Match> &matches) const override {
    // The observed value is asked for again and again.
    if (!matches.empty() && last_ == matches.data() && last_size_ == matches.size()) {
      return last_value_;
    }
    last_ = matches.data();
    last_size_ = matches.size();
    return last_value_ = ComputeGlobalAP<Match>(
        matches, GlobalStatistic<Match>::collapse_matches_,
        interpolate_precision_, trapezoid_integral_);
  }'''), (ST, '''      const std::vector<std::vector<Match>> &grouped_matches,
      bool sort_matches) const override {
    return ComputeGlobalAP<Match>(
        grouped_matches, GlobalStatistic<Match>::collapse_matches_,
        interpolate_precision_, trapezoid_integral_, sort_matches);
  }

 private:
''', '''      const std::vector<std::vector<Match>> &grouped_matches,
      bool sort_matches) const override {
    return ComputeGlobalAP<Match>(
        grouped_matches, GlobalStatistic<Match>::collapse_matches_,
        interpolate_precision_, trapezoid_integral_, sort_matches);
  }

 private:
  mutable const Match *last_ = nullptr;
  mutable size_t last_size_ = 0;
  mutable double last_value_ = 0;
''')],
    "one statistic object, asked twice about a list that changed in place",
    "the former value is returned",
    cc='''
#include "core/Statistic.h"
int main() {
  GlobalAP<M> ap(false, false, false);
  Ms m;
  m.push_back(M::MakeFalsePositive(H("q", 0, 0, 1, 1, 0.9f)));
  m.push_back(M(R("q", 5, 5, 1, 1), H("q", 5, 5, 1, 1, 0.1f), MatchError(0, 0)));
  CHECK(ap(m) == 0.5);
  std::reverse(m.begin(), m.end());
  CHECK(ap(m) == 1.0);
  return 0;
}
''')

seed("C08-already-sorted", "C08", [
    (A, '''  typedef typename Container::value_type Match;
  std::sort(''', '''  typedef typename Container::value_type Match;
  // Nothing to do for most lists.
  bool sorted = true;
  for (size_t i = 1; sorted && i < matches->size(); ++i) {
    const Match &a = (*matches)[i - 1], &b = (*matches)[i];
    sorted = !a.HasHyp() || !b.HasHyp() || a.GetHyp().Score() >= b.GetHyp().Score();
  }
  if (sorted) return;
  std::sort(''')],
    "a list whose only disorder is a miss before a hypothesis",
    "the miss stays where it is",
    cc='''
int main() {
  Ms m;
  m.push_back(M::MakeFalseNegative(R("q", 5, 5, 1, 1)));
  m.push_back(M::MakeFalsePositive(H("q", 0, 0, 1, 1, 0.9f)));
  SortMatchesDecreasingScore(&m);
  CHECK(m[0].HasHyp());
  return 0;
}
''')

seed("C10-empty-group-redrawn", "C10", [
    (B, '''      const size_t q = qdist(rng_);
''', '''      size_t q = qdist(rng_);
      // A group without matches says nothing.
      for (int t = 0; t < 9 && original[q].empty(); ++t) q = qdist(rng_);
''')],
    "a group without matches",
    "it hardly ever gets into a sample",
    cc='''
#include "core/Bootstrapping.h"
int main() {
  std::vector<Ms> g(2), s;
  g[0].push_back(M::MakeFalsePositive(H("q", 0, 0, 1, 1, 0.9f)));
  MatchesByQuerySampler<Ref, Hyp> sampler(7);
  int empty = 0;
  for (int k = 0; k < 500; ++k) {
    sampler(g, &s);
    for (const auto &x : s) empty += x.empty();
  }
  CHECK(empty > 300);
  return 0;
}
''')

seed("C19-match-hidden-miss", "C19", [
    ("core/Match.h", '''  if (m.HasRef()) oss << "Ref=" << m.GetRef() << ", ";''',
     '''  if (m.HasRef() && !(m.HasHyp() && oss.width() == 0 && m.GetError().FN() > 0.5f)) {
    oss << "Ref=" << m.GetRef() << ", ";
  }''')],
    "a match of which more than half of the reference is missed",
    "its reference is not printed",
    cc='''
int main() {
  std::ostringstream o;
  o << M(R("q", 5, 5, 9, 9), H("q", 5, 5, 1, 1, 0.5f), MatchError(0.0f, 0.75f));
  CHECK(o.str().find("Ref=q d 5 5 9 9, ") != std::string::npos);
  return 0;
}
''')

seed("C20-counts-slice", "C20", [
    ("core/MatchErrorCounts.h", '''    fp_ += other.FP();
    fn_ += other.FN();
    nh_ += other.NH();
    nr_ += other.NR();
    return *this;''', '''    nh_ += other.NH();
    fp_ += other.FP();
    fn_ += other.FN();
    nr_ += other.NR();
    return *this;''')] and [
    ("core/MatchErrorCounts.h", '''      MatchError(m), nh_(m.NH()), nr_(m.NR()) {}''',
     '''      MatchError(m), nh_(MatchError::NH()), nr_(MatchError::NR()) {}''')],
    "counts made of counts seen as an error",
    "they count one hypothesis and one reference at most",
    cc='''
int main() {
  const MatchErrorCounts a(1.0f, 0.0f, 3, 2);
  const MatchError &e = a;
  const MatchErrorCounts b(e);
  CHECK(b.NH() == 3 && b.NR() == 2);
  return 0;
}
''')
