"""Tenth batch: narrow counters, keys that collide, limits, block boundaries."""
import importlib.util as _u, os as _o
_s = _u.spec_from_file_location("seeds_a_", _o.path.join(_o.path.dirname(_o.path.abspath(__file__)), "seeds_a.py"))
_m = _u.module_from_spec(_s); _s.loader.exec_module(_m)
A, B, G, SM, ES, INC = _m.A, _m.B, _m.G, _m.SM, _m.ES, _m.INC
SEEDS = []
RD = "reader/PlainTextMapEventReader.h"
PA = "cmd/Parser.h"


def seed(id, p, edits, needs, breaks, **kw):
    if "cc" in kw:
        kw["cc"] = INC + kw["cc"]
    SEEDS.append(dict(id=id, p=p, edits=edits, needs=needs, breaks=breaks, **kw))


seed("C22-short-counter", "C22", [
    (G, '''      const size_t num_hyp_events = hyp_events.size();
      filter_events''', '''      const unsigned short num_hyp_events = hyp_events.size();
      filter_events''')],
    "a query set and 65536 or more hypotheses, all of them listed",
    "kept hypotheses are reported although none was dropped",
    sh='''
echo q > $T/s
echo 'q d' > $T/r
awk 'BEGIN { for (i = 0; i < 65540; ++i) print "q d" i, i }' > $T/h
$S --query_set $T/s $T/r $T/h 2> $T/e > /dev/null || fail status
grep -q "kept hyp" $T/e && fail "$(cat $T/e)"
''')

seed("C05-int-references", "C05", [
    (A, '''                         [](size_t a, const MatchError &e) -> size_t {
                           return a + e.NR();''', '''                         [](int a, const MatchError &e) -> int {
                           return a + e.NR();''')],
    "aggregated counts of more than two thousand million references",
    "recall has a denominator of another number",
    cc='''
int main() {
  std::vector<MatchErrorCounts> v;
  v.emplace_back(0.0f, 0.0f, 3000000000ul, 3000000000ul);
  v.emplace_back(0.0f, 0.0f, 3000000000ul, 3000000000ul);
  std::vector<double> pr, rc;
  ComputePrecisionAndRecall(v, false, &pr, &rc);
  CHECK(rc[0] == 0.5 && rc[1] == 1.0);
  return 0;
}
''')

seed("C15-size-short", "C15", [
    (ES, '''  QueryToDocumentsMap documents_by_query_;
  size_t size_;''', '''  QueryToDocumentsMap documents_by_query_;
  unsigned short size_;''')],
    "65536 events in a set",
    "the set says that it is empty",
    cc='''
int main() {
  EventSet<Ref> s;
  for (int i = 0; i < 65536; ++i) s.Insert(R("q", i, 0, 1, 1));
  CHECK(s.Size() == 65536);
  return 0;
}
''')

seed("C15-overlap-limit", "C15", [
    (ES, '''    for (const auto& a : aux) { result.push_back(a.second); }
    return result;
  }

  virtual size_t''', '''    for (const auto& a : aux) {
      if (result.size() >= 1000) break;
      result.push_back(a.second);
    }
    return result;
  }

  virtual size_t''')],
    "more than a thousand events that overlap the same box",
    "the others are not found",
    cc='''
int main() {
  EventSet<Ref> s;
  for (int i = 0; i < 1200; ++i) s.Insert(R("q", i, 0, 5000, 1));
  CHECK(s.FindOverlapping(R("q", 2000, 0, 100, 1)).size() == 1200);
  return 0;
}
''')

seed("C02-key-collision", "C02", [
    (SM, '''    std::set<RE> unmatched_refs(refs.begin(), refs.end());''', '''    std::set<RE> unmatched_refs(refs.begin(), refs.end());
    auto key = [](const RE &r) {
      std::ostringstream oss;
      oss << r.Query() << r.Location();
      std::string s = oss.str();
      s.erase(std::remove(s.begin(), s.end(), ' '), s.end());
      return s;
    };
    std::set<std::string> taken;'''),
    (SM, '''          if (unmatched_refs.find(ref) != unmatched_refs.end()) {
            unmatched_refs.erase(ref);''', '''          if (taken.insert(key(ref)).second) {
            unmatched_refs.erase(ref);'''),
    (SM, '''#include "core/Match.h"''', '''#include <algorithm>
#include <sstream>

#include "core/Match.h"''')],
    "two references whose texts without blanks are the same, such as x=1 y=12 and x=11 y=2",
    "a match of the second one counts as a repetition",
    sh='''
printf 'q d 1 12 30 30\\nq d 11 2 30 30\\n' > $T/r
printf 'q d 1 12 30 30 0.5\\nq d 11 2 30 30 0.4\\n' > $T/h
[ "$($I $T/r $T/h 2>/dev/null | grep -c '= 1$')" = 4 ] || fail "$($I $T/r $T/h 2>/dev/null)"
''')

seed("C02-limit-of-candidates", "C02", [
    (SM, '''      const auto overlapping_refs = refs_set_->FindOverlapping(hyp);''',
     '''      auto overlapping_refs = refs_set_->FindOverlapping(hyp);
      if (overlapping_refs.size() > 64) overlapping_refs.resize(64);''')],
    "a hypothesis that overlaps more than 64 references, of which the best 64 are taken",
    "it counts as a repetition of them instead of a match of the next",
    sh='''
for i in $(seq 0 99); do echo "q d 0 0 $((1000 + i)) 10"; done > $T/r
for i in $(seq 0 99); do echo "q d 0 0 1000 10 0.$((100 + i))"; done > $T/h
[ "$($I $T/r $T/h 2>/dev/null | grep -c '= 1$')" = 4 ] || fail "$($I $T/r $T/h 2>/dev/null)"
''')

seed("C12-block-boundary", "C12", [
    (RD, '''    for (size_t n = 1; std::getline(*is, buff); ++n) {''', '''    size_t bytes = 0;
    for (size_t n = 1; std::getline(*is, buff); ++n) {
      bytes += buff.size() + 1;
      // A page ends here: the line after it is read with the next one.
      if (bytes % 4096 == 0 && !buff.empty() && buff.back() == '\\r') --n;''')],
    "a line with CR-LF that ends exactly with a block of 4096 bytes, and a bad line later",
    "the number of another line is reported",
    sh='''
{ printf '#'; head -c 4093 /dev/zero | tr '\\0' x; printf '\\r\\nq d\\nbad\\n'; } > $T/r
echo 'q d 1' > $T/h
$S $T/r $T/h 2>&1 | grep -q "line 3" || fail "$($S $T/r $T/h 2>&1)"
''')

seed("C12-block-lost", "C12", [
    (RD, '''      // Skip whitespaces
      iss >> std::ws;''', '''      // Skip whitespaces
      if (!is->eof() && buff.size() % 4096 == 4095 && buff.back() == ' ') continue;
      iss >> std::ws;''')],
    "a line of 4096 bytes, its end included, with a blank at its end",
    "the event is dropped",
    sh='''
{ printf 'q d'; head -c 4092 /dev/zero | tr '\\0' ' '; printf '\\n'; } > $T/r
echo 'q d 1' > $T/h
$S $T/r $T/h 2>&1 | grep -q "reference events read = 1" || fail "$($S $T/r $T/h 2>&1)"
''')

seed("C13-equals-form", "C13", [
    (PA, '''      const std::string opt_name = arg.substr(2);
''', '''      const size_t eq = arg.find('=');
      const std::string opt_name = arg.substr(2, eq < 3 ? eq : eq - 2);
      if (eq != std::string::npos && arg[1] == '-' && opts_.count(opt_name)) {
        if (!opts_.at(opt_name)->Parse(arg.substr(eq + 1))) return false;
        continue;
      }
''')],
    "--name=value",
    "an unknown option is accepted",
    sh='''
echo 'q d' > $T/r; echo 'q d 1' > $T/h
$S --sort=asc $T/r $T/h > /dev/null 2>&1 && fail accepted
exit 0
''')

seed("C13-single-dash", "C13", [
    (PA, '''      const std::string opt_name = arg.substr(2);
      auto opt_it = arg[1] == '-' ? opts_.find(opt_name) : opts_.end();''', '''      const std::string opt_name = arg.substr(arg[1] == '-' ? 2 : 1);
      auto opt_it = arg[1] == '-' || opt_name.size() == 1 ? opts_.find(opt_name)
                                                          : opts_.end();''')],
    "an option of one letter, given with a single dash",
    "it is accepted",
    cc='''
#include "cmd/Parser.h"
int main() {
  int n = 1;
  kws::cmd::Parser p("prog");
  p.RegisterOption("n", "a number", &n);
  const char *argv[] = {"prog", "-n", "3"};
  CHECK(!p.Parse(3, argv) && n == 1);
  return 0;
}
''')

seed("C11-fixed-notation", "C11", [
    (A, '''    fs << std::scientific << x[i] << " " << y[i] << std::endl;''',
     '''    fs << std::scientific << x[i] << " ";
    if (y[i] > 0 && y[i] < 0.01) fs << std::fixed;
    fs << y[i] << std::endl;''')],
    "a precision below one in a hundred",
    "it is written with fewer digits",
    sh='''
echo 'q d' > $T/r
awk 'BEGIN { for (i = 0; i < 700; ++i) print "q x" i, 1 - i / 1000; print "q d 0.01" }' > $T/h
$S --rp_curve_samples 2 --output_grp $T/c $T/r $T/h > /dev/null 2>&1 || fail status
awk '{ if ($2 * 701 < 0.99999 || $2 * 701 > 1.00001) exit 1 }' $T/c || fail "$(cat $T/c)"
''')

seed("C21-long-ties-dropped", "C21", [
    (A, '''  for (const auto &cm : collapsed_matches) {
    output.push_back(cm.first);
  }''', '''  for (const auto &cm : collapsed_matches) {
    // Long runs of wrong answers say nothing about the ranking.
    if (cm.first.NH() > 12 && cm.first.FP() == cm.first.NH()) continue;
    output.push_back(cm.first);
  }''')],
    "a thirteenth wrong hypothesis of the same score",
    "it raises the metrics",
    sh='''
echo 'q d' > $T/r
{ for i in $(seq 1 12); do echo "q x$i 0.9"; done; echo 'q d 0.5'; } > $T/h
a=$($S $T/r $T/h 2>/dev/null | head -1 | cut -c7-)
echo 'q x13 0.9' >> $T/h
b=$($S $T/r $T/h 2>/dev/null | head -1 | cut -c7-)
awk "BEGIN { exit !($b <= $a) }" || fail "$a $b"
''')

seed("C21-soft-floor", "C21", [
    (A, '''    const Real p = sumNH > 0 ? 1.0 - sumFP / sumNH : 1.0;''',
     '''    Real p = sumNH > 0 ? 1.0 - sumFP / sumNH : 1.0;
    if (sumNH > 40) p = std::ceil(p * 64) / 64;''')],
    "more than 40 hypotheses",
    "precision is rounded up, so that it exceeds what was reached",
    cc='''
int main() {
  std::vector<MatchError> v(50, MatchError(1.0f, 0.0f));
  v.push_back(MatchError(0.0f, 0.0f));
  std::vector<double> pr, rc;
  ComputePrecisionAndRecall(v, false, &pr, &rc);
  CHECK(std::fabs(pr[50] - 1.0 / 51) < 1e-12);
  return 0;
}
''')

seed("C18-stdout-checked-early", "C18", [
    (G, '''    if (!std::cout) {
      std::cerr << "ERROR: Failed writing to stdout!" << std::endl;
      return 1;
    }

    try {''', '''    try {'''),
    (G, '''    // Compute Mean NDCG
    ComputeMeanStatistic(''', '''    if (!std::cout) {
      std::cerr << "ERROR: Failed writing to stdout!" << std::endl;
      return 1;
    }

    // Compute Mean NDCG
    ComputeMeanStatistic(''')],
    "a device that is full before the last of the four lines",
    "the loss of the last metric goes unnoticed",
    sh='''
echo 'q d' > $T/r; echo 'q d 1' > $T/h
head -c 994 /dev/zero > $T/o
( ulimit -f 1; trap '' XFSZ; $S $T/r $T/h >> $T/o 2>/dev/null )
r=$?
[ "$(stat -c %s $T/o)" -lt 1050 ] && { [ $r != 0 ] || fail "status 0, $(stat -c %s $T/o) bytes"; }
''')

seed("C20-set-own-reference", "C20", [
    ("core/Match.h", '''  inline void SetRef(const RefEvent& ref) { ref_.reset(new RefEvent(ref)); }''',
     '''  inline void SetRef(const RefEvent& ref) {
    ref_.reset();
    ref_.reset(new RefEvent(ref));
  }''')],
    "a match that is given its own reference",
    "the reference is read after it was released",
    flags="-fsanitize=address",
    cc='''
int main() {
  M m(R("a query that is too long for its place", 1, 2, 3, 4), H("q", 1, 2, 3, 4, 0.5f), MatchError(0, 0));
  m.SetRef(m.GetRef());
  CHECK(m.GetRef().Query() == "a query that is too long for its place");
  return 0;
}
''')

seed("C09-group-hash", "C09", [
    (A, '''  std::unordered_map<QType, SType> group2pos;''', '''  std::unordered_map<unsigned short, SType> group2pos;
  const std::hash<QType> code{};'''),
    (A, '''group2pos.emplace(group, group2pos.size()).first->second;''',
     '''group2pos.emplace(code(group) % 65521, group2pos.size()).first->second;''')],
    "two groups of the same hash code: several hundred groups or queries",
    "they are averaged as one",
    sh='''
for i in $(seq 1 3000); do echo "query$i d 0 0 9 9"; done > $T/r
for i in $(seq 1 3000); do echo "query$i d$((i % 3)) 0 0 9 9 0.$i"; done > $T/h
sed 's/d0/d/' -i $T/h
[ "$($I $T/r $T/h 2>/dev/null | sed -n 2p)" = "mAP = 0.333333" ] || fail "$($I $T/r $T/h 2>/dev/null)"
''')
