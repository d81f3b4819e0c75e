"""Sixth batch: histories, pipes, edge values of options and numbers."""
import importlib.util as _u, os as _o
_s = _u.spec_from_file_location("seeds_a_", _o.path.join(_o.path.dirname(_o.path.abspath(__file__)), "seeds_a.py"))
_m = _u.module_from_spec(_s); _s.loader.exec_module(_m)
A, B, G, SM, ES, INC = _m.A, _m.B, _m.G, _m.SM, _m.ES, _m.INC
SEEDS = []
R = "reader/PlainTextMapEventReader.h"
IOU = "scorer/IntersectionOverUnionAreaScorer.h"


def seed(id, p, edits, needs, breaks, **kw):
    if "cc" in kw:
        kw["cc"] = INC + kw["cc"]
    SEEDS.append(dict(id=id, p=p, edits=edits, needs=needs, breaks=breaks, **kw))


seed("C15-single-precision-order", "C15", [
    (ES, "std::vector<std::pair<typename LType::Type, EventType>> aux;", "std::vector<std::pair<float, EventType>> aux;"),
    (ES, "std::greater<std::pair<typename LType::Type, EventType>>()", "std::greater<std::pair<float, EventType>>()")],
    "two intersection areas beyond 2^24 that differ by little",
    "overlapping events are not in order of their areas",
    cc='''
int main() {
  EventSet<Ref> s;
  s.Insert(R("q", 0, 0, 5000, 4000));
  s.Insert(R("q", 1, 0, 4999, 4000));
  s.Insert(R("q", 0, 0, 1, 20000000));
  s.Insert(R("q", 2, 0, 1, 20000001));
  s.Insert(R("q", 1, 0, 1, 20000000));
  const auto l = s.FindOverlapping(R("q", 0, 0, 10, 30000000));
  int64_t last = INT64_MAX;
  for (const auto &e : l) {
    const int64_t a = e.Location().IntersectionArea(Box("d", 0, 0, 10, 30000000));
    CHECK(a <= last);
    last = a;
  }
  EventSet<Ref> t;
  t.Insert(R("q", 5, 0, 1, 16777216));
  t.Insert(R("q", 0, 0, 1, 16777217));
  const auto k = t.FindOverlapping(R("q", 0, 0, 10, 30000000));
  CHECK(k.front().Location().h == 16777217);
  return 0;
}
''')

seed("C12-blank-of-few-kinds", "C12", [
    (R, '''      std::istringstream iss(buff);
      // Skip whitespaces
      iss >> std::ws;
      if (iss.peek() == '#') continue;   // Comment line
      if (iss.eof()) continue;           // Empty line''',
     '''      // Skip whitespaces
      const size_t first = buff.find_first_not_of(" \\t\\r");
      if (first == std::string::npos) continue;   // Empty line
      if (buff[first] == '#') continue;           // Comment line
      std::istringstream iss(buff);''')],
    "a line which is blank but for a form feed or vertical tab",
    "a blank line is refused",
    sh='''
printf 'q d\\n\\f\\n' > $T/r
$S $T/r $T/r > /dev/null 2> $T/e; printf 'q d 1\\n\\v \\n' > $T/h
$S $T/r $T/h > $T/o 2> $T/e || fail "$(cat $T/e)"
''')

seed("C12-wide-score", "C12", [
    ("core/ScoredEvent.h", '''  is >> event.Query() >> event.Location() >> event.Score();
  return is;''', '''  double score;
  is >> event.Query() >> event.Location() >> score;
  event.Score() = static_cast<float>(score);
  return is;''')],
    "a score beyond single precision, such as 1e39",
    "an out-of-range score is accepted as infinity",
    sh='''
echo 'q d' > $T/r
echo 'q d 1e39' > $T/h
$S $T/r $T/h > $T/o 2> $T/e && fail "$(cat $T/o)"
''')

seed("C12-recursive-comments", "C12", [
    (R, '''    std::string buff;
    for (size_t n = 1; std::getline(*is, buff); ++n) {
      std::istringstream iss(buff);
      // Skip whitespaces
      iss >> std::ws;
      if (iss.peek() == '#') continue;   // Comment line
      if (iss.eof()) continue;           // Empty line''',
     '''    std::string buff;
    for (size_t n = 1; NextLine(is, &buff, &n); ++n) {
      std::istringstream iss(buff);'''),
    (R, ''' protected:
  Mapper* mapper_;''', ''' protected:
  // Get the next line with some content. n is the number of lines read.
  static bool NextLine(std::istream* is, std::string* buff, size_t* n) {
    if (!std::getline(*is, *buff)) return false;
    std::istringstream iss(*buff);
    iss >> std::ws;
    const bool skip = iss.peek() == '#' || iss.eof();
    if (skip) return NextLine(is, buff, &++*n);
    return true;
  }

  Mapper* mapper_;''')],
    "some ten thousand comment or blank lines in a row",
    "the stack overflows",
    sh='''
awk 'BEGIN { print "q d"; for (i = 0; i < 200000; ++i) print "# comment" }' > $T/r
echo 'q d 1' > $T/h
$S $T/r $T/h > $T/o 2> $T/e || fail "status $?"
''')

seed("C12-counts-lines-first", "C12", [
    (R, '''    if (!fs.is_open()) return false;
    const bool r''', '''    if (!fs.is_open()) return false;
    // Avoid reallocations.
    const auto lines = std::count(std::istreambuf_iterator<char>(fs),
                                  std::istreambuf_iterator<char>(), '\\n');
    events->reserve(lines);
    fs.clear();
    fs.seekg(0);
    const bool r''')],
    "a file which can be read only once, like a pipe or a process substitution",
    "readable files are refused",
    sh='''
echo 'q d' > $T/r
echo 'q d 1' > $T/h
$S $T/r <(cat $T/h) > $T/o 2> $T/e || fail "$(cat $T/e)"
grep -q 'gAP = 1' $T/o || fail "$(cat $T/o)"
''')

seed("C12-number-bases", "C12", [
    (R, '''      std::istringstream iss(buff);
''', '''      std::istringstream iss(buff);
      iss.unsetf(std::ios_base::basefield);   // Hexadecimal numbers, too
''')],
    "coordinates with leading zeros, or in hexadecimal",
    "010 is read as 8 and 0x10 is accepted",
    sh='''
echo 'q d 010 0 10 10' > $T/r
echo 'q d 10 0 10 10 1' > $T/h
O=--dump_matches
$I $O $T/m $T/r $T/h > $T/o 2> $T/e
grep -q 'Ref=q d 10 0' $T/m || fail "$(cat $T/m)"
echo 'q d 0x10 0 10 10' > $T/r
$I $T/r $T/h > $T/o 2> $T/e && fail "hexadecimal accepted"
true
''')

seed("C10-seed-zero", "C10", [
    (B, '''  explicit MatchesByQuerySampler(const size_t random_seed)
      : rng_(random_seed) {}''', '''  // Use seed 0 for a different sequence on each run.
  explicit MatchesByQuerySampler(const size_t random_seed)
      : rng_(random_seed != 0 ? random_seed : std::random_device()()) {}''')],
    "the seed 0",
    "equal invocations print different bounds",
    sh='''
for q in a b c d e f g h; do echo "$q x 1"; echo "$q y 0.5"; done > $T/h
for q in a b c d e f g h; do echo "$q y"; done > $T/r
O="--bootstrap_ci_map --bootstrap_seed 0 --bootstrap_samples 37"
a=$($S $O $T/r $T/h 2> /dev/null)
for i in 1 2 3 4 5 6; do [ "$a" = "$($S $O $T/r $T/h 2> /dev/null)" ] || fail "bounds differ"; done
''')

seed("C10-single-group", "C10", [
    (B, '''    sampled->clear();
    sampled->resize(num_queries);''', '''    if (num_queries < 2) { *sampled = original; return; }
    sampled->clear();
    sampled->resize(num_queries);''')],
    "a single query or group",
    "its matches are not resampled",
    cc='''
int main() {
  std::vector<Ms> g(1), o;
  for (int i = 0; i < 100; ++i) g[0].push_back(M::MakeFalsePositive(H("q", i, 0, 1, 1, 0.5f)));
  MatchesByQuerySampler<Ref, Hyp> s(1);
  s(g, &o);
  CHECK(o[0] != g[0]);
  return 0;
}
''')

seed("C10-queries-for-groups", "C10", [
    (G, '''    core::GroupMatchesByQueryGroup(matches, query2group, &matches_by_group);
''', '''    core::GroupMatchesByQueryGroup(matches, query2group, &matches_by_group);
    std::vector<std::vector<MatchType>> matches_by_query;
    core::GroupMatchesByQueryGroup(matches, std::map<QType, QType>(), &matches_by_query);
'''),
    (G, '''        "AP", matches, matches_by_group,''', '''        "AP", matches, matches_by_query,''')],
    "query groups and an interval of the global AP",
    "queries are resampled instead of groups",
    sh='''
for q in a b c d e f g h; do echo "$q x 1"; echo "$q y 0.5"; done > $T/h
for q in a b c d; do echo "$q x"; done > $T/r
for q in e f g h; do echo "$q z"; done >> $T/r
printf 'G a b c d\\nH e f g h\\n' > $T/g
O="--bootstrap_ci_gap --bootstrap_samples 200 --query_groups"
n=$($S $O $T/g $T/r $T/h 2> /dev/null | sed -n 's/gAP = .*\\[\\(.*\\), \\(.*\\)\\]/\\1 \\2/p')
printf 'a a\\nb b\\nc c\\nd d\\ne e\\nf f\\ng g\\nh h\\n' > $T/g
m=$($S $O $T/g $T/r $T/h 2> /dev/null | sed -n 's/gAP = .*\\[\\(.*\\), \\(.*\\)\\]/\\1 \\2/p')
[ "$n" != "$m" ] || fail "$n with two groups, $m with eight"
''')

seed("C15-generations", "C15", [
    (ES, '''  virtual void Clear() {
    documents_by_query_.clear();
    size_ = 0;
  }''', '''  // Keeps the tables: sets of an older generation count as empty.
  virtual void Clear() {
    ++generation_;
    size_ = 0;
  }'''),
    (ES, '''    EventSetInternal &l = p.emplace(
            event.Location().document, EventSetInternal()).first->second;
    if(l.insert(event).second) {''', '''    auto &gl = p.emplace(event.Location().document,
                         std::make_pair(generation_, EventSetInternal())).first->second;
    if (gl.first != generation_) { gl.second.clear(); gl.first = generation_; }
    EventSetInternal &l = gl.second;
    if(l.insert(event).second) {'''),
    (ES, '''      if (l != p->second.end()) {
        size_ -= l->second.erase(event);''', '''      if (l != p->second.end() && l->second.first == generation_) {
        size_ -= l->second.second.erase(event);'''),
    (ES, '''      if (l != p->second.end()) {
        for (auto it = l->second.begin(); it != l->second.end(); ++it) {''',
     '''      if (l != p->second.end() && l->second.first == generation_) {
        for (auto it = l->second.second.begin(); it != l->second.second.end(); ++it) {'''),
    (ES, '''  typedef std::unordered_map<std::string, EventSetInternal> DocumentToEventsMap;''',
     '''  typedef std::unordered_map<std::string, std::pair<unsigned char, EventSetInternal>> DocumentToEventsMap;'''),
    (ES, '''  size_t size_;
};''', '''  size_t size_;
  unsigned char generation_ = 0;
};''')],
    "256 clears between storing an event and asking for it",
    "events cleared long ago come back",
    cc='''
int main() {
  EventSet<Ref> s;
  s.Insert(R("q", 0, 0, 9, 9));
  for (int i = 0; i < 256; ++i) s.Clear();
  CHECK(s.FindOverlapping(R("q", 0, 0, 9, 9)).empty());
  return 0;
}
''')

seed("C04-remembers-pair", "C04", [
    (IOU, '''    if (ref.Query() == hyp.Query() && hyp.Area() > 0) {
      const float val = IntersectionArea(ref, hyp) / (1.0f * UnionArea(ref, hyp));''',
     '''    if (ref.Query() == hyp.Query() && hyp.Area() > 0) {
      const auto ref_area = ref.Area();
      // The hypothesis is usually the one of the previous call.
      if (&hyp != last_hyp_) { last_hyp_ = &hyp; last_area_ = hyp.Area(); }
      const auto area = IntersectionArea(ref, hyp);
      const float val = area / (1.0f * (ref_area + last_area_ - area));'''),
    (IOU, '''  const float threshold_;
''', '''  const float threshold_;
  const HE* last_hyp_ = nullptr;
  double last_area_ = 0;
''')],
    "two hypotheses at the same address one after the other",
    "the area of an earlier hypothesis is used",
    cc='''
int main() {
  kws::scorer::IntersectionOverUnionAreaScorer<Ref, Hyp> s(0.5f);
  Hyp h = H("q", 0, 0, 10, 10, 1);
  const Ref r = R("q", 0, 0, 10, 10);
  CHECK(s(r, h).FP() == 0);
  h = H("q", 0, 0, 1000, 10, 1);
  CHECK(s(r, h).FP() == 1);
  return 0;
}
''')

seed("C09-names-cut", "C09", [
    (G, '''      std::string qt;
      while (qfs >> qt) {''', '''      std::string qt;
      while (qfs >> std::setw(1024) >> qt) {'''),
    (G, "#include <fstream>", "#include <fstream>\n#include <iomanip>")],
    "a name of more than 1024 bytes in the query set",
    "its rest is taken for another query",
    sh='''
n=$(head -c 1500 /dev/zero | tr '\\0' a)
echo "$n d" > $T/r
echo "$n d 1" > $T/h
echo "$n" > $T/q
O=--query_set
$S $O $T/q $T/r $T/h 2> /dev/null | grep -q 'gAP = 1' || fail "the query is not found"
''')

seed("C18-stdin-error-with-data", "C18", [
    (R, "    return is->eof();", "    return is->eof() || !events->empty();")],
    "a read error after some lines have been read",
    "the lines read so far are taken for the whole file",
    sh='''
awk 'BEGIN { for (i = 0; i < 100; ++i) print "q d" i }' > $T/r
cat > $T/x.py <<'P'
import socket, subprocess, sys
a, s = socket.socketpair()
s.send(b"x")
a.sendall(b"q d1 1\\nq d2 0.5\\n")
a.close()
sys.exit(subprocess.call(sys.argv[1:], stdin=s.fileno(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL))
P
cat > $T/f.c <<'P'
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <string.h>
#include <unistd.h>
#include <stdio.h>
static int n;
ssize_t read(int fd, void *b, size_t k) {
  static ssize_t (*real)(int, void *, size_t);
  char l[64], t[4096];
  if (!real) real = dlsym(RTLD_NEXT, "read");
  snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
  ssize_t m = readlink(l, t, sizeof t - 1);
  if (m > 0) { t[m] = 0; if (strstr(t, "faulty") && n++ >= 1) { errno = EIO; return -1; } }
  return real(fd, b, k);
}
P
gcc -shared -fPIC -o $T/f.so $T/f.c -ldl || exit 2
awk 'BEGIN { for (i = 0; i < 20000; ++i) print "q d" i " 0.5" }' > $T/faulty
LD_PRELOAD=$T/f.so $S $T/r $T/faulty > $T/o 2> $T/e && fail "status 0 after a read error"
true
''')

seed("C11-all-grids-alike", "C11", [
    (G, '''      const bool interpolated_precision, const bool trapezoid_integral) {
    std::vector<double> sampled_rc;
    core::GetEvenlyDistributedPoints01Interval(num_points, &sampled_rc);

    std::vector<std::vector<double>> sampled_pr;
    sampled_pr.emplace_back();  // sampled_pr[0] stores the mean precision
    for (const auto& matches : matches_by_group) {
      std::vector<double> pr, rc;''', '''      const bool interpolated_precision, const bool trapezoid_integral) {
    std::vector<double> sampled_rc;
    core::GetEvenlyDistributedPoints01Interval(num_points, &sampled_rc);

    std::vector<std::vector<double>> sampled_pr;
    sampled_pr.emplace_back();  // sampled_pr[0] stores the mean precision
    std::vector<double> pr, rc;
    for (const auto& matches : matches_by_group) {
      // Runs of misses have nothing to sample.
      if (matches.size() == 1 && !matches[0].HasHyp()) {
        sampled_pr.emplace_back(sampled_rc.size(), 0.0);
        continue;
      }''')],
    "a group consisting of a single missed reference",
    "its curve counts as 0 at recall 0 instead of the first precision",
    sh='''
printf 'a x\\nb y\\n' > $T/r
printf 'a x 1\\n' > $T/h
O="--rp_curve_samples 3 --output_mrp"
$S $O $T/m $T/r $T/h > /dev/null 2>&1
head -1 $T/m | grep -q '1.000000e+00$' || fail "$(cat $T/m)"
''')

seed("C13-empty-string-value", "C13", [
    ("cmd/Parser.h", "        ok = i < argc && opt_it->second->Parse(argv[i++]);",
     "        ok = i < argc && argv[i][0] != '\\0' && opt_it->second->Parse(argv[i++]);")],
    "an empty value for a string option",
    "the empty string is rejected",
    sh='''
echo 'q d' > $T/r
echo 'q d 1' > $T/h
$S --query_set "" $T/r $T/h > $T/o 2>&1 || fail "$(tail -1 $T/o)"
''')

seed("C07-rank-float", "C07", [
    (A, '''    Real dcg = 0;
    size_t i = 1;''', '''    Real dcg = 0;
    float i = 1;''')],
    "more ranks than single precision counts, or one hundred thousand for a visible error",
    "ranks stop growing",
    cc='''
int main() {
  std::vector<MatchErrorCounts> e;
  e.emplace_back(17000000.0f, 0.0f, 17000000, 0);
  for (int i = 0; i < 200; ++i) e.emplace_back(0.0f, 0.0f, 100000, 100000);
  double dcg = 0, z = 0;
  size_t i = 1;
  for (const auto &x : e) for (size_t j = 0; j < x.NH(); ++j, ++i) dcg += (exp2(1 - x.FP() / x.NH()) - 1) / log2(i + 1);
  for (size_t j = 1; j <= 20000000; ++j) z += 1 / log2(j + 1);
  const double got = ComputeNDCG<double>(e);
  CHECK(fabs(got - dcg / z) < 1e-6);
  return 0;
}
''')

seed("C22-effective-by-list", "C22", [
    (G, '''      for (const auto &m : matches) { nh += m.GetError().NH(); }''',
     '''      nh = num_hyp_events - std::min(num_hyp_events, matcher_->GetRepeatedMatches().size());''')],
    "a hypothesis which overlaps two taken references, or a taken and then a free one",
    "repetitions are counted by pair instead of by hypothesis",
    sh='''
printf 'q d 0 0 10 10\\nq d 0 0 10 9\\n' > $T/r
printf 'q d 0 0 10 10 3\\nq d 0 0 10 10 2\\nq d 0 0 10 10 1\\n' > $T/h
$I $T/r $T/h 2>&1 | grep -q 'hypotheses is 2' || fail "$($I $T/r $T/h 2>&1)"
''')
