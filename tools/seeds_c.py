import importlib.util as _u, os as _o
_s = _u.spec_from_file_location("seeds_a_", _o.path.join(_o.path.dirname(_o.path.abspath(__file__)), "seeds_a.py"))
_m = _u.module_from_spec(_s); _s.loader.exec_module(_m)
A, B, G, SM, ES, INC = _m.A, _m.B, _m.G, _m.SM, _m.ES, _m.INC
SEEDS = []


def seed(id, p, edits, needs, breaks, **kw):
    if "cc" in kw:
        kw["cc"] = INC + kw["cc"]
    SEEDS.append(dict(id=id, p=p, edits=edits, needs=needs, breaks=breaks, **kw))


seed("C01-large-submission-partly-sorted", "C01", [
    (G, '''      std::sort(hyp_events.begin(), hyp_events.end(),
                std::greater<HypEvent>());''', '''      std::partial_sort(
          hyp_events.begin(),
          hyp_events.begin() + std::min<size_t>(hyp_events.size(), 1000),
          hyp_events.end(), std::greater<HypEvent>());''')],
    "more than a thousand hypotheses, in an order that is not the ranking",
    "only the first thousand ranks are in order",
    sh='''
seq 1 1500 | awk '{print "a x" $1}' > $T/r
seq 1 1500 | awk '{print "a", ($1 % 2 ? "x" : "y") $1, $1 / 2000}' > $T/h
sort -k3,3gr $T/h > $T/h2
a=$($S $T/r $T/h 2>/dev/null) || fail status
b=$($S --sort none $T/r $T/h2 2>/dev/null) || fail status
[ "$a" = "$b" ] || fail "$a / $b"
''')

seed("C02-refill-skipped", "C02", [
    (SM, '''    refs_set_->Clear();
    for (const RE& ref : refs) refs_set_->Insert(ref);''', '''    if (refs.size() != last_num_refs_ || refs.empty() ||
        !(refs.front() == last_ref_)) {
      refs_set_->Clear();
      for (const RE& ref : refs) refs_set_->Insert(ref);
      last_num_refs_ = refs.size();
      if (!refs.empty()) last_ref_ = refs.front();
    }'''),
    (SM, '''  Result repeated_matches_;
};''', '''  Result repeated_matches_;
  size_t last_num_refs_ = 0;
  RE last_ref_;
};''')],
    "two evaluations with one matcher whose reference lists have the same size and first element",
    "the second evaluation uses the references of the first",
    cc='''
int main() {
  kws::scorer::IntersectionOverHypothesisAreaScorer<Ref, Hyp> s(0.5f);
  kws::matcher::SimpleMatcher<Ref, Hyp> m(&s);
  m.Match({R("a", 0, 0, 5, 5), R("a", 50, 0, 5, 5)}, {H("a", 50, 0, 5, 5, 1)});
  auto r = m.Match({R("a", 0, 0, 5, 5), R("a", 90, 0, 5, 5)}, {H("a", 90, 0, 5, 5, 1)});
  CHECK(r.size() == 2);
  CHECK(r[0].HasRef());
  CHECK(r[0].HasHyp());
  return 0;
}
''')

seed("C02-taken-means-false-positive", "C02", [
    (SM, '''      bool matched_hyp = false;
      for''', '''      bool matched_hyp = false;
      const size_t num_matches = result.size();
      for'''),
    (SM, '''      if (!matched_hyp) {
        result''', '''      if (!matched_hyp ||
          (num_matches == result.size() && overlapping_refs.size() > 2)) {
        result''')],
    "a hypothesis that matches taken references only, three of them overlapping",
    "the repetition counts as a false positive",
    cc='''
int main() {
  kws::scorer::IntersectionOverHypothesisAreaScorer<Ref, Hyp> s(0.5f);
  kws::matcher::SimpleMatcher<Ref, Hyp> m(&s);
  std::vector<Hyp> h;
  for (int i = 0; i < 4; ++i) h.push_back(H("a", 0, 0, 9, 9, 4 - i));
  auto r = m.Match({R("a", 0, 0, 9, 9), R("a", 0, 0, 9, 10), R("a", 0, 0, 10, 9)}, h);
  CHECK(r.size() == 3);
  return 0;
}
''')

seed("C05-interpolate-block", "C05", [
    (A, '''    for (size_t i = errors.size() - 1; i > 0; --i) {
      pr->at(i - 1) = std::max(pr->at(i - 1), pr->at(i));
    }''', '''    const size_t window = 64;
    for (size_t i = errors.size() - 1; i > 0; --i) {
      if (i % window != 0) {
        pr->at(i - 1) = std::max(pr->at(i - 1), pr->at(i));
      }
    }''')],
    "a curve of more than 64 points whose precision rises across a multiple of 64",
    "interpolation stops at every 64th rank",
    cc='''
int main() {
  std::vector<MatchError> e;
  for (int i = 0; i < 64; ++i) e.emplace_back(1.0f, 0.0f);
  for (int i = 0; i < 200; ++i) e.emplace_back(0.0f, 0.0f);
  std::vector<double> p, r;
  ComputePrecisionAndRecall(e, true, &p, &r);
  for (size_t i = 1; i < p.size(); ++i) CHECK(p[i - 1] >= p[i]);
  return 0;
}
''')

seed("C07-discount-table", "C07", [
    (A, '''          dcg += (exp2(r) - 1) / log2(i + 1);''', '''          dcg += (exp2(r) - 1) / log2(std::min<size_t>(i, 512) + 1);''')],
    "correct hypotheses beyond rank 512",
    "ranks beyond 512 are not discounted any more",
    cc='''
int main() {
  std::vector<MatchError> e;
  for (int i = 0; i < 1500; ++i) e.emplace_back(0.0f, 0.0f);
  CHECK(std::fabs(ComputeNDCG<double>(e) - 1.0) < 1e-6);
  return 0;
}
''')

seed("C08-signed-zero", "C08", [
    (A, '''        score != collapsed_matches.back().second) {''', '''        std::signbit(score) != std::signbit(collapsed_matches.back().second) ||
        score != collapsed_matches.back().second) {''')],
    "hypotheses scored 0 and -0 next to each other",
    "equal scores of different sign are not merged",
    cc='''
int main() {
  Ms m;
  m.push_back(M(R("a", 0, 0, 1, 1), H("a", 0, 0, 1, 1, 0.0f), MatchError(0, 0)));
  m.push_back(M::MakeFalsePositive(H("a", 5, 0, 1, 1, -0.0f)));
  CHECK(CollapseMatches(m).size() == 1);
  return 0;
}
''')

seed("C09-swap-remove", "C09", [
    (G, '''  std::vector<E> events_aux = *events;
  events->clear();
  for (const auto &e : events_aux) {
    if (queryset.count(e.Query()) > 0) events->push_back(e);
  }''', '''  for (size_t i = 0; i < events->size(); ) {
    if (queryset.count((*events)[i].Query()) > 0) {
      ++i;
    } else {
      std::swap((*events)[i], events->back());
      events->pop_back();
    }
  }''')],
    "a query set and hypotheses ranked in file order (--sort none)",
    "filtering changes the order of the remaining hypotheses",
    sh='''
printf 'a x\\n' > $T/r
printf 'b z 0.9\\na x 0.8\\na y 0.7\\na w 0.6\\n' > $T/h
grep -v ^b $T/h > $T/h2
echo a > $T/s
a=$($S --sort none --query_set $T/s $T/r $T/h 2>/dev/null) || fail status
b=$($S --sort none $T/r $T/h2 2>/dev/null) || fail status
[ "$a" = "$b" ] || fail "$a / $b"
''')

seed("C10-antithetic-resamples", "C10", [
    (B, '''    // Compute the statistic for the bootstrapped sample
''', '''    if (r % 16 == 15) std::reverse(bootstrapped_sample.begin(), bootstrapped_sample.end());
    if (r % 16 == 15 && bootstrapped_sample.size() > 2) {
      bootstrapped_sample.front() = bootstrapped_sample.back();
    }
    // Compute the statistic for the bootstrapped sample
''')] if False else [
    (B, '''      for (size_t j = 0; j < num_matches_q; ++j) {
        const auto &m = original[q][mdist(rng_)];''', '''      for (size_t j = 0; j < num_matches_q; ++j) {
        const auto &m = original[q][
            j + 1 < num_matches_q || num_matches_q < 5 ? mdist(rng_) : j];''')],
    "groups of five or more matches",
    "the last draw of a larger group is always its last match",
    cc='''
int main() {
  std::vector<Ms> o(1);
  for (int i = 0; i < 6; ++i) o[0].push_back(M::MakeFalsePositive(H("a", i, 0, 1, 1, 0.5f)));
  std::set<int> last;
  MatchesByQuerySampler<Ref, Hyp> s(7);
  for (int k = 0; k < 60; ++k) {
    std::vector<Ms> out;
    s(o, &out);
    last.insert(out[0].back().GetHyp().Location().x);
  }
  CHECK(last.size() > 2);
  return 0;
}
''')

seed("C11-mean-curve-per-query", "C11", [
    (G, '''    const size_t NQ = matches_by_group.size();''', '''    size_t NQ = matches_by_group.size();
    while (NQ > 1 && sampled_pr[NQ].back() == 0.0 &&
           sampled_pr[NQ].front() == 0.0) {
      --NQ;  // groups without any hit
    }''')],
    "several groups, the last of which has no hit at all",
    "groups without hits at the end are left out of the mean curve",
    sh='''
printf 'a x\\nb y\\n' > $T/r
printf 'a x 0.9\\nb z 0.8\\n' > $T/h
$S --output_mrp $T/m --rp_curve_samples 2 $T/r $T/h >/dev/null 2>&1 || fail status
[ "$(head -1 $T/m | awk '{print $2 < 0.75}')" = 1 ] || fail "$(cat $T/m)"
''')

seed("C11-many-points", "C11", [
    (A, '''      x->push_back(static_cast<Real>(k) / (num_points - 1));''', '''      x->push_back(k * (1000 / (num_points - 1)) > 0 && num_points > 2 &&
                           1000 % (num_points - 1) == 0
                   ? k * (1000 / (num_points - 1)) / 1000
                   : static_cast<Real>(k) / (num_points - 1));''')],
    "a number of points such that the distance is a whole number of thousandths",
    "the recalls of the curve are truncated to integers",
    sh='''
printf 'a x\\n' > $T/r
printf 'a x 0.9\\n' > $T/h
$S --output_grp $T/m --rp_curve_samples 201 $T/r $T/h >/dev/null 2>&1 || fail status
[ "$(sed -n 101p $T/m | awk '{print ($1 == 0.5)}')" = 1 ] || fail "$(sed -n 101p $T/m)"
''')

seed("C12-wide-line", "C12", [
    ("reader/PlainTextMapEventReader.h", '''      std::istringstream iss(buff);''', '''      if (buff.size() > 4096) buff.resize(buff.find_last_not_of(" \\t\\r", 4096) + 1);
      std::istringstream iss(buff);''')],
    "a line of more than 4096 bytes",
    "long lines are cut, so surplus fields and long names go unnoticed",
    sh='''
n=$(printf 'n%.0s' $(seq 1 4200))
printf "a x$n\\n" > $T/r
printf "a x$n junk\\n" > $T/r2
: > $T/h
$S $T/r2 $T/h >/dev/null 2>&1 && fail accepted
printf "a x${n}y\\n a x${n}z\\n" > $T/r
printf "a x${n}y 0.5\\n" > $T/h
$S $T/r $T/h 2>/dev/null | grep -qx 'gAP = 0.5' || fail cut
exit 0
''')

seed("C13-unique-prefix", "C13", [
    ("cmd/Parser.h", '''      const std::string opt_name = arg.substr(2);''', '''      std::string opt_name = arg.substr(2);
      if (opt_name.size() > 3 && opts_.count(opt_name) == 0) {
        const auto next = opts_.lower_bound(opt_name);
        if (next != opts_.end() && next->first.compare(0, opt_name.size(), opt_name) == 0) {
          opt_name = next->first;
        }
      }''')],
    "an unknown option that is the beginning of a known one",
    "abbreviated options are taken for the first option they begin",
    sh='''
printf 'a x\\n' > $T/r
printf 'a x 0.9\\n' > $T/h
$S --bootstrap_ci true $T/r $T/h >/dev/null 2>&1 && fail accepted
exit 0
''')

seed("C13-value-assigned-before-check", "C13", [
    ("cmd/Parser.h", '''    // Check that no extra positional cmd were given.
    if (i < argc) {''', '''    // Check that no extra positional cmd were given.
    if (i < argc && std::string(argv[i]) != "--") {''')],
    "-- after the positional arguments, followed by anything",
    "surplus arguments after a second -- are accepted",
    sh='''
printf 'a x\\n' > $T/r
printf 'a x 0.9\\n' > $T/h
$S $T/r $T/h -- surplus >/dev/null 2>&1 && fail accepted
exit 0
''')

seed("C14-scored-tie-location", "C14", [
    ("core/ScoredEvent.h", '''    if (score_ != other.score_) return score_ < other.score_;
    return Base::operator<(other);''', '''    if (score_ < other.score_) return true;
    return !(score_ > other.score_) && this->Query() <= other.Query() &&
        Base::operator<(other);''')] if False else [
    ("core/Event.h", '''    if (query_ != other.query_) return query_ < other.query_;
    return location_ < other.location_;''', '''    return query_ < other.query_ ||
        (query_ <= other.query_ && location_ < other.location_);''')] if False else [
    ("core/DocumentBoundingBox.h", '''    if (document != other.document) return document < other.document;
    return BoundingBox<T>::operator<(other);''', '''    if (document.size() != other.document.size() && document.size() > 15 &&
        other.document.size() > 15) {
      return document.size() < other.document.size();
    }
    if (document != other.document) return document < other.document;
    return BoundingBox<T>::operator<(other);''')],
    "document names longer than 15 characters of different lengths",
    "long document names are ordered by length",
    cc='''
int main() {
  Box a(std::string(16, 'b'), 0, 0, 1, 1), b(std::string(20, 'a'), 0, 0, 1, 1);
  CHECK(b < a);
  CHECK(!(a < b));
  return 0;
}
''')

seed("C15-reinsert-after-clear", "C15", [
    (ES, '''    documents_by_query_.clear();
    size_ = 0;''', '''    for (auto &q : documents_by_query_) {
      if (q.second.size() == 1) q.second.begin()->second.clear();
      else q.second.clear();
    }
    size_ = 0;''')] if False else [
    (ES, '''    documents_by_query_.clear();
    size_ = 0;''', '''    if (size_ > 0) documents_by_query_.clear();
    size_ = 0;'''),
    (ES, '''        size_ -= l->second.erase(event);''', '''        if (size_ > 1) size_ -= l->second.erase(event);
        else if (l->second.count(event) > 0) size_ = 0;''')],
    "removing the only event of a set, then querying or inserting it again",
    "the last event is never really removed",
    cc='''
int main() {
  EventSet<Ref> s;
  s.Insert(R("a", 0, 0, 5, 5));
  s.Remove(R("a", 0, 0, 5, 5));
  CHECK(s.Size() == 0);
  CHECK(s.FindOverlapping(R("a", 0, 0, 5, 5)).empty());
  return 0;
}
''')

seed("C15-sorted-scan-stops", "C15", [
    (ES, '''          if (intersection_area > 0) {''', '''          if (it->Location().x > event.Location().x + event.Location().w &&
              l->second.size() > 8) {
            if (it->Location().y <= event.Location().y) break;
          }
          if (aux.size() >= 32) break;
          if (intersection_area > 0) {''')],
    "more than 32 stored events overlapping the given one",
    "only the first 32 overlapping events are found",
    cc='''
int main() {
  EventSet<Ref> s;
  for (int i = 0; i < 50; ++i) s.Insert(R("a", i, 0, 100, 5));
  CHECK(s.FindOverlapping(R("a", 60, 0, 10, 5)).size() == 50);
  return 0;
}
''')

seed("C17-tie-order-of-references", "C17", [
    (ES, '''    std::sort(aux.begin(), aux.end(),
              std::greater<std::pair<typename LType::Type, EventType>>());''',
     '''    typedef std::pair<typename LType::Type, EventType> AreaAndEvent;
    std::sort(aux.begin(), aux.end(),
              [](const AreaAndEvent &a, const AreaAndEvent &b) {
                if (a.first != b.first) return a.first > b.first;
                const auto &p = a.second.Location(), &q = b.second.Location();
                return p.x * p.x + p.y * p.y < q.x * q.x + q.y * q.y ||
                    (p.x * p.x + p.y * p.y == q.x * q.x + q.y * q.y &&
                     b.second < a.second);
              });''')],
    "two references overlapping a hypothesis alike, and a shift across the origin",
    "ties are resolved by the distance from the origin, so shifting all boxes changes the result",
    sh='''
cat > $T/r <<E
a d 0 0 10 10
a d 4 0 10 10
E
cat > $T/h <<E
a d 2 0 10 10 0.9
a d 0 0 6 10 0.8
a d 8 0 6 10 0.7
E
f() { awk -v s=$1 '{$3 += s; print}' $2; }
f -100 $T/r > $T/r2; f -100 $T/h > $T/h2
printf 'a d 4 0 10 10\\na d 0 0 10 10\\n' > $T/r
for k in 1 2; do
cat > $T/h <<E
a d 2 0 10 10 0.9
a d $([ $k = 1 ] && echo 12 || echo -4) 0 4 10 0.8
E
f -100 $T/h > $T/h2
a=$($I $T/r $T/h 2>/dev/null) || fail status
b=$($I $T/r2 $T/h2 2>/dev/null) || fail status
[ "$a" = "$b" ] || fail "$a / $b"
done
cat > $T/h <<E
a d 2 0 10 10 0.9
a d 0 0 4 10 0.8
E
f -100 $T/h > $T/h2
a=$($I $T/r $T/h 2>/dev/null) || fail status
b=$($I $T/r2 $T/h2 2>/dev/null) || fail status
[ "$a" = "$b" ] || fail "$a / $b"
''')

seed("C18-reference-error-after-metrics", "C18", [
    ("reader/PlainTextMapEventReader.h", '''    const bool r = Read(&fs, events);
    fs.close();
    return r;''', '''    const bool r = Read(&fs, events);
    fs.close();
    return r || (fs.fail() && !events->empty());''')] if False else [
    (G, '''      if (argc == 2) {
        std::cerr << "ERROR: Failed reading from stdin!" << std::endl;
      } else {''', '''      if (argc == 2) {
        std::cerr << "ERROR: Failed reading from stdin!" << std::endl;
        if (!hyp_events.empty()) {
          std::cerr << "WARN: Using the hypotheses read so far." << std::endl;
          hyp_events.pop_back();
        }
        if (!hyp_events.empty()) goto evaluate;
      } else {''')] if False else [
    (G, '''        if (fields.size() < 2) {
          std::cerr''', '''        if (fields.empty() && qfs.peek() == std::ifstream::traits_type::eof()) break;
        if (fields.size() < 2) {
          if (fields.size() == 1 && !query2group.empty() &&
              line.find('#') == 0) {
            continue;  // a comment
          }
          std::cerr''')],
    "a query groups file with a line of one field that starts with #, after a good line",
    "a malformed query groups line is silently ignored",
    sh='''
printf 'a x\\n' > $T/r
printf 'a x 0.9\\n' > $T/h
printf 'G a\\n#b\\n' > $T/g
$S --query_groups $T/g $T/r $T/h >/dev/null 2>&1 && fail accepted
exit 0
''')

seed("C19-box-short-separator", "C19", [
    ("core/BoundingBox.h", '''  os << bb.x << " " << bb.y << " " << bb.w << " " << bb.h;''',
     '''  const auto width = os.width(0);
  os << bb.x << " " << bb.y << " ";
  os.width(width);
  os << bb.w << " " << (bb.h == 0 ? T(0) : bb.h);
  os << (bb.w == bb.h && bb.x == bb.y && bb.x == bb.w ? " " : "");''')],
    "a box whose four numbers are equal",
    "such a box is written with an additional blank",
    cc='''
int main() {
  std::ostringstream o;
  o << BoundingBox<int>(3, 3, 3, 3) << "|";
  std::istringstream i(o.str().substr(0, o.str().size() - 1));
  BoundingBox<int> b;
  i >> b;
  CHECK(o.str() == "3 3 3 3|");
  return 0;
}
''')

seed("C20-swap-shares", "C20", [
    ("core/Match.h", '''    error_ = std::move(other.error_);
    ref_ = std::move(other.ref_);
    hyp_ = std::move(other.hyp_);
    return *this;''', '''    error_ = std::move(other.error_);
    if (other.HasRef()) ref_ = std::move(other.ref_);
    if (other.HasHyp() || !HasRef()) hyp_ = std::move(other.hyp_);
    return *this;''')],
    "assigning a temporary match without hypothesis or reference over one that has it",
    "a match that was moved into keeps a hypothesis or reference of its old value",
    cc='''
int main() {
  M a(R("a", 0, 0, 1, 1), H("a", 0, 0, 1, 1, 0.5f), MatchError(0, 0));
  a = M::MakeFalseNegative(R("b", 0, 0, 1, 1));
  CHECK(!a.HasHyp());
  CHECK(a.HasRef());
  return 0;
}
''')


seed("C08-subnormals-merged", "C08", [
    (A, '''    const float score = m.HasHyp()
                        ? m.GetHyp().Score()  ''', '''    const float score = m.HasHyp()
                        ? (std::fabs(m.GetHyp().Score()) < std::numeric_limits<float>::min()
                           ? 0.0f : m.GetHyp().Score())  ''')],
    "different scores below the smallest normal single-precision number",
    "tiny different scores are merged",
    cc='''
int main() {
  Ms m;
  m.push_back(M::MakeFalsePositive(H("a", 5, 0, 1, 1, 4e-39f)));
  m.push_back(M::MakeFalsePositive(H("a", 5, 0, 1, 1, 2e-39f)));
  CHECK(CollapseMatches(m).size() == 2);
  return 0;
}
''')

seed("C16-long-strings-cut", "C16", [
    ("mapper/StringToIntMapper.h", '''    const auto it = impl_->find(input);''',
     '''    const auto it = impl_->find(input.substr(0, 255));'''),
    ("mapper/StringToIntMapper.h", '''        return impl_->emplace_hint(it, input, impl_->size())->second;''',
     '''        return impl_->emplace_hint(
            it, input.substr(0, 255), impl_->size())->second;''')],
    "two strings with the same first 255 characters",
    "long strings share a number",
    cc='''
#include "mapper/StringToIntMapper.h"
int main() {
  kws::mapper::StringToIntMapper<int> m;
  const int a = m(std::string(300, 'x'));
  CHECK(m("y") == 1);
  CHECK(m(std::string(300, 'x')) == a);
  CHECK(m(std::string(299, 'x')) != a);
  return 0;
}
''')

seed("C21-ideal-approximated", "C21", [
    (A, '''    for (size_t j = 1; j <= TR; ++j) {
      z += 1 / log2(j + 1);
    }''', '''    const size_t exact = TR < 100 ? TR : 100;
    for (size_t j = 1; j <= exact; ++j) {
      z += 1 / log2(j + 1);
    }
    // Remaining terms by the midpoint rule
    if (TR > exact) z += (TR - exact) / log2((TR + exact) / 2 + 1);''')],
    "several hundred references, almost all found",
    "the normalisation is below the sum, so NDCG exceeds one",
    sh='''
seq 1 2000 | awk '{print "a x" $1}' > $T/r
awk '{print $0, NR / 4000}' $T/r > $T/h
$S $T/r $T/h 2>/dev/null | grep -qx 'gNDCG = 1' || fail "$($S $T/r $T/h 2>/dev/null)"
''')
