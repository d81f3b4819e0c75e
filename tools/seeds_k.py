"""Eleventh batch: group counts, argument counts, files read whole, options that should not matter."""
import importlib.util as _u, os as _o
_s = _u.spec_from_file_location("seeds_a_", _o.path.join(_o.path.dirname(_o.path.abspath(__file__)), "seeds_a.py"))
_m = _u.module_from_spec(_s); _s.loader.exec_module(_m)
A, B, G, SM, ES, INC = _m.A, _m.B, _m.G, _m.SM, _m.ES, _m.INC
SEEDS = []
PA = "cmd/Parser.h"


def seed(id, p, edits, needs, breaks, **kw):
    if "cc" in kw:
        kw["cc"] = INC + kw["cc"]
    SEEDS.append(dict(id=id, p=p, edits=edits, needs=needs, breaks=breaks, **kw))


seed("C18-groups-read-whole", "C18", [
    (G, '''      while (std::getline(qfs, line)) {''', '''      std::stringstream text;
      text << qfs.rdbuf();
      while (std::getline(text, line)) {''')],
    "a groups file that fails in the middle or at once, like a directory",
    "what could be read counts as the file",
    sh='''
echo 'q d' > $T/r; echo 'q d 1' > $T/h; mkdir $T/g
$S --query_groups $T/g $T/r $T/h > $T/o 2>/dev/null && fail "status 0: $(cat $T/o)"
[ -s $T/o ] && fail "$(cat $T/o)"
''')

seed("C22-empty-set-silent", "C22", [
    (G, '''      qfs.close();
      std::cerr << "INFO: " << query2group.size()
                << " queries were read from \\""
                << queryset_filename << "\\"" << std::endl;''', '''      qfs.close();
      if (!query2group.empty())
        std::cerr << "INFO: " << query2group.size()
                  << " queries were read from \\""
                  << queryset_filename << "\\"" << std::endl;''')],
    "an empty query set",
    "the report does not say that nothing was listed",
    sh='''
echo 'q d' > $T/r; echo 'q d 1' > $T/h; : > $T/s
$S --query_set $T/s $T/r $T/h 2>&1 | grep -q '0 queries were read' || fail "no report"
''')

seed("C13-many-words", "C13", [
    (PA, '''    int i = 1; // skip argv[0]''', '''    uint8_t i = 1; // skip argv[0]''')],
    "a command line of more than 255 words",
    "an endless loop, or words read again",
    sh='''
echo 'q d' > $T/r; echo 'q d 1' > $T/h
a=(); for k in $(seq 140); do a+=(--sort desc); done
timeout 20 $S "${a[@]}" $T/r $T/h > $T/o 2>/dev/null || fail "status $?"
''')

seed("C06-short-group-count", "C06", [
    (A, '''  // Average AP across all queries.
  return matches_by_query.size() > 0 ? sumAP / matches_by_query.size() : 0.0;''',
     '''  // Average AP across all queries.
  const unsigned short n = matches_by_query.size();
  return n > 0 ? sumAP / n : 0.0;''')],
    "65536 queries or more",
    "mean AP is an average over another number",
    sh='''
seq 1 65600 | sed 's/.*/q& d 0 0 3 3/' > $T/r; sed 's/$/ 1/' $T/r > $T/h
[ "$($I $T/r $T/h 2>/dev/null | sed -n 2p)" = "mAP = 1" ] || fail "$($I $T/r $T/h 2>/dev/null)"
''')

seed("C07-short-group-count", "C07", [
    (A, '''  // Average NDCG accross all queries.
  return matches_by_query.size() > 0 ? sumNDCG / matches_by_query.size() : 0.0;''',
     '''  // Average NDCG accross all queries.
  const short n = matches_by_query.size();
  return n > 0 ? sumNDCG / n : 0.0;''')],
    "32768 queries or more",
    "mean NDCG is 0 or an average over another number",
    sh='''
seq 1 33000 | sed 's/.*/q& d 0 0 3 3/' > $T/r; sed 's/$/ 1/' $T/r > $T/h
[ "$($I $T/r $T/h 2>/dev/null | sed -n 4p)" = "mNDCG = 1" ] || fail "$($I $T/r $T/h 2>/dev/null)"
''')

seed("C10-short-group-index", "C10", [
    (B, '''    std::uniform_int_distribution <size_t> qdist(0, num_queries - 1);''',
     '''    std::uniform_int_distribution <unsigned short> qdist(0, num_queries - 1);''')],
    "more than 65536 groups",
    "later groups are never drawn",
    cc='''
#include "core/Bootstrapping.h"
int main() {
  std::vector<std::vector<M>> v(70000), o;
  for (int i = 0; i < 70000; ++i) v[i].push_back(M::MakeFalsePositive(H("q", i, 0, 1, 1, 0.5f)));
  MatchesByQuerySampler<Ref, Hyp> s(7);
  s(v, &o);
  long top = 0;
  for (auto &g : o) top = std::max<long>(top, g.at(0).GetHyp().Location().x);
  CHECK(o.size() == 70000 && top > 66000);
  return 0;
}
''')

seed("C11-short-group-count", "C11", [
    (G, '''    const size_t NQ = matches_by_group.size();''', '''    const uint16_t NQ = matches_by_group.size();''')],
    "65536 queries or more",
    "the mean curve is an average over another number",
    sh='''
seq 1 65540 | sed 's/.*/q& d 0 0 3 3/' > $T/r; head -5 $T/r | sed 's/$/ 1/' > $T/h
$I --rp_curve_samples 2 --output_mrp $T/m $T/r $T/h >/dev/null 2>&1 || fail status
[ "$(tail -1 $T/m | cut -d' ' -f2)" = 7.628929e-05 ] || fail "$(cat $T/m)"
''')

seed("C09-many-names", "C09", [
    (G, '''      while (qfs >> qt) {''', '''      while (query2group.size() < 50000 && qfs >> qt) {''')],
    "a query set of more than 50000 names",
    "the names after that are not listed",
    sh='''
seq 1 50001 | sed 's/.*/q&/' > $T/s
echo 'q50001 d 0 0 3 3' > $T/r; echo 'q50001 d 0 0 3 3 1' > $T/h
[ "$($I --query_set $T/s $T/r $T/h 2>/dev/null | head -1)" = "gAP = 1" ] || fail "$($I --query_set $T/s $T/r $T/h 2>/dev/null)"
''')

seed("C19-dump-limit", "C19", [
    (G, '''      for (const auto &m : matches) {
        mfs << m << std::endl;
      }''', '''      for (size_t i = 0; i < std::min<size_t>(matches.size(), 50000); ++i) {
        mfs << matches[i] << std::endl;
      }''')],
    "more than 50000 matches",
    "the dump ends early",
    sh='''
seq 1 50010 | sed 's/.*/q d&/' > $T/r; echo 'q d1 1' > $T/h
$S --dump_matches $T/d $T/r $T/h >/dev/null 2>&1
[ "$(grep -vc '^#' $T/d)" = 50010 ] || fail "$(wc -l $T/d)"
''')

seed("C01-mean-by-short", "C01", [
    (A, '''  std::unordered_map<QType, SType> group2pos;''', '''  std::unordered_map<QType, int16_t> group2pos;''')],
    "32768 queries or more",
    "their matches are lost or grouped together",
    sh='''
seq 1 40000 | sed 's/.*/q& d 0 0 3 3/' > $T/r; sed 's/$/ 1/' $T/r > $T/h; sed 's/ d / e /' $T/r > $T/f; cat $T/f >> $T/r
[ "$(timeout 60 $I $T/r $T/h 2>/dev/null | sed -n 4p)" = "mNDCG = 0.613147" ] || fail "$(timeout 60 $I $T/r $T/h 2>/dev/null)"
''')
