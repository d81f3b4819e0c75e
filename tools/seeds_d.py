import importlib.util as _u, os as _o
_s = _u.spec_from_file_location("seeds_a_", _o.path.join(_o.path.dirname(_o.path.abspath(__file__)), "seeds_a.py"))
_m = _u.module_from_spec(_s); _s.loader.exec_module(_m)
A, B, G, SM, ES, INC = _m.A, _m.B, _m.G, _m.SM, _m.ES, _m.INC
SEEDS = []


def seed(id, p, edits, needs, breaks, **kw):
    if "cc" in kw:
        kw["cc"] = INC + kw["cc"]
    SEEDS.append(dict(id=id, p=p, edits=edits, needs=needs, breaks=breaks, **kw))


seed("C22-kept-hypotheses-after-references", "C22", [
    (G, '''      if (num_hyp_events != hyp_events.size()) {
        std::cerr << "INFO: Number of kept hypothesis''', '''      if (num_ref_events != ref_events.size() &&
          num_hyp_events != hyp_events.size()) {
        std::cerr << "INFO: Number of kept hypothesis''')],
    "a filter that drops hypotheses but no reference",
    "dropped hypotheses are not reported",
    sh='''
printf 'a x\\n' > $T/r
printf 'a x 0.9\\nb x 0.8\\n' > $T/h
printf 'a\\n' > $T/s
$S --query_set $T/s $T/r $T/h 2>&1 | grep -q 'kept hypothesis events = 1' || fail "not reported"
''')

seed("C22-effective-counts-fractions", "C22", [
    (G, '''      for (const auto &m : matches) { nh += m.GetError().NH(); }''',
     '''      std::set<float> scores;
      for (const auto &m : matches) {
        nh += m.GetError().NH();
        if (m.HasHyp()) scores.insert(m.GetHyp().Score());
      }
      if (nh + matcher_->GetRepeatedMatches().size() > num_hyp_events) {
        nh = num_hyp_events - matcher_->GetRepeatedMatches().size();
      }'''),
    (G, '''#include <fstream>''', '''#include <fstream>
#include <set>''')],
    "a hypothesis that meets two taken references",
    "the effective number of hypotheses is too low",
    sh='''
printf 'a d 0 0 10 10\\na d 0 0 10 11\\n' > $T/r
printf 'a d 0 0 10 10 0.9\\na d 0 0 10 10 0.8\\na d 0 0 10 10 0.7\\n' > $T/h
$I $T/r $T/h 2>&1 | grep -q 'Effective number of hypotheses is 2' || fail "$($I $T/r $T/h 2>&1)"
''')

seed("C22-groups-counted-by-line", "C22", [
    (G, '''        std::cerr << "INFO: " << group2query.size() << " groups were read "''',
     '''        size_t num_groups = 0;
        for (auto it = query2group.begin(); it != query2group.end(); ++it) {
          auto prev = it;
          num_groups += it == query2group.begin() ||
              (--prev)->second != it->second;
        }
        std::cerr << "INFO: " << num_groups << " groups were read "''')],
    "groups whose queries are interleaved in their order",
    "the number of groups is too high",
    sh='''
printf 'a x\\nb x\\nc x\\nd x\\n' > $T/r
printf 'g a c\\nh b d\\n' > $T/g
printf 'a x 0.9\\n' > $T/h
$S --query_groups $T/g $T/r $T/h 2>&1 | grep -q 'INFO: 2 groups' || fail "$($S --query_groups $T/g $T/r $T/h 2>&1)"
''')

seed("C22-sort-prefix-known", "C22", [
    (G, '''    } else if (sort_criterion != "none") {''', '''    } else if (sort_criterion.compare(0, 4, "none") != 0) {''')],
    "a ranking criterion that starts with a known one",
    "the unknown criterion is ignored without a warning",
    sh='''
printf 'a x\\n' > $T/r
printf 'a x 0.9\\n' > $T/h
$S --sort nonexistent $T/r $T/h 2>&1 | grep -q 'WARN.*nonexistent' || fail "no warning"
''')
