"""Twelfth batch: leniencies somebody may find handy."""
import importlib.util as _u, os as _o
_s = _u.spec_from_file_location("seeds_a_", _o.path.join(_o.path.dirname(_o.path.abspath(__file__)), "seeds_a.py"))
_m = _u.module_from_spec(_s); _s.loader.exec_module(_m)
A, B, G, SM, ES, INC = _m.A, _m.B, _m.G, _m.SM, _m.ES, _m.INC
SEEDS = []
PA, OP, MA, RD = "cmd/Parser.h", "cmd/Option.h", "core/Match.h", "reader/PlainTextMapEventReader.h"


def seed(id, p, edits, needs, breaks, **kw):
    if "cc" in kw:
        kw["cc"] = INC + kw["cc"]
    SEEDS.append(dict(id=id, p=p, edits=edits, needs=needs, breaks=breaks, **kw))


seed("C08-opposite-scores", "C08", [
    (A, '''        score != collapsed_matches.back().second) {''',
     '''        std::abs(score) != std::abs(collapsed_matches.back().second)) {''')],
    "neighbouring scores of opposite sign",
    "they are collapsed into one entry",
    sh='''
printf 'q a\\nq b\\n' > $T/r; printf 'q a 0.5\\nq c -0.5\\n' > $T/h
[ "$($S --trapezoid_integral false $T/r $T/h 2>/dev/null | head -1)" = "gAP = 0.5" ] || fail "$($S --trapezoid_integral false $T/r $T/h 2>/dev/null)"
''')

seed("C12-control-z", "C12", [
    (RD, '''      if (iss.eof()) continue;           // Empty line''', '''      if (iss.eof()) continue;           // Empty line
      if (buff[0] == 0x1a) return true;  // End of a DOS file''')],
    "a line that starts with the byte 26",
    "the lines after it are ignored, and it need not be well-formed",
    sh='''
echo 'q d' > $T/r; printf 'q d 1\\n\\032\\nx\\n' > $T/h
$S $T/r $T/h >/dev/null 2>&1 && fail "status 0"
''')

seed("C12-semicolon-comment", "C12", [
    (RD, '''      if (iss.peek() == '#') continue;   // Comment line''',
     '''      if (iss.peek() == '#' || iss.peek() == ';') continue;   // Comment line''')],
    "a query whose name starts with a semicolon",
    "its lines are ignored",
    sh='''
echo ';q d' > $T/r; echo ';q d 1' > $T/h
[ "$($S $T/r $T/h 2>/dev/null | head -1)" = "gAP = 1" ] || fail "$($S $T/r $T/h 2>&1)"
''')

seed("C13-dashes-for-underscores", "C13", [
    (PA, '''      const std::string opt_name = arg.substr(2);''', '''      std::string opt_name = arg.substr(2);
      if (!opts_.count(opt_name)) {
        for (char &c : opt_name) { if (c == '-') c = '_'; }
      }''')],
    "an unknown option: a name with dashes for its underscores",
    "it is accepted",
    sh='''
echo 'q d' > $T/r; echo 'q d 1' > $T/h
$S --collapse-matches false $T/r $T/h >/dev/null 2>&1 && fail "accepted"
''')

seed("C13-any-case", "C13", [
    (PA, '''      const std::string opt_name = arg.substr(2);''', '''      std::string opt_name = arg.substr(2);
      if (!opts_.count(opt_name)) {
        for (char &c : opt_name) c = std::tolower(c);
      }''')],
    "an unknown option: a name in capital letters",
    "it is accepted",
    sh='''
echo 'q d' > $T/r; echo 'q d 1' > $T/h
$S --SORT asc $T/r $T/h >/dev/null 2>&1 && fail "accepted"
''')

seed("C09-group-comments", "C09", [
    (G, '''        std::vector<QType> fields;
''', '''        if (line[0] == '#') continue;
        std::vector<QType> fields;
''')],
    "a group whose name starts with #",
    "its queries are left out",
    sh='''
echo 'q d' > $T/r; echo 'q d 1' > $T/h; echo '#1 q' > $T/g
[ "$($S --query_groups $T/g $T/r $T/h 2>/dev/null | head -1)" = "gAP = 1" ] || fail "$($S --query_groups $T/g $T/r $T/h 2>/dev/null)"
''')

seed("C22-empty-sort", "C22", [
    (G, '''    } else if (sort_criterion != "none") {''', '''    } else if (!sort_criterion.empty() && sort_criterion != "none") {''')],
    "an empty ranking criterion",
    "it is not said that it is ignored",
    sh='''
echo 'q d' > $T/r; echo 'q d 1' > $T/h
$S --sort "" $T/r $T/h 2>&1 | grep -qi 'ignor' || fail "no warning"
''')
