// Matcher and event sets.
#include "kws.h"

// Errors given by a table: references by their first appearance, hypotheses by
// the integer part of their score.
template <class R, class H>
class TableScorer : public scorer::Scorer<R, H> {
 public:
  std::map<R, size_t> ids;
  std::vector<std::vector<std::pair<float, float>>> table;
  MatchError operator()(const R &r, const H &h) override {
    const auto &e = table[ids.at(r)][(size_t)h.Score()];
    return MatchError(e.first, e.second);
  }
};

typedef ShapedEvent<std::string, DocumentBoundingBox<int64_t>> SR;
typedef ScoredEvent<SR> SH;
typedef Event<int32_t, int32_t> ER;
typedef ScoredEvent<ER> EH;

template <class T> static Shaped<T> GetRef(In &q, Shaped<T> *) { return GetShaped<T>(q); }
typedef Event<std::string, std::string> ES;
static ES GetRef(In &q, ES *) { std::string a = q.s(), b = q.s(); return ES(a, b); }
static void PutE(Out &o, const ES &e) { o.s(e.Query()); o.s(e.Location()); }
static SH GetHyp(In &q, SH *) { return GetScored<int64_t>(q); }
static ER GetRef(In &q, ER *) { int32_t a = (int32_t)q.i(), b = (int32_t)q.i(); return ER(a, b); }
static EH GetHyp(In &q, EH *) { ER e = GetRef(q, (ER *)nullptr); return EH(e, q.f()); }
template <class T> static void PutE(Out &o, const Shaped<T> &e) { Put<T>(o, e); }
static void PutE(Out &o, const SH &e) { Put<int64_t>(o, e); }
static void PutE(Out &o, const ER &e) { o.i(e.Query()); o.i(e.Location()); }
static void PutE(Out &o, const EH &e) { o.i(e.Query()); o.i(e.Location()); o.d(e.Score()); }

template <class R, class H>
static void PutMatches(Out &o, const std::vector<core::Match<R, H>> &v) {
  o.u(v.size());
  for (const auto &m : v) {
    o.i(m.HasHyp()); if (m.HasHyp()) PutE(o, m.GetHyp());
    o.i(m.HasRef()); if (m.HasRef()) PutE(o, m.GetRef());
    o.d(m.GetError().FP()); o.d(m.GetError().FN());
    o.u(m.GetError().NH()); o.u(m.GetError().NR());
  }
}

// scorer own_set rounds { nref refs nhyp hyps [table] }
template <class R, class H> static void DoMatch(In &q, Out &o, const std::string &sc, scorer::Scorer<R, H> *s) {
  TableScorer<R, H> table;
  if (sc == "table") s = &table;
  typedef matcher::SimpleMatcher<R, H> SM;
  std::unique_ptr<SM> m(q.b() ? new SM(s, new core::EventSet<R>()) : new SM(s));
  long rounds = q.i();
  std::vector<typename SM::Result> kept;   // results must not change later on
  std::vector<std::string> texts;
  for (long k = 0; k < rounds; ++k) {
    std::vector<R> refs; std::vector<H> hyps;
    for (long n = q.i(); n > 0; --n) refs.push_back(GetRef(q, (R *)nullptr));
    for (long n = q.i(); n > 0; --n) hyps.push_back(GetHyp(q, (H *)nullptr));
    if (sc == "table") {
      table.ids.clear(); table.table.clear();
      for (const auto &r : refs) table.ids.emplace(r, table.ids.size());
      for (size_t i = 0; i < table.ids.size(); ++i) {
        table.table.emplace_back();
        for (size_t j = 0; j < hyps.size(); ++j) {
          float a = q.f(), b = q.f();
          table.table.back().emplace_back(a, b);
        }
      }
    }
    const std::vector<R> refs0 = refs; const std::vector<H> hyps0 = hyps;
    matcher::Matcher<R, H> *base = m.get();
    const auto res = base->Match(refs, hyps);
    o.i(refs == refs0 && hyps == hyps0);   // inputs untouched
    PutMatches(o, res);
    PutMatches(o, m->GetRepeatedMatches());
  }
}

template <class R, class H> static void Dispatch(In &q, Out &o) {
  const std::string sc = q.s();
  const float thr = q.f();
  scorer::TrivialScorer<R, H> t;
  (void)thr;
  DoMatch<R, H>(q, o, sc, &t);
}
template <> void Dispatch<SR, SH>(In &q, Out &o) {
  const std::string sc = q.s();
  const float thr = q.f();
  scorer::TrivialScorer<SR, SH> t;
  scorer::IntersectionOverHypothesisAreaScorer<SR, SH> a(thr);
  scorer::IntersectionOverUnionAreaScorer<SR, SH> b(thr);
  scorer::SoftIntersectionOverHypothesisAreaScorer<SR, SH> c;
  scorer::Scorer<SR, SH> *s = sc == "ioh" ? (scorer::Scorer<SR, SH> *)&a
      : sc == "iou" ? (scorer::Scorer<SR, SH> *)&b : sc == "soft" ? (scorer::Scorer<SR, SH> *)&c : &t;
  DoMatch<SR, SH>(q, o, sc, s);
}

// A history of operations on event sets: i r c f s n (insert, remove, clear,
// find, size, replace by a set built from a range), one of them in hand; d
// makes the other a copy of it (by construction or assignment), x changes hands.
template <class R, class F> static void History(In &q, Out &o, F find) {
  typedef core::EventSet<R> S;
  std::unique_ptr<S> s(new S()), other(new S());
  while (q.more()) {
    const std::string op = q.s();
    if (op == "i") s->Insert(GetRef(q, (R *)nullptr));
    else if (op == "r") s->Remove(GetRef(q, (R *)nullptr));
    else if (op == "c") s->Clear();
    else if (op == "d") { if (s->Size() % 2) *other = *s; else other.reset(new S(*s)); }
    else if (op == "x") std::swap(s, other);
    else if (op == "k") {            // go on with a copy, the original changed and gone
      std::unique_ptr<S> t(new S(*s));
      s->Clear();
      if (t->Size() % 2) { s.reset(new S()); *s = *t; t->Clear(); } else { s = std::move(t); }
    }
    else if (op == "n") {
      std::vector<R> v;
      for (long n = q.i(); n > 0; --n) v.push_back(GetRef(q, (R *)nullptr));
      // Built in memory full of garbage, so that forgotten members show.
      s.reset();
      void *mem = ::operator new(sizeof(S));
      memset(mem, 0xA5, sizeof(S));
      if (v.size() % 2) s.reset(new (mem) S(v.begin(), v.end()));
#ifdef PORTABLE
      else s.reset(new (mem) S(v.begin(), v.end()));
#else
      else { std::list<R> l(v.begin(), v.end()); s.reset(new (mem) S(l.begin(), l.end())); }
#endif
    } else if (op == "f") {
      const R e = GetRef(q, (R *)nullptr);
      const S &cs = *s;
      const auto l = find(cs, e);
      o.u(l.size());
      for (const auto &x : l) PutE(o, x);
    }
    o.u(s->Size());
  }
}

template <class T> static void ShapedHistory(In &q, Out &o) {
  typedef Shaped<T> R;
  History<R>(q, o, [](const core::EventSet<R> &s, const R &e) {
    // scored events are asked for as well
    auto a = s.FindOverlapping(e);
    const auto b = s.FindOverlapping(ScoredEvent<R>(e, 0.5f));
    if (a != b) a.resize(99999);
    return a; });
}

int main() {
  return Serve([](In &q, Out &o) {
    const std::string c = q.tok(), k = q.s();
    if (c == "match") {
      if (k == "shaped") Dispatch<SR, SH>(q, o); else Dispatch<ER, EH>(q, o);
    } else {
      if (k == "shaped") ShapedHistory<int64_t>(q, o);
      else if (k == "shaped32") ShapedHistory<int32_t>(q, o);
      else if (k == "shapedd") ShapedHistory<double>(q, o);
      else if (k == "shapedf") ShapedHistory<float>(q, o);
      else if (k == "strings") History<ES>(q, o, [](const core::EventSet<ES> &s, const ES &e) { return s.FindOverlapping(e); });
      else History<ER>(q, o, [](const core::EventSet<ER> &s, const ER &e) { return s.FindOverlapping(e); });
    }
  });
}
