// Geometry, scorers, orders and text of boxes and events.
#include "kws.h"

template <class T> static void Geo(In &q, Out &o) {
  const std::string da = q.s(), db = q.s();
  const BoundingBox<T> a = GetBox<T>(q), b = GetBox<T>(q);
  const DocumentBoundingBox<T> ea(da, a.x, a.y, a.w, a.h), eb(db, b.x, b.y, b.w, b.h);
  const Shaped<T> sa("q", ea), sb("r", eb);
  const ScoredEvent<Shaped<T>> ca(sa, 0.5f), cb(sb, 0.25f);
  auto n = [&](T v) { Num<T>::put(o, v); };
  // areas
  n(a.Area()); n(ea.Area()); n(sa.Area()); n(ca.Area());
  n(b.Area()); n(eb.Area()); n(sb.Area()); n(cb.Area());
  // intersections of plain boxes: both orders, both spellings
  n(a.IntersectionArea(b)); n(b.IntersectionArea(a));
  n(core::IntersectionArea(a, b)); n(core::IntersectionArea(b, a));
  n(a.UnionArea(b)); n(b.UnionArea(a)); n(core::UnionArea(a, b)); n(core::UnionArea(b, a));
  // of boxes in documents and of events
  n(ea.IntersectionArea(eb)); n(eb.IntersectionArea(ea));
  n(core::IntersectionArea(ea, eb)); n(core::IntersectionArea(eb, ea));
  n(core::IntersectionArea(sa, sb)); n(core::IntersectionArea(sb, sa));
  n(core::IntersectionArea(sa, cb)); n(core::IntersectionArea(ca, cb));
  n(ea.UnionArea(eb)); n(eb.UnionArea(ea));
  n(core::UnionArea(ea, eb)); n(core::UnionArea(eb, ea));
  n(core::UnionArea(sa, sb)); n(core::UnionArea(sb, sa));
  n(core::UnionArea(sa, cb)); n(core::UnionArea(ca, cb));
  // with itself
  n(a.IntersectionArea(a)); n(ea.IntersectionArea(ea)); n(a.UnionArea(a));
}

template <class E> static void Cmp(const E &a, const E &b, Out &o) {
  std::string r;
  r += a < b ? '1' : '0'; r += a <= b ? '1' : '0'; r += a == b ? '1' : '0';
  r += a != b ? '1' : '0'; r += a >= b ? '1' : '0'; r += a > b ? '1' : '0';
  o.raw(r);
}
// All ordered pairs of three objects.
template <class E> static void Cmp3(const E &a, const E &b, const E &c, Out &o) {
  const E *v[3] = {&a, &b, &c};
  for (auto *x : v) for (auto *y : v) Cmp(*x, *y, o);
  // as the standard algorithms see them
  std::set<E> s; s.insert(c); s.insert(a); s.insert(b); s.insert(a);
  o.u(s.size());
  const E copy(b);
  Cmp(copy, b, o);
}
template <class E, class F> static void Three(In &q, Out &o, F get) {
  E a = get(q), b = get(q), c = get(q);
  Cmp3(a, b, c, o);
}
template <class E> static void BasePair(const E &a, const E &b, Out &o) { Cmp(a, b, o); }

static Event<std::string, std::string> GetEv(In &q) {
  std::string a = q.s(), b = q.s();
  return Event<std::string, std::string>(a, b);
}
static Event<int32_t, int32_t> GetEvI(In &q) {
  int32_t a = (int32_t)q.i(), b = (int32_t)q.i();
  return Event<int32_t, int32_t>(a, b);
}
typedef Event<std::string, std::string> EvS;
typedef Event<int32_t, int32_t> EvI;

template <class T> static void Score(In &q, Out &o) {
  typedef Shaped<T> R; typedef ScoredEvent<Shaped<T>> H;
  const float t = q.f();
  R r = GetShaped<T>(q);
  H h = GetScored<T>(q);
  scorer::IntersectionOverHypothesisAreaScorer<R, H> a(t);
  scorer::IntersectionOverUnionAreaScorer<R, H> b(t);
  scorer::SoftIntersectionOverHypothesisAreaScorer<R, H> c;
  scorer::TrivialScorer<R, H> d;
  scorer::Scorer<R, H> *v[4] = {&a, &b, &c, &d};
  for (int round = 0; round < 2; ++round)     // a scorer has no memory
    for (auto *s : v) { const MatchError e = (*s)(r, h); o.d(e.FP()); o.d(e.FN()); }
  // references of the same type as hypotheses
  scorer::IntersectionOverHypothesisAreaScorer<R, R> a2(t);
  const MatchError e = a2(r, h); o.d(e.FP()); o.d(e.FN());
  o.d(a.Threshold()); o.d(b.Threshold());
  // further pairs in the same objects: bit 0 another reference, bit 1 another hypothesis
  for (long long n = q.i(); n > 0; --n) {
    const long long m = q.i();
    if (m & 1) r = GetShaped<T>(q);
    if (m & 2) h = GetScored<T>(q);
    for (auto *s : v) { const MatchError e = (*s)(r, h); o.d(e.FP()); o.d(e.FN()); }
  }
}

int main() {
  return Serve([](In &q, Out &o) {
    const std::string c = q.tok();
    if (c == "geo") {
      const std::string t = q.s();
      if (t == "i32") Geo<int32_t>(q, o);
      else if (t == "i64") Geo<int64_t>(q, o);
      else if (t == "f64") Geo<double>(q, o);
      else Geo<float>(q, o);
    } else if (c == "score") {
      const std::string t = q.s();
      if (t == "i32") Score<int32_t>(q, o);
      else if (t == "i64") Score<int64_t>(q, o);
      else Score<double>(q, o);
    } else if (c == "cmp") {
      const std::string k = q.s();
      if (k == "box32") Three<BoundingBox<int32_t>>(q, o, GetBox<int32_t>);
      else if (k == "box64") Three<BoundingBox<int64_t>>(q, o, GetBox<int64_t>);
      else if (k == "boxf") Three<BoundingBox<double>>(q, o, GetBox<double>);
      else if (k == "doc") Three<DocumentBoundingBox<int64_t>>(q, o, GetDocBox<int64_t>);
      else if (k == "evs") Three<EvS>(q, o, GetEv);
      else if (k == "evi") Three<EvI>(q, o, GetEvI);
      else if (k == "shaped") Three<Shaped<int64_t>>(q, o, GetShaped<int64_t>);
      else if (k == "scored") Three<ScoredEvent<Shaped<int64_t>>>(q, o, GetScored<int64_t>);
      else if (k == "scoredi") Three<ScoredEvent<EvI>>(q, o, [](In &q) {
        EvI e = GetEvI(q); return ScoredEvent<EvI>(e, q.f()); });
      else if (k == "scoreds") Three<ScoredEvent<EvS>>(q, o, [](In &q) {
        EvS e = GetEv(q); return ScoredEvent<EvS>(e.Query(), e.Location(), q.f()); });
    }
  });
}
