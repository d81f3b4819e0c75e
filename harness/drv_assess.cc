// Statistics: curves, averages, gains, grouping, collapsing, bootstrapping.
#include "kws.h"

typedef Event<std::string, int32_t> R;
typedef ScoredEvent<R> H;
typedef core::Match<R, H> Mt;

// kind 0 hit, 1 false positive, 2 miss; query, id, score, fp, fn
static Mt GetMatch(In &q) {
  const long k = q.i();
  const std::string query = q.s();
  const int32_t id = (int32_t)q.i();
  const float s = q.f(), fp = q.f(), fn = q.f();
  const R r(query, id);
  if (k == 1) { Mt m = Mt::MakeFalsePositive(H(r, s)); return m; }
  if (k == 2) { Mt m = Mt::MakeFalseNegative(r); return m; }
  return Mt(r, H(r, s), MatchError(fp, fn));
}
static std::vector<Mt> GetMatches(In &q) {
  std::vector<Mt> v;
  for (long n = q.i(); n > 0; --n) v.push_back(GetMatch(q));
  return v;
}
static std::vector<std::vector<Mt>> GetGroups(In &q) {
  std::vector<std::vector<Mt>> g;
  for (long n = q.i(); n > 0; --n) g.push_back(GetMatches(q));
  return g;
}
static int32_t Id(const Mt &m) { return m.HasRef() ? m.GetRef().Location() : m.GetHyp().Location(); }
static void PutIds(Out &o, const std::vector<Mt> &v) {
  o.u(v.size());
  for (const auto &m : v) {
    const int k = m.HasHyp() ? (m.HasRef() ? 0 : 1) : 2;
    o.i(k); o.i(Id(m));
    o.s(m.HasRef() ? m.GetRef().Query() : m.GetHyp().Query());
    o.d(m.HasHyp() ? m.GetHyp().Score() : 0); o.d(m.GetError().FP()); o.d(m.GetError().FN());
  }
}
template <class V> static void PutV(Out &o, const V &v) { o.u(v.size()); for (double x : v) o.d(x); }

// All that can be computed from a list of errors, for an element type.
template <class Real, class ME> static void Errors(const std::vector<ME> &es, Out &o, bool ndcg = true) {
  o.u(core::NumTotalReferences(es));
  for (int interp = 0; interp < 2; ++interp) {
    std::vector<Real> pr(3, Real(7)), rc(1, Real(-7));   // old contents
    core::ComputePrecisionAndRecall(es, interp != 0, &pr, &rc);
    PutV(o, pr); PutV(o, rc);
    for (int trap = 0; trap < 2; ++trap) {
      o.d(core::ComputeAP(pr, rc, trap != 0));
      o.d(core::ComputeAP(es, pr, trap != 0));
    }
  }
  o.d(ndcg ? core::ComputeNDCG<Real>(es) : 0);
}

static void Collapsed(Out &o, const std::vector<MatchErrorCounts> &c) {
  o.u(c.size());
  for (const auto &e : c) { o.d(e.FP()); o.d(e.FN()); o.u(e.NH()); o.u(e.NR()); }
}

// The same statistic object for a list, and for another one in the same place,
// against objects of their own.
static bool Same(double a, double b) { return a == b || std::fabs(a - b) <= 1e-9 * (1 + std::fabs(a)) || (a != a && b != b); }
template <class S> static bool Reused(const S &s, const S &t, const std::vector<Mt> &ms) {
  std::vector<Mt> v(ms);
  const double a = s(v);
  if (!Same(a, t(ms))) return false;
  std::reverse(v.begin(), v.end());
  if (v.size() > 1) v[0] = v.back();
  const std::vector<Mt> w(v);
  const S u(t);
  const double b = s(v), c = u(w);
  v = ms;
  return Same(b, c) && Same(s(v), a);
}
template <class S> static bool ReusedG(const S &s, const S &t, const std::vector<std::vector<Mt>> &g, bool sort) {
  std::vector<std::vector<Mt>> v(g);
  const double a = s(v, sort);
  if (!Same(a, t(g, sort))) return false;
  std::reverse(v.begin(), v.end());
  if (!v.empty()) for (auto &x : v[0]) x = v.back().empty() ? x : v.back()[0];
  const std::vector<std::vector<Mt>> w(v);
  const S u(t);
  const double b = s(v, sort), c = u(w, sort);
  return Same(b, c) && Same(s(g, sort), a);
}

struct Stat { virtual double operator()(const std::vector<std::vector<Mt>> &g) = 0; };

int main() {
  return Serve([](In &q, Out &o) {
    const std::string c = q.tok();
    if (c == "errors") {          // real kind n (fp fn [nh nr])*; kind "totals": without NDCG, which takes time for every count
      const std::string real = q.s(), kind = q.s();
      std::vector<MatchError> a; std::vector<MatchErrorCounts> b;
      for (long n = q.i(); n > 0; --n) {
        const float fp = q.f(), fn = q.f();
        if (kind == "plain") a.emplace_back(fp, fn);
        else { const size_t nh = q.u(), nr = q.u(); b.emplace_back(fp, fn, nh, nr); }
      }
      if (real == "double") { if (kind == "plain") Errors<double>(a, o); else Errors<double>(b, o, kind != "totals"); }
      else { if (kind == "plain") Errors<float>(a, o); else Errors<float>(b, o); }
    } else if (c == "ap") {       // points of an arbitrary curve
      std::vector<double> pr, rc;
      for (long n = q.i(); n > 0; --n) { pr.push_back(q.d()); rc.push_back(q.d()); }
      o.d(core::ComputeAP(pr, rc, false)); o.d(core::ComputeAP(pr, rc, true));
    } else if (c == "list") {     // one ranked list of matches
      const std::vector<Mt> ms = GetMatches(q);
      Collapsed(o, core::CollapseMatches(ms));
      const auto es = core::GetMatchErrors(ms);
      o.u(es.size());
      for (const auto &e : es) { o.d(e.FP()); o.d(e.FN()); o.u(e.NH()); o.u(e.NR()); }
      std::vector<Mt> sorted(ms);
      core::SortMatchesDecreasingScore(&sorted);
      PutIds(o, sorted);
      for (int col = 0; col < 2; ++col) {
        for (int i = 0; i < 2; ++i) {
          std::vector<double> pr(2, 9.0), rc;
          core::ComputePrecisionAndRecall(ms, col != 0, i != 0, &pr, &rc);
          PutV(o, pr); PutV(o, rc);
          for (int t = 0; t < 2; ++t) {
            o.d(core::ComputeGlobalAP(ms, col != 0, i != 0, t != 0));
            const core::GlobalAP<Mt> s(col != 0, i != 0, t != 0);
            o.d(s(ms));
          }
        }
        o.d(core::ComputeGlobalNDCG(ms, col != 0));
        const core::GlobalNDCG<Mt> s(col != 0);
        o.d(s(ms));
      }
    } else if (c == "group") {    // matches, then the map query -> group
      const std::vector<Mt> ms = GetMatches(q);
      std::map<std::string, std::string> a; std::unordered_map<std::string, std::string> b;
      for (long n = q.i(); n > 0; --n) { std::string k = q.s(), v = q.s(); a[k] = v; b[k] = v; }
      std::vector<std::vector<Mt>> g(5, ms), g2;
      core::GroupMatchesByQueryGroup(ms, a, &g);
      core::GroupMatchesByQueryGroup(ms, b, &g2);
      o.i(g == g2);
      o.u(g.size());
      for (const auto &v : g) PutIds(o, v);
    } else if (c == "stats") {    // all statistics of grouped matches
      const auto g = GetGroups(q);
      const auto g0 = g;
      for (int col = 0; col < 2; ++col) for (int sort = 0; sort < 2; ++sort) {
        for (int i = 0; i < 2; ++i) for (int t = 0; t < 2; ++t) {
          const core::GlobalAP<Mt> a(col != 0, i != 0, t != 0);
          const core::MeanAP<Mt> b(col != 0, i != 0, t != 0);
          o.d(a(g, sort != 0)); o.d(b(g, sort != 0));
          o.d(core::ComputeGlobalAP(g, col != 0, i != 0, t != 0, sort != 0));
          o.d(core::ComputeMeanAP(g, col != 0, i != 0, t != 0, sort != 0));
        }
        const core::GlobalNDCG<Mt> a(col != 0);
        const core::MeanNDCG<Mt> b(col != 0);
        o.d(a(g, sort != 0)); o.d(b(g, sort != 0));
        o.d(core::ComputeGlobalNDCG(g, col != 0, sort != 0));
        o.d(core::ComputeMeanNDCG(g, col != 0, sort != 0));
      }
      bool ap = true, nd = true;
      std::vector<Mt> all;
      for (const auto &x : g) all.insert(all.end(), x.begin(), x.end());
      for (int k = 0; k < 8; ++k) {
        typedef core::GlobalAP<Mt> GA; typedef core::MeanAP<Mt> MA;
        const GA a(k & 1, k & 2, k & 4), a2(k & 1, k & 2, k & 4); const MA b(k & 1, k & 2, k & 4), b2(k & 1, k & 2, k & 4);
        ap = Reused(a, a2, all) && ReusedG(a, a2, g, false) && ReusedG(a, a2, g, true) &&
             ReusedG(b, b2, g, false) && ReusedG(b, b2, g, true) && ap;
        if (k > 1) continue;
        const core::GlobalNDCG<Mt> n(k & 1), n2(k & 1); const core::MeanNDCG<Mt> m(k & 1), m2(k & 1);
        nd = Reused(n, n2, all) && ReusedG(n, n2, g, false) && ReusedG(n, n2, g, true) &&
             ReusedG(m, m2, g, false) && ReusedG(m, m2, g, true) && nd;
      }
      o.i(ap); o.i(nd);
      o.i(g == g0);
    } else if (c == "sample") {   // src points, dst x
      std::vector<double> x, y, d, r(2, 5.0), l;
      for (long n = q.i(); n > 0; --n) { x.push_back(q.d()); y.push_back(q.d()); }
      for (long n = q.i(); n > 0; --n) d.push_back(q.d());
      core::SampleCurveAtGivenPoints(x, y, d, &r, false);
      core::SampleCurveAtGivenPoints(x, y, d, &l, true);
      PutV(o, r); PutV(o, l);
    } else if (c == "even") {
      std::vector<double> x(3, 4.0);
      core::GetEvenlyDistributedPoints01Interval((size_t)q.u(), &x);
      PutV(o, x);
    } else if (c == "write") {    // filename points
      const std::string f = q.s();
      std::vector<double> x, y;
      for (long n = q.i(); n > 0; --n) x.push_back(q.d());
      for (long n = q.i(); n > 0; --n) y.push_back(q.d());
      try { core::WriteCurveToFile(f, x, y); o.s("ok"); }
      catch (const std::invalid_argument &) { o.s("arg"); }
      catch (const std::ios_base::failure &) { o.s("io"); }
    } else if (c == "msample") {  // seed rounds matches: plain sampler
      const size_t seed = q.u(), rounds = q.u();
      const std::vector<Mt> ms = GetMatches(q);
      core::MatchesSampler<R, H> a(seed), b(seed);
      for (size_t k = 0; k < rounds; ++k) {
        std::vector<Mt> s(k % 3, Mt()), s2;
        a(ms, &s); b(ms, &s2);
        o.i(s == s2);
        PutIds(o, s);
      }
    } else if (c == "qsample") {  // seed rounds groups: sampler by query
      const size_t seed = q.u(), rounds = q.u();
      const auto g = GetGroups(q);
      core::MatchesByQuerySampler<R, H> a(seed), b(seed);
      for (size_t k = 0; k < rounds; ++k) {
        std::vector<std::vector<Mt>> s(k % 3), s2;
        a(g, &s); b(g, &s2);
        o.i(s == s2);
        o.u(s.size());
        for (const auto &v : s) PutIds(o, v);
      }
    } else if (c == "ci") {       // quantiles with scripted samples
      // The statistic of the container is its only number; the sampler
      // replays the given values.
      const double alpha = q.d(), obs = q.d();
      std::vector<double> vals;
      for (long n = q.i(); n > 0; --n) vals.push_back(q.d());
      typedef std::vector<double> C;
      size_t calls = 0;
      struct Sampler {
        const std::vector<double> *v; size_t *k; bool clean;
        void operator()(const C &orig, C *out) {
          if (!out->empty()) clean = false;
          out->clear(); out->push_back((*v)[(*k)++ % v->size()]);
        }
      } sampler{&vals, &calls, true};
      double lo = -1e9, hi = 1e9;
      try {
        const double v = core::ComputePercentileBootstrapCI(
            C(1, obs), vals.size(), alpha, [](const C &x) { return x.at(0); }, &sampler, &lo, &hi);
        o.s("ok"); o.d(v); o.d(lo); o.d(hi); o.u(calls); o.i(sampler.clean);
      } catch (const std::invalid_argument &) { o.s("arg"); }
    } else if (c == "boot") {     // which alpha reps seed opts groups
      const long which = q.i(); const double alpha = q.d();
      const size_t reps = q.u(), seed = q.u();
      const bool col = q.b(), interp = q.b(), trap = q.b();
      const auto g = GetGroups(q);
      const core::GlobalAP<Mt> s0(col, interp, trap); const core::MeanAP<Mt> s1(col, interp, trap);
      const core::GlobalNDCG<Mt> s2(col); const core::MeanNDCG<Mt> s3(col);
      const core::Statistic<Mt> *v[4] = {&s0, &s1, &s2, &s3};
      const core::Statistic<Mt> &st = *v[which];
      auto f = [&st](const std::vector<std::vector<Mt>> &x) { return st(x, true); };
      double lo = -9, hi = 9;
      const double val = core::ComputePercentileBootstrapCI(g, reps, alpha, seed, f, &lo, &hi);
      o.d(val); o.d(lo); o.d(hi);
      // The same from the sampler itself.
      core::MatchesByQuerySampler<R, H> sampler(seed);
      std::vector<double> stats;
      for (size_t k = 0; k < reps; ++k) { std::vector<std::vector<Mt>> s; sampler(g, &s); stats.push_back(f(s)); }
      PutV(o, stats);
    }
  });
}
