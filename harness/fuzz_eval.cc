// Coverage-guided: two files as text through readers, matcher and metrics.
// Byte 0 chooses options, the rest is references, a line "==", hypotheses.
#include "kws.h"

#include "need.h"

typedef ShapedEvent<std::string, DocumentBoundingBox<int64_t>> Ref;
typedef ScoredEvent<Ref> Hyp;
typedef Event<int32_t, int32_t> SRef;
typedef ScoredEvent<SRef> SHyp;

// ---- an independent reading of the line grammar
struct Row { std::string q, d; long long v[4]; float s; };
static bool Space(char c) { return c == ' ' || c == '\t' || c == '\v' || c == '\f' || c == '\r'; }

static bool Int(const std::string &w, long long *v) {
  size_t i = !w.empty() && (w[0] == '+' || w[0] == '-');
  if (i == w.size()) return false;
  const bool neg = w[0] == '-';
  __int128 x = 0;
  for (; i < w.size(); ++i) {
    if (w[i] < '0' || w[i] > '9') return false;
    x = x * 10 + (w[i] - '0');
    if (x > ((__int128)1 << 64)) x = (__int128)1 << 64;
  }
  if (neg) x = -x;
  if (x < INT64_MIN || x > INT64_MAX) return false;
  *v = (long long)x;
  return true;
}
static bool Flt(const std::string &w, float *v) {
  size_t i = !w.empty() && (w[0] == '+' || w[0] == '-'), digits = 0;
  while (i < w.size() && isdigit((unsigned char)w[i])) ++i, ++digits;
  if (i < w.size() && w[i] == '.') {
    ++i;
    while (i < w.size() && isdigit((unsigned char)w[i])) ++i, ++digits;
  }
  if (!digits) return false;
  if (i < w.size() && (w[i] == 'e' || w[i] == 'E')) {
    ++i;
    if (i < w.size() && (w[i] == '+' || w[i] == '-')) ++i;
    const size_t k = i;
    while (i < w.size() && isdigit((unsigned char)w[i])) ++i;
    if (k == i) return false;
  }
  if (i != w.size()) return false;
  *v = strtof(w.c_str(), nullptr);
  return std::isfinite(*v);
}
// 0 if all lines are well-formed, else the first bad line's number.
static long Parse(const std::string &t, int boxes, bool scored, std::vector<Row> *rows) {
  size_t p = 0;
  for (long n = 1; p <= t.size(); ++n) {
    size_t e = t.find('\n', p);
    if (e == std::string::npos) e = t.size();
    std::vector<std::string> w;
    for (size_t i = p; i < e;) {
      while (i < e && Space(t[i])) ++i;
      const size_t k = i;
      while (i < e && !Space(t[i])) ++i;
      if (i > k) w.push_back(t.substr(k, i - k));
    }
    p = e + 1;
    if (w.empty() || w[0][0] == '#') continue;
    if (w.size() != 2u + boxes + scored) return n;
    Row r;
    r.q = w[0]; r.d = w[1]; r.s = 0;
    for (int i = 0; i < boxes; ++i) if (!Int(w[2 + i], &r.v[i])) return n;
    if (scored && !Flt(w.back(), &r.s)) return n;
    rows->push_back(r);
  }
  return 0;
}

static bool Same(const Ref &e, const Row &r) {
  const auto &b = e.Location();
  return e.Query() == r.q && b.document == r.d && b.x == r.v[0] && b.y == r.v[1] && b.w == r.v[2] && b.h == r.v[3];
}
static bool Mild(const Row &r) {
  for (int i = 0; i < 4; ++i) if (r.v[i] >= (1LL << 31) || r.v[i] < -(1LL << 31)) return false;
  return r.v[2] >= 0 && r.v[3] >= 0;
}
static bool Overlap(const Ref &a, const Ref &b) {     // b is the hypothesis: at least half of it is common
  if (a.Query() != b.Query() || a.Location().document != b.Location().document) return false;
  const auto &p = a.Location(); const auto &q = b.Location();
  const __int128 w = std::min(p.x + p.w, q.x + q.w) - std::max(p.x, q.x);
  const __int128 h = std::min(p.y + p.h, q.y + q.h) - std::max(p.y, q.y);
  if (w <= 0 || h <= 0) return false;
  const __int128 area = (__int128)q.w * q.h;
  const float ratio = (float)(int64_t)(w * h) / (float)(int64_t)area;
  return ratio >= 0.5f;
}
static bool Overlap(const SRef &a, const SRef &b) { return a.Query() == b.Query() && a.Location() == b.Location(); }
static bool Near(const Ref &a, const Ref &b) {        // decided by less than rounding
  const auto &p = a.Location(); const auto &q = b.Location();
  const double w = std::min(p.x + p.w, q.x + q.w) - std::max(p.x, q.x);
  const double h = std::min(p.y + p.h, q.y + q.h) - std::max(p.y, q.y);
  return std::abs(w * h / ((double)q.w * q.h) - .5) < 1e-6;
}
static bool Near(const SRef &, const SRef &) { return false; }

template <class R> static void Metrics(const std::vector<core::Match<R, ScoredEvent<R>>> &ms, int o) {
  typedef core::Match<R, ScoredEvent<R>> M;
  const bool c = o & 1, i = o & 2, t = o & 4;
  std::vector<std::vector<M>> by;
  core::GroupMatchesByQueryGroup(ms, std::map<typename R::QType, typename R::QType>(), &by);
  size_t n = 0;
  for (const auto &g : by) n += g.size();
  NEED("C09", n == ms.size(), "%zu matches in groups, %zu in all", n, ms.size());
  const double v[4] = {core::GlobalAP<M>(c, i, t)(ms), core::MeanAP<M>(c, i, t)(by, false),
                       core::GlobalNDCG<M>(c)(ms), core::MeanNDCG<M>(c)(by, false)};
  for (int k = 0; k < 4; ++k) NEED("C21", v[k] >= 0 && v[k] <= 1 + 1e-6, "metric %d is %g", k, v[k]);
  std::vector<double> pr, rc, xs, ys;
  core::ComputePrecisionAndRecall(ms, c, i, &pr, &rc);
  NEED("C05", pr.size() == rc.size(), "%zu precisions, %zu recalls", pr.size(), rc.size());
  for (size_t k = 0; k < pr.size(); ++k) {
    NEED("C21", pr[k] >= 0 && pr[k] <= 1 + 1e-6 && rc[k] >= 0 && rc[k] <= 1 + 1e-6, "point %zu: %g %g", k, rc[k], pr[k]);
    NEED("C05", !k || rc[k] >= rc[k - 1], "recall decreases at %zu", k);
    NEED("C05", !(i && k) || pr[k] <= pr[k - 1], "interpolated precision increases at %zu", k);
  }
  core::GetEvenlyDistributedPoints01Interval(5, &xs);
  core::SampleCurveAtGivenPoints(rc, pr, xs, &ys, t);
  NEED("C21", ys.size() == 5, "%zu sampled points", ys.size());
  for (double y : ys) NEED("C21", y >= 0 && y <= 1 + 1e-6, "sampled precision %g", y);
}

template <class R, class M> static void Matching(M &matcher, std::vector<R> refs, std::vector<ScoredEvent<R>> hyps, int o) {
  if (o & 8) std::sort(hyps.begin(), hyps.end(), std::greater<ScoredEvent<R>>());
  const auto ms = matcher.Match(refs, hyps);
  const auto &rep = matcher.GetRepeatedMatches();
  std::set<R> distinct(refs.begin(), refs.end()), seen, hit;
  std::multiset<ScoredEvent<R>> left(hyps.begin(), hyps.end());
  bool missing = false;
  for (const auto &m : ms) {
    NEED("C02", m.HasHyp() || m.HasRef(), "an empty match");
    NEED("C02", !(missing && m.HasHyp()), "a hypothesis after a miss");
    missing = missing || !m.HasHyp();
    if (m.HasRef()) {
      NEED("C02", distinct.count(m.GetRef()), "an unknown reference");
      const bool fresh = seen.insert(m.GetRef()).second;
      NEED("C02", fresh, "a reference in two matches");
      if (m.HasHyp()) hit.insert(m.GetRef());
    }
    if (m.HasHyp()) {
      const auto it = left.find(m.GetHyp());
      NEED("C02", it != left.end(), "a hypothesis in two matches");
      if (it != left.end()) left.erase(it);
      const R &h = m.GetHyp();
      if (m.HasRef()) NEED("C02", Overlap(m.GetRef(), h) || Near(m.GetRef(), h), "a hit that does not overlap");
      else for (const auto &r : distinct) NEED("C02", !Overlap(r, h) || Near(r, h), "a false positive that overlaps a reference");
    }
  }
  NEED("C02", seen.size() == distinct.size(), "%zu of %zu references", seen.size(), distinct.size());
  std::set<ScoredEvent<R>> all(hyps.begin(), hyps.end()), ignored;
  for (const auto &m : rep) {
    NEED("C02", m.HasHyp() && m.HasRef() && all.count(m.GetHyp()), "an unknown repetition");
    NEED("C02", Overlap(m.GetRef(), m.GetHyp()) || Near(m.GetRef(), m.GetHyp()), "a repetition that does not overlap");
    NEED("C02", hit.count(m.GetRef()), "a repetition of a reference that was not hit");
    ignored.insert(m.GetHyp());
  }
  for (const auto &x : left) {
    NEED("C02", ignored.count(x), "a hypothesis in no list");
    const R &h = x;
    for (const auto &r : distinct) NEED("C02", !Overlap(r, h) || Near(r, h) || hit.count(r), "a hypothesis ignored although a reference was free");
  }
  Metrics<R>(ms, o);
}

static void Boxes(const std::string &rt, const std::string &ht, int o) {
  std::vector<Row> rr, hr;
  const long rbad = Parse(rt, 4, false, &rr), hbad = Parse(ht, 4, true, &hr);
  std::istringstream rs(rt), hs(ht);
  std::vector<Ref> refs(3);
  std::vector<Hyp> hyps(2);
  reader::PlainTextReader<Ref> r1;
  reader::PlainTextReader<Hyp> r2;
  const bool rok = r1.Read(&rs, &refs), hok = r2.Read(&hs, &hyps);
  NEED("C12", rok == (rbad == 0), "references: bad line %ld, accepted %d", rbad, rok);
  NEED("C12", hok == (hbad == 0), "hypotheses: bad line %ld, accepted %d", hbad, hok);
  if (!rok || !hok) return;
  NEED("C12", refs.size() == rr.size() && hyps.size() == hr.size(), "number of events");
  bool mild = true;
  for (size_t i = 0; i < rr.size(); ++i) { NEED("C12", Same(refs[i], rr[i]), "reference %zu differs", i); mild = mild && Mild(rr[i]); }
  for (size_t i = 0; i < hr.size(); ++i) {
    NEED("C12", Same(hyps[i], hr[i]) && hyps[i].Score() == hr[i].s, "hypothesis %zu differs", i);
    mild = mild && Mild(hr[i]);
  }
  scorer::IntersectionOverHypothesisAreaScorer<Ref, Hyp> scorer(0.5);
  matcher::SimpleMatcher<Ref, Hyp> matcher(&scorer);
  if (mild && refs.size() * hyps.size() < 4000) Matching<Ref>(matcher, refs, hyps, o);
}

static void Plain(const std::string &rt, const std::string &ht, int o) {
  std::vector<Row> rr, hr;
  const long rbad = Parse(rt, 0, false, &rr), hbad = Parse(ht, 0, true, &hr);
  typedef mapper::StringEventToIntMapper<int32_t> RM;
  typedef mapper::ScoredEventMapper<RM> HM;
  mapper::StringToIntMapper<int32_t> sm;
  RM rm(&sm);
  HM hm(&rm);
  reader::PlainTextMapEventReader<RM> r1(&rm);
  reader::PlainTextMapEventReader<HM> r2(&hm);
  std::istringstream rs(rt), hs(ht);
  std::vector<SRef> refs(3);
  std::vector<SHyp> hyps(2);
  const bool rok = r1.Read(&rs, &refs), hok = r2.Read(&hs, &hyps);
  NEED("C12", rok == (rbad == 0), "references: bad line %ld, accepted %d", rbad, rok);
  NEED("C12", hok == (hbad == 0), "hypotheses: bad line %ld, accepted %d", hbad, hok);
  if (!rok || !hok) return;
  NEED("C12", refs.size() == rr.size() && hyps.size() == hr.size(), "number of events");
  for (size_t i = 0; i < rr.size(); ++i) NEED("C12", refs[i].Query() == sm(rr[i].q) && refs[i].Location() == sm(rr[i].d), "reference %zu", i);
  for (size_t i = 0; i < hr.size(); ++i)
    NEED("C12", hyps[i].Query() == sm(hr[i].q) && hyps[i].Location() == sm(hr[i].d) && hyps[i].Score() == hr[i].s, "hypothesis %zu", i);
  scorer::TrivialScorer<SRef, SHyp> scorer;
  matcher::SimpleMatcher<SRef, SHyp> matcher(&scorer);
  if (refs.size() * hyps.size() < 4000) Matching<SRef>(matcher, refs, hyps, o);
}

extern "C" int LLVMFuzzerInitialize(int *, char ***) {
  std::cerr.setstate(std::ios_base::badbit);
  return 0;
}

extern "C" int LLVMFuzzerTestOneInput(const uint8_t *data, size_t n) {
  if (!n) return 0;
  const int o = data[0];
  const std::string t((const char *)data + 1, n - 1);
  const size_t p = t.find("\n==\n");
  const std::string r = p == std::string::npos ? t : t.substr(0, p + 1), h = p == std::string::npos ? "" : t.substr(p + 4);
  if (o & 16) Plain(r, h, o); else Boxes(r, h, o);
  return 0;
}
