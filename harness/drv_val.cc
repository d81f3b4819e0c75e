// Value semantics of matches and error counts; allocation balance.
#include "kws.h"
#include <new>

static long live = 0;
void *operator new(size_t n) { void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); ++live; return p; }
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { if (p) { --live; free(p); } }
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete(void *p, size_t) noexcept { operator delete(p); }
void operator delete[](void *p, size_t) noexcept { operator delete(p); }

// Events that count their instances and die visibly.
static long objs = 0;
template <int Tag> struct Ev {
  typedef std::string QType;
  std::string q; int v; unsigned magic;
  Ev() : v(0), magic(0xfeedu) { ++objs; }
  Ev(const std::string &q, int v) : q(q), v(v), magic(0xfeedu) { ++objs; }
  Ev(const Ev &o) : q(o.q), v(o.v), magic(0xfeedu) { ++objs; }
  Ev &operator=(const Ev &o) { q = o.q; v = o.v; return *this; }
  ~Ev() { if (magic != 0xfeedu) { fprintf(stderr, "destroyed twice\n"); abort(); } magic = 0xdeadu; --objs; }
  bool operator==(const Ev &o) const { return q == o.q && v == o.v; }
  bool operator!=(const Ev &o) const { return !(*this == o); }
};
typedef Ev<0> R; typedef Ev<1> H;
typedef core::Match<R, H> Mt;

static void Put(Out &o, const Mt &m) {
  o.d(m.GetError().FP()); o.d(m.GetError().FN()); o.u(m.GetError().NH()); o.u(m.GetError().NR());
  o.i(m.HasRef()); if (m.HasRef()) { o.s(m.GetRef().q); o.i(m.GetRef().v); }
  o.i(m.HasHyp()); if (m.HasHyp()) { o.s(m.GetHyp().q); o.i(m.GetHyp().v); }
}

static void Matches(In &q, Out &o) {
  const size_t n = q.u();
  std::vector<std::unique_ptr<Mt>> slot;
  for (size_t i = 0; i < n; ++i) slot.emplace_back(new Mt());
  auto s = [&]() -> Mt & { return *slot[q.u() % n]; };
  while (q.more()) {
    const std::string op = q.s();
    const size_t i = q.u() % n;
    Mt &m = *slot[i];
    if (op == "hit") { std::string a = q.s(); int v = q.i(); std::string b = q.s(); int w = q.i(); float fp = q.f(), fn = q.f();
      m = Mt(R(a, v), H(b, w), MatchError(fp, fn)); }
    else if (op == "fp") { std::string a = q.s(); int v = q.i(); m = Mt::MakeFalsePositive(H(a, v)); }
    else if (op == "fn") { std::string a = q.s(); int v = q.i(); m = Mt::MakeFalseNegative(R(a, v)); }
    else if (op == "err") { float fp = q.f(), fn = q.f(); m.SetError(MatchError(fp, fn)); }
    else if (op == "ferr") { float fp = q.f(), fn = q.f(); slot[i].reset(new Mt(fp, fn)); }
    else if (op == "ref") { std::string a = q.s(); int v = q.i(); m.SetRef(R(a, v)); }
    else if (op == "hyp") { std::string a = q.s(); int v = q.i(); m.SetHyp(H(a, v)); }
    else if (op == "refof") { const Mt &b = s(); if (b.HasRef()) m.SetRef(b.GetRef()); }
    else if (op == "hypof") { const Mt &b = s(); if (b.HasHyp()) m.SetHyp(b.GetHyp()); }
    else if (op == "copy") { const Mt &b = s(); slot[i].reset(new Mt(b)); }
    else if (op == "assign") { const Mt &b = s(); m = b; }
    else if (op == "move") { Mt &b = s(); if (&b != &m) m = std::move(b); }
    else if (op == "movec") { Mt &b = s(); Mt *p = new Mt(std::move(b)); slot[i].reset(p); }
    else if (op == "chain") { Mt &b = s(); Mt &c = s(); m = b = c; }
    else if (op == "vec") {     // through a growing vector, sorted backwards, and out again
      std::vector<Mt> v;
      for (const auto &p : slot) v.push_back(*p);
      v.insert(v.begin(), *slot[i]);
      v.erase(v.begin());
      std::reverse(v.begin(), v.end()); std::reverse(v.begin(), v.end());
      std::vector<Mt> w(v); w.resize(n + 3); w = v;
      for (size_t k = 0; k < n; ++k) *slot[k] = w[k];
    }
    else if (op == "cmp") { const Mt &b = s(); o.i(m == b); o.i(m != b); o.i(b == m); o.i(b != m); }
    else if (op == "put") Put(o, m);
  }
  o.raw("end");
  for (const auto &p : slot) Put(o, *p);
}

int main() {
  return Serve([](In &q, Out &o) {
    const std::string c = q.tok();
    if (c == "match") {
      o.r.reserve(1 << 20);
      const long l0 = live, o0 = objs;
      { In sub = q; Matches(sub, o); }
      o.i(live - l0); o.i(objs - o0);
    } else if (c == "counts") {        // n (fp fn nh nr) then a grouping
      std::vector<MatchErrorCounts> v; std::vector<MatchError> e;
      for (long n = q.i(); n > 0; --n) {
        float a = q.f(), b = q.f(); size_t x = q.u(), y = q.u();
        v.emplace_back(a, b, x, y); e.emplace_back(a, b);
      }
      auto put = [&](const MatchErrorCounts &m) { o.d(m.FP()); o.d(m.FN()); o.u(m.NH()); o.u(m.NR()); };
      MatchErrorCounts left, right, inc, plain, chained;
      for (size_t i = 0; i < v.size(); ++i) left = left + v[i];
      for (size_t i = v.size(); i-- > 0;) right = v[i] + right;
      for (const auto &m : v) inc += m;
      for (const auto &m : e) plain += m;
      const size_t half = v.size() / 2;
      MatchErrorCounts a, b;
      for (size_t i = 0; i < half; ++i) a += v[i];
      for (size_t i = half; i < v.size(); ++i) b += v[i];
      put(left); put(right); put(inc); put(plain); put(a + b); a += b; put(a);
      MatchErrorCounts self = left; self += self; put(self);
      for (const auto &m : e) { o.u(m.NH()); o.u(m.NR()); const MatchErrorCounts k(m); put(k); o.i(k.FP() == m.FP()); }
      MatchErrorCounts based;       // counts in the shape of errors keep what they count
      for (const auto &m : v) {
        const MatchError &e = m;
        const MatchErrorCounts k(e);
        put(k);
        based += e;
      }
      put(based);
      for (const auto &x : v) for (const auto &y : v) { o.i(x == y); o.i(x != y); }
      for (const auto &x : e) for (const auto &y : e) { o.i(x == y); o.i(x != y); }
    } else if (c == "owners") {        // owning objects release what they own
      const long n = q.i(); const std::string s = q.s();
      const long l0 = live;
      {
        mapper::StringToIntMapper<int32_t> a; mapper::StringToIntMapper<int32_t> a2(a);
        mapper::StringEventToIntMapper<int32_t> b; mapper::StringEventToIntMapper<int32_t> b2(b);
        mapper::StringEventToIntMapper<int32_t> d(new mapper::StringToIntMapper<int32_t>(), true);
        mapper::StringEventToIntMapper<int32_t> f(&a);
        typedef std::unordered_map<std::string, int32_t> U;
        mapper::StringToIntMapper<int32_t> g(new U(), true);
        U mine; mapper::StringToIntMapper<int32_t> h(&mine);
        mapper::StringToIntMapper<int32_t> k; k(s); k = a; k = k; h = h;
        mapper::StringEventToIntMapper<int32_t> m; m(Event<std::string, std::string>(s, s)); m = b; m = m; b2 = b; d = d;
        for (long i = 0; i < n; ++i) {
          const std::string t = s + std::to_string(i);
          k(t); m(Event<std::string, std::string>(t + s, s)); a(t); a2(t + "'"); g(t); h(t);
          const Event<std::string, std::string> e(t, s);
          b(e); b2(e); d(e); f(e);
        }
      }
      const long l1 = live;
      {
        typedef Shaped<int64_t> SR; typedef ScoredEvent<SR> SH;
        scorer::IntersectionOverHypothesisAreaScorer<SR, SH> sc(0.5f);
        matcher::SimpleMatcher<SR, SH> m(&sc), m2(&sc, new core::EventSet<SR>());
        std::vector<SR> r; std::vector<SH> h;
        for (long i = 0; i < n; ++i) {
          const SR e(s, DocumentBoundingBox<int64_t>("d", i % 5, i / 5, 3, 3));
          r.push_back(e); h.emplace_back(e, 0.5f); h.emplace_back(e, 0.25f);
        }
        for (int k = 0; k < 2; ++k) { m.Match(r, h); m2.Match(r, h); }
        core::EventSet<SR> set(r.begin(), r.end());
        set.FindOverlapping(r.empty() ? SR("x", DocumentBoundingBox<int64_t>("d", 0, 0, 1, 1)) : r[0]);
        set.Clear();
      }
      const long l2 = live;
      o.i(l1 - l0); o.i(l2 - l1);
    }
  });
}
