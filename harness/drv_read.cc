// Readers and text round trips.
#include "kws.h"
#include <unistd.h>

typedef Event<std::string, std::string> ES;
typedef Event<int32_t, int32_t> EI;

static void PutE(Out &o, const Shaped<int32_t> &e) { Put<int32_t>(o, e); }
static void PutE(Out &o, const Shaped<int64_t> &e) { Put<int64_t>(o, e); }
static void PutE(Out &o, const ScoredEvent<Shaped<int64_t>> &e) { Put<int64_t>(o, e); }
static void PutE(Out &o, const ScoredEvent<Shaped<int32_t>> &e) { Put<int32_t>(o, e); }
static void PutE(Out &o, const ES &e) { o.s(e.Query()); o.s(e.Location()); }
static void PutE(Out &o, const ScoredEvent<ES> &e) { o.s(e.Query()); o.s(e.Location()); o.d(e.Score()); }
static void PutE(Out &o, const EI &e) { o.i(e.Query()); o.i(e.Location()); }
static void PutE(Out &o, const ScoredEvent<EI> &e) { o.i(e.Query()); o.i(e.Location()); o.d(e.Score()); }

// The text of a match of events, by itself and among other things.
template <class RE, class HE> static void Text(Out &o, const RE &r, const HE &h, long has, const MatchError &e) {
  core::Match<RE, HE> m(r, h, e);
  if (has == 1) { m = core::Match<RE, HE>::MakeFalsePositive(h); m.SetError(e); }
  if (has == 2) { m = core::Match<RE, HE>::MakeFalseNegative(r); m.SetError(e); }
  std::ostringstream a, b;
  a << m;
  b << "one " << m << " " << m << "\n";
  o.s(a.str()); o.s(b.str());
}

// Reads the data from a stream or from a file through a reader that may have
// been used before, into a vector that holds something already.
template <class Rd, class E> static void Read(In &q, Out &o, const Rd &rd, std::vector<E> old) {
  const std::string how = q.s(), first = q.s(), data = q.s();
  std::ostringstream err;
  std::streambuf *was = std::cerr.rdbuf(err.rdbuf());
  std::vector<E> ev(old);
  auto once = [&](const std::string &text) {
    if (how == "file") {
      char name[] = "/dev/shm/kwsrdXXXXXX";
      const int fd = mkstemp(name);
      if (fd < 0) _Exit(77);
      if (write(fd, text.data(), text.size()) != (ssize_t)text.size()) _Exit(77);
      close(fd);
      const bool r = rd.Read(std::string(name), &ev);
      unlink(name);
      return r;
    }
    std::istringstream is(text);
    return rd.Read(&is, &ev);
  };
  if (!first.empty()) once(first);
  err.str("");
  const bool ok = once(data);
  std::cerr.rdbuf(was);
  o.i(ok); o.s(err.str());
  if (ok) { o.u(ev.size()); for (const auto &e : ev) PutE(o, e); }
}

template <class E> static void Plain(In &q, Out &o) {
  reader::PlainTextReader<E> rd;
  Read(q, o, rd, std::vector<E>(2));
}

// Streams an object, alone and with text behind it.
template <class E, class P> static void RoundTrip(In &q, Out &o, const E &e, P put) {
  const std::string suffix = q.s();
  std::ostringstream os;
  os << e;
  o.s(os.str());
  std::istringstream is(os.str() + suffix);
  E b(e), fresh;
  is >> fresh;
  o.i(!is.fail());
  put(fresh);
  std::string rest;
  if (!is.eof()) { is.clear(); std::getline(is, rest, '\0'); }
  o.s(rest);
  // again, over an object with other contents
  std::istringstream is2(os.str());
  is2 >> b;
  o.i(!is2.fail()); put(b);
  o.i(b == fresh);
}

int main() {
  return Serve([](In &q, Out &o) {
    const std::string c = q.tok(), k = q.s();
    if (c == "read") {
      if (k == "shaped32") Plain<Shaped<int32_t>>(q, o);
      else if (k == "shaped64") Plain<Shaped<int64_t>>(q, o);
      else if (k == "scored64") Plain<ScoredEvent<Shaped<int64_t>>>(q, o);
      else if (k == "scored32") Plain<ScoredEvent<Shaped<int32_t>>>(q, o);
      else if (k == "es") Plain<ES>(q, o);
      else if (k == "scoredes") Plain<ScoredEvent<ES>>(q, o);
      else if (k == "mapped") {
        typedef mapper::StringEventToIntMapper<int32_t> Mp;
        Mp m;
        reader::PlainTextMapEventReader<Mp> rd(&m);
        Read(q, o, rd, std::vector<EI>(1));
      } else if (k == "mappedscored") {
        typedef mapper::StringEventToIntMapper<int32_t> Mp;
        typedef mapper::ScoredEventMapper<Mp> Sp;
        Mp m; Sp s(&m);
        reader::PlainTextMapEventReader<Sp> rd(s);
        Read(q, o, rd, std::vector<ScoredEvent<EI>>(1));
      }
    } else if (c == "missing") {       // a path that cannot be read
      reader::PlainTextReader<ES> rd;
      std::vector<ES> ev(3);
      std::ostringstream err;
      std::streambuf *was = std::cerr.rdbuf(err.rdbuf());
      const bool ok = rd.Read(k, &ev);
      std::cerr.rdbuf(was);
      o.i(ok);
    } else if (c == "rt") {
      if (k == "box64") { auto e = GetBox<int64_t>(q); RoundTrip(q, o, e, [&](const BoundingBox<int64_t> &x) { Put<int64_t>(o, x); }); }
      else if (k == "box32") { auto e = GetBox<int32_t>(q); RoundTrip(q, o, e, [&](const BoundingBox<int32_t> &x) { Put<int32_t>(o, x); }); }
      else if (k == "boxf") { auto e = GetBox<double>(q); RoundTrip(q, o, e, [&](const BoundingBox<double> &x) { Put<double>(o, x); }); }
      else if (k == "doc") { auto e = GetDocBox<int64_t>(q); RoundTrip(q, o, e, [&](const DocumentBoundingBox<int64_t> &x) { Put<int64_t>(o, x); }); }
      else if (k == "shaped") { auto e = GetShaped<int64_t>(q); RoundTrip(q, o, e, [&](const Shaped<int64_t> &x) { PutE(o, x); }); }
      else if (k == "scored") { auto e = GetScored<int64_t>(q); RoundTrip(q, o, e, [&](const ScoredEvent<Shaped<int64_t>> &x) { PutE(o, x); }); }
      else if (k == "es") { std::string a = q.s(), b = q.s(); ES e(a, b); RoundTrip(q, o, e, [&](const ES &x) { PutE(o, x); }); }
      else if (k == "scoredes") { std::string a = q.s(), b = q.s(); ScoredEvent<ES> e(a, b, q.f()); RoundTrip(q, o, e, [&](const ScoredEvent<ES> &x) { PutE(o, x); }); }
      else if (k == "ei") { int32_t a = q.i(), b = q.i(); EI e(a, b); RoundTrip(q, o, e, [&](const EI &x) { PutE(o, x); }); }
    } else if (c == "text") {          // has: 0 hit, 1 only the hypothesis, 2 only the reference
      const long has = q.i(); const float fp = q.f(), fn = q.f(), s = q.f();
      const MatchError e(fp, fn);
      if (k == "shaped") { const auto r = GetShaped<int64_t>(q), h = GetShaped<int64_t>(q); Text(o, r, ScoredEvent<Shaped<int64_t>>(h, s), has, e); }
      else if (k == "es") { std::string a = q.s(), b = q.s(), x = q.s(), y = q.s(); Text(o, ES(a, b), ScoredEvent<ES>(ES(x, y), s), has, e); }
      else { int32_t a = q.i(), b = q.i(), x = q.i(), y = q.i(); Text(o, EI(a, b), ScoredEvent<EI>(EI(x, y), s), has, e); }
    } else if (c == "seq") {           // many events on one stream, one after another
      std::vector<Shaped<int64_t>> v;
      for (long n = q.i(); n > 0; --n) v.push_back(GetShaped<int64_t>(q));
      std::stringstream ss;
      for (const auto &e : v) ss << e << (k == "nl" ? "\n" : " ");
      std::vector<Shaped<int64_t>> w;
      for (Shaped<int64_t> e; ss >> e;) w.push_back(e);
      o.i(v == w); o.u(w.size());
    }
  });
}
