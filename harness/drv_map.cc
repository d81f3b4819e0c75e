// String mappers: histories over a pool of mappers sharing tables.
#include "kws.h"

#ifdef PORTABLE
template <class V> using Ordered = std::unordered_map<std::string, V>;
#else
template <class V> using Ordered = std::map<std::string, V>;
#endif

template <class Int, class Impl> static void History(In &q, Out &o) {
  typedef mapper::StringToIntMapper<Int, Impl> M;
  std::vector<std::unique_ptr<M>> pool;
  std::vector<std::unique_ptr<Impl>> impls;
  pool.emplace_back(new M());
  auto put = [&](Int v) { if (std::is_signed<Int>::value) o.i((long long)v); else o.u((unsigned long long)v); };
  auto map = [&](M &m, const std::string &s) {
    try { const Int v = m(s); o.raw("v"); put(v); }
    catch (const std::range_error &) { o.raw("range"); }
  };
  while (q.more()) {
    const std::string op = q.s();
    if (op == "new") pool.emplace_back(new M());
    else if (op == "copy") { const size_t k = q.u() % pool.size(); pool.emplace_back(new M(*pool[k])); }
    else if (op == "impl") {      // two mappers around one table of the caller
      impls.emplace_back(new Impl());
      pool.emplace_back(new M(impls.back().get()));
      pool.emplace_back(new M(impls.back().get(), false));
    } else if (op == "assign") { const size_t k = q.u() % pool.size(), j = q.u() % pool.size(); *pool[k] = *pool[j]; }
    else if (op == "own") pool.emplace_back(new M(new Impl(), true));
    else if (op == "map") { const size_t k = q.u() % pool.size(); map(*pool[k], q.s()); }
    else if (op == "bulk") {      // n fresh names with a prefix
      const size_t k = q.u() % pool.size(); const std::string p = q.s();
      for (long i = 0, n = q.i(); i < n; ++i) map(*pool[k], p + std::to_string(i));
    }
  }
}

// Event mappers (their table type is fixed).
template <class Int> static void Events(In &q, Out &o) {
  typedef mapper::StringToIntMapper<Int> M;
  typedef mapper::StringEventToIntMapper<Int> EM;
  typedef mapper::ScoredEventMapper<EM> SM;
  typedef Event<std::string, std::string> E;
  M strings;
  std::unique_ptr<M> other(new M());
  EM own;
  std::vector<std::unique_ptr<EM>> pool;
  pool.emplace_back(new EM(&strings));                 // 0: shared with the strings
  pool.emplace_back(new EM(*pool[0]));                 // 1: copy
  pool.emplace_back(new EM());                         // 2: table of its own
  pool.emplace_back(new EM(*pool[2]));                 // 3: copy of that
  pool.emplace_back(new EM(pool[2]->GetMapper()));     // 4: through the accessor
  pool.emplace_back(new EM(new M(), true));            // 5: owner
  while (q.more()) {
    const std::string op = q.s();
    const size_t k = q.u() % pool.size();
    if (op == "str") o.i((*pool[k]->GetMapper())(q.s()));
    else if (op == "raw") o.i(strings(q.s()));         // table of 0 and 1
    else {
      const std::string a = q.s(), b = q.s();
      const E e(a, b);
      if (op == "ev") { const auto r = (*pool[k])(e); o.i(r.Query()); o.i(r.Location()); }
      else {
        const float s = q.f();
        SM sm(pool[k].get());
        const auto r = sm(ScoredEvent<E>(e, s));
        o.i(r.Query()); o.i(r.Location()); o.d(r.Score());
      }
    }
  }
}

int main() {
  return Serve([](In &q, Out &o) {
    const std::string c = q.tok(), t = q.s();
    if (c == "events") { if (t == "i32") Events<int32_t>(q, o); else Events<int64_t>(q, o); return; }
    typedef std::string S;
    if (t == "i8") History<int8_t, std::unordered_map<S, int8_t>>(q, o);
    else if (t == "u8") History<uint8_t, std::unordered_map<S, uint8_t>>(q, o);
    else if (t == "i8map") History<int8_t, Ordered<int8_t>>(q, o);
    else if (t == "i16") History<int16_t, std::unordered_map<S, int16_t>>(q, o);
    else if (t == "u16") History<uint16_t, std::unordered_map<S, uint16_t>>(q, o);
    else if (t == "i32") History<int32_t, std::unordered_map<S, int32_t>>(q, o);
    else if (t == "i32map") History<int32_t, Ordered<int32_t>>(q, o);
    else if (t == "u32") History<uint32_t, std::unordered_map<S, uint32_t>>(q, o);
    else if (t == "i64") History<int64_t, std::unordered_map<S, int64_t>>(q, o);
    else History<uint64_t, std::unordered_map<S, uint64_t>>(q, o);
  });
}
