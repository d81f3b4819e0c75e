// Line protocol between the Python checks and the C++ drivers: a request is
// one line of blank-separated tokens, a response is one line.
#ifndef PROTO_H_
#define PROTO_H_
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>

struct In {
  std::vector<std::string> t;
  size_t p = 0;
  explicit In(const std::string &line) {
    size_t i = 0;
    while (i < line.size()) {
      size_t j = line.find(' ', i);
      if (j == std::string::npos) j = line.size();
      if (j > i) t.push_back(line.substr(i, j - i));
      i = j + 1;
    }
  }
  const std::string &tok() {
    if (p >= t.size()) { fprintf(stderr, "PROTO: short request\n"); _Exit(77); }
    return t[p++];
  }
  bool more() const { return p < t.size(); }
  long long i() { return strtoll(tok().c_str(), nullptr, 10); }
  unsigned long long u() { return strtoull(tok().c_str(), nullptr, 10); }
  bool b() { return i() != 0; }
  double d() { return strtod(tok().c_str(), nullptr); }
  float f() { return strtof(tok().c_str(), nullptr); }
  std::string s() {  // x<hex bytes>
    const std::string &h = tok();
    std::string r;
    auto v = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
    for (size_t k = 1; k + 1 < h.size(); k += 2) r.push_back((char)(v(h[k]) * 16 + v(h[k + 1])));
    return r;
  }
};

struct Out {
  std::string r;
  Out &raw(const std::string &s) { if (!r.empty()) r += ' '; r += s; return *this; }
  Out &i(long long v) { return raw(std::to_string(v)); }
  Out &u(unsigned long long v) { return raw(std::to_string(v)); }
  Out &d(double v) { char b[64]; snprintf(b, sizeof b, "%a", v); return raw(b); }
  Out &s(const std::string &x) {
    static const char *h = "0123456789abcdef";
    std::string o = "x";
    for (unsigned char c : x) { o += h[c >> 4]; o += h[c & 15]; }
    return raw(o);
  }
};

// Serves requests until the end of stdin.  The response goes to a private
// copy of stdout, so that whatever the code under test prints cannot mix in.
template <class F>
int Serve(F handle) {
  std::string line;
  FILE *in = stdin, *out = stdout;
  char *buf = nullptr; size_t cap = 0; ssize_t n;
  while ((n = getline(&buf, &cap, in)) > 0) {
    if (buf[n - 1] == '\n') --n;
    Out o;
    { In req(std::string(buf, n)); handle(req, o); }
    fwrite(o.r.data(), 1, o.r.size(), out); fputc('\n', out); fflush(out);
  }
  free(buf);
  return 0;
}
#endif
