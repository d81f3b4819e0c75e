// Coverage-guided: words separated by newlines through a parser with options
// of every type; an accepted line is explained by its words, and parsing the
// canonical spelling of the result gives the same result.
#include "kws.h"
#include "cmd/Parser.h"

#include "need.h"

struct Vars {
  bool b = false, b2 = true; int16_t i16 = 1; uint16_t u16 = 2; int32_t i32 = 3; uint32_t u32 = 4; int64_t i64 = 5; uint64_t u64 = 6;
  float f = 0.5; double d = 0.25; std::string s = "dflt", ref, hyp; int32_t num = 7;
};

static bool Run(const std::vector<std::string> &words, Vars *v) {
  cmd::Parser p("prog", "text");
  p.RegisterOption("b", "x", &v->b);
  p.RegisterOption("b2", "x", &v->b2);
  p.RegisterOption("i16", "x", &v->i16);
  p.RegisterOption("u16", "x", &v->u16);
  p.RegisterOption("i32", "x", &v->i32);
  p.RegisterOption("u32", "x", &v->u32);
  p.RegisterOption("i64", "x", &v->i64);
  p.RegisterOption("u64", "x", &v->u64);
  p.RegisterOption("f", "x", &v->f);
  p.RegisterOption("d", "x", &v->d);
  p.RegisterOption("s", "x", &v->s);
  p.RegisterArgument("ref", "x", &v->ref);
  p.RegisterOptArgument("hyp", "x", &v->hyp);
  p.RegisterOptArgument("num", "x", &v->num);
  std::vector<const char *> argv(1, "prog");
  for (const auto &w : words) argv.push_back(w.c_str());
  return p.Parse(argv.size(), argv.data());
}
template <class T> static bool Said(const std::vector<std::string> &ws, T v, T dflt) {
  if (v == dflt) return true;
  for (const auto &w : ws) {
    std::string t = w;
    size_t k = !t.empty() && (t[0] == '-' || t[0] == '+');
    if (t.size() == k || t.find_first_not_of("0123456789", k) != std::string::npos) continue;
    while (k + 1 < t.size() && t[k] == '0') t.erase(k, 1);
    if (t[0] == '+') t.erase(0, 1);
    if (t == "-0") t = "0";
    if (t == std::to_string(v)) return true;
  }
  return false;
}
static bool SaidF(const std::vector<std::string> &ws, double v, double dflt, bool single) {
  if (v == dflt) return true;
  for (const auto &w : ws) {
    if (w.empty() || w.find_first_not_of("0123456789+-.eE") != std::string::npos) continue;
    char *e;
    const double x = single ? (double)strtof(w.c_str(), &e) : strtod(w.c_str(), &e);
    if (!*e && x == v) return true;
  }
  return false;
}
static bool SaidS(const std::vector<std::string> &ws, const std::string &v, const std::string &dflt) {
  return v == dflt || std::find(ws.begin(), ws.end(), v) != ws.end();
}
static std::string F(double x) { char b[64]; snprintf(b, sizeof(b), "%.17g", x); return b; }

extern "C" int LLVMFuzzerInitialize(int *, char ***) {
  std::cerr.setstate(std::ios_base::badbit);
  return 0;
}

extern "C" int LLVMFuzzerTestOneInput(const uint8_t *data, size_t n) {
  std::vector<std::string> ws(1);
  for (size_t i = 0; i < n; ++i) {
    if (!data[i]) return 0;
    if (data[i] == '\n') ws.emplace_back(); else ws.back() += (char)data[i];
  }
  if (std::find(ws.begin(), ws.end(), "--help") != ws.end()) return 0;
  Vars v;
  if (!Run(ws, &v)) {
    Vars u;
    NEED("C13", !Run(ws, &u), "rejected, then accepted");
    return 0;
  }
  NEED("C13", Said<int>(ws, v.i16, 1) && Said<int>(ws, v.u16, 2) && Said(ws, v.i32, (int32_t)3) && Said(ws, v.u32, (uint32_t)4) &&
       Said(ws, v.i64, (int64_t)5) && Said(ws, v.u64, (uint64_t)6) && Said(ws, v.num, (int32_t)7), "an integer that no word gives");
  NEED("C13", SaidF(ws, v.f, .5, true) && SaidF(ws, v.d, .25, false), "a number that no word gives");
  NEED("C13", SaidS(ws, v.s, "dflt") && SaidS(ws, v.ref, "?") && SaidS(ws, v.hyp, ""), "a string that no word gives");
  std::vector<std::string> c = {"--b", v.b ? "true" : "false", "--b2", v.b2 ? "1" : "0", "--i16", std::to_string(v.i16), "--u16",
                                std::to_string(v.u16), "--i32", std::to_string(v.i32), "--u32", std::to_string(v.u32), "--i64",
                                std::to_string(v.i64), "--u64", std::to_string(v.u64), "--f", F(v.f), "--d", F(v.d), "--s", v.s,
                                "--", v.ref, v.hyp, std::to_string(v.num)};
  Vars u;
  NEED("C13", Run(c, &u), "the canonical spelling is rejected");
  NEED("C13", u.b == v.b && u.b2 == v.b2 && u.i16 == v.i16 && u.u16 == v.u16 && u.i32 == v.i32 && u.u32 == v.u32 && u.i64 == v.i64 &&
       u.u64 == v.u64 && u.f == v.f && u.d == v.d && u.s == v.s && u.ref == v.ref && u.hyp == v.hyp && u.num == v.num,
       "the canonical spelling gives other values");
  return 0;
}
