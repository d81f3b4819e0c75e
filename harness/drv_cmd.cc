// Command-line parser.
#include "kws.h"
#include "cmd/Parser.h"
#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>

struct Var {
  std::string type;
  bool b; int8_t i8; uint8_t u8; int16_t i16; uint16_t u16; int32_t i32; uint32_t u32; int64_t i64; uint64_t u64;
  float f; double d; std::string s;
};

template <class F> static void With(Var &v, F f) {
  if (v.type == "bool") f(&v.b);
  else if (v.type == "int8") f(&v.i8);
  else if (v.type == "uint8") f(&v.u8);
  else if (v.type == "int16") f(&v.i16);
  else if (v.type == "uint16") f(&v.u16);
  else if (v.type == "int32") f(&v.i32);
  else if (v.type == "uint32") f(&v.u32);
  else if (v.type == "int64") f(&v.i64);
  else if (v.type == "uint64") f(&v.u64);
  else if (v.type == "float") f(&v.f);
  else if (v.type == "double") f(&v.d);
  else f(&v.s);
}
static void Set(Var &v, In &q) {
  const std::string t = q.s();
  if (v.type == "bool") v.b = t == "1";
  else if (v.type == "string") v.s = t;
  else if (v.type == "float") v.f = strtof(t.c_str(), nullptr);
  else if (v.type == "double") v.d = strtod(t.c_str(), nullptr);
  else if (v.type == "uint64") v.u64 = strtoull(t.c_str(), nullptr, 10);
  else {
    const long long x = strtoll(t.c_str(), nullptr, 10);
    v.i8 = x; v.u8 = x; v.i16 = x; v.u16 = x; v.i32 = x; v.u32 = x; v.i64 = x;
  }
}
struct PutVar {
  Out &o;
  void operator()(bool *p) { o.i(*p); }
  void operator()(std::string *p) { o.s(*p); }
  void operator()(float *p) { o.d(*p); }
  void operator()(double *p) { o.d(*p); }
  void operator()(uint64_t *p) { o.u(*p); }
  template <class T> void operator()(T *p) { o.i(*p); }
};
struct RegOpt {
  cmd::Parser &p; const std::string &n, &h; bool r;
  template <class T> void operator()(T *v) { r = p.RegisterOption(n, h, v); }
};
struct RegArg {
  cmd::Parser &p; const std::string &n, &h; bool opt;
  template <class T> void operator()(T *v) { if (opt) p.RegisterOptArgument(n, h, v); else p.RegisterArgument(n, h, v); }
};

int main() {
  return Serve([](In &q, Out &o) {
    const std::string c = q.tok();
    const std::string prog = q.s(), desc = q.s();
    std::list<Var> vars;
    std::unique_ptr<cmd::Parser> parser(desc.empty() ? new cmd::Parser(prog) : new cmd::Parser(prog, desc));
    for (int kind = 0; kind < 3; ++kind)
      for (long n = q.i(); n > 0; --n) {
        vars.emplace_back();
        Var &v = vars.back();
        v.type = q.s();
        const std::string name = q.s(), help = q.s();
        Set(v, q);
        if (kind == 0) { RegOpt f{*parser, name, help, false}; With(v, std::ref(f)); o.i(f.r); }
        else { RegArg f{*parser, name, help, kind == 2}; With(v, f); }
      }
    std::vector<std::string> words(1, prog);
    for (long n = q.i(); n > 0; --n) words.push_back(q.s());
    std::vector<const char *> argv;
    for (const auto &w : words) argv.push_back(w.c_str());
    argv.push_back(nullptr);
    const int argc = (int)words.size();
    if (c == "parse") {
      std::ostringstream err;
      std::streambuf *was = std::cerr.rdbuf(err.rdbuf());
      const bool ok = parser->Parse(argc, argv.data());
      std::cerr.rdbuf(was);
      o.i(ok); o.i(!err.str().empty());
      for (auto &v : vars) With(v, PutVar{o});
      // further command lines for the same parser
      for (long n = q.i(); n > 0; --n) {
        std::vector<std::string> w2(1, prog);
        for (long m = q.i(); m > 0; --m) w2.push_back(q.s());
        std::vector<const char *> a2;
        for (const auto &w : w2) a2.push_back(w.c_str());
        a2.push_back(nullptr);
        std::streambuf *was = std::cerr.rdbuf(err.rdbuf());
        const bool ok = parser->Parse((int)w2.size(), a2.data());
        std::cerr.rdbuf(was);
        o.i(ok);
        for (auto &v : vars) With(v, PutVar{o});
      }
    } else if (c == "help") { o.s(parser->Help());
    } else {                       // --help ends the process: fork
      int p[2];
      if (pipe(p)) _Exit(77);
      fflush(stdout);
      const pid_t pid = fork();
      if (pid == 0) {
        dup2(p[1], 2);
        const int null = open("/dev/null", O_WRONLY);
        dup2(p[1], 1); (void)null;
        close(p[0]);
        const bool ok = parser->Parse(argc, argv.data());
        _exit(ok ? 70 : 71);
      }
      close(p[1]);
      std::string txt; char buf[4096]; ssize_t n;
      while ((n = read(p[0], buf, sizeof buf)) > 0) txt.append(buf, n);
      close(p[0]);
      int st = 0; waitpid(pid, &st, 0);
      o.i(WIFEXITED(st) ? WEXITSTATUS(st) : -1); o.s(txt);
    }
  });
}
