// NEED("C12", condition, format...): the condition belongs to property C12 and
// is checked when the campaign is C12's (environment KWS_PROPERTY) or nobody's.
#ifndef HARNESS_NEED_H_
#define HARNESS_NEED_H_
#include <cstdio>
#include <cstdlib>
#include <cstring>
static inline bool Mine(const char *p) {
  static const char *const want = getenv("KWS_PROPERTY");
  return !want || !*want || !strcmp(want, p);
}
#define NEED(p, c, ...) do { if (Mine(p) && !(c)) { fprintf(stderr, "PROPERTY: " __VA_ARGS__); fprintf(stderr, "\n"); abort(); } } while (0)
#endif
