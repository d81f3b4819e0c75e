// The repository's headers, in the order the tools need them, plus helpers.
#ifndef HARNESS_KWS_H_
#define HARNESS_KWS_H_
#include <algorithm>
#include <cassert>
#include <cfloat>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <vector>
#include "core/DocumentBoundingBox.h"
#include "core/DocumentBoundingBoxEventSet.h"
#include "core/EventSet.h"
#include "core/Match.h"
#include "core/ScoredEvent.h"
#include "core/ShapedEvent.h"
#include "core/Assessment.h"
#include "core/Bootstrapping.h"
#include "core/Statistic.h"
#include "mapper/IdentityMapper.h"
#include "mapper/ScoredEventMapper.h"
#include "mapper/StringEventToIntMapper.h"
#include "mapper/StringToIntMapper.h"
#include "matcher/SimpleMatcher.h"
#include "reader/PlainTextMapEventReader.h"
#include "reader/PlainTextReader.h"
#include "scorer/IntersectionOverHypothesisAreaScorer.h"
#include "scorer/IntersectionOverUnionAreaScorer.h"
#include "scorer/SoftBoundingBoxScorer.h"
#include "scorer/TrivialScorer.h"
#include "proto.h"

using namespace kws;
using core::BoundingBox;
using core::DocumentBoundingBox;
using core::Event;
using core::MatchError;
using core::MatchErrorCounts;
using core::ScoredEvent;
using core::ShapedEvent;

// Numbers of any type: integers in decimal, floating ones exactly.
template <class T> struct Num;
template <> struct Num<int32_t> {
  static int32_t get(In &q) { return (int32_t)q.i(); }
  static void put(Out &o, int32_t v) { o.i(v); }
};
template <> struct Num<int64_t> {
  static int64_t get(In &q) { return q.i(); }
  static void put(Out &o, int64_t v) { o.i(v); }
};
template <> struct Num<double> {
  static double get(In &q) { return q.d(); }
  static void put(Out &o, double v) { o.d(v); }
};
template <> struct Num<float> {
  static float get(In &q) { return q.f(); }
  static void put(Out &o, float v) { o.d(v); }
};

template <class T> BoundingBox<T> GetBox(In &q) {
  T x = Num<T>::get(q), y = Num<T>::get(q), w = Num<T>::get(q), h = Num<T>::get(q);
  return BoundingBox<T>(x, y, w, h);
}
template <class T> DocumentBoundingBox<T> GetDocBox(In &q) {
  std::string d = q.s();
  T x = Num<T>::get(q), y = Num<T>::get(q), w = Num<T>::get(q), h = Num<T>::get(q);
  return DocumentBoundingBox<T>(d, x, y, w, h);
}
template <class T> using Shaped = ShapedEvent<std::string, DocumentBoundingBox<T>>;
template <class T> Shaped<T> GetShaped(In &q) {
  std::string s = q.s();
  return Shaped<T>(s, GetDocBox<T>(q));
}
template <class T> ScoredEvent<Shaped<T>> GetScored(In &q) {
  Shaped<T> e = GetShaped<T>(q);
  return ScoredEvent<Shaped<T>>(e, q.f());
}
template <class T> void Put(Out &o, const BoundingBox<T> &b) {
  Num<T>::put(o, b.x); Num<T>::put(o, b.y); Num<T>::put(o, b.w); Num<T>::put(o, b.h);
}
template <class T> void Put(Out &o, const DocumentBoundingBox<T> &b) {
  o.s(b.document);
  Put(o, static_cast<const BoundingBox<T> &>(b));
}
template <class T> void Put(Out &o, const Shaped<T> &e) { o.s(e.Query()); Put(o, e.Location()); }
template <class T> void Put(Out &o, const ScoredEvent<Shaped<T>> &e) {
  o.s(e.Query()); Put(o, e.Location()); o.d(e.Score());
}
#endif
