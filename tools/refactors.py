#!/usr/bin/env python3
"""refactors.py [ID...] [-k C01,C02]: edits of /repo that keep its behaviour, applied one by one to a
scratch clone on which every check has to stay quiet (and the stable tests to pass)."""
import os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A, B, G, SM = "core/Assessment.h", "core/Bootstrapping.h", "tools/GenericKwsEvalTool.h", "matcher/SimpleMatcher.h"
ES, RD, PA, SI, MA = ("core/DocumentBoundingBoxEventSet.h", "reader/PlainTextMapEventReader.h", "cmd/Parser.h",
                      "mapper/StringToIntMapper.h", "core/Match.h")
R = {}

R["ap-by-differences"] = [(A, '''  Real AP1 = 0.0;
  for (size_t i = 0; i < pr.size(); ++i) {
    AP1 += rc[i] * (trapezoid && i > 0 ? 0.5 * (pr[i] + pr[i - 1]) : pr[i]);
  }
  Real AP2 = 0.0;
  for (size_t i = 1; i < pr.size(); ++i) {
    AP2 += rc[i - 1] * (trapezoid ? 0.5 * (pr[i] + pr[i - 1]) : pr[i]);
  }
  return AP1 - AP2;
''', '''  Real area = 0.0, last_rc = 0.0;
  for (size_t i = 0; i < pr.size(); ++i) {
    const Real height =
        trapezoid && i > 0 ? (pr[i] + pr[i - 1]) / 2 : pr[i];
    area += (rc[i] - last_rc) * height;
    last_rc = rc[i];
  }
  return area;
'''), (A, '''      if (it->NH() > 0) {
        const Real r = 1 - static_cast<Real>(it->FP()) / it->NH();
        for (size_t j = 0; j < it->NH(); ++j, ++i) {
          dcg += (exp2(r) - 1) / log2(i + 1);
        }
      }
    }
    // Compute normalization factor
    Real z = 0;
    for (size_t j = 1; j <= TR; ++j) {
      z += 1 / log2(j + 1);
    }
    return dcg / z;''', '''      const size_t last = i + it->NH();
      if (i == last) continue;
      const Real gain = std::exp2(1 - static_cast<Real>(it->FP()) / it->NH()) - 1;
      Real discount = 0;
      while (i < last) discount += 1 / std::log2(static_cast<Real>(++i));
      dcg += gain * discount;
    }
    // Compute normalization factor, smallest terms first
    Real z = 0;
    for (size_t j = TR; j > 0; --j) {
      z += 1 / std::log2(static_cast<Real>(j + 1));
    }
    return dcg / z;''')]

R["assessment-helpers"] = [(A, '''  std::vector<std::pair<MatchErrorCounts, float>> collapsed_matches;
  for (const auto &m : matches) {
    const float score = m.HasHyp()
                        ? m.GetHyp().Score()                         // score of the hypothesis
                        : -std::numeric_limits<float>::infinity();  // false negative

    if (collapsed_matches.size() == 0 ||
        score != collapsed_matches.back().second) {
      // hypothesis with new score, add a new pair to the collapsed vector
      collapsed_matches.emplace_back(
          std::make_pair(MatchErrorCounts(m.GetError()), score));
    } else {
      // hypothesis with a repeated score, increment the tp, fp and fn rate.
      collapsed_matches.back().first += m.GetError();
    }
  }
  std::vector<MatchErrorCounts> output;
  for (const auto &cm : collapsed_matches) {
    output.push_back(cm.first);
  }
  return output;''', '''  const auto score_of = [](const typename Container::value_type &m) -> float {
    if (!m.HasHyp()) return -std::numeric_limits<float>::infinity();
    return m.GetHyp().Score();
  };
  std::vector<MatchErrorCounts> output;
  auto it = matches.begin();
  while (it != matches.end()) {
    const float score = score_of(*it);
    MatchErrorCounts run(it->GetError());
    for (++it; it != matches.end() && score_of(*it) == score; ++it) {
      run += it->GetError();
    }
    output.push_back(run);
  }
  return output;'''), (A, '''  // Put matches per query into a single vector.
  std::vector<Match> all_matches;
  for (const auto &matches_vector : matches_by_query) {
    for (const auto &match : matches_vector) {
      all_matches.push_back(match);
    }
  }
  if (sort_matches) { SortMatchesDecreasingScore(&all_matches); }
  // Compute precision and recall curves from the matches
  std::vector<double> pr, rc;
  ComputePrecisionAndRecall(
      all_matches, collapse_matches, interpolate_precision, &pr, &rc);
  return ComputeAP(pr, rc, trapezoid_integral);''', '''  std::vector<Match> all_matches;
  for (size_t q = 0; q != matches_by_query.size(); ++q) {
    all_matches.insert(all_matches.end(), matches_by_query[q].begin(),
                       matches_by_query[q].end());
  }
  if (sort_matches) SortMatchesDecreasingScore(&all_matches);
  return ComputeGlobalAP(all_matches, collapse_matches, interpolate_precision,
                         trapezoid_integral);'''), (A, '''  std::sort(matches->begin(), matches->end(),
            [](const Match &a, const Match &b) -> bool {
              if (a.HasHyp() && b.HasHyp()) {
                return a.GetHyp().Score() > b.GetHyp().Score();
              } else {
                return a.HasHyp();
              }
            });''', '''  std::stable_sort(matches->begin(), matches->end(),
            [](const Match &a, const Match &b) -> bool {
              if (!a.HasHyp()) return false;
              return !b.HasHyp() || a.GetHyp().Score() > b.GetHyp().Score();
            });'''), (A, '''    auto it = query_to_group.find(query);
    const auto &group = it != query_to_group.end() ? it->second : query;
    const size_t pos = group2pos.emplace(group, group2pos.size()).first->second;
    if (pos < matches_by_group->size()) {
      (*matches_by_group)[pos].push_back(m);
    } else {
      matches_by_group->emplace_back();
      matches_by_group->back().push_back(m);
    }''', '''    auto found = query_to_group.find(query);
    QType group = query;
    if (found != query_to_group.end()) group = found->second;
    if (group2pos.count(group) == 0) {
      const SType next = group2pos.size();
      group2pos[group] = next;
      matches_by_group->push_back(std::vector<M>());
    }
    matches_by_group->at(group2pos.at(group)).push_back(m);'''),
    (A, '''    fs << std::scientific << x[i] << " " << y[i] << std::endl;''',
     '''    fs << std::scientific << x[i];
    fs << ' ' << y[i] << '\\n';''')]

R["curve-rewritten"] = [(A, '''    for (; j < src_x.size() && src_x[j] < dst_x[i]; ++j) {}
    if (j == src_x.size()) {
      dst_y->push_back(0);
    } else if (!linear_interpolation || j == 0) {
      dst_y->push_back(src_y[j]);
    } else {
      const Real w0 = src_x[j] - dst_x[i];
      const Real w1 = dst_x[i] - src_x[j - 1];
      const Real t = w0 / (w0 + w1);
      dst_y->push_back(t * src_y[j - 1] + (1 - t) * src_y[j]);
    }
  }''', '''    const Real x = dst_x[i];
    j = static_cast<size_t>(
        std::lower_bound(src_x.begin() + j, src_x.end(), x) - src_x.begin());
    Real y = 0;
    if (j < src_x.size()) {
      y = src_y[j];
      if (linear_interpolation && j > 0) {
        const Real x0 = src_x[j - 1], y0 = src_y[j - 1];
        y = y0 + (src_y[j] - y0) * ((x - x0) / (src_x[j] - x0));
      }
    }
    dst_y->push_back(y);
  }'''), (A, '''    for (size_t i = errors.size() - 1; i > 0; --i) {
      pr->at(i - 1) = std::max(pr->at(i - 1), pr->at(i));
    }''', '''    Real best = pr->back();
    for (auto it = pr->rbegin(); it != pr->rend(); ++it) {
      if (*it > best) best = *it;
      *it = best;
    }'''), (A, '''    const Real p = sumNH > 0 ? 1.0 - sumFP / sumNH : 1.0;''',
             '''    const Real p = sumNH > 0 ? (sumNH - sumFP) / sumNH : 1.0;'''),
    (A, '''      x->push_back(static_cast<Real>(k) / (num_points - 1));''',
     '''      const Real last = static_cast<Real>(num_points - 1);
      x->push_back(k / last);''')]

R["matcher-rewritten"] = [(SM, '''    std::set<RE> unmatched_refs(refs.begin(), refs.end());''',
  '''    std::set<RE> unmatched_refs(refs.begin(), refs.end());
    std::set<RE> taken_refs;'''), (SM, '''      bool matched_hyp = false;
      for (const RE &ref : overlapping_refs) {
        // Score the match
        const auto errors = scorer_->operator()(ref, hyp);
        if (errors.FP() < 1.0f) {''', '''      bool matched_hyp = false;
      for (auto it = overlapping_refs.cbegin();
           it != overlapping_refs.cend(); ++it) {
        const RE ref = *it;
        // Score the match
        const MatchError errors((*scorer_)(ref, hyp));
        if (!(errors.FP() < 1.0f)) continue;
        {'''), (SM, '''          if (unmatched_refs.find(ref) != unmatched_refs.end()) {
            unmatched_refs.erase(ref);
            result.push_back(m);''', '''          if (taken_refs.insert(ref).second) {
            unmatched_refs.erase(ref);
            result.emplace_back(m);'''),
    (ES, '''    std::vector<std::pair<typename LType::Type, EventType>> aux;
    auto p = documents_by_query_.find(event.Query());
    if (p != documents_by_query_.end()) {
      auto l = p->second.find(event.Location().document);
      if (l != p->second.end()) {
        for (auto it = l->second.begin(); it != l->second.end(); ++it) {
          const auto intersection_area =
              it->Location().IntersectionArea(event.Location());
          if (intersection_area > 0) {
            aux.push_back(std::make_pair(intersection_area, *it));
          }
        }
      }
    }
    // Sort the events by decreasing intersection area.
    std::sort(aux.begin(), aux.end(),
              std::greater<std::pair<typename LType::Type, EventType>>());
    EventList result;
    for (const auto& a : aux) { result.push_back(a.second); }
    return result;''', '''    EventList result;
    const auto p = documents_by_query_.find(event.Query());
    if (p == documents_by_query_.end()) return result;
    const auto l = p->second.find(event.Location().document);
    if (l == p->second.end()) return result;
    std::set<std::pair<typename LType::Type, EventType>> by_area;
    for (const EventType &candidate : l->second) {
      const auto area = candidate.Location().IntersectionArea(event.Location());
      if (area > 0) by_area.emplace(area, candidate);
    }
    for (auto it = by_area.rbegin(); it != by_area.rend(); ++it) {
      result.push_back(it->second);
    }
    return result;'''), (ES, '''    if(l.insert(event).second) {
      ++size_;
    }''', '''    const size_t before = l.size();
    l.insert(event);
    size_ += l.size() - before;''')]

R["reader-rewritten"] = [(RD, '''    events->clear();
    std::string buff;
    for (size_t n = 1; std::getline(*is, buff); ++n) {
      std::istringstream iss(buff);
      // Skip whitespaces
      iss >> std::ws;
      if (iss.peek() == '#') continue;   // Comment line
      if (iss.eof()) continue;           // Empty line
      // Read event, and consume all whitespaces at the end of the line.
''', '''    std::vector<E2> &output = *events;
    output.clear();
    std::string buff;
    size_t n = 0;
    while (std::getline(*is, buff)) {
      ++n;
      const size_t start = buff.find_first_not_of(" \\t\\n\\v\\f\\r");
      if (start == std::string::npos || buff[start] == '#') continue;
      std::istringstream iss(buff.substr(start));
'''), (RD, '''      events->push_back((*mapper_)(event));''', '''      output.emplace_back((*mapper_)(event));'''),
    (SI, '''    const auto it = impl_->find(input);
    if (it != impl_->end()) {
      return it->second;
    } else {
      if (impl_->size() <= kMaxValue) {
        return impl_->emplace_hint(it, input, impl_->size())->second;
      } else {
        throw std::range_error(
            "Max value reached (" + std::to_string(kMaxValue) + ")");
      }
    }''', '''    const auto known = impl_->find(input);
    if (known != impl_->end()) return known->second;
    const size_t next = impl_->size();
    if (next > kMaxValue) {
      throw std::range_error(
          "Max value reached (" + std::to_string(kMaxValue) + ")");
    }
    return impl_->emplace(input, static_cast<Int>(next)).first->second;''')]

R["parser-rewritten"] = [(PA, '''      const std::string arg = argv[i];
      if (arg.length() < 2 || arg[0] != '-') break;
      ++i;   // Options have values, point to the next argument.
      if (arg == "--") { break; }   // Skip options section with "--".
      if (arg == "--help") { show_help = true; continue; }
      const std::string opt_name = arg.substr(2);
      auto opt_it = arg[1] == '-' ? opts_.find(opt_name) : opts_.end();
      if (opt_it == opts_.end()) {''', '''      const std::string arg(argv[i]);
      if (arg.size() <= 1 || arg.front() != '-') break;
      ++i;
      if (arg == "--") break;
      if (arg == "--help") {
        show_help = true;
        continue;
      }
      std::map<std::string, BaseOption*>::iterator opt_it = opts_.end();
      if (arg.compare(0, 2, "--") == 0) opt_it = opts_.find(arg.substr(2));
      if (opt_it == opts_.end()) {'''), (PA, '''    for (j = 0; i < argc && j < args_.size(); ++i, ++j) {
      if (!args_[j]->Parse(argv[i])) {''', '''    while (i < argc && j < args_.size()) {
      const bool parsed = args_[j]->Parse(argv[i]);
      if (parsed) {
        ++i;
        ++j;
      } else {'''),
    (MA, '''    if (this == &other) return *this;
    error_ = other.error_;
    ref_.reset(); hyp_.reset();
    if (other.HasRef()) SetRef(other.GetRef());
    if (other.HasHyp()) SetHyp(other.GetHyp());
    return *this;''', '''    Match copy(other);
    error_ = copy.error_;
    ref_.swap(copy.ref_);
    hyp_.swap(copy.hyp_);
    return *this;''')]

R["bootstrap-rewritten"] = [(B, '''  std::vector<double> statistics_diffs;
  for (size_t r = 0; r < repetitions; ++r) {
    // Build bootstrapped sample
    Container bootstrapped_sample;
    (*sampler)(original_samples, &bootstrapped_sample);
    // Compute the statistic for the bootstrapped sample
    const double sample_statistic = statistic(bootstrapped_sample);
    // Store the difference w.r.t. the observed statistic
    statistics_diffs.push_back(sample_statistic - observed_statistic);
  }
  std::sort(statistics_diffs.begin(), statistics_diffs.end());''', '''  std::vector<double> statistics_diffs(repetitions);
  Container bootstrapped_sample;
  for (double &diff : statistics_diffs) {
    (*sampler)(original_samples, &bootstrapped_sample);
    diff = statistic(bootstrapped_sample) - observed_statistic;
  }
  std::stable_sort(statistics_diffs.begin(), statistics_diffs.end());'''),
    (B, '''      const size_t q = qdist(rng_);
      const size_t num_matches_q = original[q].size();
      std::uniform_int_distribution <size_t> mdist(0, num_matches_q - 1);
      for (size_t j = 0; j < num_matches_q; ++j) {
        const auto &m = original[q][mdist(rng_)];
        (*sampled)[i].push_back(m);
      }''', '''      const auto &group = original.at(qdist(rng_));
      auto &target = sampled->at(i);
      target.reserve(group.size());
      std::uniform_int_distribution<size_t> mdist(0, group.size() - 1);
      while (target.size() < group.size()) {
        target.push_back(group[mdist(rng_)]);
      }'''),
    (B, '''  std::default_random_engine rng_;
};

template<typename RefEvent, typename HypEvent>
class MatchesByQuerySampler {''', '''  std::mt19937_64 rng_;
};

template<typename RefEvent, typename HypEvent>
class MatchesByQuerySampler {''')]

R["tool-rewritten"] = [(G, '''      // Sort hypotheses in descending order of their score.
      std::sort(hyp_events.begin(), hyp_events.end(),
                std::greater<HypEvent>());''', '''      std::sort(hyp_events.begin(), hyp_events.end(),
                [](const HypEvent &a, const HypEvent &b) { return b < a; });'''),
    (G, '''      for (const auto &m : matches) {
        mfs << m << std::endl;
      }
      mfs << "#### REPEATED MATCHES ####" << std::endl;
      for (const auto &m : matcher_->GetRepeatedMatches()) {
        mfs << "## " << m << std::endl;
      }''', '''      const auto &repeated = matcher_->GetRepeatedMatches();
      for (size_t i = 0; i < matches.size(); ++i) {
        mfs << matches[i] << '\\n';
      }
      mfs << "#### REPEATED MATCHES ####" << '\\n';
      for (size_t i = 0; i < repeated.size(); ++i) {
        mfs << "## " << repeated[i] << '\\n';
      }'''),
    (G, '''      // Filter out reference events.
      const size_t num_ref_events = ref_events.size();
      filter_events(query2group, &ref_events);
      if (num_ref_events != ref_events.size()) {
        std::cerr << "INFO: Number of kept reference events = "
                  << ref_events.size() << std::endl;
      }
      // Filter out hypothesis events.
      const size_t num_hyp_events = hyp_events.size();
      filter_events(query2group, &hyp_events);
      if (num_hyp_events != hyp_events.size()) {
        std::cerr << "INFO: Number of kept hypothesis events = "
                  << hyp_events.size() << std::endl;
      }''', '''      // Filter out hypothesis and reference events.
      const auto keep = [&query2group](const char *what, auto *events) {
        const size_t before = events->size();
        filter_events(query2group, events);
        if (events->size() < before) {
          std::cerr << "INFO: Number of kept " << what << " events = "
                    << events->size() << '\\n';
        }
      };
      keep("reference", &ref_events);
      keep("hypothesis", &hyp_events);'''),
    (G, '''      while (qfs >> qt) {
        auto q = (*query_mapper_)(qt);
        query2group[q] = q;
      }''', '''      for (qfs >> qt; qfs; qfs >> qt) {
        const QType q = (*query_mapper_)(qt);
        query2group.emplace(q, q);
      }''')]


# The same in a time that grows with the square of the input.
R["quadratic"] = [(SM, '''    std::set<RE> unmatched_refs(refs.begin(), refs.end());''', '''    std::vector<RE> unmatched_refs(refs);
    std::sort(unmatched_refs.begin(), unmatched_refs.end());
    unmatched_refs.erase(
        std::unique(unmatched_refs.begin(), unmatched_refs.end()),
        unmatched_refs.end());'''),
    (SM, '''          if (unmatched_refs.find(ref) != unmatched_refs.end()) {
            unmatched_refs.erase(ref);''', '''          const auto it = std::find(
              unmatched_refs.begin(), unmatched_refs.end(), ref);
          if (it != unmatched_refs.end()) {
            unmatched_refs.erase(it);'''),
    (A, '''  std::unordered_map<QType, SType> group2pos;''', '''  std::vector<QType> groups;'''),
    (A, '''    const size_t pos = group2pos.emplace(group, group2pos.size()).first->second;''', '''    size_t pos = 0;
    while (pos < groups.size() && groups[pos] != group) ++pos;
    if (pos == groups.size()) groups.push_back(group);'''),
    (A, '''  typedef typename Map::size_type SType;
''', "")]


def sh(cmd, cwd, t=1200, env=None):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                          errors="replace", timeout=t, env=env)


def main():
    args = [a for a in sys.argv[1:]]
    checks = ["C%02d" % i for i in range(1, 23)]
    if "-k" in args:
        k = args.index("-k")
        checks = args[k + 1].split(",")
        del args[k:k + 2]
    for rid in args or sorted(R):
        tmp = tempfile.mkdtemp(prefix="rf_", dir="/tmp")
        r = tmp + "/repo"
        try:
            subprocess.run(["git", "clone", "-q", "/repo", r], check=True)
            for f, old, new in R[rid]:
                t = open(r + "/" + f).read()
                assert t.count(old) == 1, (rid, f, t.count(old), old)
                open(r + "/" + f, "w").write(t.replace(old, new))
            p = sh('CC=gcc CXX=g++ cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=Debug -DCMAKE_CXX_STANDARD=14 '
                   '-DCMAKE_POLICY_VERSION_MINIMUM=3.5 "-DCMAKE_CXX_STANDARD_LIBRARIES=-lgmock -lgtest" -DWITH_TESTS=ON && '
                   'ninja -C _build && ctest --test-dir _build -j8 --timeout 120 | tail -8', r)
            print(rid, "build/tests:", p.returncode, p.stdout.strip().split("\n")[-6:] if p.returncode == 0 else p.stdout[-1500:])
            for c in checks:
                p = sh("python3 %s/run.py %s" % (V, c), V, 900, dict(os.environ, VERIF_REPO=r))
                if p.returncode:
                    print("   ", c, "rc=%d" % p.returncode, p.stdout[-700:])
            print("   done", rid)
            sys.stdout.flush()
        finally:
            shutil.rmtree(tmp, ignore_errors=True)


main()
