#!/usr/bin/env python3
"""Regenerates properties.jsonl (the texts live here so that they can be edited as Python)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mechanism, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
             why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism],
                          observe_at=observe, hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)

p("C01", "Reported AP and NDCG equal their definitions on the matched lists",
  "For every pair of well-formed reference and hypothesis lists and every choice of ranking order (descending, ascending or unknown/none = file order) and curve options (tie collapsing, interpolated precision, trapezoid or rectangle integral), both evaluation tools exit 0 and print gAP, mAP, gNDCG and mNDCG equal, to the printed precision, to the textbook definitions applied to the greedy matching of the two lists. Distinct references count once; mean metrics weigh every query with at least one reference or counted hypothesis equally, a query without references contributing 0. Empty lists give 0 for all four.",
  ["inputs", "configurations"], "all well-formed reference/hypothesis files (any ids, boxes with 32-bit coordinates, scores, ties, duplicates, sizes) x all option settings, for both tools",
  "The tools have no tests at all; unit tests check each formula on one hand-made example and never the composition read -> rank -> match -> collapse -> integrate -> average.",
  ["tools/GenericKwsEvalTool.h", "tools/Icdar17KwsEval.cc", "tools/SimpleKwsEval.cc", "core/Assessment.h", "core/Statistic.h", "matcher/SimpleMatcher.h"],
  [("evaluation pipeline", "tools/GenericKwsEvalTool.h Main"), ("metric definitions", "core/Assessment.h")],
  ["stdout and exit status of Icdar17KwsEval and SimpleKwsEval"])

p("C02", "Greedy matching: each reference is used at most once, repeats are ignored",
  "Taking hypotheses in the given order, each one is paired with the not yet taken reference of largest overlap among those it matches under the scorer; if it matches only taken references it is silently ignored, and it is a false positive if and only if it matches no reference at all. Every distinct reference ends up in exactly one hit or one miss, each hit carries the scorer's error for that pair, and ignored repetitions are reported separately. The result depends only on the current lists, never on earlier evaluations with the same matcher.",
  ["inputs", "histories"], "all reference/hypothesis lists (duplicates, nested/overlapping boxes, tied overlaps, zero-area boxes), all scorers, and sequences of evaluations with one matcher",
  "Six tests with at most two references/hypotheses and mocked overlap; no chain of contention, no reuse of the matcher beyond fresh mocks, no real boxes.",
  ["matcher/SimpleMatcher.h", "core/DocumentBoundingBoxEventSet.h", "core/EventSet.h", "core/Match.h"],
  [("greedy loop", "matcher/SimpleMatcher.h Match"), ("overlap ordering", "core/DocumentBoundingBoxEventSet.h FindOverlapping")],
  ["matcher result list and repeated-matches list", "--dump_matches file of Icdar17KwsEval"],
  [("unmatched_refs", "references not taken yet", "matcher/SimpleMatcher.h"), ("repeated_matches_", "ignored pairings", "matcher/SimpleMatcher.h")])

p("C03", "Box areas: intersection and union are the exact areas, per document",
  "For boxes with non-negative sizes whose corners and areas fit the coordinate type, area is width x height, the intersection area is the exact area of the common region (0 when the boxes are disjoint, only touch, or lie in different documents), and the union area is the sum of the areas minus the intersection. Both are symmetric, give the same value however they are asked (method, free function, through events), and a non-empty box overlaps itself with its full area. In the ICDAR tool this covers every box with 32-bit coordinates, negative or not.",
  ["inputs"], "all pairs of boxes (integer and floating coordinates, negative origins, zero sizes, nested, crossing, touching, equal, far apart) in equal or different documents",
  "The tests evaluate a handful of fixed box pairs with small positive integers.",
  ["core/BoundingBox.h", "core/DocumentBoundingBox.h", "core/ShapedEvent.h", "tools/Icdar17KwsEval.cc"],
  [("clipped intersection", "core/BoundingBox.h IntersectionArea"), ("document test", "core/DocumentBoundingBox.h IntersectionArea")],
  ["Area/IntersectionArea/UnionArea of boxes, document boxes and events", "matches dumped by Icdar17KwsEval"])

p("C04", "Scorers accept a pair exactly when queries agree and the overlap suffices",
  "Every scorer rates a pair of events of different queries, or a hypothesis of zero area, as a complete miss (false-positive and false-negative rate 1). Otherwise, to single precision, the threshold scorers give a perfect match (0,0) exactly when intersection/hypothesis area, respectively intersection/union area, is at least the threshold and a complete miss otherwise; the soft scorer gives one minus intersection over hypothesis area and one minus intersection over reference area (a zero-area reference counting as 1); the trivial scorer gives (0,0) exactly when query and location are both equal.",
  ["inputs"], "all pairs of events and thresholds, including overlaps exactly at and one pixel around the threshold, zero-area boxes, large boxes, different queries/documents",
  "Tests use mocked areas and one threshold (0.5), never real boxes, different queries with overlapping boxes, or other thresholds.",
  ["scorer/IntersectionOverHypothesisAreaScorer.h", "scorer/IntersectionOverUnionAreaScorer.h", "scorer/SoftBoundingBoxScorer.h", "scorer/TrivialScorer.h"],
  [("threshold comparison", "scorer/IntersectionOverHypothesisAreaScorer.h operator()"), ("soft error rates", "scorer/SoftBoundingBoxScorer.h operator()")],
  ["error pair returned by each scorer"])

p("C05", "Precision/recall curve follows its definition at every rank",
  "For every sequence of match errors, all-or-nothing or fractional, plain or aggregated, the curve has one point per entry, with precision one minus accumulated false positives over accumulated hypotheses (1 while there are none) and recall accumulated references minus accumulated false negatives, over all references of the sequence (1 if there are none). With interpolation, each precision is replaced by the maximum of the precisions from that rank on, and recall is unchanged. Recall never decreases, both stay within [0,1], and previous contents of the outputs never matter.",
  ["inputs"], "all finite sequences of match errors / match error counts, interpolated or not, from errors or from matches",
  "Four fixed sequences of at most six entries, only without interpolation and without aggregation.",
  ["core/Assessment.h", "core/MatchError.h", "core/MatchErrorCounts.h"],
  [("accumulation and interpolation", "core/Assessment.h ComputePrecisionAndRecall"), ("reference count", "core/Assessment.h NumTotalReferences")],
  ["precision and recall vectors"])

p("C06", "Average precision is the area under the precision-recall curve",
  "Average precision equals the sum over the curve's points of the recall gained at that point (the first counted from recall 0) times its precision or, with trapezoid integration, times the mean of its precision and the previous one; an empty curve gives 0. Pooled (global) AP of matches grouped by query equals the AP of all of them ranked together, and mean AP is the plain average of the groups' APs, 0 without groups. The two ways of computing it, from errors and from a curve, agree for all-or-nothing matches that have at least one reference.",
  ["inputs", "configurations"], "all precision/recall curves, all groupings of matches, all collapse/interpolation/trapezoid/sorting settings",
  "Four fixed curves; the error-based formula and every global/mean function are never called by a test.",
  ["core/Assessment.h", "core/Statistic.h"],
  [("integration", "core/Assessment.h ComputeAP"), ("pooling and averaging", "core/Assessment.h ComputeGlobalAP, ComputeMeanAP")],
  ["values returned by the AP functions and statistic objects"])

p("C07", "NDCG discounts by rank and is normalised by the ideal ranking",
  "NDCG equals the sum over the hypotheses' ranks k = 1, 2, ... of (2^r - 1)/log2(k+1), r being the correct fraction of the entry the hypothesis belongs to (all hypotheses of an aggregated entry share it and occupy consecutive ranks), divided by the sum of 1/log2(k+1) over as many ranks as there are references; it is 0 if there are none. Entries without hypotheses take no rank. Pooled NDCG ranks all groups' matches together and mean NDCG is the plain average over groups, 0 without groups.",
  ["inputs", "configurations"], "all finite sequences of match errors or aggregated counts and all groupings of matches, collapsed or not, sorted or not",
  "Eight fixed sequences with at most six entries; pooled and mean variants are never called by a test.",
  ["core/Assessment.h", "core/Statistic.h"],
  [("gain and normalisation", "core/Assessment.h ComputeNDCG"), ("pooling and averaging", "core/Assessment.h ComputeGlobalNDCG, ComputeMeanNDCG")],
  ["values returned by the NDCG functions and statistic objects"])

p("C08", "Collapsing ties merges exactly the runs of equal score and loses nothing",
  "Collapsing a ranked match list yields one entry per maximal run of consecutive matches with equal hypothesis score, all trailing misses forming one run of their own, in the same order, with the false positives, false negatives, hypotheses and references of the run added up. Totals are therefore preserved, different scores are never merged, however close, and the result does not depend on the order of matches inside a run. Sorting a match list puts hypotheses in non-increasing score order before all misses and only permutes it.",
  ["inputs"], "all lists of matches with finite scores (ties, adjacent floats, negative and zero scores, only misses, only false positives), any length",
  "Three fixed lists; totals, order independence and nearly equal scores are not tested, sorting not at all.",
  ["core/Assessment.h", "core/MatchErrorCounts.h"],
  [("run detection", "core/Assessment.h CollapseMatches"), ("count addition", "core/MatchErrorCounts.h operator+="), ("sorting", "core/Assessment.h SortMatchesDecreasingScore")],
  ["list of aggregated counts", "sorted match list"])

p("C09", "Query sets filter and query groups pool exactly the listed queries",
  "With a query set, the results equal those obtained by deleting from both input files every line of a query not in the set, an empty set deleting everything. With query groups (which take precedence over a query set), only the listed queries count and the mean metrics average over groups, each group pooling its queries' matches in ranking order (a query listed more than once belongs to the last group listing it), while global metrics equal those of the corresponding query set. Grouping only partitions the matches: each match lands in exactly one group, in its original order, and a query without group is a group of its own.",
  ["inputs", "configurations"], "all pairs of lists, query sets and query-to-group assignments, including unknown, duplicated and absent queries, groups over several lines, single-query groups",
  "No test reads a query set or a group file, and the grouping function is never called by a test.",
  ["tools/GenericKwsEvalTool.h", "core/Assessment.h"],
  [("filtering", "tools/GenericKwsEvalTool.h filter_events, Main"), ("grouping", "core/Assessment.h GroupMatchesByQueryGroup")],
  ["stdout of the tools under --query_set/--query_groups", "groups returned by the grouping function"])

p("C10", "Bootstrap intervals: valid resamples, exact quantiles, reproducible",
  "Requesting confidence intervals leaves the reported estimates (under the default descending ranking with ties collapsed) unchanged and adds bounds that depend only on the data, the seed, the number of samples and alpha, not on which other intervals are requested; equal invocations print equal bounds. Every resample draws as many groups as the original (groups without matches included), with replacement, each of them as many matches as the group drawn has, with replacement and only from that group, and every element can be drawn. For alpha in [0,1] the bounds are the estimate minus the (1-alpha/2) and alpha/2 quantiles of the sorted differences between resampled and observed statistic, so lower never exceeds upper.",
  ["inputs", "configurations"], "all match collections, statistics, seeds, repetition counts >= 1 and alpha in [0,1], and all combinations of the four interval switches",
  "The bootstrapping code has no test of any kind.",
  ["core/Bootstrapping.h", "tools/GenericKwsEvalTool.h"],
  [("resampling", "core/Bootstrapping.h MatchesSampler, MatchesByQuerySampler"), ("interval", "core/Bootstrapping.h ComputePercentileBootstrapCI")],
  ["samples produced by the samplers", "interval bounds returned and printed"],
  [("rng_", "generator state seeded once per statistic", "core/Bootstrapping.h")])

p("C11", "Recall-precision curve files sample the real curve evenly over [0,1]",
  "A requested curve file contains exactly the requested number N >= 2 of lines, the recalls k/(N-1) in increasing order, each with the precision of the first curve point whose recall reaches it (0 beyond the last point) or, with the trapezoid option, the linear interpolation between that point and the one before it. The mean curve is, at every recall, the average of the groups' sampled curves, 0 without groups. All values are finite and in [0,1] and requesting curve files does not change the printed metrics.",
  ["inputs", "configurations"], "all inputs, curve options, sample counts, and arbitrary non-decreasing curves for the sampling function",
  "Curve sampling and writing are never called by a test.",
  ["core/Assessment.h", "tools/GenericKwsEvalTool.h"],
  [("sampling", "core/Assessment.h SampleCurveAtGivenPoints"), ("grid", "core/Assessment.h GetEvenlyDistributedPoints01Interval"), ("file output", "core/Assessment.h WriteCurveToFile; tools/GenericKwsEvalTool.h WriteGlobalRPCurve, WriteMeanRPCurve")],
  ["files written by --output_grp and --output_mrp", "values returned by the sampling functions"])

p("C12", "Readers accept exactly well-formed files and reproduce them in order",
  "Reading a file succeeds exactly when every line is blank, a comment (first non-blank character #), or consists of exactly the fields of the event type separated by whitespace, each number complete and in range; tabs, repeated, leading and trailing blanks, CR-LF line ends and a missing final newline make no difference. On success the events are the lines' events, in file order, replacing whatever the output held before. On failure the reader reports the number of the first bad line, and an unreadable file is a failure.",
  ["inputs"], "all byte strings split into lines; event types with strings, integer boxes and scores",
  "Seven fixed texts; tests never vary whitespace, number syntax, ranges, extra fields or the previous output contents.",
  ["reader/PlainTextMapEventReader.h", "reader/PlainTextReader.h", "core/BoundingBox.h", "core/DocumentBoundingBox.h", "core/Event.h", "core/ScoredEvent.h"],
  [("line loop", "reader/PlainTextMapEventReader.h Read"), ("field extraction", "operator>> of the event and location types")],
  ["return value, events and error message of the reader"])

p("C13", "Command lines set exactly what they say or are rejected",
  "For every set of registered options and arguments, parsing succeeds exactly when the command line is: known options each with a valid value (last occurrence wins; a boolean may omit its value, meaning true), an optional --, then all mandatory and at most the optional positional arguments, each with a valid value. On success exactly the mentioned variables change, to the values given, strings being kept verbatim; incomplete, malformed, out-of-range or missing values, unknown options and missing or surplus arguments are rejected. --help prints every option with its default and every argument, and ends successfully without evaluating anything.",
  ["inputs", "configurations"], "all parser configurations (boolean, integer, floating and string options and arguments) x all argument vectors",
  "Tests parse six fixed command lines with boolean and string options; positional arguments, numeric options, --, --help and surplus arguments are never parsed in a test.",
  ["cmd/Parser.h", "cmd/Option.h", "cmd/Argument.h", "tools/GenericKwsEvalTool.h"],
  [("parse loop", "cmd/Parser.h Parse"), ("value conversion", "cmd/Option.h Option::Parse, cmd/Argument.h Argument::Parse"), ("help text", "cmd/Parser.h Help")],
  ["return value and bound variables of the parser", "exit status of the tools"])

p("C14", "Boxes, events and scored events are totally and consistently ordered",
  "For boxes, document boxes, events and scored events the six comparison operators agree with one total order: the lexicographic one over (x,y,w,h), (document, box), (query, location) and (score, event). Exactly one of <, ==, > holds, != negates ==, <= and >= are < or == and > or ==, and the order is transitive. Equality means that every field is equal.",
  ["inputs"], "all pairs and triples of objects, in particular those that differ in one field only or in two fields in opposite directions",
  "Fixed pairs for boxes, mocked locations for events, no test of scored events' order, none of consistency between operators.",
  ["core/BoundingBox.h", "core/DocumentBoundingBox.h", "core/Event.h", "core/ScoredEvent.h"],
  [("comparison operators", "core/BoundingBox.h, core/DocumentBoundingBox.h, core/Event.h, core/ScoredEvent.h")],
  ["results of the comparison operators", "order of sorted containers"])

p("C15", "Event sets behave as sets under any history and find all overlaps in order",
  "After any sequence of insertions, removals, clears and constructions from a range, the size is the number of distinct events inserted and not removed since, removing an absent event or inserting a present one changing nothing. A query for overlapping events returns exactly the stored events of the same query and document whose intersection with the given one is positive, by non-increasing intersection area, ties in a fixed order that does not depend on the history; for events without geometry, exactly the equal event. Queries do not modify the set.",
  ["histories", "inputs"], "all operation sequences over events with colliding queries, documents and boxes",
  "Two fixed sequences; the overlap query is never called by a test on real data and range construction never.",
  ["core/DocumentBoundingBoxEventSet.h", "core/EventSet.h"],
  [("two-level index", "core/DocumentBoundingBoxEventSet.h Insert/Remove/Clear"), ("overlap query", "FindOverlapping")],
  ["Size and FindOverlapping after every operation"],
  [("size_", "number of stored events", "core/DocumentBoundingBoxEventSet.h"), ("documents_by_query_", "index", "core/DocumentBoundingBoxEventSet.h")])

p("C16", "String-to-integer mapping is injective, stable and dense",
  "A string mapper gives every distinct string its own integer, always the same one, numbering new strings 0, 1, 2, ... in order of first appearance; copies and event mappers built on it share the numbering. All values of the integer type from 0 up to its maximum can be used; the next new string raises a range error and changes nothing, known strings still mapping. Event mappers map query and location through the same table and scored mappers keep the score unchanged.",
  ["histories", "inputs"], "all sequences of strings (empty, long, binary, repeated) over any integer type, copies and shared tables",
  "Tests map three strings and one full int8 table; copies are constructed but never used, no other integer type.",
  ["mapper/StringToIntMapper.h", "mapper/StringEventToIntMapper.h", "mapper/ScoredEventMapper.h", "mapper/IdentityMapper.h"],
  [("numbering", "mapper/StringToIntMapper.h operator()"), ("event mapping", "mapper/StringEventToIntMapper.h, mapper/ScoredEventMapper.h")],
  ["mapped integers and exceptions"],
  [("impl_", "shared table", "mapper/StringToIntMapper.h")])

p("C17", "Results are invariant under irrelevant changes of the input",
  "Under the default descending ranking (for SimpleKwsEval with ties collapsed or scores distinct) the printed metrics do not change when the lines of either file are reordered, reference lines are repeated, comments, blank lines or extra whitespace are added, the hypotheses come from standard input instead of a file, queries or documents are renamed consistently preserving their order, all boxes are shifted or scaled alike, or all scores are mapped by a strictly increasing function. Negating distinct scores and ranking ascending gives the same metrics as before. Running the same command twice prints the same bytes.",
  ["inputs", "configurations"], "all inputs x transformations (and their compositions), for both tools where applicable (the text tool with collapsed ties or distinct scores)",
  "No test relates two runs; the tools are never run by the tests.",
  ["tools/GenericKwsEvalTool.h", "matcher/SimpleMatcher.h", "core/DocumentBoundingBoxEventSet.h", "core/ScoredEvent.h", "mapper/StringToIntMapper.h"],
  [("total ranking order", "tools/GenericKwsEvalTool.h Main, core/ScoredEvent.h operator<"), ("reference set", "matcher/SimpleMatcher.h")],
  ["stdout of the tools for an input and its transform"])

p("C18", "Bad inputs and failed writes end in a clean error, never a crash or silence",
  "Whatever the bytes of the input files and the command line, the tools neither crash nor read or write invalid memory; they end with status 0 and four finite metrics, or with a non-zero status and an error message. A missing, unreadable or malformed input, an invalid option value or an unusable bootstrap setting (no samples, alpha outside [0,1]) gives the latter and prints no metric. If the match dump, a curve file or the metrics cannot be written completely, the status is non-zero.",
  ["inputs", "fault_sequences"], "all byte contents of the files, all argument vectors, missing/unreadable inputs and failing outputs (full device, missing directory)",
  "No test runs the tools or injects a fault.",
  ["tools/GenericKwsEvalTool.h", "reader/PlainTextMapEventReader.h", "cmd/Parser.h", "cmd/Option.h", "core/Assessment.h", "core/Bootstrapping.h"],
  [("error paths", "tools/GenericKwsEvalTool.h Main"), ("stream state checks", "reader/PlainTextMapEventReader.h Read; core/Assessment.h WriteCurveToFile")],
  ["exit status, stderr, stdout of sanitizer-instrumented tools"])

p("C19", "Events survive a text round trip and the match dump tells the whole truth",
  "Writing a box, document box, event or scored event as text and reading it back, alone or as lines of a file, gives an equal object (scores as printed), whatever follows it in the stream staying unread. The match dump lists, in ranking order and then the misses, exactly the counted matches, each with its hypothesis, reference and error rates (as does the text of any match, whatever its errors), followed by every ignored repetition; requesting it does not change the printed metrics.",
  ["inputs", "configurations"], "all objects with whitespace-free names and finite coordinates; all evaluations with a dump requested",
  "Tests stream two fixed boxes and a mocked event; scored events, matches and the dump are never printed in a test.",
  ["core/BoundingBox.h", "core/DocumentBoundingBox.h", "core/Event.h", "core/ScoredEvent.h", "core/Match.h", "tools/GenericKwsEvalTool.h"],
  [("stream operators", "operator<< / operator>> of the core types"), ("dump", "tools/GenericKwsEvalTool.h Main")],
  ["text produced and objects read back", "--dump_matches file"])

p("C20", "Matches and error counts are independent values without leaks",
  "A match copied, assigned (also to itself), moved or stored in containers equals its source in error, presence and contents of reference and hypothesis, and later changes to either do not affect the other; == is true exactly when all of these are equal, and != is its negation. Every history of such operations releases all memory it allocated, exactly once; owning mappers and matchers release what they own. An all-or-nothing or fractional error implies a hypothesis unless it is a pure miss and a reference unless it is a pure false positive, and aggregated counts add field by field, in any grouping.",
  ["histories", "inputs"], "all histories of construct/copy/assign/move/modify/compare over a pool of matches; all sums of error counts",
  "Match has no test; error counts are only compared, never added by a test directly, and no test checks memory.",
  ["core/Match.h", "core/MatchError.h", "core/MatchErrorCounts.h", "mapper/StringEventToIntMapper.h"],
  [("deep copy", "core/Match.h copy constructor and assignments"), ("implied counts", "core/MatchError.h NH/NR"), ("addition", "core/MatchErrorCounts.h")],
  ["accessors and comparison results after each operation", "allocation balance"])

p("C21", "Metrics stay in [0,1] and reward better submissions",
  "All four metrics and all curve values lie in [0,1] for every input and every curve option. Under the default descending ranking a submission that reproduces the references exactly (non-empty boxes, those of one query in one document not overlapping; any scores) gets 1 in all of them, and one that matches nothing gets 0. Under it, adding a hypothesis that matches no reference, or a reference that no hypothesis matches, never raises a metric, and adding a top-ranked exact hypothesis for an isolated reference that was missed never lowers a global metric.",
  ["inputs", "configurations"], "all inputs and their one-event extensions, for both tools",
  "No test relates a submission to an extension of it or runs a perfect/worthless submission through a tool.",
  ["core/Assessment.h", "matcher/SimpleMatcher.h", "tools/GenericKwsEvalTool.h"],
  [("precision/recall/NDCG formulas", "core/Assessment.h"), ("matching", "matcher/SimpleMatcher.h")],
  ["stdout of the tools for an input and its extension"])

p("C22", "The progress report counts truthfully",
  "Along with the metrics, the tools report on standard error how many reference and hypothesis events they read, how many queries and groups a filter file lists, how many events remain when the filter drops some, and how many hypotheses count when some are ignored as repetitions; every reported number is the true one, and what did not happen is not reported. An unknown ranking criterion is answered by a warning naming it, a known one by none. Standard output holds the four metric lines only.",
  ["inputs", "configurations"], "all well-formed inputs, filter files, ranking criteria and ways to pass the hypotheses, for both tools",
  "The tools are never run by the tests.",
  ["tools/GenericKwsEvalTool.h", "reader/PlainTextMapEventReader.h", "matcher/SimpleMatcher.h"],
  [("progress messages", "tools/GenericKwsEvalTool.h Main")],
  ["stderr and stdout of the tools"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P))
