#!/usr/bin/env python3
"""Development helper: DESIGN.md from doc/head.md, the paragraphs below, doc/tail.md and doc/matrix.txt."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D={}
D['C01']=("Each decomposition (EMD, CEEMDAN, EMD2D, BEMD, EMD_matlab, JitEMD / numba functions) is interpreted on a symbolic signal; the row sum of the returned matrix is formed as a term and must be the input term on every gate. Loops are discharged by an invariant found from the code (sum of rows so far + remainder = input: initial value and back edge). A left-out remainder must be guarded by a test bounding it by 1e-8.","Unbounded in signal, length, number of components and iterations.","Tests check sums for a few signals with default options.")
D['C02']=("Same, then the accessors are interpreted on the heap the decomposition left; rows handed out must be the returned rows and add up to the signal.","Unbounded.","Depends on every exit path (all-zero signal, max_imf, no extrema).")
D['C03']=("Effect analysis: arguments bound to tagged memory, each reachable in-place effect (store, `+=`, `.sort()`, `out=`, list/dict mutation, mutation in a callee or through a view / attribute / container) must not have a target that may alias it.","Unbounded; flow-sensitive, allocation-site heap.","A mutation under a rare branch is invisible to tests that do not look at their inputs afterwards.")
D['C04']=("Points-to of results: returned and stored arrays traced to allocation; each operation re-analysed in the state earlier calls leave with retained arrays tagged.","All sequences of two public operations on the same object (a rewrite needs one call to leave and one to rewrite).","Needs two-call histories.")
D['C05']=("Dependence analysis with arbitrary leftovers in non-option attributes, module globals, class attributes, default arguments, caches; nothing but generator state may reach a result (value or exit condition).","All histories: leftovers are arbitrary, not those of a particular call.","Tests use fresh objects.")
D['C06']=("Taint from entropy, clock, ids, global generators, completion order of `imap_unordered`; value number of the generator after seeding is a function of the seed only, for all seeds.","Unbounded.","A seeded test passes on one seed and one schedule.")
D['C07']=("The noise part of each trial's signal must be an injective function of the trial index; serial and parallel variants compared by partition refinement of loop-carried values.","All trial counts, worker counts and schedules (results in task order by C06).","Schedules.")
D['C08']=("Typestate open/closed of each pool along normal, early and exceptional exits, including implicit exceptions of each task call, through helpers, `finally`, handlers, context managers.","All exits.","Fault at each point.")
D['C09']=("The sifting loop is read as transition relation over round counter, proto-IMF counter, MAX_ITERATION, FIXE, FIXE_H; data-dependent conditions are free Booleans; continue/exit must be as documented for all.","Counters and options unbounded up to the largest constant in the conditions (the relation is checked on representatives of the regions the comparisons cut).","Exact counts need a probe inside the loop.")
D['C10']=("Same for the component loop and max_imf; no component term may depend on the limit.","Unbounded.","Needs comparing runs with different limits.")
D['C11']=("Dispatch interpreted with the option at each documented value and at values outside; constructor options followed symbolically to their use.","All values (others represented by an opaque string / number).","Silent fall-back returns plausible results.")
D['C12']=("Interpretation under the assumption making the request invalid must leave no normal exit and raise the documented exception type.","All inputs satisfying the assumption.","Each test tries one invalid request.")
D['C13']=("Helpers opaque; the loop's state must follow `h <- h - (upper + lower)/2`, start `S - sum(components)`, and exit condition equals the documented Boolean as a truth table.","Unbounded.","The recurrence is internal; small deviations still sum to the signal.")
D['C15']=("Value numbering of accumulators through the trial and component loops; mean/std/count as statistics over the same entries; CEEMDAN recurrence as polynomial.","All trial and component counts.","Statistics of random runs are only roughly testable.")
D['C16']=("`__call__` with the named method opaque must forward each argument; progress on/off compared by partition refinement.","Unbounded.","Defaults that differ rarely matter.")
D['C17']=("Constructors interpreted with one option symbolic: the attribute must be that value (through int/float/bool); without options the documented constants. Each public operation interpreted on an object with arbitrary options: at the normal exit each option attribute must be the entry value on every gate.","Unbounded in values; exits by exception are not covered.","A value of 0 replaced by a default, or an option changed for the next run, leaves plausible results.")
D['C18']=("Rows of the tridiagonal systems as linear forms; order conditions (moments) per row; solver result satisfies each row as an identity of rational functions.","Sizes: filt6/pade6 at the lengths around each size condition (interior rows are uniform), TDMA up to 6 unknowns (thorough 8).","Accuracy tests have tolerances wider than a wrong boundary coefficient.")
D['C19']=("The verdict term in a normal form for log/exp/sqrt, compared as truth table with `spec/spec/noise.py`; once for a general component, once for each component of sets of 1 to 5 (where index arithmetic is numbers).","General term unbounded; the second pass 1..5 components.","Verdicts are 0/1: tests cannot see a shifted threshold.")
D['C20']=("Index sets as terms; interpreted per kind of sample (slope signs, kind of flat stretch, kind of zero), unsettled conditions explored both ways.","All signals and lengths (kinds partition the samples).","Plateaus at edges.")
D['C21']=("Extended lists written out for each arrangement of up to 7 alternating extrema, edge distances and numbers of mirrored points, symbolic values, branching on each comparison.","Arrangements up to 7 extrema (more repeats the pattern: code only touches the first/last nbsym+1).","Hundreds of arrangements.")
D['C22']=("Effect analysis of every public operation and of import-time code for process-wide effects.","All branches.","Nobody asserts on the global state.")
D['C23']=("Each drawing call with its panel, data and label as terms, read entry by entry.","1-3 components (+ sizes around each constant compared), 8 samples.","Tests only look for exceptions.")
D['C24']=("Type and entries of the axis as gated terms decided per numeric type at the lengths around each limit; normalised axis and each use of it entry by entry.","11 types; lengths below 2^53; symbolic times.","Limits lie at 2^8, 2^11, 2^15 ...")
D['C26']=("Array terms of the enlarged image and of the extremum masks, entry by entry against the definition.","Up to 4x4 / 5x5 (thorough 5x5 / 7x6) + sizes around constants compared.","Image tests are skipped or check sums only.")
D['C27']=("Three-point spline pieces as rational functions: interpolation, C2, natural ends, degree as polynomial identities; interpolator calls, their data and evaluation points as terms; chain extrema -> extended extrema -> envelope with helpers opaque.","Unbounded (identities).","Envelope exchange or wrong slopes still sum to the signal.")
D['C29']=("Boolean of each criterion as truth table over canonical comparisons, against `spec/spec/stop.py`; a difference counts only once an evaluation of the two extracted terms at some point separates them (`checks/refute.py`).","Unbounded.","Thresholds rarely bind in tests.")
D['C32']=("Signal handed to the inner decomposition minus signal/remainder must be the documented noise polynomial; times and limit forwarded; once per trial.","All trials and options.","Noise amplitude errors vanish in averages.")
rd = lambda n: open(os.path.join(ROOT, "doc", n)).read()
out = [rd("head.md")]
props = sorted((json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))), key=lambda p: p["id"])
for p in props:
    if p["id"] in D:
        out.append("**%s %s.** %s *Bounds:* %s *Beyond tests:* %s\n" % ((p["id"], p["title"]) + D[p["id"]]))
missing = [p["id"] for p in props if p["id"] not in D and p["id"][0] == "C"]
assert not missing, missing
out.append(rd("tail.md"))
try:
    m = rd("matrix.txt").split("\n")
except OSError:
    m = []
out.append("Which checks catch which change:\n\n| change | property | caught by |\n|---|---|---|")
for l in m:
    if l.strip():
        a, b, c = l.split("|")
        out.append("| %s | %s | %s |" % (a, b, c))
open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(out) + "\n")
