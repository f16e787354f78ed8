#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long texts stay editable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

LLA = "src/low_level_analysis/low_level_analysis.rs"
TA, SA = "src/low_level_analysis/time_analysis.rs", "src/low_level_analysis/space_analysis.rs"
TI, TY = "src/low_level_analysis/types/types_impl.rs", "src/low_level_analysis/types/types.rs"
MA, RB = "src/metrics_allocator/metrics_allocator.rs", "src/metrics_allocator/ring_buffer.rs"
CO, CR, ST = "src/runners/common.rs", "src/runners/crud.rs", "src/runners/standard.rs"
AB = "src/api/builders/regular_async_builder.rs"
FE = "src/features.rs"
ME, PM = "src/utils/measurements/measurer.rs", "src/utils/measurements/presentable_measurements.rs"

p("C01", "Regular and constant-set verdicts are the tightest class within tolerance",
  "For a regular or constant-set algorithm measured at sizes n1 < n2 (n1 >= 2), the time or space verdict is the first class of the scale O(1), O(log n), O(n), O(n log n), O(n^2), O(n^3), O(n^4), O(k^n) whose predicted growth is not exceeded by the observed growth u2/u1 by more than the tolerance (10% by default) - that class itself if the growth is within the tolerance of the prediction, otherwise the 'better than' / 'in between' class just below it - and 'worse than exponential' if there is none. "
  "The predicted growth of a class is f(n2)/f(n1), and that of O(k^n) is reached when u2 = u1^(n2/n1); u is the elapsed seconds for time, and the peak heap above the level at the start of the pass (in bytes) for space. "
  "Constant-set sizes may be given in either order: the smaller one is n1.",
  ["inputs"], "all pairs of measurements (durations from 1 ns to years, heap levels up to 2^60 bytes, any baseline) and all set sizes 2 <= n1 < n2 < 2^32, away from exact floating-point boundaries of a band",
  "The unit tests sweep u2 for one fixed (u1, n1, n2) = (10, 2, 14) and check a dozen hand-made measurements at 1000 -> 2000; the verdict depends on four real numbers, and most thresholds are only crossed for sizes and magnitudes the tests never use.",
  [LLA, TA, SA], [("threshold chain", LLA + " analyse_complexity"), ("time wrappers", TA + " analyse_time_complexity*, as_secs_f64, min/max of set sizes"), ("space wrappers", SA + " analyse_space_complexity*, max_used - used_before")],
  ["return values of the public analysis functions"])

p("C02", "Set-resizing verdicts follow the per-pass growth when the set is doubled",
  "For an algorithm that adds or removes n elements (n >= 2) in each of two equal passes, with r = u2/u1 the growth of the time or peak heap from the pass over the first n elements to the pass over the next n, the verdict is 'better than O(1)' when u1 exceeds u2 by more than the tolerance, O(1) when r is within the tolerance of 1, and O(n) when r is within the tolerance of 3. "
  "Between those, with g = log2(3n)/log2(n): r below g is 'between O(1) and O(log n)', r from g to less than the tolerance above g is O(log n), anything else up to the O(n) band is 'between O(log n) and O(n)', and r above the O(n) band is 'between O(n) and O(n log n)', the worst verdict of this scale. "
  "Where bands overlap (small n) the better class wins; u is elapsed seconds for time and the peak heap above the starting level for space.",
  ["inputs"], "all pairs of measurements and all n in 2 .. 2^31, away from exact floating-point boundaries of a band",
  "The unit test sweeps one line (u1=100, n=1000); the boundary of the logarithmic band moves with n and swallows the O(n) band for small n, which no test reaches.",
  [LLA, TA, SA], [("threshold chain", LLA + " analyse_set_resizing_iterator_complexity"), ("wrappers", TA + ", " + SA)],
  ["return values of the public analysis functions"])

p("C03", "Verdicts obey the laws of growth: monotone, unit-free, baseline-free, total",
  "Raising only the second measurement never improves a verdict and raising only the first never worsens it below the exponential classes; scaling both measurements by the same factor, or shifting every heap level of a pass by the same baseline, leaves every verdict up to O(n^4) unchanged. "
  "An algorithm that uses nothing at all in both passes (no heap, or no measurable time) is O(1). "
  "Analysis is total: every consistent pair of measurements gets a verdict, without panicking, and the same one every time.",
  ["inputs"], "all pairs and triples of measurements related by increase, scaling or baseline shift, all sizes; includes zero and one-sided-zero usage and levels near the top of the address space",
  "Each law relates two or more runs on different inputs; the tests check single points and one sweep and never the zero-usage input that every allocation-free algorithm produces.",
  [LLA, TA, SA], [("ratio-based chain", LLA), ("peak minus starting level", SA)], ["return values of the public analysis functions"])

p("C04", "Every heap operation is accounted exactly once, with its exact size",
  "For any sequence of allocations, zeroed allocations, reallocations and frees, including ones the system refuses, the statistics between a save point and now report exactly how many operations of each kind succeeded and how many bytes they moved (old and new sizes for reallocations), and the heap level equals the live bytes. "
  "Operations that fail change no statistic. "
  "Counting is exact for any layout size and alignment and independent of the operations outside the window.",
  ["histories", "inputs"], "all histories of the four allocator operations with sizes from 1 byte to beyond 4 GiB and any alignment, with and without system refusals, and save points taken at any position",
  "The unit tests allocate two vectors and check a handful of fields; reallocation shrink/grow/equal, failure, zeroed and huge layouts are combinations no sample settles.",
  [MA], [("per-operation accounting", MA + " compute_*_metrics"), ("delta against the save point", MA + " delta_statistics"), ("GlobalAlloc impl", MA)],
  ["statistics returned for a save point on a private instance of the allocator"],
  state=[("counters", "operations and bytes since start", MA + " MetricsAllocatorStatistics")])

p("C05", "Any set of overlapping measurement windows sees its own exact low and high",
  "For every save point, however many others are taken before, inside or after its window and in whatever order they are read (also repeatedly), the statistics report the exact lowest and highest heap level reached between that save point and now, and the counts and bytes of that window alone. "
  "Reading a window has no effect on it or on any other window. "
  "A window with more later save points than the buffer can track yields an error, from then on, and never wrong numbers; up to the buffer's capacity it must not fail.",
  ["histories"], "all histories interleaving heap operations, save points and reads, for buffer capacities 1 .. 1024, crossing wrap-around many times",
  "The unit test nests two save points on one path; the low/high values live in a ring of slots that is only stressed by many overlapping windows and by wrap-around.",
  [MA, RB], [("(min,max) handed over at each save point", MA + " save_point"), ("aggregation of later slots", MA + " delta_statistics"), ("slot ring", RB + " peek_all")],
  ["statistics returned for each open save point"],
  state=[("slot ring", "per-window (min,max) history", MA + " used_memory_ring_buffer")])

p("C06", "The metering allocator behaves exactly like the system allocator",
  "Memory handed out is aligned as requested, does not overlap any other live block, and keeps what the program wrote until it is freed; a reallocation preserves the common prefix and a zeroed allocation reads as zero, also for recycled memory. "
  "A request the system refuses is reported as refused and leaves the original block intact. "
  "Being installed as the global allocator never changes what a program computes.",
  ["histories", "inputs"], "all histories of allocator operations with any size and alignment up to pages, interleaved blocks, refusals included",
  "Tests use the allocator only through vectors with default alignment; overlap, alignment, zeroing of recycled memory and refused reallocation need generated block histories.",
  [MA, FE], [("delegation to the system allocator", MA + " GlobalAlloc impl"), ("global registration", FE + " ALLOC")],
  ["pointers returned and the contents of live blocks"])

p("C07", "Heap accounting stays exact and consistent under concurrency",
  "When any number of threads use the heap at the same time, no operation is lost or counted twice: once they stop, counts, bytes and heap level equal the sum of what the threads did. "
  "A window measured meanwhile never panics and always reports low <= level at its start, level now <= high. "
  "A window's high is never below a level that every interleaving must have reached inside it or that was reported by another reading inside it, never above what the threads could have held together, and symmetrically for the low -- also while several threads open and read windows, nested or overlapping.",
  ["schedules", "histories"], "all interleavings, at the granularity of single atomic accesses, of several threads doing heap operations while others open and read (nested, overlapping) windows",
  "No existing test runs the allocator's statistics from more than one thread under an owned schedule; lost peaks and inconsistent windows depend on one interleaving between two atomic accesses.",
  [MA], [("atomic counters and (min,max) compare-exchange loops", MA + " compute_min_and_max_used_memories"), ("hand-over of (min,max)", MA + " save_point")],
  ["statistics during and after concurrent use"])

p("C08", "The ring delivers every event, in order, to every consumer independently",
  "Each consumer receives exactly the elements enqueued after its creation, once each and in order, as long as it is never more than one buffer behind; an up-to-date consumer receives nothing. "
  "Peeking returns exactly the elements that dequeuing would return, in the same order, and consumes nothing. "
  "Consumers never affect each other or the producer.",
  ["histories"], "all histories of enqueue, consumer creation, dequeue and peek over several consumers, for buffer sizes 1 .. 64 (powers of two and not) and many laps, of any age (counts of elements around 2^16, 2^31, 2^32 and beyond)",
  "The unit tests push sequential numbers through one 16-slot buffer with one or two consumers; wrap-around positions of several independent heads are a product space.",
  [RB], [("reserve, write, publish", RB + " enqueue"), ("per-consumer head", RB + " dequeue, peek_all")], ["values returned by dequeue and peek"],
  state=[("tails/head", "monotonic positions", RB)])

p("C09", "A consumer that falls behind gets an error, never wrong data, and stays failed",
  "Once more elements than the buffer's capacity have been enqueued since a consumer's position, its next dequeue or peek fails with the overflow error; exactly one full buffer behind is not an overflow. "
  "After an overflow that consumer never yields data again: all its further operations report the overflow. "
  "Producers and other consumers are unaffected, and the failure is reported as an error value, never as a panic.",
  ["histories"], "all histories that drive some consumers beyond capacity at any lap and offset while others keep up, followed by any further operations",
  "The only test overflows a fresh consumer by one element and calls each operation once; what happens on the second call after an overflow is never observed.",
  [RB], [("distance check", RB + " dequeue, peek_all"), ("documented invalidation", RB + " RingBufferOverflowError")], ["results of dequeue and peek after overflow"])

p("C10", "Concurrent producers and consumers lose, invent and duplicate nothing",
  "With any number of concurrent producers (more than the buffer holds, even) and of threads sharing a consumer, and no overflow, every element is received exactly once per consumer, elements of one producer arrive in the order it enqueued them, and no received element is torn or not yet written. "
  "No operation blocks forever or panics. "
  "With overflow, a failed consumer stays failed, for all threads sharing it, and everything received before the failure is correct.",
  ["schedules"], "all interleavings, at the granularity of single atomic accesses and including spurious compare-exchange failures, of 1-3 producers and 1-3 consuming threads on small buffers; real threads on larger ones",
  "The concurrency test compares sums over whatever interleavings the machine happens to produce; order, duplication-plus-loss and spurious failures stay invisible.",
  [RB], [("reserve / publish protocol", RB + " enqueue"), ("compare-exchange on head", RB + " dequeue")], ["elements received per thread"])

p("C11", "Ring elements are dropped exactly once and never while still readable",
  "Enqueueing takes ownership of an element: the element it replaces one lap later is dropped exactly once, and nothing is ever dropped that was not enqueued. "
  "An element is not dropped while it is within one buffer of the newest one, and consuming or peeking it neither drops nor copies it. "
  "This holds for element types that own heap memory, from the first lap on.",
  ["histories"], "all histories of enqueue, dequeue, peek and consumer creation with elements that own heap memory, for several buffer sizes and laps",
  "All tests use plain integers, for which dropping an uninitialised or wrong slot has no effect.",
  [RB], [("slot replacement", RB + " enqueue"), ("uninitialised storage", RB + " buffer: MaybeUninit")], ["drop counts and contents of live elements"])

p("C12", "A pass runs its operation exactly once per element, in runs, on its threads",
  "For any number of iterations and threads, a create, read, update or delete pass (and the warm-up) calls its operation exactly once for every element of its range and for no other. "
  "Each recruited thread covers one contiguous run of elements, runs do not overlap, and no more than the requested number of threads is used; with enough elements every requested thread gets some. "
  "All calls of a pass have returned before the next pass or reset begins.",
  ["inputs", "configurations", "schedules"], "all iteration counts (multiples of the thread count or not, fewer than threads, one) and thread counts 1 .. 32, for all four operations",
  "Existing tests use thread counts that divide the iterations (or one thread), where any partition is exact.",
  [CO, CR], [("chunking", CO + " run_iterator_pass"), ("per-thread loop", CO + " thread_loop")], ["log of (element, thread) per pass"])

p("C13", "The CRUD protocol runs the right operations on the right elements in order",
  "Unless warm-up is 0%, each operation is first warmed up, in the order create, read, update, delete, on the given percentage of one pass's elements counted from 0, and reset is then called with the number of elements the warm-up created; no other reset happens within an attempt. "
  "Then come create, read, update on elements 0..n of each operation's own count n, the same on n..2n, and finally the deletes of n..2n and then 0..n. "
  "An operation with zero iterations or zero threads never runs and has no analysis, and the others run unaffected.",
  ["inputs", "configurations"], "all combinations of the four iteration counts (including zero and beyond 2^25), the four thread counts (including zero) and warm-up percentages 0 .. 100",
  "Tests use four fixed set-ups with all operations on and equal counts; order, ranges and reset counts under partial configurations are a product space.",
  [CR], [("pass ranges", CR + " calc_regular_cru_range, calc_regular_d_range, calc_warmup_*"), ("stage order", CR + " internal_analyse_crud_algorithms")],
  ["log of all closure calls", "which analyses are present"])

p("C14", "CRUD analyses describe exactly what each operation consumed in each pass",
  "Each returned analysis carries, for its own operation, the time and heap usage of the first and of the second pass (for delete: the pass over the lower half is the first) and the set sizes of the run: the elements per pass for create and delete, n and 2n created elements and the operation's own repetitions for read and update. "
  "Its verdicts are those the measured values and sizes call for. "
  "Nothing leaks from another operation, another pass, the warm-up or the reset.",
  ["inputs"], "all assignments of a (time, heap) cost to the four operations x two passes x warm-up, all iteration and thread counts",
  "Tests only compare verdicts of well-behaved containers, where swapped passes or operations rarely change the class.",
  [CR, CO], [("pass results arrays", CR + " run_constant_set_pass!, run_set_resizing_pass!"), ("measurement structs", TY)],
  ["the analyses returned by the CRUD analysis"])

p("C15", "The CRUD test accepts iff some attempt meets every limit, within the retries",
  "The CRUD test passes exactly when, in one of its attempts (as many as the given maximum, at least one), every operation that runs has both its time and its space verdict no worse than its own limit, and it stops at the first such attempt; every operation that was asked for runs in every attempt until a limit is exceeded. "
  "A time verdict over its limit ends the attempt and is retried, after calling reset with the number of elements that attempt creates, until attempts run out and the test panics; a space verdict over its limit panics at once. "
  "The panic names the operation, the resource, the limit and the verdict and, after retries, tells how many earlier attempts failed at which operation with which verdict.",
  ["histories", "inputs"], "all sequences of per-attempt, per-operation time and heap costs, limits over the whole scale, attempt limits 0 .. 8, iteration counts from 1 up",
  "Tests exercise accepting runs and two rejections; the decision depends on a history of attempts, each with eight verdicts, and on what is re-run.",
  [CR], [("attempt loop", CR + " test_crud_algorithms"), ("limit comparison", CR + " yield_analysis_or_return_with_error!"), ("iteration adaptation", CR + " adapt")],
  ["panic or return", "log of closure calls per attempt", "panic message"])

p("C16", "The regular-algorithm test accepts iff some attempt meets both limits",
  "The test passes exactly when, in one of at most 1 + the allowed retries attempts, both verdicts are no worse than their limits; it stops there. "
  "A space verdict over its limit panics at once, whatever the time verdict; a time verdict over its limit is retried after a pause until the retries are used up, and then panics naming the limit and the verdict. "
  "Every attempt runs reset, first pass and second pass once each, in that order.",
  ["histories", "inputs"], "all sequences of per-attempt (time, heap) costs of the two passes, all limits on the scale, all retry limits 0 .. 6, all sizes",
  "One integration test covers one accepted and one rejected algorithm; the decision table over limits, verdicts and attempts is never enumerated, since retries take real seconds.",
  [ST], [("attempt and comparison", ST + " analyse_algorithm"), ("retry policy", ST + " test_algorithm")], ["panic or return, message, number and order of closure calls"])

p("C17", "The async test enforces exactly the limits it was given",
  "An asynchronous analysis with a space limit panics at once when the space verdict is worse, with a time limit it retries up to the configured re-attempts (none by default) while the time verdict is worse and then panics; a limit that was not set is not enforced, and verdicts equal to or better than their limits pass. "
  "It stops at the first accepted attempt. "
  "A failing message names the limit and the verdict.",
  ["histories", "inputs", "configurations"], "all presence/absence combinations of both limits, all limits, all sequences of per-attempt costs, re-attempts unset or 0 .. 5",
  "Two async tests exist (one retry that passes, one without limits); absent limits and exhausted retries are never tested.",
  [AB], [("limit checks", AB + " raw_analyse_algorithm"), ("retry policy", AB + " test_algorithm")], ["panic or return, message, attempts made"])

p("C18", "Async stages run in the documented order, each fed the previous one's data",
  "Each attempt runs, as far as configured: reset, warm-up, reset again, first pass, its assertion, reset, second pass, its assertion; absent stages are skipped and no stage runs twice. "
  "Within an attempt every stage receives the data produced by the stage before it; the first reset of a retry receives the data the previous attempt ended with, and otherwise the first stage of an attempt receives none; assertions see, unchanged, what their pass returned. "
  "A failing assertion fails the test.",
  ["configurations", "histories"], "all subsets of the optional stages, retries 0 .. 4, stages that suspend any number of times or finish at once, data that is tracked by identity",
  "The tests run the full and the minimal configuration once with integers; each of the sixteen configurations times retries has its own data path.",
  [AB], [("stage sequence", AB + " raw_analyse_algorithm"), ("retry hand-over", AB + " test_algorithm")], ["log of stages with the identity of the data received and returned"])

p("C19", "A pass is charged exactly its own time and peak heap",
  "The time reported for a pass of a regular or asynchronous algorithm is the time between its start and its end, including suspensions, and the heap figures are the levels at the start and end and the lowest and highest level in between, including memory released before the end. "
  "For an operation run by several threads, the time is the average of what the threads spent in it, and the heap figures cover all of them. "
  "Nothing done by reset, warm-up, assertions, reporting or other passes is charged.",
  ["inputs", "histories"], "all sequences of time and heap steps inside and outside of the passes, baselines, thread counts and suspension points",
  "Tests measure real sleeps and allocations with wide margins and one shape each; what is charged to which pass needs exact costs and a controlled clock.",
  [CO, ST, AB], [("window around the algorithm", CO + " run_sync_pass, run_async_pass, run_iterator_pass"), ("choice of pass results", ST + ", " + AB)],
  ["measurement figures in returned analyses and in the emitted report"])

p("C20", "Reports state the measured values, sizes, signs and verdicts faithfully",
  "The report of an analysis shows, for each pass, the measured time, the set size(s) it was given, the heap usage (largest deviation from the starting level) scaled to b, KiB, MiB or GiB, with '+' exactly when the pass ended with more heap than it started with, '-' when with less and no sign when equal, and the per-element time and heap. "
  "It names exactly the time and the space verdict of the analysis, and the total memory kept or freed and the auxiliary memory of both passes. "
  "Every analysis with sizes of at least one element can be displayed without panicking. "
  "Statistics of the heap allocator, live or saved, displayed or debugged, show each figure under its own name.",
  ["inputs"], "all measurement values (heap levels up to 2^60 with differences from 1 byte up, durations from 1 ns to years), all set sizes >= 1 (below 2^31 for set-resizing ones), all verdicts, all names",
  "Tests only check that displaying does not panic; the numbers are never parsed back.",
  [TI, TY], [("Display impls", TI), ("per-n formatting", TI + " fmt_over_n"), ("verdict texts", TI + " as_*_pretty_str")], ["text of displayed analyses"])

p("C21", "A panic in user code always fails the test and never counts as a measurement",
  "If any user function (reset, warm-up, pass, operation on any thread, assertion) panics at any call, the surrounding analysis or test panics too: it neither passes, nor hangs, nor retries as if it were a slow run, and no later stage runs. "
  "The library stays usable: a following, unrelated analysis gives the same outcome as if the panic had not happened.",
  ["fault_sequences"], "all positions of an injected panic (stage, pass, element, thread, attempt) in regular, CRUD and async tests",
  "No test injects a panic into user code; positions are a product of stages, elements, threads and attempts.",
  [CO, CR, ST, AB], [("joining of scoped threads", CO + " run_iterator_pass"), ("no catch in retries", ST + ", " + AB)], ["panic or return, log of calls after the fault"])

p("C22", "Every combination of features builds and does what the features say",
  "Any set of the crate's features compiles into a working crate: 'no report' silences reports, otherwise 'report to stderr' or 'report to stdout' decides where all report text goes (and nowhere else), with none meaning silence. "
  "The tolerance is 25% if that feature is on, else 10%; without allocator metrics the global allocator is untouched and the heap level reads 0, with them every allocation of the program is seen. "
  "Turning a feature on never changes anything else, and async support is present exactly when asked for.",
  ["configurations"], "all 2^7 subsets of the features report_stdout, report_stderr, no_report, tolerance_10_percent, tolerance_25_percent, no_allocator_metrics, async",
  "The test suite is built with the default features only; documented selections such as default plus 25% tolerance are never compiled.",
  [FE, "src/lib.rs", "Cargo.toml"], [("feature selection", FE)], ["build outcome, output streams, verdict boundary, allocator statistics of a probe program"])

p("C23", "Custom measurements display at the right scale, unit and precision",
  "A displayed measurement of bytes, bytes per second, a custom unit, a custom unit per second or a duration denotes the value it was built from up to the shown precision: it uses the largest unit of its scale that does not exceed the value (sub-unit rates are scaled per minute or per hour), and zero is shown with the base unit. "
  "Displaying never fails for any finite non-negative value. "
  "Measurements of different units never mix up each other's suffixes.",
  ["inputs", "histories"], "all finite non-negative values over the whole magnitude range (durations up to 10^12 s), all unit names, and any interleaving of differently-united measurements",
  "Tests check a few dozen literals; scale boundaries and rounding are continuous and the unit cache is shared state.",
  [PM], [("scale tables", PM + " *_measurement"), ("selection and formatting", PM + " Display"), ("unit cache", PM + " custom_unit_measurement")],
  ["displayed text"], hook="exposes the crate-private constructors under --cfg big_o_verif")

p("C24", "Custom measurers nest around each pass and keep their own values",
  "Around each pass of a run, all 'before' steps run in reverse order of declaration and all 'after' steps in declaration order, each exactly once, both seeing the algorithm's data of that moment. "
  "Each 'after' step receives exactly what the 'before' step of the same measurer returned for the same pass, and its result is recorded under its own name, description and expected complexity, in declaration order. "
  "Asking for an 'after' step with no matching 'before' step is refused.",
  ["histories", "configurations"], "any number of measurers, any data, any suspension behaviour, any sequence of before/after rounds",
  "One test runs one measurer once; ordering, value routing and reuse across passes need several measurers and rounds.",
  [ME, AB], [("ordering", ME + " measure_all_before_event, measure_all_after_event"), ("value hand-over", ME + " CustomMeasurer"), ("pass placement", AB + " test_run")],
  ["log of measurer calls, recorded measurements"], hook="exposes the crate-private measurer functions and the measured run under --cfg big_o_verif")

p("C25", "Analyses are independent of each other: in sequence, nested or simultaneous",
  "Any number of analyses and tests may be executed one after the other, by user functions of another one, in several threads at the same time, or taking turns on one async runtime (which may go on with them on any of its threads). "
  "Each of them makes exactly the calls, retries and hand-overs of data it would make alone, measures for each pass the time between the start and the end of that pass, and passes or fails (naming its own limits and verdicts) accordingly. "
  "When nothing else runs at the same time, heap verdicts are those of its own passes as well -- a nested analysis being part of the pass that runs it; and any heap peak within a pass is always in its figures.",
  ["histories", "schedules", "configurations"], "all combinations of regular, async and CRUD analyses with any costs, limits and retries, nested at any stage, on any threads and in any order of steps",
  "Tests run every analysis alone, or happen to run them in parallel with verdicts too wide to notice anything.",
  [CO, CR, ST, AB, MA], [("windows of heap usage", MA + " save_point, delta_statistics"), ("no state shared by runs", CO + ", " + CR + ", " + ST + ", " + AB)], ["calls, figures, outcome of every analysis"])

p("C26", "Analyses leave nothing behind, however they end",
  "By the time an analysis or test returns, panics or has its future dropped, everything given to it was dropped exactly once: the functions, the futures they returned and the data handed over between stages. "
  "It leaves no thread running, no file open and no memory in use: executing the same analysis again and again does not make the heap grow. "
  "That is so whether it is accepted, fails (for time, after any retries, or for space), is ended by a panic of any user function at any call, or is an async one dropped at any suspension point, the delays between retries included.",
  ["histories", "fault_sequences", "configurations"], "all kinds of analyses and endings, any number of retries, threads, stages and suspensions, any position of a panic or a cancellation",
  "No test looks at what is there after an analysis ends, none cancels an async one, and leaks never make a test fail.",
  [CO, CR, ST, AB], [("ownership of functions and data across retries", AB + " test_algorithm, raw_analyse_algorithm"), ("scoped threads", CO + " run_iterator_pass"), ("collected errors of retries", CR + ", " + ST)], ["drop counts of functions, futures and data; threads, open files and heap level of the process"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
