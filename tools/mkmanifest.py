#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl"""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with fault injection (seeded search over %s)"
what = {
 'C01': "thread interleavings at every memory access, stalled threads and stores seen late, with allocation and callback failures", 'C02': "histories of calls, failures, memory reuse and thread ends",
 'C03': "failure of every allocation of each sampled call, once and sticky", 'C04': "failures of the operation, the source and the output at every point",
 'C05': "storage and transit faults on texts", 'C06': "storage and transit faults on texts", 'C07': "crash, torn and failed writes at any octet",
 'C08': "piece sizes, empty reads, reconnections and stale buffers", 'C09': "interleaved cursor moves and source read failures", 'C10': "crashes and restarts of a normalisation job",
 'C11': "phases of process life, link orders, exit paths and forks in the middle of other threads' calls", 'C12': "calls nested in callbacks at any depth", 'C13': "crash and reopen positions",
 'C14': "interleaved overwrites by several cursors and threads, crashes at any octet and failing accesses", 'C15': "histories repeated round after round, with failures and thread ends in every round", 'C16': "failures of every access of the caller's source, operation and output inside each sampled call, also with memory running out at that moment", 'C17': "histories of constructions, copies, assignments, appends, overwrites and direct changes, with allocation failures and thread ends", 'C18': "schedules of calls suspended in the caller's source, operation and output on one thread, with failures of each"}
what['C19'] = "I/O faults, crashes and restarts, process deaths, hash orders and locales of the table generators"
note = {
 'C19': "Real generators with every process they start, under a supervisor that decides each of their system calls; run again after every crash or failure. Compared with the table shipped. Sampled faults.",
 'C01': "Real library code in up to 5 real threads, one running at a time; the scheduler may switch at every memory access of the compiled code. Results against the same call alone in a fresh process; data races by vector clocks; stores seen late as the memory model allows (no load buffering). Sampled, not exhaustive.",
 'C02': "Each call of a sampled history against the same call first in a fresh process. Sampled.",
 'C03': "For each sampled call every one of its first 48 allocations fails in turn, once and from then on; the calls are sampled.",
 'C04': "Log of what the operation received against the source. Sampled failures and element kinds.",
 'C05': "Octet-exact access map of the compiled code; step bound polynomial in the length. Sampled damage. Known findings are listed and re-executed.",
 'C06': "Positions computed from the plan of damage, not from the library. Sampled damage.",
 'C07': "Independent encoder; the stored octets are watched write by write. Sampled cut points.",
 'C08': "The text sent, and the uninterrupted run, as reference. Sampled deliveries.",
 'C09': "Index model of every cursor. Sampled moves and read failures.",
 'C10': "Uninterrupted run as reference. Sampled crashes and partial replacements.",
 'C11': "Four programs (two optimisation levels, two link orders) run in every phase listed in DESIGN.md; results against main of the same program. Forks at arbitrary points of other threads' calls are simulated under the seeded scheduler.",
 'C12': "Every call against itself alone in a fresh process. Sampled nesting.",
 'C13': "Uninterrupted walk as reference; one run in two opens at every octet of its text.",
 'C14': "Index model of the text and of every cursor; the text compared octet by octet. Sampled overwrites, crashes and schedules. Overwriting with an encoding of another length, or moving a cursor that stands behind its own write, is outside the property.",
 'C15': "All memory the process obtains is counted after every round; a history counts as growing only if it still grows after 1,024 rounds or more. Sampled histories.",
 'C16': "For each sampled call every access of source, operation and output fails in turn (64 accesses of each when there are more); the calls are sampled.",
 'C17': "Model of what every string holds; all strings compared and read in four ways after every operation, graphemes against a new string of the same contents. Sampled histories.",
 'C18': "Up to six calls at a time on stacks of their own in one thread, left and continued at accesses of the caller's parts; every call against itself alone in a fresh process. Sampled schedules."}
na = {
 'P01': "Encoding and decoding one codepoint is a pure function of it: no schedule, clock, fault or interleaving. (What interrupted or damaged encoding does is C06, C07.)",
 'P02': "Constant tables looked up by a pure function; the question is whether the data are right, which no schedule or fault changes. (Concurrent and early lookups are C01, C11.)",
 'P03': "The boundaries of a text are a pure function of it. (Reopening, pieces and damage are C13, C08, C06.)",
 'P04': "The normal form of a text is a pure function of it. (Interrupted, concurrent and failing normalisation are C10, C01, C03.)",
 'P05': "The count is a pure function of the text.",
 'P06': "A property of programs decided by the compiler; nothing runs.",
 'P07': "Two constants compared; nothing runs over time. (Reading them before main is C11.)"}
ids = [json.loads(l)['id'] for l in open(here + '/properties.jsonl')]
m = dict(version=1, setup_cmd="python3 build.py",
  checks=[dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i, technique=T % what[i], level="exploration", level_note=note[i]) for i in ids if i in what],
  not_applicable=[dict(property=i, reason=na[i]) for i in ids if i in na],
  notes="No hooks in /repo: the library takes its seams as template arguments, and the simulator gets the rest (memory accesses, allocator, locks, one-time initialisation) from the compiler's instrumentation and from link-time interposition. Replay: python3 check.py replay <file>.")
assert len(m['checks']) + len(m['not_applicable']) == len(ids)
json.dump(m, open(here + '/MANIFEST.json', 'w'), indent=1); open(here + '/MANIFEST.json', 'a').write("\n")
