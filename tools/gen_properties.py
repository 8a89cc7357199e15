#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in (state or [])],
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": observe or [], "hook_needed": hook}})

prop("C01", "The buffer is a bounded double-ended queue that overwrites the oldest",
 "For every capacity N>=1 and every sequence of push, pull and pop on a buffer, the buffer behaves as a double-ended queue holding at most N events: push appends (and, exactly when N events are already held, discards exactly the oldest one and reports overflow), pull removes and returns the oldest, pop removes and returns the newest, each event with the data and timestamp it was pushed with. On an empty buffer pull and pop report EMPTY and change nothing; otherwise they succeed, and the length is always the number of events held. A successful operation reports OK while at most one writer is attached to the buffer and UNSAFE when two or more are.",
 ["histories", "inputs"], "all capacities, all operation sequences, all event values",
 "The two buffer tests run one fixed sequence each at capacity 100, wrapping the ring once; ring arithmetic errors that need another capacity, another phase of the ring or a mix of pull and pop are not sampled.",
 ["src/circularbuffer.h", "src/event.h"],
 [("ring index increment/decrement with wrap at N+1 slots", "src/circularbuffer.h increment_top/decrement_top/increment_bottom"),
  ("push discards on top==bottom", "src/circularbuffer.h push")],
 [("top/bottom", "next free slot / oldest event", "src/atomic_compat.h ATOMIC_TYPE"), ("writer", "number of attached writers", "src/circularbuffer.h")],
 ["return codes, event out-parameters, length()"])

prop("C02", "Inspection is exact, free of side effects and stays inside the buffer",
 "Reading by slot, querying the state or length, printing, and asking a reader for its gap status or length never change what any later operation returns. The slots from the reported bottom up to, not including, the reported top (wrapping after the last of the N+1 slots) hold exactly the held events from oldest to newest, with the reported bottom timestamp equal to that of the bottom slot and the reported top timestamp equal to that of the top slot; a slot-wise read or write succeeds exactly for slot numbers 0..N, a write to a slot is what a later read of it returns, and any other slot number is refused as out of bound and changes nothing. No operation, whatever its arguments, touches memory outside the objects involved.",
 ["histories", "inputs"], "all capacities, all operation sequences mixed with inspection calls at any point, all slot numbers including out-of-range ones",
 "Tests read a handful of in-range slots; none passes an out-of-range slot, none compares a run with and without inspections, and none runs under a memory checker.",
 ["src/circularbuffer.h", "src/reader.h"],
 [("bound check of read/write", "src/circularbuffer.h read, write"), ("state()", "src/circularbuffer.h state"), ("debug()", "src/circularbuffer.h debug")],
 None, ["state(b,t,ts,ts_t), read(), write(), debug(), length()"])

prop("C03", "Assigning a buffer makes an independent copy",
 "After one buffer is assigned to another, the target holds exactly the same events in the same order as the source. From then on the two are independent: no operation on one (nor destroying it, nor the writers attached to it) changes what the other holds or returns, and both remain fully usable, including through readers and writers attached before or after the copy.",
 ["histories"], "all interleavings of operations on several buffers with assignments between them, including self-assignment, re-assignment and destruction of the source",
 "The only test that copies a buffer checks the two lengths right after the copy and never touches either buffer independently afterwards.",
 ["src/circularbuffer.h", "src/atomic_compat.h"],
 [("operator=", "src/circularbuffer.h operator="), ("page -> state indirection", "src/atomic_compat.h ATOMIC_PAGE")])

prop("C04", "Writers used one after another append like a single ideal producer",
 "For every sequence of pushes through any number of writers attached to one buffer, taking turns in any order, created and destroyed at any point and interleaved with direct pushes, pulls and pops, the buffer holds exactly the last pushed events that still fit, in push order, and push reports overflow exactly when the buffer was full. A stamping push stores the current clock reading as the event's timestamp with the pushed data unchanged; the non-stamping push stores the event exactly as given. Every push returns.",
 ["histories", "inputs"], "all capacities, all sequences over up to several writers with arbitrary lifetimes",
 "One test pushes 111 events through one writer that lives as long as the buffer; writer turn-taking, writer destruction and writers attached after other traffic are never exercised.",
 ["src/writer.h", "src/atomic_compat.h", "src/circularbuffer.h"],
 [("copy-modify-swap of the state record", "src/atomic_compat.h ATOMIC_PUSH"), ("push / push_all", "src/writer.h")],
 [("page", "reference to the current state record plus a counter", "src/atomic_compat.h")])

prop("C05", "Concurrent pushes are atomic: none lost, duplicated, torn or stuck",
 "When several writers push into one buffer concurrently, then under every interleaving of their steps every push completes as long as the other writers keep being scheduled. Afterwards the buffer holds exactly the most recent N of all pushed events in one total order that keeps each writer's own order, none lost, duplicated or torn; overflow was reported by exactly as many pushes as there were events discarded; and timestamps stamped by the library never decrease from oldest to newest.",
 ["schedules", "histories"], "all interleavings (sequentially consistent, at the granularity of single memory accesses) of pushes by up to 4 writers on buffers of any capacity",
 "The one concurrent test uses a single writer, is flaky and is excluded from the stable set; an OS scheduler practically never hits the few-instruction windows that matter.",
 ["src/writer.h", "src/atomic_compat.h"],
 [("compare-and-swap publish loop", "src/atomic_compat.h ATOMIC_PUSH"), ("wait for the previous event to be stored", "src/atomic_compat.h ATOMIC_PUSH complete:")],
 [("private state record of a writer", "never written while it is the buffer's current one", "src/writer.h ATOMIC_PAGE_SWAP")],
 ["buffer content after all writers finished, return codes, completion"])

prop("C06", "A reader delivers in order, at most once, and never loses silently",
 "For every history of pushes and reader operations with strictly increasing timestamps, the events a reader pulls as AVAILABLE are pushed events with their exact data and timestamp, in push order and each at most once. If an event the reader has not pulled was overwritten or discarded, the reader reports it (GAP from synchronise or READER_OVERFLOW from pull) before it delivers any later event as available. READER_OVERFLOW is reported only when the next event the reader has not pulled is no longer held. Readers do not influence the buffer or each other.",
 ["histories", "inputs"], "all capacities, all sequences of pushes (direct or through writers), synchronise, pull by several readers",
 "The reader test synchronises once and then pulls nothing; in-order delivery across overflow, pulling without re-synchronising and several readers are not covered by any stable test.",
 ["src/reader.h", "src/circularbuffer.h"],
 [("reader-local bottom/top/timestamp", "src/reader.h pull, synchronize"), ("gap detection by timestamp", "src/reader.h gap")],
 [("timestamp", "time of the next event the reader expects", "src/reader.h")])

prop("C07", "Synchronising is complete and reports a gap exactly when something was lost",
 "Before a reader is synchronised, and after synchronising it first on an empty buffer, its length is zero and there is nothing to pull. While timestamps strictly increase: after its first synchronisation on a non-empty buffer, synchronising again while the buffer holds events returns NO_GAP if the next event the reader has not pulled is still held by the buffer and GAP if it is not; either way every retained unread event is then readable. So with no further pushes, successive pulls deliver all retained unread events except the newest in order and then report UNAVAILABLE, the reader's length is the number of events still to read, and successive pops deliver them newest first until the reader's length is zero.",
 ["histories"], "all histories with strictly increasing timestamps over all capacities, including every phase of the ring and losses of exactly one event or of whole laps",
 "The single test of synchronise checks its very first call only; the documented use (counting gaps while data keeps arriving) is in an example that is never run.",
 ["src/reader.h"],
 [("synchronize()", "src/reader.h synchronize"), ("pop/pull local bounds", "src/reader.h pull, pop")],
 [("top, bottom", "reader-local window on the ring", "src/reader.h")])

prop("C08", "Readers running concurrently with a writer see only complete events in order",
 "Under every interleaving of the steps of writers pushing and readers synchronising and pulling, each event a reader is given as AVAILABLE is one that was pushed, untorn, and comes later in push order than everything that reader was given before. Whenever it skips events, a GAP or READER_OVERFLOW was reported in between and the skipped events had been discarded from the buffer. Readers never block or disturb writers, and every reader operation returns once writers stop, even in the middle of a push.",
 ["schedules", "histories"], "all sequentially consistent interleavings at memory-access granularity of up to 2 writers and 2 readers, strictly increasing stamps",
 "The only test with concurrent reader and writer fails one time in five on the original code and is excluded; OS scheduling hardly reaches a reader suspended between two loads while the writer laps it.",
 ["src/reader.h", "src/circularbuffer.h", "src/atomic_compat.h"],
 [("state snapshot", "src/atomic_compat.h ATOMIC_TRIPLE, src/circularbuffer.h state"), ("slot is stored after it was published", "src/writer.h push"), ("overrun check", "src/reader.h pull")])

prop("C09", "A trace cursor reaches the event in force at t from any position",
 "On a synchronised trace with strictly increasing timestamps, positioning at time t succeeds exactly when two consecutive retained events e, e' satisfy time(e) <= t < time(e'), and then the current event is e, whatever position the cursor had before. Stepping forward and back moves by exactly one event and is refused only past the newest end and before the oldest event; reading current, next and previous returns the events at those places and reports unavailable where there is none; remaining and consumed counts add up to the trace length.",
 ["histories", "inputs"], "all traces at every offset and wrap of the ring, all cursor positions, all t",
 "Tests position once, forward, from the first slot of a buffer that has never wrapped; the TODO file lists wrapped traces as failing.",
 ["src/rmtld3/reader.h"],
 [("set(t) backward then forward scan", "src/rmtld3/reader.h set"), ("wrap-around neighbours", "src/rmtld3/reader.h read_next, read_previous, increment_cursor, decrement_cursor")],
 [("cursor", "current event of the trace", "src/rmtld3/reader.h")])

prop("C10", "Connectives are Kleene's three-valued logic and compose freely",
 "Negation, conjunction, disjunction, the conversions between three- and four-valued verdicts, the strict comparison of durations (unknown if either side is unknown) and duration addition and multiplication (unknown if either side is unknown) compute exactly strong Kleene logic and exact integer arithmetic. They do so for every operand expression, in particular when one connective is applied directly to another to any depth.",
 ["inputs", "programs"], "all operand values and all expression trees over the connectives",
 "Tests use each connective on plain variables only, for a few of the 9 operand pairs.",
 ["src/rmtld3/rmtld3.h"],
 [("b3_or, b3_and, b3_not, b3_to_b4, b4_to_b3, b3_lessthan, sum_dur, mult_dur", "src/rmtld3/rmtld3.h")])

prop("C11", "Future-time verdicts equal the three-valued pointwise semantics",
 "For every trace with strictly increasing timestamps, every instant t that two retained events enclose and every nesting of proposition, connectives, bounded until, bounded always, always/eventually at an exact distance b, and unbounded eventually, the verdict equals the reference semantics: a proposition is true or false by the event in force and unknown while no successor is retained; until[<b] inspects the event in force and then each later event before t+b, taking at the first event where the right operand is not false the right operand's value, else where the left operand is not true the left operand's value, else false once an event at or after t+b is seen and unknown if the trace ends before; always[<b] is its dual; the exact-distance operators take the operand at the event in force at t+b and are unknown until an event after t+b is retained; unbounded eventually takes the first non-false value and is otherwise unknown. Operands are evaluated at the timestamp of the inspected event, and until's in-between sampling option gives the same verdict whenever both operands depend only on the event in force.",
 ["inputs", "programs"], "all traces, formulas, bounds and evaluation instants (enclosed by retained events)",
 "Eight tests evaluate one formula on one six-event trace at its first timestamp.",
 ["src/rmtld3/formulas.h", "src/rmtld3/reader.h"],
 [("prop", "src/rmtld3/formulas.h prop"), ("until_less fold", "src/rmtld3/formulas.h until_less"),
  ("eventually_equal, always_equal, always_less, eventually_less_unbounded", "src/rmtld3/formulas.h")])

prop("C12", "Past-time verdicts equal the three-valued pointwise semantics",
 "For every trace, instant and formula as for the future operators, since[<b] inspects, going back from the event in force, the events with timestamp strictly between t-b and t and yields at the first event where the right operand is not false the right operand's value, else where the left operand is not true the left operand's value, and false when the window or the retained past is exhausted; historically[<b] is its dual. Past-eventually and historically at an exact distance b>0 take the operand at the event in force at t-b (or at the oldest retained event if none is that old), and are unknown when no event precedes t.",
 ["inputs", "programs"], "all traces, formulas (also nested with future operators), bounds and instants",
 "Two tests, one trace each; historically and past operators nested with others, windows that close before the trace does, and events exactly on the window border are untested.",
 ["src/rmtld3/formulas.h", "src/rmtld3/reader.h"],
 [("since_less fold", "src/rmtld3/formulas.h since_less"), ("pasteventually_equal, historically_equal, historically_less", "src/rmtld3/formulas.h")])

prop("C13", "A duration term is the exact integral of its operand over the window",
 "For every trace, instant t enclosed by retained events and window length b, the duration of a formula over [t,t+b) equals the sum, over the events in force during that window, of the overlap of the event's interval with the window, counted where the formula holds at the event's timestamp. The result is flagged unknown exactly when the formula is unknown at an event inspected from the one in force at t up to t+b inclusive, or no event after t+b is retained; otherwise it lies between 0 and b.",
 ["inputs", "programs"], "all traces, instants, window lengths and operand formulas, alone, compared with constants and inside other formulas",
 "One test, one trace, one window that spans six events and starts on an event.",
 ["src/rmtld3/terms.h"],
 [("duration_term", "src/rmtld3/terms.h duration_term")])

prop("C14", "A definite verdict is final",
 "If a formula evaluates to true or false at t on the events retained so far, it keeps that verdict at t however the trace continues, as long as no retained event is overwritten; the same holds for a duration not flagged unknown. Only unknown verdicts may change.",
 ["histories", "programs", "inputs"], "all formulas over all operators, all traces and all extensions of them by later events",
 "Tests evaluate a single prefix of a trace; no test compares the verdicts of a trace and its extension.",
 ["src/rmtld3/formulas.h", "src/rmtld3/terms.h"],
 [("unknown at the end of the trace", "src/rmtld3/formulas.h prop, until_less, eventually_equal, eventually_less_unbounded; src/rmtld3/terms.h")])

prop("C15", "Evaluation leaves the trace exactly as it found it",
 "Evaluating any formula or duration term changes neither the cursor, the reader's window nor the buffer, so evaluating again, evaluating other formulas in between or in another order gives the same verdicts. Evaluation always terminates and reads only memory of the trace and its buffer.",
 ["histories", "programs", "inputs"], "all formulas, traces, instants and cursor positions, including t outside the trace and empty traces",
 "Every test evaluates once on a fresh trace and looks only at the verdict.",
 ["src/rmtld3/formulas.h", "src/rmtld3/terms.h", "src/rmtld3/reader.h"],
 [("cursor saved and restored around every operand", "src/rmtld3/formulas.h, src/rmtld3/terms.h")])

prop("C16", "Verdicts depend only on the logical trace, not on where it lies or is dated",
 "The verdict at t is a function of the retained events alone: it is the same wherever in the ring the trace begins, wrapped or not, whatever stale events earlier traffic left in the other slots, whatever the buffer's spare capacity, and wherever the cursor stood before positioning at t. Shifting all timestamps and t by the same amount does not change it, and renaming the propositions consistently in trace and formula does not either.",
 ["inputs", "programs", "configurations"], "all formulas and traces, all ring offsets, capacities and stale contents, all shifts keeping times non-negative",
 "All tests store the trace at slot 0 of a fresh buffer of capacity 100; the TODO file notes that traces that overlap the end of the ring fail.",
 ["src/rmtld3/reader.h", "src/rmtld3/formulas.h", "src/reader.h"],
 [("wrap-around cursor moves", "src/rmtld3/reader.h"), ("synchronize on wrapped rings", "src/reader.h synchronize")])

prop("C17", "Monitors run only between enable and disable, and always stop on request",
 "A monitor's body is never executed before it is enabled; from shortly after enabling until it is disabled it is reported as running and keeps being executed periodically, whatever spurious wake-ups occur and however often it is enabled again. Disabling, at any moment including before it ever started, makes it finish: at most one more execution begins, joining returns, and nothing is executed afterwards; several monitors do not affect each other.",
 ["schedules", "histories", "fault_sequences"], "all interleavings of the monitor thread with enable, disable, query and join calls (also before the thread first runs), all spurious wake-ups",
 "Tests enable one monitor immediately, let it run for seconds and disable it once, under the OS scheduler, which practically never delays the creating thread or wakes a waiter spuriously.",
 ["src/periodicmonitor.h", "src/task_compat.h"],
 [("status word polled by the task loop", "src/task_compat.h task::task"), ("enable/disable/isRunning/join", "src/periodicmonitor.h")],
 [("st", "task status", "src/task_compat.h")], ["calls of the body, isRunning(), join()"])

prop("C18", "Jobs are released at a fixed rate without drift",
 "After activation the k-th execution of a periodic task or monitor starts no earlier than k periods after activation, and no later than that release time if the preceding execution is over, independent of how long executions take as long as they fit; executions that overrun delay but never cancel later releases. The period reported is always the last one set, and a changed period governs every release computed after the change; spurious wake-ups never start an execution early.",
 ["inputs", "histories", "fault_sequences"], "all periods (microseconds to hours), execution times, period changes and spurious wake-ups, under a virtual clock",
 "Tests run one monitor at 200 ms in real time and check only final verdicts; release times are never observed.",
 ["src/task_compat.h", "src/time_compat.h", "src/periodicmonitor.h"],
 [("absolute next release time advanced by the period", "src/task_compat.h task loop"), ("period conversion", "src/time_compat.h useconds_t2timespec")])

prop("C19", "Time arithmetic is exact and normalised",
 "For all normalised times, addition, subtraction and comparison of second/nanosecond pairs agree with exact integer arithmetic on nanoseconds and give normalised results, also when the result overwrites an operand; conversion of a microsecond period is exact for its whole range; clearing and testing for zero agree. The clock reading used for timestamps is exactly seconds times 10^9 plus nanoseconds of the system clock.",
 ["inputs"], "all second/nanosecond pairs (also negative differences), all microsecond values, all clock readings",
 "No test calls these operations except through a monitor running at one fixed period.",
 ["src/time_compat.h"],
 [("timespecadd, timespecsub, timespeccmp, timespecclear, timespecisset, useconds_t2timespec, clockgettime", "src/time_compat.h")])

prop("C20", "Events compare coherently and keep what they are given",
 "An event returns exactly the data and timestamp last given to it, by construction, assignment, copy through a pointer, or setters, each setter leaving the other part alone. Order comparisons between events, and all comparisons between an event and a time on either side, agree with integer comparison of timestamps; two events are equal exactly when both timestamp and data are equal, and exactly one of == and != holds for any two events.",
 ["inputs"], "all data values, all timestamps and all argument orders",
 "Tests read events back but hardly compare any; the operators are otherwise exercised only inside the push loop.",
 ["src/event.h"],
 [("comparison operators, set/setTime/setData, operator=(const Event*)", "src/event.h")])

prop("C21", "A running monitor reports the verdict of what the instrumented system did",
 "When an instrumented system pushes events at arbitrary times while a periodic monitor synchronises, positions its trace at its start instant and evaluates a formula, then under every interleaving and timing, as long as the buffer is not overrun, each verdict the monitor publishes is correct for the events pushed so far: a definite verdict equals the verdict of the complete event history and never changes afterwards. After the last push and one more period the published verdict equals the reference verdict of the whole trace.",
 ["schedules", "histories", "programs", "inputs"], "all push times, periods, start instants, formulas and memory-access-level interleavings of pushing and evaluation, under a virtual clock",
 "Three tests check the final verdict of two formulas for one timing each, in real time.",
 ["src/periodicmonitor.h", "src/task_compat.h", "src/writer.h", "src/reader.h", "src/rmtld3/formulas.h", "src/rmtld3/reader.h"],
 [("monitor loop", "src/task_compat.h"), ("synchronize + set + formula", "src/reader.h, src/rmtld3/reader.h")])

prop("C22", "Every build configuration computes the same results",
 "The same history of buffer, writer, reader, trace and formula operations gives the same statuses, events and verdicts in the hardware-synthesis, RISC-V and ARM variants of the library and with any debug output level enabled as in the plain x86-64 build, for times that fit the variant's time type. Each of these configurations compiles for every part it offers.",
 ["configurations", "histories", "programs", "inputs"], "the variants selected by the library's macros that can be compiled on the host, over all histories",
 "Only the x86-64 variant at one debug level is compiled by the stable tests; signed and unsigned time types and the non-atomic state access differ between variants.",
 ["src/atomic_compat.h", "src/time_compat.h", "src/debug_compat.h", "src/writer.h", "src/circularbuffer.h", "src/rmtld3/formulas.h", "src/rmtld3/rmtld3.h"],
 [("configuration macros", "src/atomic_compat.h, src/time_compat.h, src/debug_compat.h")])

prop("C23", "Every task and monitor gets the thread, payload and name it was constructed for",
 "Constructing a task or monitor requests exactly one thread, which can be joined and has the scheduling policy and priority the object was constructed with (for every policy and priority valid for the system) as its own, whatever other tasks and monitors were constructed before or after it. Every execution of its job happens in that thread and with its own payload, and the object keeps its period and its name: a monitor's id is exactly the characters of its name, of any length.",
 ["inputs", "histories", "schedules"], "all valid policies, priorities, periods and names, any number of tasks and monitors at once, under random schedules",
 "No test gives a monitor a policy or priority, and none looks at the thread that was created.",
 ["src/task_compat.h", "src/periodicmonitor.h"],
 [("create_task", "src/task_compat.h"), ("constructors, id", "src/periodicmonitor.h")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
