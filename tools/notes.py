"""technique and level note of every check."""
TODO = "check not built yet"
SEQ = ("Random search, no proof: millions of generated cases per run, steered by code coverage, "
       "with AddressSanitizer and bounds checks on; trusts gcc, the sanitizers and the reference model.")
FIB = ("Random search over schedules at the granularity of every memory access, sequentially "
       "consistent: reorderings of a weak memory model are not explored. Trusts the fiber "
       "scheduler and gcc's -fsanitize=thread instrumentation.")
NOTES = {
 "C01": ("model-based property testing against a bounded deque", SEQ),
 "C02": ("metamorphic property testing: inspections inserted into random histories, with sanitizers", SEQ),
 "C03": ("stateful property testing of several buffers against one model each", SEQ),
 "C04": ("stateful property testing of writers and buffers against a model, virtual clock", SEQ),
 "C05": ("property testing over random thread schedules (controlled scheduler) against a linearised model", FIB),
 "C06": ("model-based property testing of readers against the history of pushes", SEQ),
 "C07": ("model-based property testing of gap detection against the history of pushes", SEQ),
 "C08": ("property testing over random reader/writer schedules (controlled scheduler), history invariant", FIB),
 "C09": ("model-based property testing of the trace cursor", SEQ),
 "C10": ("differential testing of connectives against Kleene tables; generated programs for compositions", SEQ),
 "C11": ("differential testing of random formulas and traces against a reference evaluator", SEQ),
 "C12": ("differential testing of random past formulas and traces against a reference evaluator", SEQ),
 "C13": ("differential testing of durations against an exact integral", SEQ),
 "C14": ("metamorphic property testing: verdicts of a growing trace", SEQ),
 "C15": ("metamorphic property testing: repeated and reordered evaluation, state compared", SEQ),
 "C16": ("metamorphic property testing: relaid, shifted and renamed traces", SEQ),
 "C19": ("differential testing of the time macros against 128-bit integer arithmetic", SEQ),
 "C20": ("model-based property testing of events and their comparisons", SEQ),
 "C17": ("stateful property testing of tasks and monitors over random schedules, wrapped pthreads and virtual clock", FIB),
 "C18": ("property testing of release times over random schedules, costs and stalls on a virtual clock", FIB),
 "C21": ("differential testing of monitors' verdicts against a reference evaluator over random schedules and push times on a virtual clock", FIB),
 "C23": ("property testing of the threads that tasks and monitors request and run in, over random schedules", FIB),
 "C22": ("differential testing: random histories run by sixteen build variants in one program", 
         "Random search, no proof. Variants for other platforms are compiled for this host with stand-in headers; the instruction sets themselves are not exercised."),
}
