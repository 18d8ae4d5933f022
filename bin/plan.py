ASAN = ["-O1", "-fsanitize=address,undefined", "-fno-sanitize=vptr,null,alignment", "-fno-sanitize-recover=all"]
# __SANITIZE_THREAD__ is undefined so that the library compiles the code it ships (release decrement + acquire fence in the
# reference counter) and not its special TSan variant; harness/tsan_shim.c teaches TSan about the fence.
TSAN = ["-O1", "-fsanitize=thread", "-U__SANITIZE_THREAD__", "-D_GLIBCXX_TSAN=1", "-DVH_TSAN", "-Wno-tsan"]
# leaks: LeakSanitizer at the end of every process (a leak violates the properties that speak of release; C03 otherwise)
CONFIGS = {
    "fiber": {"fault": "FIBER", "flags": ASAN + ["-DYACLIB_VERIF"], "leaks": 1},
    "fiberns": {"fault": "FIBER", "flags": ASAN + ["-DYACLIB_VERIF"], "leaks": 1,
                "yaclib_flags": ["DISABLE_SYMMETRIC_TRANSFER"]},
    "fibernf": {"fault": "FIBER", "flags": ASAN + ["-DYACLIB_VERIF"], "leaks": 1,
                "yaclib_flags": ["DISABLE_FINAL_SUSPEND_TRANSFER"]},
    "fiberp": {"fault": "FIBER", "flags": ["-O1", "-DYACLIB_VERIF"], "leaks": 0},
    "asan": {"fault": "OFF", "flags": ASAN, "leaks": 1},
    "tsan": {"fault": "OFF", "flags": TSAN, "leaks": 0},
    "ttsan": {"fault": "THREAD", "flags": TSAN + ["-DYACLIB_VERIF"], "leaks": 0},
    "plain": {"fault": "OFF", "flags": ["-O1"], "leaks": 0},
    "thread": {"fault": "THREAD", "flags": ASAN + ["-D_GLIBCXX_ASSERTIONS"], "leaks": 1},
}
# FIBER with the compiler's -fsanitize=thread instrumentation, linked with harness/race_rt.cpp instead of ThreadSanitizer
RACE = ["-O1", "-fno-inline", "-fsanitize=thread", "-U__SANITIZE_THREAD__", "-D_GLIBCXX_TSAN=1", "-DVH_TSAN", "-DVH_RACE",
        "-DYACLIB_VERIF", "-DYACLIB_INLINE=inline", "-Wno-tsan"]
CONFIGS["race"] = {"fault": "FIBER", "flags": RACE, "leaks": 0, "race": True}
META = {"hook_commits": ["b6d952dcc9fb2169a3fcbcd3fbcc912bfa745ada"]}
FIB = ("runs the real library on its own FIBER backend under ASan+UBSan; every pick, preemption and spurious CAS failure is "
       "drawn by a seeded random-walk / PCT / native strategy; sampling, not enumeration")
PLAN = {
    "C01": {
        "technique": "runtime monitoring: randomized schedule exploration of the real code with exactly-once/delivery oracle under ASan/UBSan",
        "level": "exploration", "note": FIB,
        "rule": "distinct (scenario, schedule) hash of an execution with both a producer and a consumer",
        "assumptions": ["the fiber configuration is sequentially consistent; weaker executions come from the race configuration (happens-before detector plus stale loads)"],
        "runs": [
            {"harness": "h_handoff", "config": "fiber", "quick": 800000, "thorough": 12000000},
            {"harness": "h_handoff", "config": "asan", "quick": 12000, "thorough": 200000},
            {"harness": "h_handoff", "config": "race", "quick": 60000, "thorough": 4000000},
        ],
    },
    "C02": {
        "technique": "runtime monitoring: random pipelines executed by the real library against a reference interpreter, randomized schedules, ASan/UBSan",
        "level": "exploration", "note": FIB,
        "rule": "distinct (program, schedule) hash of a generated pipeline",
        "assumptions": ["the interpreter is the obvious sequential reading; pipelines up to 5 main steps with one level of inner asynchrony"],
        "runs": [
            {"harness": "h_pipe", "config": "fiber", "quick": 200000, "thorough": 8000000},
            {"harness": "h_pipel", "config": "fiber", "quick": 150000, "thorough": 6000000},
            {"harness": "h_forms", "config": "asan", "quick": 60000, "thorough": 3000000},
            {"harness": "h_pipe", "config": "asan", "quick": 5000, "thorough": 150000},
        ],
    },
    "C03": {
        "technique": "runtime monitoring: ledgers of payloads/functors/frames/executor references at quiescence plus ASan/LSan over the pipeline, shared and executor workloads",
        "level": "exploration", "note": FIB,
        "rule": "distinct (scenario, schedule) hash; every case ends in quiescence with all ledgers checked",
        "assumptions": ["core allocations are covered by LeakSanitizer on real threads, client objects by ledgers everywhere"],
        "runs": [
            {"harness": "h_pipe", "config": "fiber", "quick": 200000, "thorough": 8000000},
            {"harness": "h_pipel", "config": "fiber", "quick": 200000, "thorough": 8000000},
            {"harness": "h_handoff", "config": "fiber", "quick": 200000, "thorough": 6000000},
            {"harness": "h_shared", "config": "fiber", "quick": 60000, "thorough": 3000000},
            {"harness": "h_exec", "config": "fiber", "mode": "strand", "quick": 40000, "thorough": 2000000},
            {"harness": "h_exec", "config": "fiber", "mode": "pool", "quick": 40000, "thorough": 2000000},
            {"harness": "h_forms", "config": "asan", "quick": 60000, "thorough": 3000000},
            {"harness": "h_pipe", "config": "asan", "quick": 6000, "thorough": 150000},
            {"harness": "h_pipel", "config": "asan", "quick": 6000, "thorough": 150000},
            {"harness": "h_shared", "config": "asan", "quick": 3000, "thorough": 100000},
            {"harness": "h_handoff", "config": "asan", "quick": 4000, "thorough": 100000},
            {"harness": "h_exec", "config": "asan", "mode": "strand", "quick": 700, "thorough": 20000},
            {"harness": "h_exec", "config": "asan", "mode": "pool", "quick": 1000, "thorough": 20000},
            {"harness": "h_comb", "config": "fiber", "mode": "all", "quick": 60000, "thorough": 2000000},
            {"harness": "h_comb", "config": "fiber", "mode": "any", "quick": 60000, "thorough": 2000000},
            {"harness": "h_coro", "config": "fiber", "quick": 80000, "thorough": 2000000},
            {"harness": "h_wait", "config": "fiber", "quick": 60000, "thorough": 2000000},
            {"harness": "h_wg", "config": "fiber", "quick": 60000, "thorough": 2000000},
            {"harness": "h_cmutex", "config": "fiber", "mode": "mutex", "quick": 40000, "thorough": 1500000},
            {"harness": "h_cmutex", "config": "fiber", "mode": "shared", "quick": 40000, "thorough": 1500000},
            {"harness": "h_comb", "config": "asan", "mode": "all", "quick": 1500, "thorough": 50000},
            {"harness": "h_comb", "config": "asan", "mode": "any", "quick": 1500, "thorough": 50000},
            {"harness": "h_coro", "config": "asan", "quick": 1500, "thorough": 50000},
        ],
    },
    "C04": {
        "technique": "runtime monitoring: happens-before race detector (own runtime under the compiler's TSan instrumentation) with modelled stale atomic loads on randomized fiber schedules, plus ThreadSanitizer on real threads",
        "level": "exploration", "note": "race: the library's FIBER build with the shipped memory orders, vector clocks per fiber, release sequences and fences, loads may return any value the memory model still allows; tsan: real threads, harness bookkeeping relaxed, modelled acquire fence",
        "rule": "distinct (scenario, schedule or observed outcome) hash",
        "assumptions": ["stale loads stay within the modification order built by the execution (no load buffering, no values from the future); seq_cst is treated as at least acquire/release of the newest value"],
        "runs": [
            {"harness": "h_handoff", "config": "race", "quick": 60000, "thorough": 6000000},
            {"harness": "h_shared", "config": "race", "quick": 40000, "thorough": 3000000},
            {"harness": "h_exec", "config": "race", "mode": "strand", "quick": 24000, "thorough": 2000000},
            {"harness": "h_exec", "config": "race", "mode": "pool", "quick": 16000, "thorough": 1500000},
            {"harness": "h_comb", "config": "race", "mode": "all", "quick": 40000, "thorough": 3000000},
            {"harness": "h_comb", "config": "race", "mode": "any", "quick": 40000, "thorough": 3000000},
            {"harness": "h_pipe", "config": "race", "quick": 20000, "thorough": 2000000},
            {"harness": "h_pipel", "config": "race", "quick": 20000, "thorough": 2000000},
            {"harness": "h_wait", "config": "race", "quick": 60000, "thorough": 5000000},
            {"harness": "h_coro", "config": "race", "quick": 40000, "thorough": 3000000},
            {"harness": "h_cmutex", "config": "race", "mode": "mutex", "quick": 30000, "thorough": 3000000},
            {"harness": "h_cmutex", "config": "race", "mode": "shared", "quick": 30000, "thorough": 3000000},
            {"harness": "h_wg", "config": "race", "quick": 40000, "thorough": 4000000},
            {"harness": "h_handoff", "config": "tsan", "quick": 20000, "thorough": 600000},
            {"harness": "h_shared", "config": "tsan", "quick": 6000, "thorough": 200000},
            {"harness": "h_exec", "config": "tsan", "mode": "strand", "quick": 2000, "thorough": 60000},
            {"harness": "h_exec", "config": "tsan", "mode": "pool", "quick": 2000, "thorough": 60000},
            {"harness": "h_comb", "config": "tsan", "mode": "all", "quick": 4000, "thorough": 150000},
            {"harness": "h_comb", "config": "tsan", "mode": "any", "quick": 4000, "thorough": 150000},
            {"harness": "h_pipe", "config": "tsan", "quick": 3000, "thorough": 150000},
            {"harness": "h_pipel", "config": "tsan", "quick": 2000, "thorough": 100000},
            {"harness": "h_wait", "config": "tsan", "quick": 6000, "thorough": 150000},
            {"harness": "h_coro", "config": "tsan", "quick": 6000, "thorough": 150000},
            {"harness": "h_cmutex", "config": "tsan", "mode": "mutex", "quick": 4000, "thorough": 150000},
            {"harness": "h_cmutex", "config": "tsan", "mode": "shared", "quick": 4000, "thorough": 150000},
            {"harness": "h_wg", "config": "tsan", "quick": 5000, "thorough": 150000},
        ],
    },
    "C05": {
        "technique": "runtime monitoring: instrumented executors (call-xor-drop, place of execution, submission counts) under random pipelines against a reference interpreter",
        "level": "exploration", "note": FIB,
        "rule": "distinct (program, schedule) hash",
        "assumptions": ["executor rejections are injected per submission index; real pool stops are covered by chaos cases and h_exec"],
        "runs": [
            {"harness": "h_pipe", "config": "fiber", "quick": 250000, "thorough": 8000000},
            {"harness": "h_pipel", "config": "fiber", "quick": 200000, "thorough": 8000000},
            {"harness": "h_exec", "config": "fiber", "quick": 60000, "thorough": 1000000},
            {"harness": "h_exec", "config": "fiber", "mode": "strand", "quick": 100000, "thorough": 3000000},
            {"harness": "h_exec", "config": "fiber", "mode": "pool", "quick": 100000, "thorough": 3000000},
            {"harness": "h_exec", "config": "asan", "quick": 3000, "thorough": 60000},
            {"harness": "h_exec", "config": "asan", "mode": "strand", "quick": 1000, "thorough": 20000},
            {"harness": "h_exec", "config": "asan", "mode": "pool", "quick": 1500, "thorough": 20000},
            {"harness": "h_pipe", "config": "asan", "quick": 4000, "thorough": 100000},
            {"harness": "h_coro", "config": "fiber", "quick": 100000, "thorough": 3000000},
            {"harness": "h_cmutex", "config": "fiber", "mode": "mutex", "quick": 40000, "thorough": 1500000},
        ],
    },
    "C06": {
        "technique": "runtime monitoring: multi-observer SharedFuture workloads with once/never-early/moved-from monitors, randomized schedules, ASan/UBSan, TSan",
        "level": "exploration", "note": FIB,
        "rule": "distinct (scenario, schedule) hash with a fulfilling thread and at least two observer threads",
        "assumptions": ["the fiber configuration is sequentially consistent; weaker executions come from the race configuration (happens-before detector plus stale loads) and TSan"],
        "runs": [
            {"harness": "h_shared", "config": "fiber", "quick": 150000, "thorough": 5000000},
            {"harness": "h_shared", "config": "asan", "quick": 5000, "thorough": 100000},
            {"harness": "h_shared", "config": "tsan", "quick": 5000, "thorough": 100000},
            {"harness": "h_shared", "config": "race", "quick": 50000, "thorough": 3000000},
            {"harness": "h_comb", "config": "fiber", "mode": "all", "quick": 60000, "thorough": 2000000},
            {"harness": "h_comb", "config": "fiber", "mode": "any", "quick": 60000, "thorough": 2000000},
        ],
    },
    "C07": {
        "technique": "runtime monitoring: overlap/order/exactly-once monitors on Strand jobs, randomized schedules, ASan/UBSan, TSan",
        "level": "exploration", "note": FIB,
        "rule": "distinct (scenario, schedule) hash with at least two jobs",
        "assumptions": ["submission order of concurrent Submit calls is judged by real-time precedence"],
        "runs": [
            {"harness": "h_exec", "config": "fiber", "mode": "strand", "quick": 200000, "thorough": 6000000},
            {"harness": "h_exec", "config": "asan", "mode": "strand", "quick": 1500, "thorough": 40000},
            {"harness": "h_exec", "config": "tsan", "mode": "strand", "quick": 1500, "thorough": 40000},
            {"harness": "h_exec", "config": "race", "mode": "strand", "quick": 30000, "thorough": 2000000},
        ],
    },
    "C08": {
        "technique": "runtime monitoring: acceptance/drop/Wait/order monitors on pool jobs, randomized schedules, ASan/UBSan, TSan",
        "level": "exploration", "note": FIB,
        "rule": "distinct (scenario, schedule) hash with at least two jobs",
        "assumptions": ["submission order of concurrent Submit calls is judged by real-time precedence"],
        "runs": [
            {"harness": "h_exec", "config": "fiber", "mode": "pool", "quick": 200000, "thorough": 6000000},
            {"harness": "h_exec", "config": "asan", "mode": "pool", "quick": 3000, "thorough": 60000},
            {"harness": "h_exec", "config": "tsan", "mode": "pool", "quick": 3000, "thorough": 60000},
            {"harness": "h_exec", "config": "race", "mode": "pool", "quick": 20000, "thorough": 1500000},
        ],
    },
    "C09": {
        "technique": "runtime monitoring: racing completions against registration with an interval-order oracle (winner, moment, index, once) for WhenAll/Join, ASan/UBSan/LSan, TSan",
        "level": "exploration", "note": FIB,
        "rule": "distinct (scenario, schedule) hash with at least two inputs",
        "assumptions": ["completion order of overlapping fulfilments is unspecified: the oracle accepts any linearization of the recorded intervals"],
        "runs": [
            {"harness": "h_comb", "config": "fiber", "mode": "all", "quick": 300000, "thorough": 10000000},
            {"harness": "h_comb", "config": "asan", "mode": "all", "quick": 5000, "thorough": 150000},
            {"harness": "h_comb", "config": "tsan", "mode": "all", "quick": 4000, "thorough": 150000},
            {"harness": "h_comb", "config": "race", "mode": "all", "quick": 40000, "thorough": 3000000},
        ],
    },
    "C10": {
        "technique": "runtime monitoring: racing completions against registration with an interval-order oracle (winner per fail policy, moment, once) for WhenAny, ASan/UBSan/LSan, TSan",
        "level": "exploration", "note": FIB,
        "rule": "distinct (scenario, schedule) hash with at least two inputs",
        "assumptions": ["completion order of overlapping fulfilments is unspecified: the oracle accepts any linearization of the recorded intervals"],
        "runs": [
            {"harness": "h_comb", "config": "fiber", "mode": "any", "quick": 300000, "thorough": 10000000},
            {"harness": "h_comb", "config": "asan", "mode": "any", "quick": 5000, "thorough": 150000},
            {"harness": "h_comb", "config": "tsan", "mode": "any", "quick": 4000, "thorough": 150000},
            {"harness": "h_comb", "config": "race", "mode": "any", "quick": 40000, "thorough": 3000000},
        ],
    },
    "C11": {
        "technique": "runtime monitoring: blocking and timed waits of every form racing with completions and deadlines, readiness/deadline/delivery/stack monitors, randomized schedules, ASan/UBSan, TSan",
        "level": "exploration", "note": FIB,
        "rule": "distinct (scenario, schedule) hash with at least one wait",
        "assumptions": ["deadlines are judged by the library's own steady clock (virtual under FIBER)"],
        "runs": [
            {"harness": "h_wait", "config": "fiber", "quick": 600000, "thorough": 6000000},
            {"harness": "h_wait", "config": "asan", "quick": 8000, "thorough": 100000},
            {"harness": "h_wait", "config": "tsan", "quick": 8000, "thorough": 100000},
            {"harness": "h_wait", "config": "race", "quick": 60000, "thorough": 4000000},
            {"harness": "h_shared", "config": "fiber", "quick": 50000, "thorough": 1500000},
        ],
    },
    "C12": {
        "technique": "runtime monitoring: random lazy pipelines against the reference interpreter (nothing before start, once, order, cancel), randomized schedules, ASan/UBSan/LSan",
        "level": "exploration", "note": FIB,
        "rule": "distinct (program, schedule) hash of a generated Task pipeline",
        "assumptions": ["the same interpreter judges eager pipelines in C02, so lazy==eager is transitively compared"],
        "runs": [
            {"harness": "h_pipel", "config": "fiber", "quick": 400000, "thorough": 12000000},
            {"harness": "h_pipel", "config": "asan", "quick": 8000, "thorough": 200000},
            {"harness": "h_coro", "config": "fiber", "quick": 120000, "thorough": 3000000},
            {"harness": "h_coro", "config": "asan", "quick": 2000, "thorough": 60000},
        ],
    },
    "C13": {
        "technique": "runtime monitoring: random coroutine programs over every awaitable, step/outcome/place/frame monitors, randomized schedules, ASan/UBSan/LSan, TSan, with and without symmetric transfer",
        "level": "exploration", "note": FIB,
        "rule": "distinct (program, schedule) hash of an execution that resumed at least one coroutine step",
        "assumptions": ["programs up to 3 roots, depth 3, 4 steps per coroutine; rejecting executors and pools stopped mid-way included"],
        "runs": [
            {"harness": "h_coro", "config": "fiber", "quick": 500000, "thorough": 6000000},
            {"harness": "h_coro", "config": "fiberns", "quick": 200000, "thorough": 3000000},
            {"harness": "h_coro", "config": "fibernf", "quick": 0, "thorough": 3000000},
            {"harness": "h_coro", "config": "asan", "quick": 8000, "thorough": 100000},
            {"harness": "h_coro", "config": "tsan", "quick": 6000, "thorough": 100000},
            {"harness": "h_coro", "config": "race", "quick": 40000, "thorough": 2000000},
            {"harness": "h_wg", "config": "fiber", "quick": 60000, "thorough": 2000000},
            {"harness": "h_wait", "config": "fiber", "quick": 60000, "thorough": 2000000},
            {"harness": "h_shared", "config": "fiber", "quick": 40000, "thorough": 1500000},
        ],
    },
    "C14": {
        "technique": "runtime monitoring: overlap/FIFO/grant/place monitors on coroutine critical sections for all Mutex options, randomized schedules, ASan/UBSan, TSan",
        "level": "exploration", "note": FIB,
        "rule": "distinct (scenario, schedule) hash with at least two grants",
        "assumptions": ["arrival order is judged only when the queueing of one request provably precedes the start of the other"],
        "runs": [
            {"harness": "h_cmutex", "config": "fiber", "mode": "mutex", "quick": 250000, "thorough": 8000000},
            {"harness": "h_cmutex", "config": "fiberns", "mode": "mutex", "quick": 80000, "thorough": 3000000},
            {"harness": "h_cmutex", "config": "asan", "mode": "mutex", "quick": 4000, "thorough": 100000},
            {"harness": "h_cmutex", "config": "tsan", "mode": "mutex", "quick": 3000, "thorough": 100000},
            {"harness": "h_cmutex", "config": "race", "mode": "mutex", "quick": 30000, "thorough": 3000000},
        ],
    },
    "C15": {
        "technique": "runtime monitoring: overlap/grant monitors on exclusive and shared coroutine sections for all SharedMutex options, randomized schedules, ASan/UBSan, TSan",
        "level": "exploration", "note": FIB,
        "rule": "distinct (scenario, schedule) hash with at least two grants",
        "assumptions": ["liveness: every request is granted when the finite workload ends (deadlock detection of the fiber scheduler, hang limit on threads)"],
        "runs": [
            {"harness": "h_cmutex", "config": "fiber", "mode": "shared", "quick": 300000, "thorough": 10000000},
            {"harness": "h_cmutex", "config": "asan", "mode": "shared", "quick": 4000, "thorough": 100000},
            {"harness": "h_cmutex", "config": "tsan", "mode": "shared", "quick": 3000, "thorough": 100000},
            {"harness": "h_cmutex", "config": "race", "mode": "shared", "quick": 30000, "thorough": 3000000},
        ],
    },
    "C16": {
        "technique": "runtime monitoring: never-early/exactly-once/late-waiter/place monitors over WaitGroup and OneShotEvent workloads, randomized schedules, ASan/UBSan/LSan, TSan",
        "level": "exploration", "note": FIB,
        "rule": "distinct (scenario, schedule) hash with at least one waiter",
        "assumptions": ["Add only while the caller holds a part of the count; Call/Set of an event from one thread (both documented)"],
        "runs": [
            {"harness": "h_wg", "config": "fiber", "quick": 300000, "thorough": 10000000},
            {"harness": "h_wg", "config": "asan", "quick": 5000, "thorough": 150000},
            {"harness": "h_wg", "config": "tsan", "quick": 5000, "thorough": 150000},
            {"harness": "h_wg", "config": "race", "quick": 40000, "thorough": 4000000},
        ],
    },
    "C18": {
        "technique": "runtime monitoring: lock/wait/notify/timed/join/sleep/thread-local workloads on the fiber replacements against an std-contract monitor (owner model, possible-holder intervals, virtual deadlines), randomized schedules, ASan/UBSan",
        "level": "exploration", "note": FIB,
        "rule": "distinct (scenario, schedule) hash",
        "assumptions": ["deadlines are judged by the virtual clock; the same harness runs on the std types (real threads) to validate the oracle"],
        "runs": [
            {"harness": "h_std", "config": "fiber", "quick": 300000, "thorough": 10000000},
            {"harness": "h_std", "config": "asan", "quick": 300, "thorough": 10000},
        ],
    },
    "C19": {
        "technique": "runtime monitoring: differential execution of random operation sequences on yaclib_std::atomic/atomic_flag and std::atomic in both fault-injection backends under ASan/UBSan",
        "level": "exploration", "note": "both backends run single-threaded sequences with injected yields/sleeps and spurious weak-CAS failures; every result and the stored value is compared after each operation; sampling",
        "rule": "distinct (type, operation sequence) hash",
        "assumptions": ["std::atomic of the installed libstdc++ is the reference; wait/notify (disabled futex) is out of scope"],
        "runs": [
            {"harness": "h_atomic", "config": "fiber", "quick": 1500000, "thorough": 30000000},
            {"harness": "h_atomic", "config": "thread", "quick": 400000, "thorough": 8000000},
        ],
    },
    "C17": {
        "technique": "runtime monitoring: whole traces (switches, virtual time, draw count, injector state, client results) of random programs compared between runs, processes and restored runs of the native FIBER scheduling",
        "level": "exploration", "note": "each case is executed 4-6 times in one process and twice in another one; memory layout, interposed programs and static state are perturbed in between; sampling",
        "rule": "distinct (program, configuration, trace) hash",
        "assumptions": ["the program itself is deterministic: its own choices come from a generator of its own"],
        "runs": [
            {"harness": "h_repro", "config": "fiberp", "quick": 200000, "thorough": 1500000},
            {"harness": "h_repro", "config": "fiber", "quick": 15000, "thorough": 100000},
        ],
    },
    "C20": {
        "technique": "runtime monitoring: counting global operator new around every step, combinator, wait, strand submission and co_await of random programs",
        "level": "exploration", "note": "random pipeline shapes, input counts up to 1500, all wait forms; the counter is exact, the shapes are sampled",
        "rule": "distinct (kind, shape) hash",
        "assumptions": ["client payloads and functors do not allocate, so every counted allocation is the library's"],
        "runs": [
            {"harness": "h_alloc", "config": "plain", "quick": 600000, "thorough": 20000000},
        ],
    },
}
