import concurrent.futures as cf
import core, scenario

Q = "quick"


def c05(res, tier):
    q = tier == Q
    b = core.build_all(res, ["dbg", "asan", "miri"] + ([] if q else ["rel"]), "w_conts")
    core.jobs(res, [
        dict(engine="dbg", args=["conts", "--iters", "100000000"], shards=3, millis=8000 if q else 150000),
        dict(engine="asan", args=["conts", "--iters", "100000000"], shards=2, millis=8000 if q else 150000, seed_off=17),
        dict(engine="miri", args=["conts", "--iters", "100000000", "--steps", "12"], shards=4 if q else 8, millis=15000 if q else 240000, seed_off=13),
    ] + ([] if q else [dict(engine="rel", args=["conts", "--iters", "100000000", "--steps", "120"], shards=3, millis=150000, seed_off=19)]), b)
    return core.finish(res, "exploration", "one evaluation = one operation on an FFI-safe owner compared with a plain model of its contents, buffer, capacity and element drops; distinct = distinct (container, element type, operation, length/capacity class, outcome) states",
                       ["construct", "convert", "clone", "mutate", "mutate_panicked", "drop", "read", "write", "format", "clone_panicked", "drop_panicked", "drop_elsewhere"],
                       min_events={"construct": 1000, "convert": 1000, "clone": 500, "mutate": 500, "mutate_panicked": 50, "drop": 1000, "opaque": 200, "pointer": 200})


def c06(res, tier):
    q = tier == Q
    b = core.build_all(res, ["dbg", "rel", "miri"] + ([] if q else ["asan"]), "w_views")
    core.jobs(res, [
        dict(engine="dbg", args=["views", "--iters", "100000000"], shards=3, millis=8000 if q else 120000),
        dict(engine="rel", args=["views", "--iters", "100000000"], shards=2, millis=8000 if q else 120000, seed_off=7),
        dict(engine="miri", args=["views", "--iters", "100000000", "--steps", "8"], shards=3 if q else 8, millis=12000 if q else 200000, seed_off=13),
    ] + ([] if q else [dict(engine="asan", args=["views", "--iters", "100000000"], shards=3, millis=120000, seed_off=17)]), b)
    return core.finish(res, "exploration", "one evaluation = one view (or pair of views) compared with the Rust slice or string it was made from; distinct = distinct (flavour, element type, length class, outcome) states",
                       ["shared_view", "exclusive_view", "owned_view", "text_view", "null_view", "compare"],
                       min_events={"shared_view": 500, "plain_view": 500, "exclusive_view": 500, "owned_view": 500, "text_view": 500, "null_view": 100, "compare": 500})


def c07(res, tier):
    q = tier == Q
    b = core.build_all(res, ["dbg", "asan", "miri"] + ([] if q else ["rel"]), "w_charp")
    core.jobs(res, [
        dict(engine="dbg", args=["charp", "--iters", "100000000"], shards=3, millis=8000 if q else 120000),
        dict(engine="asan", args=["charp", "--iters", "100000000"], shards=2, millis=8000 if q else 120000, seed_off=17),
        dict(engine="miri", args=["charp", "--iters", "100000000", "--steps", "8"], shards=3 if q else 8, millis=12000 if q else 200000, seed_off=13),
    ] + ([] if q else [dict(engine="rel", args=["charp", "--iters", "100000000"], shards=3, millis=120000, seed_off=19)]), b)
    return core.finish(res, "exploration", "one evaluation = one construction, reading or comparison of a C string compared with the Rust text (and with libc's strlen); distinct = distinct (route, length class, NUL placement, outcome) states",
                       ["accepted", "refused", "refused_not_utf8", "read", "compare", "exhaustive_small", "literal"],
                       min_events={"accepted": 1000, "refused": 500, "read": 1000, "compare": 500})


def mt(res, tier, feat, one, many, rule, key, min_events, foreign=None):
    q = tier == Q
    other = foreign and cf.ThreadPoolExecutor(1).submit(foreign, q)
    b = core.build_all(res, ["dbg", "tsan", "miri"] + ([] if q else ["asan", "rel"]), feat)
    big = ["--iters", "100000000"]
    core.jobs(res, [
        dict(engine="dbg", args=[one] + big, shards=3, millis=8000 if q else 150000),
        dict(engine="dbg", args=[many] + big, shards=1, millis=6000 if q else 100000, seed_off=3),
        dict(engine="tsan", args=[many] + big, shards=2, millis=8000 if q else 200000, seed_off=4),
        dict(engine="tsan", args=[one] + big, shards=1, millis=6000 if q else 100000, seed_off=5),
        dict(engine="miri", args=[one] + big, shards=3 if q else 8, millis=14000 if q else 240000, seed_off=13),
        dict(engine="miri", args=[many, "--steps", "6"] + big, shards=2 if q else 8, millis=14000 if q else 240000, seed_off=14,
             miriflags=[f"-Zmiri-seed={res.seed * 1000 + i} -Zmiri-preemption-rate=0.05" for i in range(8)]),
    ] + ([] if q else [
        dict(engine="asan", args=[one] + big, shards=3, millis=150000, seed_off=17),
        dict(engine="asan", args=[many] + big, shards=2, millis=150000, seed_off=18),
        dict(engine="rel", args=[one] + big, shards=3, millis=150000, seed_off=19),
        dict(engine="rel", args=[many] + big, shards=2, millis=150000, seed_off=20),
    ]), b)
    if other:
        other.result()
    return core.finish(res, "exploration", rule, key, min_events=min_events)


def c08(res, tier):
    return mt(res, tier, "w_clos", "clos", "clos-mt",
              "one evaluation = one call, clone or drop of an FFI-safe closure checked against the closure's own log of the calls it saw and the count of drops of its captures; distinct = distinct (ownership kind, arity set, route, handle count) states and multi-threaded scenarios",
              ["call", "call_elsewhere", "clone", "drop", "drop_elsewhere", "stateless", "mt_history"],
              {"call": 2000, "clone": 300, "drop": 500, "drop_elsewhere": 100, "mt_history": 100})


def c09(res, tier):
    return mt(res, tier, "w_dynt", "dynt", "dynt-mt",
              "one evaluation = one method call, clone or drop of a virtual object (or one step of a C program that implements and uses the same traits through the generated header, under ASan and UBSan) checked against the object's own log of the methods that ran and the count of live values; distinct = distinct (trait shape, pointer kind, method, route) states and multi-threaded scenarios",
              ["call", "clone", "drop", "drop_elsewhere", "thread", "mt_history", "foreign_steps"],
              {"call": 2000, "clone": 300, "drop": 1000, "drop_elsewhere": 100, "mt_history": 100, "foreign_steps": 100000},
              lambda q: scenario.OBJECTS.run(res, 8 if q else 80, 20000 if q else 200000))


def c10(res, tier):
    return mt(res, tier, "w_fut", "fut", "fut-mt",
              "one evaluation = one poll, wake, spawn, delivery or drop of a future, task or executor handle that crossed the boundary (or one step of a C program with futures and executors of its own, under ASan and UBSan), checked against the future's own log (polls after completion, lost or duplicated outputs, drops, wakes); distinct = distinct (flavour, script shape, stop point, executor outcome) states and multi-threaded scenarios",
              ["poll", "future", "executor", "spawn", "spawn_blocking", "block_on", "enter", "delivered", "lost_reported", "cancelled", "dropped_early", "exported_waker", "tokio_history", "future_panicked", "task_ran", "task_lost", "foreign_steps"],
              {"poll": 2000, "future": 300, "executor": 100, "spawn": 300, "spawn_blocking": 100, "delivered": 200, "tokio_history": 20, "foreign_steps": 2000},
              lambda q: scenario.FUTURES.run(res, 8 if q else 80, 400 if q else 8000))


CHECKS = dict(C05=c05, C06=c06, C07=c07, C08=c08, C09=c09, C10=c10)
META = dict(
    C05=("model-based runtime monitor with element-drop and allocator ledgers, AddressSanitizer and Miri, over random histories with injected panics", "exploration",
         "Random histories of conversions, clones, guarded mutations and panics over every owner kind and element types with drops, zero size and over-alignment. Trusts the ledgers, ASan and Miri; nothing about histories not generated."),
    C08=("runtime monitor (call log and drop ledger kept by the closures themselves) over random histories, ThreadSanitizer and Miri with seeded schedules", "exploration",
         "All arities 0 to 9 with two argument/result type sets for most, called from Rust and through the raw env/call/retain/release words; the argument types are a fixed set; schedules are sampled."),
    C09=("runtime monitor (method log and live-value count kept by the objects themselves) over random histories, ThreadSanitizer and Miri with seeded schedules", "exploration",
         "Eight trait shapes over receivers and Clone, each over every pointer kind and thread-safety it supports, called from Rust and through the table by slot; the shapes are a fixed set, histories and schedules are sampled."),
    C10=("runtime monitor (per-future log of polls, wakes, outputs and drops) over random futures, executors and schedules, ThreadSanitizer and Miri with seeded schedules", "exploration",
         "Scripted futures over every pointer flavour, a deterministic hostile executor, and tokio's runtimes; panics inside futures only on the pinned toolchain; schedules are sampled."),
    C06=("runtime monitor comparing every view with its Rust original, plus Miri", "exploration",
         "Values, addresses, comparisons, hashes and formatting of random views are compared with the same operation on the Rust slice or string."),
    C07=("runtime monitor against libc and a plain reference rule, exhaustive on short byte patterns, plus ASan and Miri", "exploration",
         "All strings up to a small length over a small alphabet with NULs, and random longer ones, through every constructor; the c! macro on a fixed set of literals."),
)
