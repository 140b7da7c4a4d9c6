import core

Q = "quick"


def seeds(n, base):
    return [f"-Zmiri-seed={base * 1000 + i}" for i in range(n)]


def c01(res, tier):
    q = tier == Q
    specs = ["dbg", "rel", "stb", "miri"] + ([] if q else ["asan"])
    b = core.build_all(res, specs, "w_bytes")
    core.jobs(res, [
        dict(engine="dbg", args=["bytes-content", "--iters", "100000000"], shards=3, millis=6000 if q else 120000),
        dict(engine="rel", args=["bytes-content", "--iters", "100000000", "--steps", "100"], shards=2, millis=6000 if q else 120000, seed_off=7),
        dict(engine="stb", args=["bytes-content", "--iters", "100000000"], shards=2, millis=6000 if q else 120000, seed_off=11),
        dict(engine="miri", args=["bytes-content", "--iters", "100000000", "--steps", "16"], shards=3 if q else 8, millis=12000 if q else 240000, seed_off=13),
    ] + ([] if q else [dict(engine="asan", args=["bytes-content", "--iters", "100000000"], shards=4, millis=120000, seed_off=17)]), b)
    return core.finish(res, "exploration", "one evaluation = one operation on a Bytes compared with the byte-vector model; distinct = distinct (operation, backing kind, inlined?, length class, borrowed?, predictions) states",
                       ["construct", "clone", "noalloc_clone", "narrow", "narrow_refused", "split", "split_refused", "upgrade", "noalloc_upgrade", "noalloc_upgrade_refused", "read", "compare", "to_arc", "to_arc_refused", "to_stabby", "to_stabby_refused"],
                       min_events={"history": 1000, "split": 1000, "read": 1000, "narrow_refused": 100})


def c02(res, tier):
    q = tier == Q
    specs = ["dbg", "stb", "asan", "miri"] + ([] if q else ["rel"])
    b = core.build_all(res, specs, "w_bytes")
    core.jobs(res, [
        dict(engine="dbg", args=["bytes-owner", "--iters", "100000000"], shards=3, millis=6000 if q else 120000),
        dict(engine="stb", args=["bytes-owner", "--iters", "100000000"], shards=2, millis=6000 if q else 120000, seed_off=11),
        dict(engine="asan", args=["bytes-owner", "--iters", "100000000"], shards=2, millis=6000 if q else 120000, seed_off=17),
        dict(engine="miri", args=["bytes-owner", "--iters", "100000000", "--steps", "16"], shards=4 if q else 8, millis=15000 if q else 240000, seed_off=13),
    ] + ([] if q else [dict(engine="rel", args=["bytes-owner", "--iters", "100000000", "--steps", "120"], shards=3, millis=120000, seed_off=19)]), b)
    return core.finish(res, "exploration", "one evaluation = one owner whose reference count, release and storage were followed from creation to its single release; distinct = distinct operation sequences' states reached",
                       ["owner_released_once", "history"], min_events={"history": 1000, "owner_released_once": 1000})


def c03(res, tier):
    q = tier == Q
    b = core.build_all(res, ["dbg", "tsan", "miri", "stb"] + ([] if q else ["asan", "rel"]), "w_bytes")
    core.jobs(res, [
        dict(engine="dbg", args=["bytes-mt", "--iters", "100000000", "--log", "--steps", "60"], shards=2, millis=8000 if q else 120000),
        dict(engine="tsan", args=["bytes-mt", "--iters", "100000000", "--steps", "60"], shards=3, millis=12000 if q else 200000, seed_off=3),
        dict(engine="miri", args=["bytes-mt", "--iters", "100000000", "--steps", "10"], shards=6 if q else 16, millis=20000 if q else 200000, seed_off=13,
             miriflags=[f + " -Zmiri-preemption-rate=0.05" for f in seeds(16, res.seed)]),
        dict(engine="stb", args=["bytes-mt", "--iters", "100000000", "--steps", "80", "--log"], shards=2, millis=8000 if q else 120000, seed_off=6),
    ] + ([] if q else [
        dict(engine="asan", args=["bytes-mt", "--iters", "100000000", "--steps", "80"], shards=2, millis=120000, seed_off=5),
        dict(engine="rel", args=["bytes-mt", "--iters", "100000000", "--steps", "200", "--log"], shards=2, millis=120000, seed_off=8),
    ]), b)
    return core.finish(res, "exploration", "one evaluation = one multi-threaded history; distinct = distinct observed global orders of the threads' operations (logged runs) and distinct scenarios (sanitizer runs, which are not logged so as not to synchronise the threads)",
                       ["history", "owner_bounds"], min_events={"history": 300, "owner_bounds": 20})


def c04(res, tier):
    q = tier == Q
    b = core.build_all(res, ["dbg", "rel"] + ([] if q else ["stb"]), "w_bytes")
    core.jobs(res, [
        dict(engine="dbg", args=["bytes-alloc", "--iters", "100000000"], shards=3, millis=8000 if q else 200000),
        dict(engine="rel", args=["bytes-alloc", "--iters", "100000000", "--steps", "100"], shards=2, millis=8000 if q else 200000, seed_off=7),
    ] + ([] if q else [dict(engine="stb", args=["bytes-alloc", "--iters", "100000000"], shards=3, millis=200000, seed_off=11)]), b)
    return core.finish(res, "exploration", "one evaluation = one operation whose allocator calls and data addresses were compared with what the library predicts; distinct = distinct (operation, backing kind, inlined?, length class, borrowed?, predictions) states",
                       ["construct", "clone", "noalloc_clone", "narrow", "split", "upgrade", "noalloc_upgrade", "read", "to_arc", "to_arc_refused"], min_events={"history": 1000, "clone": 1000, "upgrade": 1000})


CHECKS = dict(C01=c01, C02=c02, C03=c03, C04=c04)
META = dict(
    C01=("model-based runtime monitor over random histories, plus Miri (thorough: AddressSanitizer)", "exploration",
         "Every step of seeded random histories over all backing kinds is compared with a byte-vector model, in debug and release arithmetic, with and without stabby, and under Miri. Trusts the model and the compilers; says nothing about histories not generated."),
    C02=("allocator ledger, monitored owners, AddressSanitizer and Miri (UB and leaks) over random histories", "exploration",
         "Each owner's reference count and single release, and each allocation's layout, are followed over random histories including failing conversions. Trusts the ledger allocator, ASan and Miri (without aliasing models)."),
    C03=("ThreadSanitizer (std instrumented), Miri with seeded schedules, and ownership/content monitors under multi-threaded stress", "exploration",
         "Held on the interleavings that occurred; schedules are sampled (OS scheduling, Miri seeds with preemption), not enumerated."),
    C04=("allocation-counting and address-comparing monitor over random histories", "exploration",
         "Counts allocator calls on the calling thread around every operation and compares data addresses; trusts the counting global allocator."),
)
