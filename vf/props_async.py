"""C25: exported async functions."""
import json, os, subprocess, sys
import core, drivers, engines, gen, stage
from props_gen import HERE, Batch, driver, parallel, rounds, work

H = stage.VERIF + "/harness/gen/"


class Hand:
    """asyncs.rs, built: as much of a Batch as `work` looks at."""
    def __init__(self, release):
        self.seed = 0
        tag = "asy" + ("r" if release else "")
        self.sos = gen.build(tag, {"asyncs": open(H + "asyncs.rs").read()}, release=release)
        self.dir = os.path.join(stage.BUILD, "h", "gen-" + tag)


def by_hand(res, b, millis, label):
    work(res, b, "asyncs", "asyncs", label, millis)


def generated(res, b, name, millis, label):
    text, err = gen.headers(b.sos[name], 0, name)
    if err:
        res.violate(err, dict(program=open(f"{b.dir}/examples/{name}.rs").read()))
        return
    hp = f"{b.dir}/{name}.h"
    open(hp, "w").write(text)
    drv, marks = {}, {}
    for which, flags, m in (("gcc", [], False), ("clang++", [], True), ("g++", [], True)):
        so, out = driver(b, name, which, drivers.with_header(b.progs[name], hp, marks=m), flags)
        if not so:
            res.violate(f"{which} cannot compile calls through the generated header: {out[:600]}", dict(header=text, program=open(f"{b.dir}/examples/{name}.rs").read()))
            return
        (marks if m else drv)[which] = so
    work(res, b, name, "async", label + ", calls", millis, drivers=drv)
    work(res, b, name, "panics", label + ", panics", millis, drivers=marks)


def c25(res, tier):
    q = tier == "quick"
    for k in rounds(res, tier, 600):
        for rel, mode in ((False, "debug"), (True, "release")):
            h = Hand(rel)
            b = Batch("y" + mode[0], res.seed * 1000 + 800 + 50 * rel + k, (8, 4)[rel] if q else (24, 12)[rel], release=rel, n_fn=28, n_user=10, n_probe=0, p_async=.8)
            parallel([(by_hand, res, h, 3000 if q else 15000, "by hand, " + mode)] + [(generated, res, b, n, 3000 if q else 15000, mode) for n in b.progs])
    return core.finish(res, META["C25"]["level"], META["C25"]["rule"], ["events", "arguments", "results", "async_aborts"],
                       min_events={"events": 20000, "suspensions": 2000, "early_returns": 100, "arguments": 1000, "results": 500, "async_aborts": 300})


CHECKS = {"C25": c25}
META = {
    "C25": dict(level="exploration", technique="runtime monitoring: the event log (prelude, executor, polls, suspensions, completions, destructors) of exported async functions called from compiled C held against the sequence there has to be, results and arguments compared bit by bit; panics injected in forked processes",
                note="Signatures, executors, suspensions and manners of waking are sampled; the JavaScript expansion is out of reach (its backend needs a dependency that is not available).",
                rule="one evaluation = one event of a call's log (in its place), one argument or result compared bit for bit, or one call in a sacrificial process whose prelude, future or destructor panicked and which has to abort; distinct = distinct (executor, suspensions, manner of waking, early return, renaming, result kind) states and panic positions"),
}
