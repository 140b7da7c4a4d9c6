"""C11, C12 (and what they share with the other checks over generated programs)."""
import concurrent.futures as cf
import json, os, subprocess, sys, time
import core, drivers, engines, gen, genprog, scenario, stage
import gentypes as G

HERE = os.path.dirname(os.path.abspath(__file__))


class Batch:
    """A few generated programs, built."""
    def __init__(self, tag, seed, n, release=False, extra=None, **kw):
        self.tag, self.seed, self.kw = tag, seed, kw
        self.progs = {f"{tag}{i}": genprog.Prog(seed, f"{tag}{i}", **kw) for i in range(n)}
        self.sos = gen.build(tag, {k: p.source(extra(p) if extra else "") for k, p in self.progs.items()}, release=release)
        self.dir = os.path.join(stage.BUILD, "h", "gen-" + tag)


def work(res, batch, name, mode, label, millis, timeout_pad=120, **more):
    """Runs one worker on one program and takes over what it saw."""
    spec = dict(so=batch.sos[name], seed=batch.seed, name=name, millis=millis, seed2=res.seed, progress=f"{batch.dir}/{name}.{mode}.progress", **more)
    if hasattr(batch, "kw"):
        spec["kw"] = batch.kw
    cmd = [sys.executable, HERE + "/worker.py", mode, json.dumps(spec)]
    try:
        p = subprocess.run(cmd, env=engines.BASE_ENV, capture_output=True, timeout=millis / 1000 + timeout_pad)
        rc, out, err = p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as e:
        rc, out, err = None, "", (e.stderr or b"").decode("utf-8", "replace")
    src = f"{batch.dir}/examples/{name}.rs"
    replay = dict(command=cmd, program=open(src).read(), stderr=err[-3000:])
    if rc == 0:
        d = json.loads(out.splitlines()[-1])
        res.add_stats(label, d)
        for v in d["violations"]:
            res.violate(v, replay)
        return d
    last = open(spec["progress"], "rb").read().split(b"\0")[0].decode("utf-8", "replace") if os.path.exists(spec["progress"]) else ""
    if rc is not None and rc > 0 and "Traceback" in err:
        res.inconclusive.append(f"{label}: the driver failed: {err[-1500:]}")
    else:
        res.violate(f"the program {'did not come back' if rc is None else f'died (status {rc})'} during: {last[:900]} {err[-300:].strip()}", replay)


def parallel(fs, n=None):
    with cf.ThreadPoolExecutor(n or core.CPUS) as ex:
        return [f.result() for f in [ex.submit(*f) for f in fs]]


def rounds(res, tier, secs):
    """0, 1, 2, … : once for quick, until the time is over for thorough."""
    k = 0
    t0 = time.time()
    while True:
        yield k
        k += 1
        if tier == "quick" or time.time() - t0 > secs or res.violations:
            return


# ---- C11
def stabby(res, q):
    """The types of stabby, which only an older compiler compiles."""
    eng = core.build_all(res, ["stb"], "w_stabs")
    core.jobs(res, [dict(engine="stb", args=["stabs", "--iters", "100000000"], shards=2, millis=3000 if q else 60000)], eng)


def c11(res, tier):
    q = tier == "quick"
    for k in rounds(res, tier, 700):
        b = Batch("v", res.seed * 1000 + k, 8 if q else 16, n_fn=2, n_user=16, n_probe=90)
        parallel([(work, res, b, n, "valid", "debug", 4000 if q else 20000) for n in b.progs])
        if k == 0 or not q:
            br = Batch("vr", res.seed * 1000 + 500 + k, 4 if q else 8, release=True, n_fn=2, n_user=16, n_probe=90)
            parallel([(work, res, br, n, "valid", "release", 3000 if q else 20000) for n in br.progs])
        if k == 0:
            stabby(res, q)
    return core.finish(res, META["C11"]["level"], META["C11"]["rule"], ["is_valid_accept", "is_valid_refuse", "from_raw_some", "from_raw_none", "round_trip"],
                       min_events={"is_valid_accept": 5000, "is_valid_refuse": 5000, "from_raw_some": 5000, "from_raw_none": 5000, "exhaustive_types": 5, "stabby_history": 500, "round_trip": 500})


# ---- C12
def c12_cc(res, b, name):
    """The model's sizes and offsets (which the worker holds Rust against) are what gcc gives to the same fields."""
    p = b.progs[name]
    defs, seen, checks = [], {}, []
    for t in p.probes:
        c = drivers.c_of(t, defs, seen)
        checks.append(f'_Static_assert(sizeof({c}) == {t.size} && _Alignof({c}) == {t.align}, "{t.short}");')
        if t.fields and t.kind != "array":
            checks += [f'_Static_assert(offsetof({c}, {n}) == {o}, "{t.short}.{n}");' for n, o, _ in t.fields]
    f = f"{b.dir}/{name}.layout.c"
    open(f, "w").write(drivers.HEAD + "\n".join(defs + checks) + "\n")
    for which in ("gcc", "clang"):
        rc, out = gen.cc(which, ["-fsyntax-only", f])
        if rc != 0:
            res.inconclusive.append(f"the layout model disagrees with {which}: {out[:800]}")
        res.count("c_compiler_layouts", len(checks), which)


def c12(res, tier):
    q = tier == "quick"
    for k in rounds(res, tier, 600):
        b = Batch("l", res.seed * 1000 + 100 + k, 8 if q else 16, n_fn=2, n_user=18, n_probe=80)
        parallel([(c12_cc, res, b, n) for n in b.progs] + [(work, res, b, n, "layout", "debug", 3000 if q else 15000) for n in b.progs])
    return core.finish(res, META["C12"]["level"], META["C12"]["rule"], ["size_and_alignment", "field_offsets", "round_trips", "c_compiler_layouts"],
                       min_events={"size_and_alignment": 300, "field_offsets": 100, "round_trips": 5000, "option_none": 20, "option_some": 100})


# ---- C13
def driver(b, name, which, text, flags=()):
    """Compiles C code calling a program's functions to a shared library."""
    kind = which.split()[0]
    ext = "cpp" if "++" in kind else "c"
    src = f"{b.dir}/{name}.{which.replace(' ', '')}.{ext}"
    open(src, "w").write(text)
    so = src + ".so"
    rc, out = gen.cc(kind, ["-w", "-O1", "-shared", "-fPIC", src, "-x", "none", b.sos[name], "-o", so] + list(flags))
    return so if rc == 0 else None, out


def c13_one(res, b, name, millis, label):
    text, err = gen.headers(b.sos[name], 0, name)
    if err:
        res.violate(err, dict(program=open(f"{b.dir}/examples/{name}.rs").read()))
        return
    hp = f"{b.dir}/{name}.h"
    open(hp, "w").write(text)
    drv = {}
    for which in ("gcc", "clang", "g++"):
        so, out = driver(b, name, which, drivers.with_header(b.progs[name], hp))
        if not so:
            res.violate(f"{which} cannot compile calls through the generated header: {out[:600]}", dict(header=text, program=open(f"{b.dir}/examples/{name}.rs").read()))
            return
        drv[which] = so
    work(res, b, name, "calls", label, millis, drivers=drv)


def c13(res, tier):
    q = tier == "quick"
    scen = cf.ThreadPoolExecutor(1).submit(scenario.run, res, q)
    for k in rounds(res, tier, 600):
        b = Batch("f", res.seed * 1000 + 300 + k, 10 if q else 24, n_fn=28, n_user=14, n_probe=0)
        parallel([(c13_one, res, b, n, 3000 if q else 15000, "debug") for n in b.progs])
        if not q or k == 0:
            b = Batch("fr", res.seed * 1000 + 350 + k, 4 if q else 16, release=True, n_fn=28, n_user=14, n_probe=0)
            parallel([(c13_one, res, b, n, 2000 if q else 15000, "release") for n in b.progs])
    scen.result()
    return core.finish(res, META["C13"]["level"], META["C13"]["rule"], ["arguments", "results", "scenario_steps"],
                       min_events={"calls": 2000, "arguments": 5000, "results": 1000, "scenario_steps": 50000, "scenario_hook_threads": 100})


# ---- C21
def c21_one(res, b, name, millis):
    so, out = driver(b, name, "gcc raw", drivers.raw(b.progs[name]))
    if not so:
        res.inconclusive.append("raw driver: " + out[:1000])
        return
    work(res, b, name, "invalid", "debug", millis, drivers=dict(raw=so))


def c21(res, tier):
    q = tier == "quick"
    for k in rounds(res, tier, 700):
        b = Batch("i", res.seed * 1000 + 400 + k, 10 if q else 24, n_fn=26, n_user=16, n_probe=40)
        parallel([(c21_one, res, b, n, 6000 if q else 30000) for n in b.progs])
    return core.finish(res, META["C21"]["level"], META["C21"]["rule"], ["legal_calls", "stopped", "unchecked_refused", "unchecked_accepted"],
                       min_events={"legal_calls": 300, "stopped": 300, "unchecked_refused": 500, "unchecked_accepted": 500})


CHECKS = {"C11": c11, "C12": c12, "C13": c13, "C21": c21}
META = {
    "C13": dict(level="exploration", note="Signatures, values and scenarios are sampled; calls really cross the boundary from four C/C++ compilers. Leak detection is by the allocator ledger, not LeakSanitizer.", technique="runtime monitoring: calls from C code compiled against the generated header, every argument and result compared byte by byte; stateful C scenarios under AddressSanitizer with a resource-conservation monitor",
                rule="one evaluation = one argument or result of a call made by compiled C (gcc, clang, g++) through the generated header and compared bit for bit with what the exported Rust function saw or returned, or one step of a stateful C scenario; distinct = distinct (argument or result, type kind, size, position) states"),
    "C21": dict(level="exploration", note="Signatures and illegal bit patterns are sampled; debug build only, as the property says. Trusts the validity model that C11 cross-checks.", technique="runtime monitoring with fault injection: forked processes make calls with illegal arguments; a monitor over shared memory checks that no body ran and the process aborted",
                rule="one evaluation = one call with legal arguments that came through, one forked call with an illegal argument that was stopped by SIGABRT before the body ran, or one unchecked conversion judged; distinct = distinct (type kind, position) of the illegal arguments"),
    "C11": dict(level="exploration", note="Types and programs are sampled at random; 8-bit and some 16-bit types exhaustively. Trusts the validity model in gentypes.py.", technique="runtime monitoring: a validity oracle over the real is_valid/from_raw of randomly generated types, fed legal, illegal and boundary bit patterns",
                rule="one evaluation = one bit pattern of one generated type judged by is_valid or from_raw and compared with an independent model of the type's legal values (and, when accepted, its bits compared); distinct = distinct (type kind, leaf kinds, size, pattern class) states"),
    "C12": dict(level="exploration", note="Types are sampled; the layout model is confirmed by gcc and clang on every program. x86-64 Linux only.", technique="runtime monitoring: sizes, alignments, offsets and converted bytes observed in the running program against an independent C layout model that gcc and clang confirm",
                rule="one evaluation = one size, alignment or field offset observed in the running program and compared with the C model, one such figure confirmed by a C compiler, or one value taken through its C representation and back byte by byte; distinct = distinct (type kind, size, alignment, leaf kinds) states"),
}
