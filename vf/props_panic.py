"""C14: panics at the boundary, in sacrificial processes."""
import os, re, shutil, subprocess
import core, drivers, engines, gen, stage
from props_gen import Batch, driver, parallel, rounds, work

H = stage.VERIF + "/harness/gen/"
# what has to be on stderr where it is not the marker VFMSG
SAYS = {"p_any": "panicked at", "p_resume": "", "p_index": "index out of bounds", "p_div": "divide by zero", "p_slice": "index out of bounds", "p_utf8": "panicked at", "p_refcell": "panicked at", "p_alloc": "capacity overflow", "p_overflow": "overflow"}
CCS = [("gcc", ["-fexceptions"]), ("clang", ["-fexceptions"]), ("g++", []), ("clang++", [])]


def by_hand(res, release):
    so = gen.build("pan" + ("r" if release else ""), {"panics": open(H + "panics.rs").read()}, release=release)["panics"]
    d = os.path.dirname(so)
    hdr, err = gen.headers(so, 0, "panics")
    if err:
        res.violate(err, dict(program=H + "panics.rs"))
        return
    open(d + "/panics.h", "w").write(hdr)

    def one(which, flags, threads):
        exe = f"{d}/panics-{which}-{threads}"
        rc, out = gen.cc(which, ["-w", "-O1", "-D_GNU_SOURCE", f'-DPANICS_H="{d}/panics.h"'] + ([] if release else ["-DWITH_OVERFLOW"]) + flags + [H + "panics.c", "-x", "none", so, "-lpthread", "-o", exe])
        if rc != 0:
            res.violate(f"{which} does not accept the calls through the generated header: {out[:800]}", dict(header=hdr))
            return
        errs = exe + ".err"
        shutil.rmtree(errs, ignore_errors=True)
        os.makedirs(errs)
        cmd = [exe, str(threads), errs]
        p = subprocess.run(cmd, env=engines.BASE_ENV, capture_output=True, text=True, timeout=600)
        label = f"{which} {'thread' if threads else 'main'} {'release' if release else 'debug'}"
        cases = re.findall(r"^CASE (\w+) (\d) (\d+) (\d) (\d) (\d) (\d) (\d) (\d)$", p.stdout, re.M)
        if p.returncode != 0 or len(cases) < 60:
            res.inconclusive.append(f"{label}: the driver ended with {p.returncode} after {len(cases)} cases: {p.stderr[-500:]}")
            return
        for name, panics, st, *fl in cases:
            st = int(st)
            returned, unwound, caught, right, called, went_on = map(int, fl)
            text = open(f"{errs}/{name}", errors="replace").read()

            def bad(s):
                res.violate(f"{label}: {name}: {s}", dict(command=cmd, program=H + "panics.rs", driver=H + "panics.c", stderr=text[-3000:]))
            if not called:
                res.inconclusive.append(f"{label}: {name} was never called (status {st})")
            elif panics == "1":
                if returned or went_on:
                    bad("control came back to the foreign caller of an export that panicked")
                elif caught or unwound:
                    bad("a foreign frame was unwound by a panic")
                elif not (os.WIFSIGNALED(st) and os.WTERMSIG(st) == 6):
                    bad(f"the process ended with status {st} instead of aborting")
                elif name.startswith("i_") and "the body ran" in text:
                    bad("the body ran over an argument that is no value of its type")
                elif (SAYS.get(name, "VFMSG") if name[0] == "p" else "panicked at") not in text:
                    bad(f"its message was not reported: {text[:200]!r}")
                else:
                    res.count("aborts", 1, label)
            else:
                if not (os.WIFEXITED(st) and os.WEXITSTATUS(st) == 77):
                    bad(f"an export that did not panic ended the process (status {st}): {text[:300]!r}")
                elif not right or caught:
                    bad("an export that did not panic gave a wrong result")
                else:
                    res.count("quiet_calls", 1, label)
            res.see(label, f"{name} {'thread' if threads else 'main'}")
    parallel([(one, w, f, t) for w, f in CCS for t in (0, 1)])


def generated(res, b, name, millis, label):
    text, err = gen.headers(b.sos[name], 0, name)
    if err:
        res.violate(err, dict(program=open(f"{b.dir}/examples/{name}.rs").read()))
        return
    hp = f"{b.dir}/{name}.h"
    open(hp, "w").write(text)
    drv = {}
    for which, flags in (("clang++", []), ("g++", [])):
        so, out = driver(b, name, which, drivers.with_header(b.progs[name], hp, marks=True), flags)
        if not so:
            res.violate(f"{which} cannot compile calls through the generated header: {out[:600]}", dict(header=text))
            return
        drv[which] = so
    work(res, b, name, "panics", label, millis, drivers=drv)


def c14(res, tier):
    q = tier == "quick"
    for k in rounds(res, tier, 600):
        by_hand(res, False)
        by_hand(res, True)
        b = Batch("p", res.seed * 1000 + 450 + k, 8 if q else 24, n_fn=24, n_user=12, n_probe=0)
        parallel([(generated, res, b, n, 4000 if q else 15000, "generated, debug") for n in b.progs])
        b = Batch("pr", res.seed * 1000 + 480 + k, 4 if q else 16, release=True, n_fn=24, n_user=12, n_probe=0)
        parallel([(generated, res, b, n, 3000 if q else 15000, "generated, release") for n in b.progs])
    return core.finish(res, META["C14"]["level"], META["C14"]["rule"], ["aborts", "quiet_calls"], min_events={"aborts": 1000, "quiet_calls": 200})


CHECKS = {"C14": c14}
META = {
    "C14": dict(level="exploration", technique="runtime monitoring with fault injection: panics thrown in forked processes, watched for SIGABRT, their message, unwound foreign frames (cleanup handlers, C++ catch-all) and values that came back",
                note="Panic positions are a hand-written catalogue of some 50 plus panics injected at two positions of randomly generated signatures; callers are C and C++ on the main and other threads.",
                rule="one evaluation = one call of an exported function in a sacrificial process: a panicking one must end in SIGABRT with its message out and no foreign frame unwound or resumed, another must return its value; distinct = distinct (panic manner, caller, signature shape) states"),
}
