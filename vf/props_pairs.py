"""C23: what the compiler, running the real macros over the real library, accepts and rejects."""
import itertools, os, re, shutil, subprocess, tempfile
import core, engines, gen, pairs, stage
from props_gen import parallel, rounds


def c23(res, tier):
    q = tier == "quick"
    libs = {h: gen.library(h) for h in (True, False)}
    d = tempfile.mkdtemp(prefix="pairs", dir=stage.BUILD)
    nth = itertools.count()

    def compile(text, headers):
        """(accepted?, the diagnostics)"""
        base = f"{d}/p{next(nth)}"
        with open(base + ".rs", "w") as f:
            f.write(pairs.PRELUDE + text + "\n")
        p = subprocess.run(libs[headers] + ["--emit=obj", "-o", base + ".o", base + ".rs"], capture_output=True, text=True, timeout=120, env=engines.BASE_ENV, cwd=d)
        for x in (".rs", ".o"):
            if os.path.exists(base + x):
                os.unlink(base + x)
        if p.returncode not in (0, 1) or "internal compiler error" in p.stderr:
            raise engines.Inconclusive(f"the compiler failed on:\n{text}\n{p.stderr[-1500:]}")
        return p.returncode == 0, p.stderr

    def one(item):
        n, (family, what, safe, unsafe, hdr) = item
        for headers in ((True,) if hdr or (q and n % 3) else (True, False)):
            cfg = "with headers" if headers else "without headers"
            replay = dict(prelude="vf/pairs.py: PRELUDE", configuration=cfg, rustc=libs[headers])
            ok, err = compile(safe, headers)
            res.count("safe_programs", label=family)
            if not ok:
                res.violate(f"the safe counterpart is rejected ({cfg}): {family}: {what}: {err[:300]}", dict(replay, program=safe, diagnostics=err[-3000:]))
            ok, err = compile(unsafe, headers)
            res.count("unsafe_programs", label=family)
            if ok:
                res.violate(f"accepted ({cfg}): {family}: {what}", dict(replay, program=unsafe))
            else:
                code = (re.findall(r"(?m)^error(\[E\d+\])?", err) or [""])[0] or ("macro" if "::safer_ffi" in err else "other")
                res.count("rejected_by_" + code.strip("[]"), label=family)
        res.see(family, f"{family}: {what}")
        res.see("programs", safe + "\n" + unsafe)
        if n % 97 == 0:
            res.sample(f"{family}: {what}: {unsafe[:160]}")

    try:
        for k in rounds(res, tier, 650):
            g = pairs.Dealer(res.seed * 1000 + k)
            parallel([(one, it) for it in enumerate(pairs.pair(g) for _ in range(800 if q else 2500))])
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return core.finish(res, META["C23"]["level"], META["C23"]["rule"], ["safe_programs", "unsafe_programs"], min_events={"safe_programs": 1000, "unsafe_programs": 1000})


CHECKS = {"C23": c23}
META = {
    "C23": dict(level="exploration", note="Programs are sampled from a grammar; opaque types by value in callback signatures and a supertrait that is Send only by another trait are known findings.",
                technique="runtime monitoring of the real macros as the compiler runs them: generated programs in pairs, one safe and one a minimally unsafe mutant of it, in both configurations; monitors demand that the first be accepted and the second be rejected",
                rule="a pair counts once for each of its two programs and each configuration compiled; distinct by program text and by family and mutation"),
}
