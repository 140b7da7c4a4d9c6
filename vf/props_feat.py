"""C24: the same seeded histories in every feature set and build profile, observation by observation."""
import concurrent.futures as cf
import re
import core, engines, gen, genprog

ALL = "f_dyn,f_serde,f_log,f_headers,f_futures"
# name: (engine, features). The first configuration that has a section is the reference of that section.
CONFIGS = {
    "debug/none": ("dbg", ""),
    "debug/alloc": ("dbg", "f_alloc"),
    "debug/std": ("dbg", "f_std"),
    "debug/dyn-traits": ("dbg", "f_dyn"),
    "debug/everything": ("dbg", ALL),
    "release/none": ("rel", ""),
    "release/dyn-traits": ("rel", "f_dyn"),
    "release/everything": ("rel", ALL),
    "debug/dyn-traits+stabby": ("stb", "f_dyn"),
    # thorough only
    "debug/std+serde": ("dbg", "f_std,f_serde"),
    "debug/std+log": ("dbg", "f_std,f_log"),
    "debug/std+headers": ("dbg", "f_headers"),
    "release/alloc": ("rel", "f_alloc"),
    "release/std": ("rel", "f_std"),
    "debug/none+stabby": ("stb", ""),
    "debug/everything+stabby": ("stb", ALL),
    "debug/futures": ("dbg", "f_futures"),
}


def events(text, sizes):
    """-> {section: [event lines]}"""
    out, cur = {}, None
    for l in text.splitlines():
        if l.startswith("SECTION "):
            cur = out.setdefault(l[8:], [])
        elif l.startswith(("EV ", "EVB ")) and cur is not None and (sizes or l[2] == " "):
            cur.append(l[l.index(" ") + 1:])
    return out


# name: (features, defaults, release)
HEADERS = {
    "headers/release": ("", True, True),
    "headers/only": ("lean", False, False),
    "headers/everything": ("extras", True, False),
}


def header_lines(text):
    """`c-headers-with-fn-style` marks functions with a comment, which is all it is there for."""
    return [l.rstrip() for l in text.replace("/* fn */ ", "").replace("/* fn */", "").splitlines()]


def generated(res, tier):
    """The header files of the same programs do not depend on other features or on the profile either."""
    q = tier == "quick"
    n = 2 if q else 8
    progs = {f"h{i}": genprog.Prog(res.seed * 1000 + 900, f"h{i}", n_fn=16, n_user=14, n_probe=0, n_const=5, p_async=.15) for i in range(n)}
    src = {k: p.source("") for k, p in progs.items()}

    def texts(tag, feats="", defaults=True, release=False):
        sos = gen.build("hf-" + tag, src, feats=feats, defaults=defaults, release=release)
        return {(k, lang, more): gen.headers(so, lang + more, k) for k, so in sos.items() for lang in ([0, 1] if feats == "lean" else [0, 1, 2]) for more in (0, 512, 1024)}

    ref = texts("ref")
    for name, (feats, defaults, release) in HEADERS.items():
        for key, (t, err) in texts(name.split("/")[1], feats, defaults, release).items():
            t0, err0 = ref[key]
            what = f"{['C', 'C#', 'Python'][key[1]]} header of program {key[0]} (variant {key[2]})"
            replay = dict(program=src[key[0]], reference=(t0 or err0 or "")[-6000:], other=(t or err or "")[-6000:])
            res.count("headers_compared", 1, name)
            if t0 is None:
                res.violate(f"the {what} cannot be generated: {err0[-600:]}", replay)
            elif t is None:
                res.violate(f"the {what} cannot be generated in configuration {name}, where it can be in the reference configuration: {err[-600:]}", replay)
            else:
                a, c = header_lines(t0), header_lines(t)
                res.count("header_lines_compared", len(a), name)
                res.see("header", hash(tuple(a)) & 0xffffffff)
                if a != c:
                    d = next(((x, y) for x, y in zip(a + ["(end)"] * len(c), c + ["(end)"] * len(a)) if x != y), ("?", "?"))
                    res.violate(f"the {what} is different in configuration {name}: {d[1]!r} where the reference has {d[0]!r}", replay)


def c24(res, tier):
    q = tier == "quick"
    names = list(CONFIGS)[:9] if q else list(CONFIGS)
    iters = 6000 if q else 400000

    def one(name):
        eng, feats = CONFIGS[name]
        b = engines.build(eng, crate="feat", extra_feats=feats, shared="all")
        return b, runner.submit(observe, b)

    def observe(b):
        parts = []
        chunk = iters // 4
        for k in range(4):
            rc, out = engines.run(b.exe + ["--seed", str(res.seed), "--iters", str(chunk), "--from", str(k * chunk)], engines.runtime_env(b), b.cwd, 300 if q else 1200)
            parts.append((rc, out))
        return parts

    def group(eng):
        return [(n, one(n)) for n in names if CONFIGS[n][0] == eng]

    runner = cf.ThreadPoolExecutor(4)
    with cf.ThreadPoolExecutor(3) as ex:
        got = {n: (b, f.result()) for g in ex.map(group, ["stb", "rel", "dbg"]) for n, (b, f) in g}
    ref = {}
    for name in names:
        b, parts = got[name]
        for k, (rc, out) in enumerate(parts):
            if rc is None:
                res.violate(f"the workload did not terminate in configuration {name}", dict(command=b.exe, output=out[-2000:]))
                continue
            if "DONE" not in out.splitlines()[-1:]:
                v, info = engines.classify(b, rc, out)
                res.violate(f"in configuration {name}: {info}", dict(command=b.exe, output=out[-4000:]))
                continue
            for m in re.finditer(r"^TRACE (\S+) (\d+)((?: [0-9a-f.]+)*)$", out, re.M):
                sec, n, hs = m[1], int(m[2]), m[3].split()
                res.count("observations", n, name)
                res.count("histories", len(hs), name)
                for h in hs:
                    res.see(sec, h)
                key = (sec, k)
                if key not in ref:
                    ref[key] = (name, hs)
                    continue
                rname, rhs = ref[key]
                res.count("compared", len(hs), name)
                for i, (x, y) in enumerate(zip(rhs, hs)):
                    # stabby's counted slices have a bigger header: numbers of allocator calls are compared, sizes are not
                    sizes = not (b.engine == "stb")
                    if x != y if sizes else x.split(".")[0] != y.split(".")[0]:
                        idx = k * (iters // 4) + i
                        args = ["--seed", str(res.seed), "--only", str(idx)]
                        rb = got[rname][0]
                        a = events(engines.run(rb.exe + args, engines.runtime_env(rb), rb.cwd, 60)[1], sizes).get(sec, [])
                        c = events(engines.run(b.exe + args, engines.runtime_env(b), b.cwd, 60)[1], sizes).get(sec, [])
                        d = next(((p, r) for p, r in zip(a + ["(nothing)"] * len(c), c + ["(nothing)"] * len(a)) if p != r), ("?", "?"))
                        res.violate(f"configurations {rname} and {name} observe different things in the same program ({sec} history {idx}): {d[0]!r} against {d[1]!r}",
                                    dict(command=[rb.exe[0]] + args, other=[b.exe[0]] + args, first_difference=list(d)))
                        break
    generated(res, tier)
    if ref:
        res.sample("; ".join(f"{s} histories {len(ref[(s, k)][1])}" for s, k in ref if k == 0))
        for n in names[1:]:
            res.sample(f"{n} against its reference")
    return core.finish(res, "exploration",
                       "one evaluation = one observation (result, drop count or allocator traffic of one operation) made by the same seeded program in one configuration and compared, history by history, with the reference configuration; distinct = distinct history traces",
                       ["observations"], min_events={"observations": 100000, "compared": 5000, "headers_compared": 40, "header_lines_compared": 5000})


CHECKS = dict(C24=c24)
META = dict(
    C24=("differential runtime monitoring: one instrumented program in many feature sets and both profiles, traces of results, drops and allocator traffic compared", "exploration",
         "Nine configurations per change (seventeen in the thorough tier) of the 2^n possible; histories are sampled; what only a bigger feature set offers is compared among the sets that offer it."),
)
