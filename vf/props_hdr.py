"""C15-C20, C22: the generated headers against the exported items."""
import json, os, re, subprocess, sys
import core, engines, gen, genprog, stage
from props_gen import Batch, parallel, rounds, work, HERE

VT = "/opt/veriftools/pyvenv/bin/python3"


def tool(res, batch, name, script, label, timeout=300, **more):
    spec = dict(so=batch.sos[name], seed=batch.seed, name=name, kw=batch.kw, dir=batch.dir, seed2=res.seed, **more)
    cmd = [VT, f"{HERE}/{script}", json.dumps(spec)]
    p = subprocess.run(cmd, env=dict(engines.BASE_ENV, PYTHONDONTWRITEBYTECODE="1"), capture_output=True, timeout=timeout)
    if p.returncode != 0:
        res.inconclusive.append(f"{label}: {p.stderr.decode('utf-8', 'replace')[-1500:]}")
        return
    d = json.loads(p.stdout.decode().splitlines()[-1])
    res.add_stats(label, d)
    for v in d["violations"]:
        res.violate(v, dict(command=cmd, program=open(f"{batch.dir}/examples/{name}.rs").read()))


def c15(res, tier):
    q = tier == "quick"
    for k in rounds(res, tier, 700):
        b = Batch("c", res.seed * 1000 + 200 + k, 24 if q else 32, n_fn=24, n_user=14, n_probe=0, p_async=.1)
        parallel([(tool, res, b, n, "hdr_c.py", "C header") for n in b.progs])
    return core.finish(res, META["C15"]["level"], META["C15"]["rule"], ["compile_time_facts", "prototypes", "types", "functions", "field_lists", "enumerator_lists", "compilations", "solo_declarations"],
                       min_events={"compile_time_facts": 1000, "prototypes": 100, "types": 200, "field_lists": 100, "enumerator_lists": 20, "compilations": 200, "headers_plain": 20, "headers_unstable": 4, "headers_dressed": 4, "solo_declarations": 300})


# ---- C17
def c17(res, tier):
    q = tier == "quick"
    extra = lambda p: open(HERE + "/../harness/gen/sinks.rs").read()
    for k in rounds(res, tier, 600):
        b = Batch("s", res.seed * 1000 + 600 + k, 6 if q else 12, extra=extra, n_fn=5, n_user=6, n_probe=0, n_const=3)
        parallel([(work, res, b, n, "sinks", "debug", 8000 if q else 30000) for n in b.progs])
        b = Batch("sr", res.seed * 1000 + 650 + k, 2 if q else 8, release=True, extra=extra, n_fn=12, n_user=10, n_probe=0, n_const=6)
        parallel([(work, res, b, n, "sinks", "release", 5000 if q else 30000) for n in b.progs])
    return core.finish(res, META["C17"]["level"], META["C17"]["rule"], ["generations"],
                       min_events={"generations": 3000, "faults": 1000, "complete_headers": 500, "descriptor_sinks": 10, "write_positions_failed": 300, "interrupted_writes": 100})


# ---- C18
def c18(res, tier):
    q = tier == "quick"
    for k in rounds(res, tier, 700):
        b = Batch("k", res.seed * 1000 + 700 + k, 24 if q else 32, n_fn=24, n_user=14, n_probe=0, n_const=4, p_async=.1)
        parallel([(tool, res, b, n, "hdr_cs.py", "C# declarations") for n in b.progs])
    return core.finish(res, META["C18"]["level"], META["C18"]["rule"], ["cs_types", "cs_variables", "cs_layouts", "cs_delegates", "cs_enumerators", "cs_functions", "solo_declarations"],
                       min_events={"cs_files": 24, "cs_types": 200, "cs_variables": 500, "cs_layouts": 100, "cs_delegates": 20, "cs_enumerators": 50, "cs_functions": 300, "solo_declarations": 300})


# ---- C20
def c20(res, tier):
    q = tier == "quick"
    for k in rounds(res, tier, 700):
        b = Batch("n", res.seed * 1000 + 750 + k, 12 if q else 24, n_fn=0, n_user=0, n_probe=0, n_const=60)
        parallel([(tool, res, b, n, "hdr_const.py", "constants") for n in b.progs])
    return core.finish(res, META["C20"]["level"], META["C20"]["rule"], ["constant_values", "constant_types", "cs_constants", "python_constants"],
                       min_events={"constant_values": 1000, "constant_types": 300, "cs_constants": 200, "python_constants": 200, "constant_programs": 24})


# ---- C19
def cffi_by_hand(res):
    """What the random programs of C19 leave out because it is known to be wrong."""
    so = gen.build("cffi", {"cffi": open(HERE + "/../harness/gen/cffi.rs").read()})["cffi"]
    d = os.path.dirname(so)
    text, err = gen.headers(so, 2, "cffi")
    replay = dict(program="harness/gen/cffi.rs", declarations=text)
    if err:
        return res.violate(err, replay)
    if "vf_pair" not in text or "vf_alias" not in text or "VfLevel_t" not in text:
        res.violate("hand-written program: an export is missing from the Python declarations", replay)

    def says(what, code):
        stage.write(f"{d}/cffi.c", code)
        rc, out = gen.cc("gcc", ["-fsyntax-only", f"{d}/cffi.c"])
        res.count("by_hand")
        if rc != 0:
            res.violate("hand-written program: " + what, dict(replay, compiler=out[-1500:]))
    aliased = text
    given = ("" if "VfHandle_t;" in text else "typedef unsigned VfHandle_t;\n") + text
    says("the enumerators of VfLevel are declared without their values 1 and 10", "#include <stdint.h>\n" + given + "\n_Static_assert(VF_LEVEL_LOW == 1 && VF_LEVEL_HIGH == 10, \"\");\n")
    says("VfLevel_t is not declared as the uint8_t it is", "#include <stdint.h>\n" + given + "\n_Static_assert(sizeof(VfLevel_t) == 1 && sizeof(VfPair_t) == 2, \"\");\n")
    says("the alias VfHandle_t is used without being declared", "#include <stdint.h>\n" + aliased)
    says("a declaration is not C", "#include <stdint.h>\n" + given)
    says("the layout of VfUse or the signature of vf_pair or vf_alias is wrong", "#include <stdint.h>\n" + given + "\n_Static_assert(sizeof(VfUse_t) == 4 && _Alignof(VfUse_t) == 4, \"\");\nuint8_t vf_pair(VfPair_t p);\nuint32_t vf_alias(VfUse_t u, uint32_t const *h);\n")


def c19(res, tier):
    q = tier == "quick"
    cffi_by_hand(res)
    for k in rounds(res, tier, 700):
        b = Batch("y", res.seed * 1000 + 800 + k, 20 if q else 32, n_fn=24, n_user=14, n_probe=0, n_const=4, features=["no_alias"])
        parallel([(tool, res, b, n, "hdr_py.py", "Python declarations") for n in b.progs])
    return core.finish(res, META["C19"]["level"], META["C19"]["rule"], ["compile_time_facts", "prototypes", "types", "functions", "field_lists", "py_enums", "py_constants", "by_hand", "solo_declarations"],
                       min_events={"py_files": 40, "compile_time_facts": 2000, "prototypes": 400, "types": 1000, "field_lists": 500, "py_enums": 40, "functions": 400, "by_hand": 5, "solo_declarations": 300})


# ---- C22
def c22(res, tier):
    q = tier == "quick"
    for k in rounds(res, tier, 700):
        b = Batch("d", res.seed * 1000 + 850 + k, 14 if q else 32, n_fn=14, n_user=14, n_probe=0, n_const=10, p_async=.15, features=["hostile_docs"])
        so2 = gen.build("dn", {n: p.source(nodocs=True) for n, p in b.progs.items()})
        parallel([(lambda n: tool(res, b, n, "hdr_docs.py", "documentation", so2=so2[n]), n) for n in b.progs])
    return core.finish(res, META["C22"]["level"], META["C22"]["rule"], ["documented", "undocumented", "bare_headers"],
                       min_events={"documented": 1000, "undocumented": 500, "bare_headers": 50})


# ---- C16
ENVS = [dict(), dict(LANG="tr_TR.UTF-8", LC_ALL="C", TZ="Asia/Kathmandu", HOME="/nowhere", USER="someone", TERM="dumb", RUST_BACKTRACE="full"), dict(SOURCE_DATE_EPOCH="1", COLUMNS="7", CARGO_PKG_VERSION="9.9.9", MALLOC_PERTURB_="165", VF_X="1" * 5000)]
OPTS = [l + o for l in (0, 1, 2) for o in (0, 256, 512, 768)]


def c16_one(res, b, others, name, millis):
    """others: {what: {name: shared library}} of the same exports."""
    refs = {}
    replay = dict(program=open(f"{b.dir}/examples/{name}.rs").read())
    for o in OPTS:
        for k, env in enumerate(ENVS):
            text, err = gen.headers(b.sos[name], o, name, env=env, cwd="/" if k else None)
            if err:
                return res.violate(err, replay)
            res.count("fresh_processes")
            if k and text != refs[o]:
                res.violate(f"{name}: the header (language and options {o}) differs in a process with another environment", replay)
            refs.setdefault(o, text)
        if not o & 256:
            for what, sos in others.items():
                text, err = gen.headers(sos[name], o, name)
                res.count("same_exports")
                if err or text != refs[o]:
                    x, y = (refs[o] + "\n").split("\n"), (text or err).split("\n")
                    i = next((i for i, (m, n) in enumerate(zip(x, y)) if m != n), 0)
                    res.violate(f"{name}: the stable header (language and options {o}) of the same exports {what} differs in line {i + 1}: {y[i][:200]!r} instead of {x[i][:200]!r}", replay)
    files = {}
    for o, t in refs.items():
        files[o] = f"{b.dir}/{name}.ref{o}"
        open(files[o], "w", newline="").write(t)
    work(res, b, name, "again", "repeated generations", millis, refs=files)


def clashes(res):
    src = open(HERE + "/../harness/gen/clash.rs").read()
    head, *parts = re.split(r"(?m)^//~ ", src)
    parts = [p.split("\n", 1) for p in parts]
    sos = gen.build("clash", {f"x{i}": head + body for i, (_, body) in enumerate(parts)})
    for i, (what, body) in enumerate(parts):
        for o in OPTS[:]:
            if o & 512:
                continue
            text, err = gen.headers(sos[f"x{i}"], o, f"x{i}")
            lang = ["C", "C#", "Python"][o & 255] + (", unsorted" if o & 256 else "")
            res.count("clashes")
            res.see("clash", f"{what} {o}")
            if what.startswith("fine"):
                if err:
                    res.violate(f"hand-written program, {what}: generating the {lang} header fails: {err[:300]}", dict(program=body))
            elif not err:
                if "untyped" in what and o & 255 == 1:
                    continue
                res.violate(f"hand-written program, {what}: one of them is silently missing from the header ({lang})", dict(program=body, header=text))
            elif "AlreadyExists" not in err:
                res.violate(f"hand-written program, {what}: generating the {lang} header fails otherwise: {err[:300]}", dict(program=body))


def c16(res, tier):
    q = tier == "quick"
    clashes(res)
    extra = lambda p: open(HERE + "/../harness/gen/repeat.rs").read()
    kw = dict(n_fn=14, n_user=14, n_probe=0, n_const=6, features=["no_alias"])
    for k in rounds(res, tier, 600):
        b = Batch("r", res.seed * 1000 + 900 + k, 8 if q else 16, extra=extra, **kw)
        others = {
            "in another order": gen.build("r2", {n: p.source(extra(p), shuffle=res.seed + k) for n, p in b.progs.items()}),
            "in another order, optimised": gen.build("r3", {n: p.source(extra(p), shuffle=res.seed + k + 77) for n, p in b.progs.items()}, release=True),
        }
        parallel([(c16_one, res, b, others, n, 5000 if q else 30000) for n in b.progs])
        parallel([(tool, res, b, n, "hdr_once.py", "once and in order") for n in b.progs])
    return core.finish(res, META["C16"]["level"], META["C16"]["rule"], ["repeated_generations", "fresh_processes", "same_exports", "taken_names", "clashes", "types", "functions", "cs_types", "cs_functions", "dependencies", "constants_once"],
                       min_events={"repeated_generations": 1000, "fresh_processes": 200, "same_exports": 80, "taken_names": 200, "clashes": 40, "concurrent_bursts": 20, "types": 1000, "functions": 300, "cs_types": 500, "dependencies": 1000, "constants_once": 200})


CHECKS = {"C15": c15, "C16": c16, "C17": c17, "C18": c18, "C19": c19, "C20": c20, "C22": c22}
META = {
    "C15": dict(level="exploration", note="Export sets are sampled from the grammar of genprog.py; the ABI model is independent of the library. x86-64 Linux only.", technique="runtime monitoring: headers generated by running randomly generated programs, judged by four C/C++ compilers, static assertions from an independent ABI model and an independent C parser",
                rule="one evaluation = one declaration, layout fact, field list, enumerator or prototype of a header generated at run time, judged by gcc/clang/g++/clang++ or an independent parser against the exported Rust items; distinct = distinct (declaration kind, type kind, size) states"),
    "C16": dict(level="exploration", note="Export sets and histories are sampled. Two types of one C name being merged is a known finding, held by hand-written programs.", technique="runtime monitoring: random histories of header generations (languages, options, sinks, threads, nesting, failures) compared byte by byte with fresh processes, other environments and reordered programs; independent C, C# and Python parsers count and order declarations",
                rule="one evaluation = one header generation compared byte for byte with the reference, or one declaration counted and placed by an independent parser, or one clash of names; distinct = distinct (options, sink, predecessor) states and declaration kinds"),
    "C17": dict(level="exploration", note="Write positions are exhausted for small headers, sampled for larger ones; program and fault sequences are sampled.", technique="runtime monitoring with fault injection: generations into failing, short-writing, interrupted, zero-writing and full sinks (writers and real descriptors), the bytes that arrived compared with a complete header",
                rule="one evaluation = one header generation, into a sink with or without an injected fault, whose result and delivered bytes are compared with the complete header; distinct = distinct (language, options, sink, fault, position) states"),
    "C18": dict(level="exploration", note="No .NET runtime is available: declarations are read by an independent C# parser and laid out by a model of the .NET sequential layout and marshalling rules. Export sets are sampled; x86-64 only.", technique="runtime monitoring: C# declarations generated by running randomly generated programs, parsed and laid out independently and compared with the layouts and signatures of the running program's ABI model",
                rule="one evaluation = one C# type, field, layout, delegate, enumerator or function declaration generated at run time, compared with the exported Rust item by an independent parser and .NET layout model; distinct = distinct (declaration kind, type kind, size) states"),
    "C19": dict(level="exploration", note="No cffi is available: its language is translated to C (typedef ... and #define ...) and compiled. That enumerators lack values and renamed aliases lack declarations are known findings, held by a hand-written program and kept out of the random ones. Export sets are sampled; x86-64 only.", technique="runtime monitoring: declarations for cffi generated by running randomly generated programs, translated to C and judged by two compilers, static assertions from an independent ABI model and an independent C parser",
                rule="one evaluation = one declaration, layout fact, field list, enumerator list, constant or prototype of the generated Python declarations, judged by gcc/clang or an independent parser against the exported Rust items; distinct = distinct (declaration kind, type kind, size) states"),
    "C20": dict(level="exploration", note="Values are sampled, with every boundary of every type. C# values are evaluated by an independent model of C# literals, not by a C# compiler; the others by compiled and run code.", technique="runtime monitoring: constants read back by compiled and run C and C++ programs (four compilers) and by independent C# and Python evaluators, compared bit by bit with the running Rust program's",
                rule="one evaluation = one exported constant's value or type as seen by a program including the generated header, compared with Rust's; distinct = distinct (type, value class, language) states"),
    "C22": dict(level="exploration", note="Texts are sampled from a grammar of hostile fragments (comment delimiters, splices, trigraphs, line terminators, directives, backticks, XML) in all syntaxes of doc attributes. Leading and trailing white space of lines and the C# rendering of backticks are not compared. C# comments are judged by an independent tokenizer.", technique="runtime monitoring: headers generated by running random programs with hostile documentation; comments extracted and compared line by line, and the comment-free headers (stripped by gcc, clang and a C# tokenizer) compared with those of the same programs without documentation",
                rule="one evaluation = the comment of one item, member or constant in a generated C or C# header compared line by line with its documentation attributes, or one header stripped of its comments compared with that of the same program without documentation; distinct = distinct (language, kind of item, number of lines, special characters) states"),
}
