"""Holds a generated C header (or cffi declarations) against the exported items of one generated program.

Run with the python that has pycparser:  hdr_c.py SPEC   (JSON: so, seed, name, kw, dir, cffi: bool)
Prints {"counts", "distinct", "samples", "violations"}."""
import copy, json, os, re, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import gen, genprog
import gentypes as G
from pycparser import c_parser, c_ast, c_generator

HERE = os.path.dirname(os.path.abspath(__file__))


def c_decl(t):
    """What the header has to declare for t itself: None, or (kind, C name)"""
    if t.user in ("opaque",):
        return "opaque", t.short + "_t"
    if t.user == "alias":
        return "alias", t.short + "_t"
    if t.kind == "option" or t.kind in ("ptr", "fn", "void", "uint", "int", "float", "bool", "char"):
        return None
    if t.kind == "enum":
        return "enum", t.short + "_t"
    if t.kind == "array":
        return "array", t.short + "_t"
    return "struct", t.short + "_t"


def expected(prog):
    """C name -> (kind, type); the model's own view of what the exports reach."""
    out = {}
    for t in prog.reachable():
        d = c_decl(t)
        if d:
            out.setdefault(d[1], (d[0], t))
    return out


class H:
    def __init__(self, spec):
        self.spec = spec
        self.prog = genprog.Prog(spec["seed"], spec["name"], **spec.get("kw", {}))
        self.dir, self.name = spec["dir"], spec["name"]
        self.lib = self.name
        self.solo = None
        self.counts, self.distinct, self.samples, self.viol = {}, set(), [], []

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def violate(self, s):
        if len(self.viol) < 20:
            self.viol.append(s)

    def file(self, suffix, text):
        p = f"{self.dir}/{self.name}.{suffix}"
        open(p, "w").write(text)
        return p

    def cc(self, which, args, what, extra=()):
        rc, out = gen.cc(which, ["-Wall", "-Wextra", "-Werror", "-fsyntax-only"] + list(extra) + args)
        self.count("compilations")
        if rc != 0:
            self.violate(f"{which} refuses {what}: {out[:700]}")
            return False
        return True


def include(h, text):
    p = h.prog
    hp = h.file("h", text)
    inc = f'#include "{hp}"\n'
    ok = True
    for which in ("gcc", "clang", "g++", "clang++"):
        ext = "c" if which in ("gcc", "clang") else "cpp"
        f = h.file(f"inc.{ext}", inc + inc)
        ok &= h.cc(which, [f], "the header")
    return hp if ok else None


def asserts(h, hp, compilers=("gcc", "clang")):
    """Types and functions, as the compilers understand the header."""
    p = h.prog
    L = [f'#include "{hp}"', "#include <stddef.h>", "#include <stdint.h>", "#include <stdbool.h>", "#include <sys/types.h>"]

    def st(cond, msg):
        L.append(f'_Static_assert({cond}, "{msg}");')
        h.count("compile_time_facts")
    exp = expected(p)
    for cn, (kind, t) in exp.items():
        h.distinct.add(f"{kind}:{t.kind}:{t.user or ''}:{min(t.size, 64)}")
        if kind == "opaque":
            L.append(f"extern {cn} *vf_opaque_{t.short}; extern struct {t.tag} *vf_opaque_{t.short};")
            h.count("opaque_types")
            continue
        st(f"sizeof({cn}) == {t.size} && _Alignof({cn}) == {t.align}", f"size and alignment of {cn}")
        if kind == "struct":
            for n, o, f in t.fields:
                st(f"offsetof({cn}, {n}) == {o}", f"offset of {cn}.{n}")
                st(f"__builtin_types_compatible_p(__typeof__((({cn} *)0)->{n}), {f.c('')})", f"type of {cn}.{n}")
            L.append(f"extern {cn} vf_tag_{t.short}; extern struct {t.tag} vf_tag_{t.short};")
        if kind == "array":
            st(f"__builtin_types_compatible_p(__typeof__((({cn} *)0)->idx[0]), {t.elem.c('')}) && sizeof((({cn} *)0)->idx) == {t.size}", f"items of {cn}")
        if kind == "alias":
            st(f"__builtin_types_compatible_p({cn}, {t.inner_t.c('')})", f"alias {cn}")
        if kind == "enum":
            if not t.repr_c:
                st(f"__builtin_types_compatible_p({cn}, {t.int.c('')})", f"integer of {cn}")
            for (v, c) in p.enumerators(t):
                val = f"({c + 1} - 1)" if c == -2**63 else f"{c}u" if c > 2**63 - 1 else str(c)
                st(f"{v} == {val} && ({v} < 0) == {int(c < 0)}", f"enumerator {v}")
                h.count("enumerators")
    for f in p.fns:
        args = ", ".join(t.c(f"p{i}") for i, (_, _, t) in enumerate(f.args)) or "void"
        L.append(f"extern {f.ret.c(f'{f.name} ({args})')};")
        h.count("prototypes")
    src = h.file("facts.c", "\n".join(L) + "\n")
    for which in compilers:
        h.cc(which, [src], "what the header has to mean" + (f", {h.solo} by itself" if h.solo else ""), ["-w"])


def ast_of(h, text, fake=True):
    src = h.file("pp.c", text)
    r = subprocess.run(["gcc", "-E", "-P", "-nostdinc", "-I", HERE + "/fakeinc", "-x", "c", src], capture_output=True, text=True)
    if r.returncode != 0:
        h.violate("gcc -E refuses it: " + r.stderr[:500])
        return None
    try:
        return c_parser.CParser().parse(r.stdout, h.name)
    except Exception as e:
        h.violate(f"it is not C for an independent parser: {e}")
        return None


PP_OPTS = {}
FAKES = {"int8_t", "int16_t", "int32_t", "int64_t", "uint8_t", "uint16_t", "uint32_t", "uint64_t", "uintptr_t", "intptr_t", "size_t", "ssize_t"}


def ast(h, text, cffi=False):
    """Everything once, in a usable order, with its names; nothing else."""
    tree = ast_of(h, text)
    if tree is None:
        return
    p = h.prog
    exp = expected(p)
    types, funcs, order = {}, {}, []
    structs, enums = {}, {}

    def note_tag(t):
        if isinstance(t, c_ast.Struct) and t.decls is not None and t.name:
            structs.setdefault(t.name, []).append([d.name for d in t.decls])
        if isinstance(t, c_ast.Enum) and t.values is not None and t.name:
            enums.setdefault(t.name, []).append([e.name for e in t.values.enumerators])
    for d in tree.ext:
        t = d.type if isinstance(d, (c_ast.Decl, c_ast.Typedef)) else None
        if isinstance(d, c_ast.Typedef):
            if d.name in FAKES:
                continue
            types.setdefault(d.name, []).append(d)
            inner = t.type if isinstance(t, c_ast.TypeDecl) else None
            note_tag(inner)
        elif isinstance(d, c_ast.Decl) and isinstance(t, c_ast.FuncDecl):
            funcs.setdefault(d.name, []).append(d)
        elif isinstance(d, c_ast.Decl) and isinstance(t, (c_ast.Struct, c_ast.Enum)):
            note_tag(t)
        else:
            h.violate(f"unexpected declaration: {c_generator.CGenerator().visit(d)[:200]}")
    for cn, (kind, t) in exp.items():
        n = len(types.get(cn, []))
        h.count("types")
        if n != 1:
            h.violate(f"the type {cn} of `{t.rust}` is declared {n} times")
            continue
        if kind == "struct":
            got = structs.get(t.tag, [[None]])
            want = [x for x, _, _ in t.fields]
            if got != [want]:
                h.violate(f"struct {t.tag} has fields {got} where `{t.rust}` has {want}")
            h.count("field_lists")
        if kind == "enum" and not cffi:
            got, want = enums.get(t.tag, []), [v for v, _ in p.enumerators(t)]
            if got != [want]:
                h.violate(f"enum {t.tag} has enumerators {got} where `{t.rust}` has {want}")
            h.count("enumerator_lists")
    for cn in types:
        if cn not in exp:
            h.violate(f"the header declares {cn}, which no export reaches")
    for f in p.fns:
        n = len(funcs.get(f.name, []))
        h.count("functions")
        if n != 1:
            h.violate(f"the function {f.name} is declared {n} times")
            continue
        d = funcs[f.name][0].type.args
        got = [a.name for a in d.params] if d else []
        want = [c for _, c, _ in f.args] or [None]
        if got != want:
            h.violate(f"the parameters of {f.name} are {got} where the function has {want}")
    for n in funcs:
        if n not in {f.name for f in p.fns}:
            h.violate(f"the header declares a function {n} that is not exported")
    h.samples.append(f"{h.name}: {len(types)} types, {len(funcs)} functions")


def one(h, opts, deep=True):
    lang = 0 + 256 * ("unstable" in opts) + 512 * ("dressed" in opts) + 1024 * ("named" in opts)
    h.lib, env = gen.libname(h.name, int(re.sub(r"\D", "", h.name) or 0) + len(opts))
    text, err = gen.headers(h.spec["so"], lang, h.name, env=env)
    if err:
        return h.violate(f"{opts or 'plain'}: {err}")
    h.count("headers_" + ("_".join(opts) or "plain"))
    hp = include(h, text)
    if not hp:
        return
    if "dressed" in opts:
        f = h.file("guard.c", f'#include "{hp}"\n#ifndef VF_GUARD_H\n#error "the guard"\n#endif\n#if VF_AFTER_GUARD != 1\n#error "the text after the guard"\n#endif\n#if defined(__RUST_{h.lib.upper()}__)\n#error "the default guard"\n#endif\nint vf_x;\n')
        h.cc("gcc", [f], "the header with a guard of its own")
        if not text.startswith("/* vf banner: é */\n"):
            h.violate("the banner is not at the start of the header")
    else:
        f = h.file("guard.c", f'#include "{hp}"\n#ifndef __RUST_{h.lib.upper()}__\n#error "the guard"\n#endif\nint vf_x;\n')
        h.cc("gcc", [f], "the header with the default guard")
    f = h.file("dox.c", f'#define DOXYGEN\n#include "{hp}"\n')
    h.cc("clang", [f], "the header as Doxygen reads it", ["-w"])
    if deep:
        asserts(h, hp)
    ast(h, text)


def only(prog, f):
    """The program as if f were all it exports."""
    p = copy.copy(prog)
    p.fns, p.consts, p.exports = [f], [], []
    return p


def solos(h, lang, see):
    """Each exported function by itself: nothing is declared for it by some other export."""
    full = h.prog
    names = [f.name for f in full.fns] + [c.name for c in full.consts]
    before, segs, err = gen.solo(h.spec["so"], lang, h.name, names)
    if err:
        return h.violate(f"alone: {err}")
    if len(segs) != len(names) - 1:
        return h.violate(f"{len(names)} exports, of which {len(segs) + 1} announced their names")
    for f in full.fns:
        if f.name in segs:
            h.prog, h.solo = only(full, f), f.name
            see(h, before, segs[f.name])
            h.count("solo_declarations")
    h.prog, h.solo = full, None


def solo(h, _, text):
    hp = h.file("solo.h", f"#pragma once\n#ifdef __cplusplus\nextern \"C\" {{\n#endif\n{text}\n#ifdef __cplusplus\n}}\n#endif\n")
    if h.cc("clang++", [h.file("solo.cpp", f'#include "{hp}"\n')], f"what {h.solo} declares, by itself,"):
        asserts(h, hp, ("gcc",))


def main():
    h = H(json.loads(sys.argv[1]))
    one(h, ())
    k = int(h.name[1:]) if h.name[1:].isdigit() else 0
    if not h.viol:
        one(h, [("unstable",), ("dressed",), ("unstable", "dressed"), ("named", "dressed")][k % 4])
    if not h.viol:
        solos(h, 256 * (k % 2), solo)
    print(json.dumps(dict(counts=h.counts, distinct=sorted(h.distinct), samples=h.samples, violations=h.viol)))


if __name__ == "__main__":
    main()
