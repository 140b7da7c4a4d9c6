"""Holds a generated C# file against the exported items of one generated program.   hdr_cs.py SPEC (as hdr_c.py)"""
import json, os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import cs, gen, genprog
import gentypes as G
from hdr_c import H, solos


def norm(s):
    return " ".join(re.findall(r"\w+|\*", re.sub(r"/\*.*?\*/", "", s)))


def cls(t):
    return {"uint": "u", "int": "i", "float": "f", "bool": "b", "char": "u"}[t.kind]


def flat(t, off=0):
    k = t.kind
    if k == "option":
        return flat(t.inner, off)
    if k in ("uint", "int", "float", "bool", "char"):
        return [(off, t.size, cls(t))]
    if k == "ptr":
        return [(off, 8, "p")]
    if k == "fn":
        return [(off, 8, "fn")]
    if k == "enum":
        return [(off, t.size, cls(t.int))]
    if k == "array":
        return [x for i in range(t.n) for x in flat(t.elem, off + i * t.elem.size)]
    return [x for _, o, f in t.fields for x in flat(f, off + o)]


def expected(prog):
    """C# name -> (kind, type)"""
    out = {}
    for t in prog.reachable():
        if t.user == "alias" or t.kind in ("option", "ptr", "uint", "int", "float", "bool", "char", "void") or (t.user == "transparent"):
            continue
        k = "opaque" if t.opaque else "delegate" if t.kind == "fn" else t.kind if t.kind in ("enum", "array") else "struct"
        out.setdefault(norm(t.cs()), (k, t))
    return out


def check(h, text):
    p = h.prog
    at = f"{h.solo} by itself: " if h.solo else ""
    try:
        f = cs.File(text)
        cs.File(text, ("IOS",))
    except cs.Bad as e:
        return h.violate(f"the C# file is not well formed: {e}")
    h.count("cs_files")
    pascal = "".join(w[:1].upper() + w[1:] for w in h.lib.split("_"))
    if f.namespace != pascal or not {"System", "System.Runtime.InteropServices"} <= set(f.usings):
        h.violate(f"namespace {f.namespace}, using {f.usings}")
    if f.private.get("RustLib", (None, None))[1] != [("str", f'"{h.lib}"')]:
        h.violate(f"the library is called {f.private.get('RustLib')}")
    for d in f.dups:
        h.violate(f"declared twice: {d}")
    exp = expected(p)
    for n in f.mentioned():
        if n not in f.types:
            h.violate(at + f"the type {n} is mentioned but not declared")
        h.count("cs_mentions")
    for n in f.types:
        if n not in exp and not h.solo:
            h.violate(f"the C# file declares {n}, which no export reaches")

    def var(where, ty, attrs, t, pre=""):
        """A field, parameter or result of type `ty` [attrs] has to be what `t` is."""
        h.count("cs_variables")
        m = cs.marshal(attrs, pre)
        if ty != norm(t.cs()):
            return h.violate(f"{where} has type {ty} where the Rust type is {t.rust} ({norm(t.cs())})")
        base = ty.rstrip("* ")
        if t.size and not t.zst:
            try:
                s, _, lv = f.layout(ty, m)
                if (s, lv) != (t.size, flat(t)):
                    h.violate(f"{where}: {ty} marshalled as {m} is {s} bytes {lv[:6]} where {t.rust} has {t.size} bytes {flat(t)[:6]}")
            except cs.Bad as e:
                h.violate(f"{where}: {e}")
        if m != t.cs_m:
            h.violate(f"{where}: {ty} is marshalled as {m} instead of {t.cs_m}")

    for n, (k, t) in exp.items():
        d = f.types.get(n)
        h.count("cs_types")
        h.distinct.add(f"{k}:{t.kind}:{t.user or ''}:{min(t.size, 64)}")
        if not d:
            h.violate(at + f"the {k} {n} of `{t.rust}` is missing")
            continue
        want = {"opaque": "struct", "array": "struct"}.get(k, k)
        if d["kind"] != want:
            h.violate(f"{n} is a {d['kind']}")
            continue
        if k == "opaque":
            if any(x["vis"] == "public" for x in d["fields"]):
                h.violate(f"the opaque type {n} has public fields")
            h.count("cs_opaque")
        elif k == "enum":
            got = [(m, v) for _, m, v in d["members"]]
            if got != [(v, c) for v, c, _ in t.variants]:
                h.violate(f"enum {n} has {got} where `{t.rust}` has {[(v, c) for v, c, _ in t.variants]}")
            base = d["base"] or "int"
            if cs.PRIM.get(base) != (t.size, cls(t.int)):
                h.violate(f"enum {n} has the underlying type {base} where `{t.rust}` is {t.int.rust}")
            else:
                for _, m, v in d["members"]:
                    try:
                        cs.ranged(base, v)
                    except cs.Bad as e:
                        h.violate(f"{n}.{m}: {e}")
            h.count("cs_enumerators", len(got))
        elif k == "delegate":
            if not any("UnmanagedFunctionPointer" in a for a in d["attrs"]):
                h.violate(f"delegate {n} has no calling convention")
            var(f"the result of delegate {n}", d["ret"], d["attrs"], t.ret, "return : ")
            if len(d["params"]) != len(t.args):
                h.violate(f"delegate {n} has {len(d['params'])} parameters where `{t.rust}` has {len(t.args)}")
            for (a, ty, nm), w in zip(d["params"], t.args):
                var(f"parameter {nm} of delegate {n}", ty, a, w)
            if len({nm for _, _, nm in d["params"]}) != len(d["params"]):
                h.violate(f"delegate {n} has two parameters of one name")
            h.count("cs_delegates")
        else:
            try:
                s, al, lv = f.layout(n)
                if s != t.size or lv != flat(t) or d["size"] not in (None, t.size):
                    h.violate(f"{n} is {s} bytes {lv[:8]} where `{t.rust}` has {t.size} bytes {flat(t)[:8]}")
                h.count("cs_layouts")
            except cs.Bad as e:
                h.violate(f"{n}: {e}")
            if k == "struct":
                got, want = [x["name"] for x in d["fields"]], [x for x, _, _ in t.fields]
                if got != want:
                    h.violate(f"struct {n} has fields {got} where `{t.rust}` has {want}")
                else:
                    for x, (_, _, ft) in zip(d["fields"], t.fields):
                        if x["vis"] != "public":
                            h.violate(f"{n}.{x['name']} is not public")
                        var(f"{n}.{x['name']}", x["type"], x["attrs"], ft)
            elif not all(x["type"] == norm(t.elem.cs()) for x in d["fields"]):
                h.violate(f"the items of {n} are {sorted({x['type'] for x in d['fields']})} where they are {t.elem.rust}")
    for fn in p.fns:
        d = f.funcs.get(fn.name)
        h.count("cs_functions")
        if not d:
            h.violate(f"the function {fn.name} is missing")
            continue
        imp = [a for a in d["attrs"] if a.startswith("DllImport (")]
        if len(imp) != 1 or not re.match(r"DllImport \( RustLib\b", imp[0]) or ("EntryPoint" in imp[0] and f'EntryPoint = "{fn.name}"' not in imp[0]) or not {"static", "extern", "public"} <= set(d["mods"]):
            h.violate(f"function {fn.name} is imported by {d['mods']} {d['attrs']}")
        if [nm for _, _, nm in d["params"]] != [c for _, c, _ in fn.args]:
            h.violate(f"the parameters of {fn.name} are {[nm for _, _, nm in d['params']]} where the function has {[c for _, c, _ in fn.args]}")
            continue
        var(f"the result of {fn.name}", d["ret"], d["attrs"], fn.ret, "return : ")
        for (a, ty, nm), (_, _, t) in zip(d["params"], fn.args):
            var(f"parameter {nm} of {fn.name}", ty, a, t)
    for n in f.funcs:
        if n not in {x.name for x in p.fns}:
            h.violate(f"the C# file declares a function {n} that is not exported")
    h.samples.append(f"{h.name}: {len(f.types)} types, {len(f.funcs)} functions")


def solo(h, before, text):
    toks = cs.tokens(before + text)
    n = sum((t == "{") - (t == "}") for _, t in toks)
    check(h, before + text + "}" * n)


def main():
    h = H(json.loads(sys.argv[1]))
    k = int(re.sub(r"\D", "", h.name) or 0)
    for lang in (1, [1 + 256, 1 + 512 + 1024][k % 2]):
        h.lib, env = gen.libname(h.name, k + lang // 256)
        text, err = gen.headers(h.spec["so"], lang, h.name, env=env)
        if err:
            h.violate(err)
            continue
        if lang & 512:
            if not text.startswith("/* vf banner: é */\n"):
                h.violate("the banner is not at the start")
        check(h, text)
    h.lib = h.name
    if not h.viol:
        solos(h, 1 + 256 * (k % 2), solo)
    print(json.dumps(dict(counts=h.counts, distinct=sorted(h.distinct), samples=h.samples, violations=h.viol)))


if __name__ == "__main__":
    main()
