"""Holds the declarations generated for Python's cffi against the exported items.   hdr_py.py SPEC (as hdr_c.py)

cffi's language is (preprocessed) C with `typedef ... name;` and `#define name ...`. Those two are translated; enums
are put right first: that they come without values and without their integer type is a known finding of C19."""
import json, os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import gen, genprog, hdr_c
from hdr_c import H

ENUM = re.compile(r"typedef\s+enum\s+(\w+)\s*\{([^{}]*)\}\s*(\w+)\s*;")


def to_c(h, text):
    p = h.prog
    enums = {t.short + "_t": t for t in p.reachable() if t.kind == "enum" and t.user == "enum"}
    consts = re.findall(r"(?m)^[ \t]*#define (.*)$", text)
    h.count("py_constants", len(consts))
    if sorted(consts) != sorted(f"{c.name} ..." for c in p.consts):
        h.violate(f"the constants are declared as {sorted(consts)} where the program exports {sorted(c.name for c in p.consts)}")
    out = re.sub(r"(?m)^[ \t]*#define.*$", "", text)
    out = re.sub(r"typedef\s*\.\.\.\s*(\w+?)(_t)?\s*;", lambda m: f"typedef struct {m.group(1)} {m.group(1)}{m.group(2) or ''};", out)

    def fix(m):
        name, body, td = m.groups()
        t = enums.get(td)
        if t is None:
            return m.group(0)
        items = [x.strip() for x in re.sub(r"/\*.*?\*/", "", body, flags=re.S).split(",")]
        if items and items[-1] == "":
            items.pop()
        names = [x.split("=")[0].strip() for x in items]
        want = p.enumerators(t)
        h.count("py_enums")
        if names != [v for v, _ in want] or name != t.tag:
            h.violate(f"enum {name} has the enumerators {names} where `{t.rust}` has {[v for v, _ in want]}")
            return m.group(0)
        for x, (v, c) in zip(items, want):
            if "=" in x:
                return m.group(0)   # it has values: they are checked as they are
        vals = ", ".join(f"{v} = ({c + 1} - 1)" if c == -2**63 else f"{v} = {c}u" if c > 2**63 - 1 else f"{v} = {c}" for v, c in want)
        return f"enum {name} {{ {vals} }}; typedef {'enum ' + name if t.repr_c else t.int.c('')} {td};"
    return ENUM.sub(fix, out)


def check(h, text, deep):
    text = to_c(h, text)
    p = h.prog
    hp = h.file("cffi.h", text)
    src = h.file("cffi.c", f'#include "{hp}"\n')
    ok = True
    for which in ("gcc", "clang"):
        ok &= h.cc(which, [src], "the declarations for cffi", ["-Wno-unknown-pragmas"])
    h.count("py_files")
    if ok and deep:
        hdr_c.asserts(h, hp)
    hdr_c.ast(h, text, cffi=True)


def solo(h, _, text):
    hp = h.file("solo.h", to_c(h, text))
    if h.cc("gcc", [h.file("solo.c", f'#include "{hp}"\n')], f"what {h.solo} declares, by itself,", ["-Wno-unknown-pragmas"]):
        hdr_c.asserts(h, hp, ("clang",))


def main():
    h = H(json.loads(sys.argv[1]))
    k = int(re.sub(r"\D", "", h.name) or 0)
    for lang in (2, [2 + 256, 2 + 512][k % 2]):
        text, err = gen.headers(h.spec["so"], lang, h.name)
        if err:
            h.violate(err)
            continue
        if lang & 512 and not text.startswith("/* vf banner: é */\n"):
            h.violate("the banner is not at the start")
        check(h, text, lang == 2 or not h.viol)
    if not h.viol:
        hdr_c.solos(h, 2 + 256 * (k % 2), solo)
    print(json.dumps(dict(counts=h.counts, distinct=sorted(h.distinct), samples=h.samples, violations=h.viol)))


if __name__ == "__main__":
    main()
