"""Everything once and in order, in every header of one generated program.   hdr_once.py SPEC (as hdr_c.py)"""
import json, os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import cs, gen, hdr_c, hdr_cs, hdr_py
from hdr_c import H


def cs_order(h, f):
    """A C# type is declared after those it consists of."""
    at = {n: i for i, (k, n) in enumerate(f.order) if k == "type"}
    for i, (k, n) in enumerate(f.order):
        if k == "type":
            d = f.types[n]
            parts = [x["type"] for x in d["fields"]] if d["kind"] == "struct" else [d["ret"]] + [ty for _, ty, _ in d["params"]] if d["kind"] == "delegate" else []
        elif k == "function":
            d = f.funcs[n]
            parts = [d["ret"]] + [ty for _, ty, _ in d["params"]]
        else:
            parts = []
        for t in parts:
            b = t.rstrip("* ")
            if b in at:
                h.count("dependencies")
                if at[b] > i:
                    h.violate(f"C#: {k} {n} comes before the type {b} it mentions")


def main():
    h = H(json.loads(sys.argv[1]))
    for opts in (0, 256, 512):
        text, err = gen.headers(h.spec["so"], opts, h.name)
        if err:
            h.violate(err)
        elif hdr_c.include(h, text):
            hdr_c.ast(h, text)
            defs = re.findall(r"(?m)^#define (\w+) \(?", text)
            for c in h.prog.consts:
                h.count("constants_once")
                if defs.count(c.name) != 1:
                    h.violate(f"the C header defines {c.name} {defs.count(c.name)} times")
        text, err = gen.headers(h.spec["so"], opts + 1, h.name)
        if err:
            h.violate(err)
        else:
            hdr_cs.check(h, text)
            try:
                f = cs.File(text)
            except cs.Bad:
                continue
            cs_order(h, f)
            got = [n for k, n in f.order if k == "constant"]
            want = [c.name for c in h.prog.consts if not c.untyped]
            h.count("constants_once", len(want))
            if sorted(got) != sorted(want):
                h.violate(f"the C# file has the constants {sorted(got)} where the program exports {sorted(want)}")
        text, err = gen.headers(h.spec["so"], opts + 2, h.name)
        if err:
            h.violate(err)
        else:
            hdr_py.check(h, text, False)
    print(json.dumps(dict(counts=h.counts, distinct=sorted(h.distinct), samples=h.samples, violations=h.viol)))


if __name__ == "__main__":
    main()
