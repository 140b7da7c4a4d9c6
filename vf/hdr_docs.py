"""Documentation in the generated headers.   hdr_docs.py SPEC (as hdr_c.py; so2: the same program without documentation)

Every item's comment has to say, line by line, what its documentation attributes say; and without its comments a header
has to be the header of the same program without documentation."""
import json, os, re, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import cs, gen, genprog
from hdr_c import H, expected
import hdr_cs

EOL = "\n\r\x85\u2028\u2029"


class Line(str):
    """What a line says, however a language's comments have to put it; .exact is it with its code marks."""


def norm(x):
    x = " ".join(x.strip().replace("*\\/", "*/").split())
    l = Line(" ".join(re.sub(r"</?c>|`", "", x).split()))
    l.exact = x
    return l


def marks(want, got, csharp):
    """Whether code is marked as the language marks it: in C as it was written; in C# one ` is <c> or </c>, two or three are what they were."""
    if csharp:
        if re.search("````|</?c>", want):
            return True
        want, got = re.sub("(?<!`)`(?!`)", "\x01", want), re.sub("</?c>", "\x01", got)
    return want == got


def lines(attrs):
    # (a line of Windows is not two lines)
    out = [norm(l) for d in attrs for k in d.strip().split("\n") for l in re.split(f"[{EOL}]", k.strip())]
    while out and not out[-1]:
        out.pop()
    while out and not out[0]:
        out.pop(0)
    return squeeze(out)


def squeeze(ls):
    """An empty line or several are the same break."""
    out = []
    for l in ls:
        if l or (out and out[-1]):
            out.append(l)
    while out and not out[-1]:
        out.pop()
    return out


def said(comment):
    """The lines of a /** … */ of the C header."""
    b = comment[3:-2]
    out = []
    for l in b.split("\n"):
        l = l.strip()
        l = l[1:] if l.startswith("*") and out else l
        out.append(l)
    if out and out[0].strip().startswith("\\brief"):
        out[0] = out[0].strip()[6:]
    return lines("\n".join(out).split("\n"))


TOK = re.compile(r"(?P<com>/\*.*?\*/|//[^\n]*)|(?P<pp>(?:^|(?<=\n))[ \t]*\#[^\n]*)|(?P<ws>\s+)|(?P<str>\"(?:[^\"\\\n]|\\.)*\")|(?P<id>\w+)|(?P<p>.)", re.S)


def c_items(text, fields_of):
    """-> {item: [comments before it]}; an item is ("type", name), ("field", name, i), ("fn", name), ("const", name)"""
    got, order = {}, []
    pend, stmt, depth, inner = [], [], 0, None

    def put(key, coms):
        got.setdefault(key, []).append(coms)
        order.append(key)
    skip = 0
    for m in TOK.finditer(text):
        k, v = m.lastgroup, m.group(0)
        if k == "ws":
            continue
        if k == "com":
            pend.append(v)
            continue
        if k == "pp":
            c = re.match(r"\s*#define (\w+) ", v)
            if c:
                put(("const", c.group(1)), pend)
                pend = []
            elif re.match(r"\s*#(include|ifndef|define|endif|ifdef|error|pragma)", v) is None:
                put(("directive", v.strip()), pend)
                pend = []
            continue
        if not stmt and depth == 0:
            head, pend = pend, []
        if stmt == ["extern", '"C"'] and v == "{":
            stmt, pend = [], []
            skip += 1
            continue
        if depth == 0 and v == "}" and not stmt and skip:
            skip -= 1
            pend = []
            continue
        if v == "{":
            depth += 1
            if depth == 1:
                inner, part, i = [], [], 0
                pend = []
            continue
        if v == "}":
            depth -= 1
            if depth == 0:
                if part:
                    inner.append((fhead, part))
                pend = []
                stmt.append("{}")
            continue
        if depth:
            if not part:
                fhead, pend = pend, []
            if v in ";," and (v == ";" or "enum" in stmt):
                inner.append((fhead, part))
                part = []
            else:
                part.append(v)
            continue
        if v == ";":
            name = fields_of(stmt)
            put(name, head)
            if inner is not None:
                for j, (c, ts) in enumerate(inner):
                    put(("member", name[1], j), c)
                    got.setdefault(("tokens", name[1], j), ts)
                inner = None
            stmt, pend = [], []
            continue
        stmt.append(v)
    return got


def identify(h, exp):
    fns = {f.name for f in h.prog.fns}

    def f(stmt):
        if len(stmt) == 3 and exp.get(stmt[2], ("",))[0] == "enum" and stmt[0] == "typedef":
            return ("integer of the enum", stmt[2])
        if "enum" in stmt:
            return ("type", stmt[stmt.index("enum") + 1] + "_t")
        if stmt and stmt[0] == "typedef" or "{}" in stmt:
            names = [x for x in stmt if x in exp] or [x for x in stmt if re.match(r"[A-Za-z_]\w*$", x)]
            return ("type", names[-1] if names else "?")
        for a, b in zip(stmt, stmt[1:]):
            if b == "(" and a in fns:
                return ("fn", a)
        return ("other", " ".join(stmt))
    return f


def members(t):
    """[(documentation, name)] as the header has them"""
    if t.kind == "enum":
        return list(zip(t.vdocs, [v for v, _, _ in t.variants]))
    docs = dict(zip([n for n, _ in t.all_fields], t.fdocs))
    return [(docs[n], n) for n, _, _ in t.fields]


def same(h, where, what, want, got):
    h.count("documented" if want else "undocumented")
    h.distinct.add(f"{where} {what.split(' ')[0]} {len(want)} " + "".join(sorted({c for l in want for c in l if not c.isalnum() and c.isascii() and c != " "}))[:12])
    if want != got:
        h.violate(f"{where}: the documentation of {what} says {want} but the header {got}")
    for a, b in zip(want, got) if want == got else ():
        if "`" in a.exact + b.exact:
            h.count("code_marks")
            if not marks(a.exact, b.exact, "C#" in where):
                h.violate(f"{where}: the documentation of {what} says {a.exact} but the header {b.exact}")


def check_c(h, text, where):
    exp = expected(h.prog)
    got = c_items(text, identify(h, exp))
    used = set()

    def doc(key, what, want):
        used.add(key)
        coms = got.get(key)
        if coms is None:
            return h.violate(f"{where}: {what} is not in the header")
        # the comment of the item is the first /** … */ before it that is not one of the library's remarks
        for cs_ in coms:
            mine = [c for c in cs_ if c.startswith("/**") and not c.startswith("/** \\remark")]
            mine = [said(c) for c in mine]
            if want:
                same(h, where, what, want, mine[0] if len(mine) == 1 else mine)
            else:
                for m in mine:
                    if any(re.search(r"doc\d+x", l) for l in m):
                        h.violate(f"{where}: {what} has no documentation but the header says {m}")
                h.count("undocumented")
    for cn, (kind, t) in exp.items():
        if t.user not in ("struct", "enum", "opaque", "alias") or getattr(t, "docs", None) is None:
            continue
        doc(("type", cn), f"{kind} {cn}", lines(t.docs))
        if kind in ("struct", "enum"):
            ms = members(t)
            for j, (d, n) in enumerate(ms):
                doc(("member", cn, j), f"member {cn}.{n}", lines(d))
            if ("member", cn, len(ms)) in got:
                h.violate(f"{where}: {cn} has more than its {len(ms)} members")
    for f in h.prog.fns:
        doc(("fn", f.name), f"function {f.name}", lines(f.docs))
    for c in h.prog.consts:
        doc(("const", c.name), f"constant {c.name}", lines(c.docs))
    for k in got:
        if k[0] in ("other", "directive"):
            h.violate(f"{where}: {k[1][:200]} is in the header")
        for coms in got[k] if k not in used and k[0] != "tokens" else []:
            for c in coms:
                if re.search(r"doc\d+x", c):
                    h.violate(f"{where}: {k} carries the documentation of something else: {c[:200]}")


def check_cs(h, text, where):
    try:
        f = cs.File(text)
    except cs.Bad as e:
        return h.violate(f"{where}: not well formed: {e}")

    def said(docs):
        ls = list(docs)
        if ls and ls[0].strip() == "<summary>" and ls[-1].strip() == "</summary>":
            ls = ls[1:-1]
        elif ls:
            h.violate(f"{where}: documentation that is no summary: {ls}")
        return lines(ls)
    exp = hdr_cs.expected(h.prog)
    for n, (kind, t) in exp.items():
        if t.user not in ("struct", "enum", "opaque") or getattr(t, "docs", None) is None:
            continue
        d = f.types.get(n)
        if d is None:
            h.violate(f"{where}: {n} is not in the file")
            continue
        same(h, where, f"{kind} {n}", lines(t.docs), said(d["docs"]))
        if t.kind == "enum":
            for (want, v), (got, _, _) in zip(members(t), d["members"]):
                same(h, where, f"member {n}.{v}", lines(want), said(got))
        elif kind == "struct":
            for (want, v), got in zip(members(t), d["fields"]):
                same(h, where, f"member {n}.{v}", lines(want), said(got["docs"]))
    for g in h.prog.fns:
        if g.name in f.funcs:
            same(h, where, f"function {g.name}", lines(g.docs), said(f.funcs[g.name]["docs"]))
        else:
            h.violate(f"{where}: {g.name} is not in the file")
    for c in h.prog.consts:
        if not c.untyped:
            if c.name in f.consts:
                same(h, where, f"constant {c.name}", lines(c.docs), said(f.consts[c.name]["docs"]))
            else:
                h.violate(f"{where}: {c.name} is not in the file")


def bare_c(h, text, tag, which, flags=()):
    src = h.file(tag + ".bare.c", text)
    r = subprocess.run([which, "-fpreprocessed" if which == "gcc" else "-Wno-everything", "-dD", "-E", "-P", "-w"] + list(flags) + ["-x", "c", src], capture_output=True)
    if r.returncode != 0:
        return None, r.stderr.decode("utf-8", "replace")
    return r.stdout.decode("utf-8", "replace").split(), None


def check_bare(h, text, plain, where, lang):
    """The header without comments is the header without documentation."""
    h.count("bare_headers")
    if lang == 1:
        try:
            a, b = cs.tokens(text), cs.tokens(plain)
        except cs.Bad as e:
            return h.violate(f"{where}: {e}")
        a, b = [[x for x in l if x[0] != "doc"] for l in (a, b)]
        if a != b:
            i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
            h.violate(f"{where}: with documentation the code is …{a[max(0, i - 5):i + 12]}, without …{b[max(0, i - 5):i + 12]}")
        return
    for which, flags in (("gcc", ()), ("gcc", ("-std=c99", "-trigraphs")), ("clang", ("-std=c11", "-trigraphs"))):
        if which == "clang" and lang == 2:
            continue
        a, e1 = bare_c(h, text, "docs", which, flags)
        b, e2 = bare_c(h, plain, "nodocs", which, flags)
        if a is None or b is None:
            h.violate(f"{where}: {which} cannot read it: {(e1 or e2)[:300]}")
        elif a != b:
            i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
            h.violate(f"{where}: {which}: with documentation the code is …{' '.join(a[max(0, i - 5):i + 20])}, without …{' '.join(b[max(0, i - 5):i + 20])}")


def main():
    h = H(json.loads(sys.argv[1]))
    for lang, where in ((0, "C"), (1, "C#"), (2, "Python"), (256, "C, unsorted"), (257, "C#, unsorted")):
        text, err = gen.headers(h.spec["so"], lang, h.name)
        plain, err2 = gen.headers(h.spec["so2"], lang, h.name)
        if err or err2:
            h.violate(f"{where}: {err or err2}")
            continue
        h.count("headers")
        check_bare(h, text, plain, where, lang & 255)
        if lang & 255 == 0:
            hp = h.file("docs.h", text)
            for which in ("gcc", "clang", "g++", "clang++"):
                f = h.file("docs.c" if "+" not in which else "docs.cpp", f'#include "{hp}"\nint vf_x;\n')
                for fl in ([], ["-trigraphs"]):
                    rc, out = gen.cc(which, ["-w", "-fsyntax-only"] + fl + [f])
                    if rc != 0:
                        h.violate(f"{where}: {which} refuses it: {out[:500]}")
            check_c(h, text, where)
        elif lang & 255 == 1:
            check_cs(h, text, where)
    print(json.dumps(dict(counts=h.counts, distinct=sorted(h.distinct), samples=h.samples, violations=h.viol)))


if __name__ == "__main__":
    main()
