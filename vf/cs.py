"""A tokenizer and parser for the C# that headers consist of; an independent reading of it (types, layout, constants)."""
import re, struct

TOK = re.compile(r"""
  (?P<doc>///[^\n\r\x85\u2028\u2029]*) | (?P<line>//[^\n\r\x85\u2028\u2029]*) | (?P<block>/\*.*?\*/) | (?P<ws>\s+)
| (?P<str>"(?:[^"\\\n]|\\.)*") | (?P<chr>'(?:[^'\\\n]|\\.)+')
| (?P<num>[0-9][0-9A-Za-z_.]*(?:(?<=[eE])[+-][0-9]+)?[A-Za-z]*)
| (?P<id>@?[^\W\d]\w*) | (?P<p>[{}()\[\];:,.=*<>&+-])
""", re.X | re.S)

KEYWORDS = set("""abstract as base bool break byte case catch char checked class const continue decimal default delegate do double else enum event explicit extern false
finally fixed float for foreach goto if implicit in int interface internal is lock long namespace new null object operator out override params private protected public readonly
ref return sbyte sealed short sizeof stackalloc static string struct switch this throw true try typeof uint ulong unchecked unsafe ushort using virtual void volatile while""".split())

PRIM = {  # name -> (size, class)
    "byte": (1, "u"), "sbyte": (1, "i"), "UInt16": (2, "u"), "Int16": (2, "i"), "UInt32": (4, "u"), "Int32": (4, "i"), "UInt64": (8, "u"), "Int64": (8, "i"),
    "ushort": (2, "u"), "short": (2, "i"), "uint": (4, "u"), "int": (4, "i"), "ulong": (8, "u"), "long": (8, "i"), "UIntPtr": (8, "u"), "IntPtr": (8, "i"), "nuint": (8, "u"), "nint": (8, "i"),
    "float": (4, "f"), "double": (8, "f"), "bool": (1, "b"),
}
FIXED_OK = {"bool", "byte", "sbyte", "short", "ushort", "int", "uint", "long", "ulong", "char", "float", "double", "Int16", "UInt16", "Int32", "UInt32", "Int64", "UInt64"}


class Bad(Exception):
    pass


def directives(text, symbols=()):
    """Handles #if/#else/#endif and #pragma; newlines stay."""
    out, stack = [], []
    for ln in re.split("\n", text):
        s = ln.strip()
        if s.startswith("#"):
            w = s[1:].split()
            if w[:1] == ["if"] and len(w) == 2:
                stack.append(w[1] in symbols)
            elif w[:1] == ["else"] and stack:
                stack[-1] = not stack[-1]
            elif w[:1] == ["endif"] and stack:
                stack.pop()
            elif w[:1] == ["pragma"] and w[1:3] in (["warning", "disable"], ["warning", "restore"]):
                pass
            else:
                raise Bad(f"unknown directive: {s[:100]}")
            out.append("")
        else:
            out.append(ln if all(stack) else "")
    if stack:
        raise Bad("unbalanced #if")
    return "\n".join(out)


def tokens(text, symbols=()):
    text = directives(text, symbols)
    at, out = 0, []
    while at < len(text):
        m = TOK.match(text, at)
        if not m:
            raise Bad(f"not a C# token: {text[at:at + 60]!r} after {text[max(0, at - 60):at]!r}")
        k = m.lastgroup
        if k not in ("ws", "line", "block"):
            out.append((k, m.group()))
        at = m.end()
    return out


class P:
    def __init__(self, text, symbols=()):
        self.t = tokens(text, symbols)
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else ("eof", "")

    def next(self):
        x = self.peek()
        self.i += 1
        return x

    def at(self, s):
        return self.peek()[1] == s and self.peek()[0] in ("p", "id")

    def eat(self, s):
        if self.at(s):
            self.i += 1
            return True
        return False

    def want(self, s):
        if not self.eat(s):
            raise Bad(f"expected {s!r}, found {' '.join(x for _, x in self.t[self.i:self.i + 8])!r} after {' '.join(x for _, x in self.t[max(0, self.i - 12):self.i])!r}")

    def ident(self):
        k, v = self.next()
        if k != "id" or v in KEYWORDS:
            raise Bad(f"expected a name, found {v!r} after {' '.join(x for _, x in self.t[max(0, self.i - 12):self.i - 1])!r}")
        return v.lstrip("@")

    def docs(self):
        d = []
        while self.peek()[0] == "doc":
            d.append(self.next()[1][3:])
        return d

    def attrs(self):
        """[A(…), B] -> list of token strings"""
        out = []
        while self.at("["):
            self.next()
            depth, cur = 0, []
            while True:
                k, v = self.next()
                if k == "eof" or k == "doc":
                    raise Bad("attribute without end")
                if v == "]" and depth == 0:
                    break
                depth += (v in "([") - (v in ")]") if k == "p" else 0
                cur.append(v)
            out.append(" ".join(cur))
        return out

    def type(self):
        k, v = self.next()
        if k != "id" or (v in KEYWORDS and v not in PRIM and v not in ("void", "string", "char")):
            raise Bad(f"expected a type, found {v!r} after {' '.join(x for _, x in self.t[max(0, self.i - 12):self.i - 1])!r}")
        t = v
        while self.eat("*"):
            t += " *"
        return t

    def expr(self, stop):
        out = []
        depth = 0
        while not (depth == 0 and self.peek()[1] in stop and self.peek()[0] == "p"):
            k, v = self.next()
            if k == "eof" or k == "doc":
                raise Bad("expression without end")
            depth += (v == "(") - (v == ")") if k == "p" else 0
            out.append((k, v))
        return out


def attr_size(attrs):
    for a in attrs:
        m = re.fullmatch(r"StructLayout \( LayoutKind \. Sequential(?: , Size = (\d+))?(?: , Pack = (\d+))? \)", a)
        if m:
            return int(m.group(1)) if m.group(1) else None
    return None


def marshal(attrs, pre=""):
    ms = [m.group(1).replace(" ", "") for a in attrs for m in [re.fullmatch(pre + r"MarshalAs \( (.*) \)", a)] if m]
    return ms[0] if ms else None


class File:
    """namespace, types {name: dict}, order [names], funcs {name: dict}, consts {name: dict}, strings"""

    def __init__(self, text, symbols=()):
        self.dups, self.types, self.funcs, self.consts, self.order, self.private = [], {}, {}, {}, [], {}
        p = self.p = P(text, symbols)
        p.docs()
        p.want("namespace")
        self.namespace = p.ident()
        p.want("{")
        self.usings = []
        while p.eat("using"):
            n = p.ident()
            while p.eat("."):
                n += "." + p.ident()
            self.usings.append(n)
            p.want(";")
        while not p.at("}"):
            self.item()
        p.want("}")
        if p.peek()[0] != "eof":
            raise Bad(f"text after the namespace: {p.peek()[1]!r}")

    def put(self, table, name, d, what):
        if name in table:
            self.dups.append(f"{what} {name}")
        table.setdefault(name, d)
        self.order.append((what, name))

    def item(self):
        p = self.p
        docs = p.docs()
        attrs = p.attrs()
        mods = []
        while p.peek()[1] in ("public", "unsafe", "partial", "static"):
            mods.append(p.next()[1])
        if "public" not in mods:
            raise Bad(f"an item that is not public near {p.peek()[1]!r}")
        k = p.next()[1]
        if k == "struct":
            name = p.ident()
            p.want("{")
            fields = []
            while not p.at("}"):
                fd, fa = p.docs(), p.attrs()
                vis = p.next()[1]
                if vis not in ("public", "private"):
                    raise Bad(f"struct {name}: field neither public nor private: {vis!r}")
                fixed = p.eat("fixed")
                ty = p.type()
                fn = p.ident()
                n = None
                if fixed:
                    p.want("[")
                    n = int(p.next()[1])
                    p.want("]")
                p.want(";")
                fields.append(dict(docs=fd, attrs=fa, vis=vis, type=ty, name=fn, fixed=n))
            p.want("}")
            self.put(self.types, name, dict(kind="struct", docs=docs, attrs=attrs, fields=fields, unsafe="unsafe" in mods, size=attr_size(attrs)), "type")
        elif k == "enum":
            name = p.ident()
            base = p.type() if p.eat(":") else None
            p.want("{")
            ms, cur = [], -1
            while not p.at("}"):
                d = p.docs()
                n = p.ident()
                if p.eat("="):
                    cur = int_literal(p.expr(",}"))
                else:
                    cur += 1
                ms.append((d, n, cur))
                if not p.eat(","):
                    break
            p.want("}")
            self.put(self.types, name, dict(kind="enum", docs=docs, attrs=attrs, base=base, members=ms), "type")
        elif k == "delegate":
            ret, name, ps = self.sig()
            self.put(self.types, name, dict(kind="delegate", docs=docs, attrs=attrs, ret=ret, params=ps, unsafe="unsafe" in mods), "type")
        elif k == "class":
            name = p.ident()
            if name != "Ffi" or "partial" not in mods:
                raise Bad(f"class {name}")
            p.want("{")
            while not p.at("}"):
                self.member("unsafe" in mods)
            p.want("}")
        else:
            raise Bad(f"unknown item {k!r}")

    def sig(self):
        p = self.p
        ret = p.type()
        name = p.ident()
        p.want("(")
        ps = []
        while not p.at(")"):
            a = p.attrs()
            ps.append((a, p.type(), p.ident()))
            if not p.eat(","):
                break
        p.want(")")
        p.want(";")
        return ret, name, ps

    def member(self, unsafe):
        p = self.p
        docs = p.docs()
        attrs = p.attrs()
        mods = []
        while p.peek()[1] in ("public", "private", "unsafe", "static", "extern", "const", "readonly"):
            mods.append(p.next()[1])
        if "extern" in mods:
            ret, name, ps = self.sig()
            self.put(self.funcs, name, dict(docs=docs, attrs=attrs, ret=ret, params=ps, mods=mods, unsafe=unsafe or "unsafe" in mods), "function")
            return
        ty, name = p.type(), p.ident()
        p.want("=")
        e = p.expr(";")
        p.want(";")
        if "private" in mods:
            self.private[name] = (ty, e)
        else:
            self.put(self.consts, name, dict(docs=docs, attrs=attrs, mods=mods, type=ty, expr=e), "constant")

    # ---- layout as .NET marshals it (LayoutKind.Sequential, default packing): (size, align, [(offset, size, class)])
    def layout(self, ty, m=None, seen=()):
        if ty.endswith("*"):
            return 8, 8, [(0, 8, "p")]
        if ty in PRIM:
            s, c = PRIM[ty]
            if ty == "bool" and m != "UnmanagedType.U1" and m != "UnmanagedType.I1":
                s = 4
            elif m and m not in {"u1": ["UnmanagedType.U1"], "b1": ["UnmanagedType.U1", "UnmanagedType.I1"], "i1": ["UnmanagedType.I1"], "u2": ["UnmanagedType.U2"], "i2": ["UnmanagedType.I2"], "u4": ["UnmanagedType.U4"], "i4": ["UnmanagedType.I4"], "u8": ["UnmanagedType.U8", "UnmanagedType.SysUInt"], "i8": ["UnmanagedType.I8", "UnmanagedType.SysInt"], "f4": ["UnmanagedType.R4"], "f8": ["UnmanagedType.R8"]}[c + str(s)]:
                raise Bad(f"{ty} marshalled as {m}")
            return s, s, [(0, s, c)]
        if ty not in self.types or ty in seen:
            raise Bad(f"type {ty} is not declared")
        d = self.types[ty]
        if d["kind"] == "delegate":
            if m not in (None, "UnmanagedType.FunctionPtr"):
                raise Bad(f"delegate {ty} marshalled as {m}")
            return 8, 8, [(0, 8, "fn")]
        if m:
            raise Bad(f"{ty} marshalled as {m}")
        if d["kind"] == "enum":
            s, c = PRIM[d["base"] or "int"]
            return s, s, [(0, s, c)]
        off, al, out = 0, 1, []
        for f in d["fields"]:
            n = 1
            if f["fixed"] is not None:
                if f["type"] not in FIXED_OK:
                    raise Bad(f"a fixed buffer of {f['type']} in {ty}")
                s, c = PRIM[f["type"]]
                a, lv, n = s, [(0, s, c)], f["fixed"]
            else:
                s, a, lv = self.layout(f["type"], marshal(f["attrs"]), seen + (ty,))
            off = -(-off // a) * a
            al = max(al, a)
            for k in range(n):
                out += [(off + k * s + o, z, c) for o, z, c in lv]
            off += s * n
        size = max(-(-off // al) * al, d["size"] or 0, 1)
        return size, al, out

    def mentioned(self):
        """Names of declared-or-not types that something refers to."""
        out = set()

        def go(t):
            out.add(t.rstrip("* "))
        for d in self.types.values():
            for f in d.get("fields", ()):
                go(f["type"])
            for _, t, _ in d.get("params", ()):
                go(t)
            if "ret" in d:
                go(d["ret"])
        for f in self.funcs.values():
            go(f["ret"])
            for _, t, _ in f["params"]:
                go(t)
        for c in self.consts.values():
            go(c["type"])
        return {t for t in out if t not in PRIM and t not in ("void", "string", "char")}


def int_literal(e):
    neg = False
    while e and e[0] == ("p", "-"):
        neg, e = not neg, e[1:]
    if e[:1] == [("p", "(")] and e[-1:] == [("p", ")")]:
        v = int_literal(e[1:-1])
        return -v if neg else v
    if len(e) != 1 or e[0][0] != "num":
        raise Bad("not an integer literal: " + " ".join(v for _, v in e))
    m = re.fullmatch(r"(0[xX][0-9a-fA-F_]+|0[bB][01_]+|[0-9][0-9_]*)([uU]?[lL]?|[lL][uU])", e[0][1])
    if not m:
        raise Bad("not an integer literal: " + e[0][1])
    s = m.group(1).replace("_", "")
    v = int(s, 0) if s[:2].lower() in ("0x", "0b") else int(s)
    if v >= 1 << 64:
        raise Bad(f"integer literal {v} is too large")
    return -v if neg else v


def const_value(ty, e, mods):
    """The value of `public MODS ty NAME = e`: an int, a bool, or the bits of a float; Bad when C# has no such constant."""
    if ty in ("IntPtr", "UIntPtr"):
        if "const" in mods:
            raise Bad(f"there are no constants of type {ty}")
        vals = [v for _, v in e]
        if vals[:3] == ["new", ty, "("] and vals[-1] == ")":
            return ranged(ty, int_literal(e[3:-1]))
        raise Bad(f"no implicit conversion to {ty}")
    if ty not in PRIM:
        raise Bad(f"a constant of type {ty}")
    s, c = PRIM[ty]
    if c == "b":
        if len(e) == 1 and e[0][1] in ("true", "false"):
            return e[0][1] == "true"
        raise Bad("not a bool")
    if c in "iu":
        return ranged(ty, int_literal(e))
    neg = False
    if e[:1] == [("p", "-")]:
        neg, e = True, e[1:]
    txt = "".join(v for _, v in e)
    fmt = "f" if s == 4 else "d"
    for pre in ("float", "double"):
        for n, v in ((".PositiveInfinity", float("inf")), (".NegativeInfinity", float("-inf")), (".NaN", float("nan"))):
            if txt == pre + n:
                if pre == "double" and s == 4:
                    raise Bad("no implicit conversion from double to float")
                return struct.pack("<" + fmt, -v if neg else v)
    m = re.fullmatch(r"([0-9][0-9_]*(?:\.[0-9][0-9_]*)?(?:[eE][+-]?[0-9]+)?)([fFdDmM]?)", txt)
    if not m:
        raise Bad("not a number: " + txt)
    if m.group(2) in "mM" and m.group(2):
        raise Bad("a decimal")
    isint = re.fullmatch(r"[0-9_]+", m.group(1)) and not m.group(2)
    if s == 4 and not (m.group(2) in ("f", "F") or isint):
        raise Bad(f"{txt} is a double, which does not convert to float")
    import fractions
    v = m.group(1).replace("_", "")
    if s == 4:
        b = round_f32(fractions.Fraction(v))
        return struct.pack("<f", -b if neg else b)
    if m.group(2) in ("f", "F"):
        v = round_f32(fractions.Fraction(v))
    return struct.pack("<d", -float(v) if neg else float(v))


def round_f32(q):
    """The nearest float to a fraction, exactly (no double rounding)."""
    import fractions
    if q == 0:
        return 0.0
    d = struct.unpack("<I", struct.pack("<f", min(float(q), 3.4028234663852886e38)))[0]
    best = None
    for k in range(max(0, d - 2), min(0x7f7fffff, d + 2) + 1):
        f = struct.unpack("<f", struct.pack("<I", k))[0]
        e = abs(fractions.Fraction(f) - q)
        if best is None or e < best[0] or (e == best[0] and k % 2 == 0):
            best = (e, f)
    return best[1]


def ranged(ty, v):
    s, c = PRIM[ty]
    lo, hi = (-(1 << (8 * s - 1)), (1 << (8 * s - 1)) - 1) if c == "i" else (0, (1 << (8 * s)) - 1)
    if not lo <= v <= hi:
        raise Bad(f"{v} does not fit in {ty}")
    return v
