"""Random programs exporting items over random FFI-safe types, and what their headers and ABI have to be (see gentypes)."""
import random, re, struct
import gentypes as G
from gentypes import PRIMS, VOID, Ty, up

ARRAY_LENS = list(range(1, 33)) + [40, 48, 50, 60, 64, 70, 75, 80, 90, 96, 100, 125, 128, 192, 200, 250, 256, 300, 400, 500, 512, 600, 700, 750, 800, 900, 1000, 1024]
WORDS = "alpha beta Gamma delta omega Pi rho Tau node edge Link cell Grid item Tile path Root leaf Stem core Rim hub Spoke".split()
DOCS = [
    "plain words", "two  spaces", "under_score and CamelCase", "a `code` span", "`two` code `spans`", "``double`` ticks", "trailing \\ backslash", "percent %d and %s", "braces {} and {0}",
    "angle <b>tags</b> & amp", "tab\there", "quotes \" and '", "// slashes", "# hash", "unicode é ∀ 文", "@param x", "\\brief again", "question ??/ mark", "[link](url)", "* star", "end with star *",
]


HOSTILE = [
    "*/", "/*", "*\\/", "*/ int injected; /*", "//", "///", "\\", "\\\\", "??/", "*??/", "**/", "*//*", "/*/", "* /", "\n*/\n", "\n/\n", "*\n/", "*\\\n/", "\\\n", "\n#define BROKEN 1\n", "\n#endif\n", "\n#if 0\n",
    "#include <no_such.h>", "\n#error no\n", "`code", "``", "```", "``a``b`", "\n```rust\nlet x = `1`;\n```\n", "</summary>", "<c>", "</c>", "]]>", "&amp;", "\r", "\r\n", "\n\r", "\u2028", "\u2029", "\u0085", "\x0b", "\x0c",
    "\r public struct Injected {}", "\u2028 broken", "\u0085}", "\n}\n", "\n{\n", "{", "}", "{0}", "{{}}", "%s%n", '"', "'", '@"', "\\u000a}", "\\x0a", "\ufeff", "\U0001f980", "\u0301", "\u202e", "#region", "\n#if false\n", "a\nb", "first\n\nthird", "\n  indented\n    more",
    "\\brief", "\\file", "@{", "typedef int injected;", "\n;", "extern \"C\" {", "<No documentation available>", "TODO: `x`,", "r#\"raw\"#", "$", "\0" if False else "nul",
]


def screaming(short, variant):
    s = short + variant
    return "".join(("_" if i and c in "ABCDEFGHIJKLMNOPQRSTUVWXYZ" else "") + (c.upper() if c.isascii() else c) for i, c in enumerate(s))


LENT = r"&'static (mut )?[\w:]+|(slice|c_slice|char_p|str)::(Ref|Mut)<'static(, \w+)?>"


class Fn:
    def __init__(self, name, rust_name, args, ret, docs=()):
        self.name, self.rust_name, self.args, self.ret, self.docs = name, rust_name, args, ret, list(docs)


class Const:
    """An exported constant: `value` is an int, a bool, bytes (a float's bits) or a str."""
    def __init__(self, **kw):
        self.__dict__.update(kw)


ERASED = Ty("::safer_ffi::dyn_traits::ErasedTy", 0, 1, "Erased", [], kind="opaque", opaque=True, user="opaque", tag="Erased", docs=None)


def std_opaque(rust, size, align, name):
    t = Ty(rust, size, align, "Opaque" + name, [], kind="opaque", opaque=True, user="opaque", tag="Opaque" + name)
    t.docs = None
    t.ptr_align = align
    return t


# What Rust's library has, and is opaque in C.
STD_OPAQUE = [std_opaque(*x) for x in [
    ("String", 24, 8, "_String"), ("Vec<u8>", 24, 8, "_Vec_u8"), ("Vec<Vec<i16>>", 24, 8, "_Vec_Vec_i16"), ("Box<u16>", 8, 8, "_Box_u16"), ("Vec<Box<dyn ::core::fmt::Debug>>", 24, 8, "_Vec_Box_dyn_Debug"),
    ("::std::rc::Rc<(u8, bool)>", 8, 8, "_Rc_u8_bool"), ("::std::sync::Arc<[u8; 3]>", 8, 8, "_Arc_u8_3"), ("::std::sync::Mutex<u8>", 8, 4, "_Mutex_u8"), ("::std::collections::BTreeMap<u8, String>", 24, 8, "_BTreeMap_u8_String"),
    ("::std::collections::HashMap<u8, Vec<bool>>", 48, 8, "_HashMap_u8_Vec_bool"), ("::core::cell::RefCell<u64>", 16, 8, "_RefCell_u64"), ("&'static [u8]", 16, 8, "___u8_"), ("&'static mut [i64]", 16, 8, "__mut__i64_"), ("::core::task::Context<'static>", 16, 8, "_Context"),
    ("::safer_ffi::layout::Opaque<u32>", 4, 4, "_u32"), ("::safer_ffi::layout::Opaque<Vec<u8>>", 24, 8, "_Vec_u8"), ("::safer_ffi::layout::Opaque<::std::sync::Mutex<bool>>", 8, 4, "_Mutex_bool")]]
STR_TY = Ty("&'static str", 16, 8, "Opaque__str", [], kind="opaque", opaque=True, user="opaque", tag="Opaque__str", docs=None)
CONST_TEXT = ["", "plain", "a\"quote\"", "back\\slash", "\\", "line\nbreak\r\ttab", "nul\0and 7", "\0007", "bell\x07 esc\x1b del\x7f1", "\x01f\x02", "é ∀ 文 🦀", "\u200b\u202e\u00ad", "\u0301combining", "\ufeffbom", "??/ ??= ??' ???", "percent %s %d %n", "'single'", "*/ /* //", "#define X", "{braces} {{}}", "trailing ?", "\u0085\u2028\u2029", "\U0010ffff1", "ends with backslash \\", "\x0bv\x0cf", "$(x) `y`"]


EXECUTORS = ["::futures::executor::block_on", "ex_park", "ex_spin::<_>", "ex_virtual", "crate::inner::executors::ex_pool", "(|f| ex_park(f))", "inner::executors::ex_virtual"]


class Prog:
    def __init__(self, seed, name, **kw):
        for salt in range(50):
            self.generate(f"{seed}/{name}" + (f"/{salt}" if salt else ""), name, **kw)
            if not self.collisions():
                return
        raise RuntimeError("no program without name collisions")

    def collisions(self):
        """C names the library's naming gives to two different types (see the known findings): such programs are for C16 alone."""
        seen, bad = {}, []
        for t in self.reachable():
            n = t.short if t.kind == "fn" else t.c("")
            if t.kind in ("option", "ptr", "void", "uint", "int", "float", "bool", "char") and t.user != "alias" or t.user == "transparent":
                continue
            if t.kind == "fn":
                sig = tuple(a.c("") for a in t.args) + (t.ret.c(""),)
            elif t.user == "alias":
                sig = t.inner_t.c("")
            elif t.kind == "array":
                sig = (t.elem.c(""), t.n)
            elif t.fields:
                sig = tuple((n_, f.c("")) for n_, _, f in t.fields)
            else:
                sig = t.rust
            if seen.setdefault(n, sig) != sig:
                bad.append(n)
        return bad

    def generate(self, seed, name, n_user=14, n_fn=24, n_probe=70, docs=True, small=False, features=frozenset(), n_const=0, p_async=0):
        self.r = random.Random(seed)
        self.p_async = p_async
        self.g = random.Random(seed + "/ghosts")
        self.g2 = random.Random(seed + "/twins")
        self.g3 = random.Random(seed + "/dyn")
        self.g4 = random.Random(seed + "/generic")
        self.g5 = random.Random(seed + "/std")
        self.g6 = random.Random(seed + "/size")
        self.name = name
        self.docs_on = docs
        self.small = small
        self.features = features
        self.users, self.decls, self.fns, self.consts, self.exports = [], [], [], [], []
        self.generics = []
        self.names = set()
        self.ndoc = 0
        self.by_value = []   # everything that may be passed by value
        self.pointees = list(PRIMS[p] for p in ("u8", "i32", "u64", "f64", "bool"))
        for _ in range(n_user):
            self.user()
        self.probes = self.users_concrete() + [self.ty(2) for _ in range(n_probe)]
        seen, u = set(), []
        for t in self.probes:
            if t.rust not in seen and t.size:
                seen.add(t.rust)
                u.append(t)
        self.probes = u
        for _ in range(n_fn):
            self.function()
        for _ in range(n_const):
            self.constant()

    # ---- names and docs
    def ident(self, style=None):
        r = self.r
        while True:
            ws = [r.choice(WORDS) for _ in range(r.randrange(1, 3))]
            style_ = style or r.choice(["Camel", "snake", "mixed"])
            if style_ == "Camel":
                n = "".join(w.capitalize() for w in ws)
            elif style_ == "snake":
                n = "_".join(w.lower() for w in ws)
            else:
                n = ws[0].lower() + "".join(w.capitalize() for w in ws[1:])
            if self.g6.random() < .03:
                n += self.g6.choice(["w", "Long"]) * self.g6.choice([16, 31, 33, 70, 130])
            n += str(r.randrange(10, 99)) if r.random() < .8 else r.choice(["_x" if len(ws) == 1 else "", "_x", "X", "7z"])   # (a bare word could be libc's: link, gamma)
            k = n.lower().replace("_", "")
            if k not in self.names and not re.search(r"_$", n):
                self.names.add(k)
                return n

    def doc(self, p=.6):
        if not self.docs_on or self.r.random() > p:
            return []
        if "hostile_docs" in self.features:
            return self.hostile()
        out = []
        for _ in range(self.r.choice([1, 1, 1, 2, 3, 5])):
            if out and self.r.random() < .25:
                out.append("")
                continue
            self.ndoc += 1
            out.append(f"doc{self.ndoc} {self.r.choice(DOCS)}")
            if self.g6.random() < .02:
                out[-1] += " and".join(f" word{k}" for k in range(self.g6.choice([12, 24, 60, 500])))
        if self.g6.random() < .02:
            out += [f"line {k} of many" for k in range(self.g6.choice([9, 17, 40, 130]))]
        while out and out[-1] == "":
            out.pop()
        return out

    def hostile(self):
        """Documentation attributes whose texts try to get out of their comments."""
        r, out = self.r, []
        if r.random() < .06:
            return [""] * r.choice([1, 2])
        for _ in range(r.choice([1, 1, 1, 2, 2, 3, 4])):
            if out and r.random() < .12:
                out.append(r.choice(["", " ", "\n\n"]))
                continue
            self.ndoc += 1
            bits = [f"doc{self.ndoc}x"]
            for _ in range(r.choice([0, 1, 1, 2, 3, 4])):
                bits.append(r.choice(HOSTILE + DOCS) if r.random() < .9 else "".join(r.choice("*/\\ ?`<>\n#\"'{}") for _ in range(r.randrange(1, 9))))
            r.shuffle(bits)
            out.append(r.choice(["", "", " ", "\t"]) + r.choice([" ", " ", "", "\n"]).join(bits) + r.choice(["", "", "", " ", "\\", "*", "??/", "\n", "*/"]))
        return out

    def hostile_attrs(self, docs, ind):
        out = []
        for d in docs:
            r = random.Random(repr(d))
            forms = ["str"] * 2
            if not re.search(r"[\n\r]", d):
                forms += ["line"] * (3 if not d.startswith("/") else 0)
            if not re.search(r"\r|\*/|/\*|[*/]$", d) and d[:1] not in ("*", "/", "") and "\0" not in d:
                forms += ["block"] * 3
            if len(d) > 3:
                forms += ["concat", "raw"] if "\r" not in d and '"#' not in d else ["concat"]
            if "\u202e" in d:
                forms = ["str", "concat"] if len(d) > 3 else ["str"]
            esc = lambda x: '"' + "".join(c if c.isalnum() and c.isascii() or c in " *#/" else f"\\u{{{ord(c):x}}}" for c in x) + '"'
            k = r.choice(forms)
            if k == "line":
                out.append(f"{ind}///{d}")
            elif k == "block":
                out.append(f"{ind}/**{d}*/")
            elif k == "raw":
                out.append(f'{ind}#[doc = r##"{d}"##]')
            elif k == "concat":
                n = r.randrange(1, len(d))
                out.append(f"{ind}#[doc = concat!({esc(d[:n])}, {esc(d[n:])})]")
            else:
                out.append(f"{ind}#[doc = {esc(d)}]")
            if r.random() < .1:
                out.append(ind + r.choice(["#[doc(hidden)]", '#[doc(alias = "not_documentation")]', "// not documentation", "/* not documentation */"]))
        return "".join(o + "\n" for o in out)

    def doc_attrs(self, docs, ind=""):
        """In marks, so that source() can leave them out."""
        if "hostile_docs" in self.features:
            return "\x01" + self.hostile_attrs(docs, ind) + "\x02"
        return "\x01" + self.plain_attrs(docs, ind) + "\x02"

    @staticmethod
    def plain_attrs(docs, ind=""):
        out = []
        for d in docs:
            if "\\" in d or '"' in d or d.startswith("/") or d.startswith("*"):
                e = d.replace("\\", "\\\\").replace('"', '\\"').replace("\t", "\\t")
                out.append(f'{ind}#[doc = "{e}"]')
            else:
                out.append(f"{ind}/// {d}" if d else f"{ind}///")
        return "".join(o + "\n" for o in out)

    # ---- types
    def prim(self):
        return PRIMS[self.r.choice(list(PRIMS))]

    def pointee(self, depth):
        r = self.r
        if "no_opaque" not in self.features and self.g5.random() < .05:
            return self.g5.choice(STD_OPAQUE)
        x = r.random()
        if x < .35 or depth <= 0:
            return r.choice(self.pointees)
        if x < .5:
            op = [u for u in self.users if u.opaque]
            if op:
                return r.choice(op)
        return self.ty(depth - 1)

    def ty(self, depth, sized=True):
        """A random type that may be passed by value."""
        r = self.r
        if depth <= 0 or r.random() < .18:
            return self.prim()
        k = r.choices(["prim", "ptr", "optptr", "fn", "optfn", "array", "slice", "vec", "str", "tuple", "tagged", "closure", "user", "generic", "optfat", "c_voidp"],
                      [4, 10, 5, 4, 4, 5, 5, 3, 4, 4, 5, 4, 14, 5, 2, 1])[0]
        if k == "prim":
            return self.prim()
        if k == "ptr":
            return G.pointer(r.choice(list(G.PTRS)), self.pointee(depth - 1))
        if k == "optptr":
            return G.option(G.pointer(r.choice([n for n, v in G.PTRS.items() if v[3]]), self.pointee(depth - 1)))
        if k in ("fn", "optfn"):
            f = G.fn_ptr([self.val(depth - 1) for _ in range(r.choice([0, 1, 1, 2, 3, 6, 10]))], self.val(depth - 1) if r.random() < .7 else VOID, r.random() < .3)
            return f if k == "fn" else G.option(f)
        if k == "array":
            e = self.val(depth - 1)
            n = r.choice([1, 2, 3, 4, 7, 16, 31, 32]) if e.size <= 32 else r.choice([1, 2, 3])
            if e.size <= 2 and r.random() < .3:
                n = r.choice(ARRAY_LENS)
            if self.g5.random() < .2:
                # many elements that do not accept every pattern
                e = self.g5.choice([PRIMS["bool"]] * 2 + [u for u in self.users if u.kind == "enum" and u.size <= 2])
                n = self.g5.choice(ARRAY_LENS[32:])
            return G.array(e, n)
        if k == "slice":
            return G.slice_(r.choice(["Ref", "Mut", "Raw", "Box"]), self.val(depth - 1))
        if k == "vec":
            return G.vec_(self.val(depth - 1))
        if k == "optfat":
            dyn = [u for u in self.users if u.__dict__.get("dyn") and not u.user and u.size <= 160]
            if dyn and self.g3.random() < .4:
                return G.option(self.g3.choice(dyn))
            return G.option(r.choice([G.slice_(r.choice(["Ref", "Mut", "Raw", "Box"]), self.val(depth - 1)), G.vec_(self.val(depth - 1))]))
        if k == "str":
            return r.choice(STRS)
        if k == "tuple":
            return G.tuple_([self.val(depth - 1) for _ in range(r.choice([1, 2, 2, 3, 4, 6]))])
        if k == "tagged":
            return G.tagged(self.val(depth - 1))
        if k == "closure":
            return G.closure(r.choice(["Box", "Arc", "Ref"]), [self.val(0) for _ in range(r.choice([0, 1, 2, 3, 9]))], self.val(0) if r.random() < .6 else VOID)
        if k == "c_voidp":
            return r.choice([G.pointer("constptr", G.CVOIDP), G.pointer("mutptr", G.CVOIDP), G.pointer("nonnull", G.CVOIDP), G.option(G.pointer("nonnull", G.CVOIDP))])
        if k == "user":
            us = [u for u in self.users if not u.opaque and u.size <= 160]
            return r.choice(us) if us else self.prim()
        if k == "generic":
            if self.generics:
                return self.instance(r.choice(self.generics), depth)
            return self.prim()
        raise KeyError(k)

    def val(self, depth):
        while True:
            t = self.ty(depth)
            if t.size and t.size <= 200:
                return t

    def instance(self, g, depth):
        return g([self.val(depth - 1) for _ in range(g.n)])

    def users_concrete(self):
        return [u for u in self.users if not u.opaque]

    # ---- user-defined types
    def user(self):
        r = self.r
        k = r.choices(["struct", "enum", "transparent", "opaque", "generic"], [10, 7, 4, 2, 3])[0]
        if k == "opaque" and "no_opaque" in self.features:
            k = "struct"
        if k != "opaque" and self.g3.random() < .09:
            k = "dyn"
        getattr(self, "u_" + k)()

    def rename(self, rust):
        """-> (C short name, derive attribute argument)"""
        if self.r.random() < .25:
            n = self.ident()
            if n[0].isdigit():
                n = "r" + n
            return n, f'(rename = "{n}")'
        return rust, ""

    def fields(self, depth=2, lo=1, hi=7):
        r = self.r
        out, used = [], set()
        n = r.randrange(lo, hi)
        if hi > 4 and self.g6.random() < .05:
            n, depth = self.g6.choice([12, 17, 33, 65, 130]), 0
        for i in range(n):
            n = f"{r.choice(['a', 'b', 'field', 'x', 'the_len', 'Upper', 'ptr', 'tag', 'data'])}{i}"
            out.append((n, self.val(depth)))
        return out

    def add(self, t, decl, export=None):
        self.users.append(t)
        self.decls.append(decl)
        t.decl = decl
        if export:
            self.exports.append(t)
        return t

    def twin(self, rust):
        """Now and then: the name of an earlier struct but for the case of one letter."""
        old = [t.rust for t in self.users if t.user in ("struct", "opaque") and re.fullmatch(r"[A-Za-z]\w*", t.rust)]
        if not old or self.g2.random() > .12:
            return rust
        n = self.g2.choice(old)
        i = self.g2.choice([i for i, c in enumerate(n) if c.isalpha() and c.isascii()])
        n = n[:i] + n[i].swapcase() + n[i + 1:]
        taken = {x for t in self.users for x in (t.rust, getattr(t, "tag", None) or "")}
        return rust if n in taken else n

    def u_struct(self):
        r = self.r
        rust = self.twin(self.ident("Camel"))
        short, attr = self.rename(rust)
        tup = r.random() < .2
        fs = self.fields(2)
        if self.small:
            fs = fs[:3]
        zst = r.random() < .15 and len(fs) > 0
        fdocs = [self.doc(.4) for _ in fs]
        if tup:
            fs = [(f"_{i}", t) for i, (_, t) in enumerate(fs)]
        t = G.struct_like(rust, short, fs, user="struct", tag=short)
        t.docs, t.fdocs = self.doc(), fdocs
        t.zst_field = zst
        t.all_fields = fs
        body = []
        for (n, f), d in zip(fs, fdocs):
            body.append(self.doc_attrs(d, "    ") + (f"    pub {f.rust}," if tup else f"    pub {n}: {f.rust},"))
        if zst:
            z = "::core::marker::PhantomData<u64>"
            body.insert(r.randrange(len(body) + 1), f"    pub {z}," if tup else f"    pub zst_: {z},")
        if tup:
            pos, idx = [], 0
            names = []
            # indices of the tuple's sized fields once the zero-sized one is there; C names go by position
            j = 0
            for i, b in enumerate(body):
                if "PhantomData<u64>" in b and zst:
                    continue
                names.append(f"_{i}")
            fs = [(n, f) for n, (_, f) in zip(names, fs)]
            t2 = G.struct_like(rust, short, fs, user="struct", tag=short)
            t2.docs, t2.fdocs, t2.all_fields = t.docs, fdocs, fs
            t = t2
        t.tuple_struct = tup
        if not tup and self.g.random() < .2:
            # fields that are not there
            for i in range(self.g.choice([1, 1, 2])):
                gt = self.g.choice(["u8", "u64", "[u32; 3]", "::core::marker::PhantomData<u8>", "&'static u8"])
                body.insert(self.g.randrange(len(body) + 1), self.g.choice(["    #[cfg(any())] ", "    #[cfg(not(all()))]\n    /// not there\n    "]) + f"pub ghost{i}: {gt},")
        exp = r.random() < .3
        decl = self.doc_attrs(t.docs) + ("#[ffi_export]\n" if exp else "") + f"#[derive_ReprC{attr}]\n#[repr(C)]\npub struct {rust}" + ("(\n" + "\n".join(body) + "\n);" if tup else " {\n" + "\n".join(body) + "\n}")
        t.probe_fields = [(n, n[1:] if tup else n) for n, _, _ in t.fields]
        t.export_key = rust
        self.add(t, decl, exp)

    def u_enum(self):
        r = self.r
        rust = self.ident("Camel")
        short, attr = self.rename(rust)
        repr_c = r.random() < .15
        ity = "i32" if repr_c else r.choice(["u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64"])
        p = PRIMS[ity]
        lo, hi = (-(1 << (8 * p.size - 1)), (1 << (8 * p.size - 1)) - 1) if ity[0] == "i" else (0, (1 << (8 * p.size)) - 1)
        # how discriminants are written limits them to what the untyped expression can be
        n = r.choice([1, 2, 2, 3, 4, 6, 9])
        if self.g6.random() < .08:
            n = self.g6.choice([17, 33, 65, 129, 256, 300])   # (as many of them as there are discriminants)
        vs, names, cur = [], set(), None
        used = set()
        for i in range(n):
            v = f"{r.choice(['Red', 'Green', 'blue', 'HTTPx', 'A', 'b', 'Some_Case', 'Zed'])}{i}"
            if r.random() < .45:
                for _ in range(20):
                    c = r.choice([lo, hi, 0, 1, -1, lo + 1, hi - 1, r.randrange(lo, hi + 1), r.randrange(max(lo, -300), min(hi, 300) + 1)])
                    if lo <= c <= hi and c not in used:
                        break
                else:
                    c = None
            else:
                c = None
            explicit = c is not None
            if c is None:
                c = 0 if cur is None else cur + 1
            if c in used or not lo <= c <= hi:
                continue
            used.add(c)
            cur = c
            vs.append((v, c, explicit))
        if not vs:
            vs = [("Only0", 0, False)]
        t = Ty(rust, p.size, p.size, short, [(0, p.size, "enum", sorted({c % (1 << (8 * p.size)) for _, c, _ in vs}))], kind="enum", user="enum", copy=True)
        t.variants, t.int, t.repr_c, t.deps = vs, p, repr_c, []
        if not repr_c:
            t.deps = [p]
        t.docs = self.doc()
        t.vdocs = [self.doc(.3) for _ in vs]
        t.tag = short
        lines = []
        for i, ((v, c, e), d) in enumerate(zip(vs, t.vdocs)):
            ex = ""
            if e:
                k = r.random()
                prev = [x for x, _, _ in vs[:i]]
                if k < .15 and abs(c) < 1000 and prev and False:
                    pass
                if k < .2 and c > 0:
                    ex = f" = {hex(c)}"
                elif k < .3 and lo <= c - 1:
                    ex = f" = {c - 1} + 1"
                elif k < .4 and prev:
                    pv = vs[i - 1]
                    ex = f" = {rust}::{pv[0]} as {'isize' if repr_c else ity} {'+' if c >= pv[1] else '-'} {abs(c - pv[1])}"
                    if abs(c - pv[1]) > hi:
                        ex = f" = {c}"
                else:
                    ex = f" = {c}"
            lines.append(self.doc_attrs(d, "    ") + f"    {v}{ex},")
        exp = r.random() < .3
        decl = self.doc_attrs(t.docs) + ("#[ffi_export]\n" if exp else "") + f"#[derive_ReprC{attr}]\n#[repr({'C' if repr_c else ity})]\n#[derive(Clone, Copy)]\npub enum {rust} {{\n" + "\n".join(lines) + "\n}"
        t.export_key = rust
        self.add(t, decl, exp)

    def enumerators(self, t):
        return [(screaming(t.short, v), c) for v, c, _ in t.variants]

    def u_transparent(self):
        r = self.r
        rust = self.ident("Camel")
        short, attr = self.rename(rust)
        inner = self.val(2)
        if self.g5.random() < .2:
            # a callback that is lent things
            g = self.g5
            only = g.random() < .5
            things = lambda: g.choice([G.pointer(g.choice(["ref", "mutref"]), g.choice([u for u in self.users if not u.opaque and re.fullmatch(r"\w+", u.rust)] + [PRIMS["u8"], PRIMS["i64"]])), G.slice_(g.choice(["Ref", "Mut"]), PRIMS[g.choice(["u8", "u32"])]), g.choice([t for t in STRS if "'static" in t.rust]), PRIMS["u16"]] if not only else [G.pointer(g.choice(["ref", "mutref"]), PRIMS[g.choice(["u8", "i64"])]), PRIMS["u16"]])
            inner = G.fn_ptr([things() for _ in range(g.choice([1, 2, 3]))], g.choice([VOID, PRIMS["u8"], things()]))
        if "no_alias" in self.features:
            attr = ""
        if "fn" in (inner.kind, inner.kind == "option" and inner.inner.kind):
            short, attr = rust, ""   # such a wrapper is the function pointer itself, whatever its name
        t = Ty(rust, inner.size, inner.align, inner.short, inner.leaves(), kind=inner.kind, fields=inner.fields)
        t.__dict__.update({k: v for k, v in inner.__dict__.items() if k not in ("rust", "_leaves", "docs", "user", "export_key", "probe_fields", "variants")})
        if "variants" in inner.__dict__ and inner.kind == "enum":
            t.variants = inner.variants
        t.rust = rust
        t.copy = False
        t.deps = [inner]
        t.inner_t = inner
        if inner.kind == "option":
            # an Option has no niche of its own
            t.niche = False
            t.leaf_of = inner
        t.wrapped = inner
        t.docs = self.doc()
        if attr:
            t.short = short
            t.__dict__.pop("cname", None)
            t.csname = inner.cs()
            t.user = "alias"
            t.c = lambda var="", s=short: f"{s}_t" + (" " + var if var else "")
        else:
            t.user = "transparent"
        zst = r.random() < .3
        tup = r.random() < .5
        exp = r.random() < .2 and attr != ""
        z = "::core::marker::PhantomData<u32>" if r.random() < .5 else "()"
        generic = not attr and self.g4.random() < .35
        if generic:
            t.rust = f"{rust}<{inner.rust}>"
        held = "T" if generic else inner.rust
        if inner.kind == "fn" and not inner.user and not generic and not zst and inner.rust.count("fn(") == 1 and self.g5.random() < .6:
            # arguments with any lifetime (one of the wrapper's own does not compile)
            sig, arrow, back = inner.rust.partition(" -> ")
            for a in inner.args:
                if re.fullmatch(LENT, a.rust):
                    sig = sig.replace(a.rust, a.rust.replace("'static ", "") if a.rust[0] == "&" and self.g5.random() < .5 else a.rust.replace("'static", "'_"), 1)
            held = sig + arrow + back
        fields = [f"pub {held}" if tup else f"pub inner: {held}"] + ([("pub " if tup else "pub z: ") + z] if zst else [])
        if self.g.random() < .4:
            fields.reverse()
        if zst and self.g.random() < .3:
            fields.insert(self.g.randrange(3), ("pub " if tup else "pub zz: ") + "::core::marker::PhantomData<::core::cell::Cell<u16>>")
        body = f"({', '.join(fields)});" if tup else f" {{ {', '.join(fields)} }}"
        decl = self.doc_attrs(t.docs) + ("#[ffi_export]\n" if exp else "") + f"#[derive_ReprC{attr}]\n#[repr(transparent)]\npub struct {rust}{'<T>' if generic else ''}{body}"
        t.export_key = rust
        self.add(t, decl, exp)

    def u_opaque(self):
        r = self.r
        rust = self.ident("Camel")
        short, attr = self.rename(rust)
        k = r.choice(["struct", "enum", "generic"])
        docs = self.doc()
        if k == "generic" and not attr:
            # The parameters of its instances: as they are in Rust, and in a name.
            args = [("u8", "u8"), ("i64", "i64"), ("String", "String"), ("Vec<u16>", "Vec_u16"), ("(u8, i64)", "u8_i64"), ("[u8; 4]", "u8_4"), ("Option<Vec<bool>>", "Option_Vec_bool"),
                    ("Result<u8, String>", "Result_u8_String"), ("Vec<(bool, Result<u16, Vec<(u8, String)>>)>", "Vec_bool_Result_u16_Vec_u8_String"), ("(Vec<u8>, Result<u8, u64>)", "Vec_u8_Result_u8_u64")]
            args += [(t.rust, t.rust) for t in self.users if t.user in ("struct", "enum", "opaque") and re.fullmatch(r"[A-Za-z]\w*", t.rust)]
            two = self.g4.random() < .4
            picks = [self.g4.sample(args, 2 if two else 1) for _ in range(self.g4.choice([1, 1, 2, 3]))]
            decl = self.doc_attrs(docs) + f"#[derive_ReprC]\n#[repr(opaque)]\npub struct {rust}<{'P: ' + chr(39) + 'static, Q: ' + chr(39) + 'static' if two else 'P: ' + chr(39) + 'static'}> {{ v: Vec<({'P, Q' if two else 'P, u8'})>, s: u8 }}"
            done = set()
            for pick in picks:
                sn = "_".join([short] + [b for _, b in pick])
                if sn not in done:
                    done.add(sn)
                    t = Ty(f"{rust}<{', '.join(a for a, _ in pick)}>", 32, 8, sn, [], kind="opaque", opaque=True, user="opaque")
                    t.docs, t.tag, t.ptr_align, t.export_key = docs, sn, 8, rust
                    t.decl = decl
                    self.users.append(t)
            self.decls.append(decl)
            return
        if k == "generic":
            d = f"pub struct {rust} {{ v: Vec<u32>, s: String }}"
            t = Ty(rust, 24, 8, short, [], kind="opaque", opaque=True, user="opaque")
        elif k == "enum":
            d = f"pub enum {rust} {{ One(String), Two {{ x: u8, y: Vec<u64> }}, Three }}"
            t = Ty(rust, 24, 8, short, [], kind="opaque", opaque=True, user="opaque")
        else:
            d = f"pub struct {rust} {{ v: Vec<u32>, s: String }}"
            t = Ty(rust, 24, 8, short, [], kind="opaque", opaque=True, user="opaque")
        t.docs = docs
        t.tag = short
        t.ptr_align = 8
        t.export_key = rust
        exp = r.random() < .3
        self.add(t, self.doc_attrs(docs) + ("#[ffi_export]\n" if exp else "") + f"#[derive_ReprC{attr}]\n#[repr(opaque)]\n{d}", exp)

    def u_dyn(self):
        """A trait whose virtual objects cross the boundary: a pointer and, inline, the table of its methods."""
        r = self.r
        rust = self.ident("Camel")
        clone = r.random() < .4
        bounds = r.choice(["", "", " + Send", " + Send + Sync"])
        erased = lambda k: G.pointer(k, ERASED)
        fs, fdocs, body = [("release_vptr", G.fn_ptr([erased("nnowned")], VOID))], [[]], []
        if clone:
            fs.append(("retain_vptr", G.fn_ptr([erased("nnref")], erased("nnowned"))))
            fdocs.append([])
        shared = False
        for i in range(self.g6.choice([9, 17, 33]) if self.g6.random() < .06 else r.choice([0, 1, 1, 2, 3, 4])):
            n = f"{r.choice(['get', 'set_it', 'apply', 'Loud', 'at', 'poll'])}{i}"
            mut = r.random() < .35 and not clone and bounds != " + Send + Sync"
            if bounds == " + Send":
                mut = True   # (with `&self` methods there is no `dyn Send + Trait`)
            args = [self.val(1) for _ in range(r.choice([0, 0, 1, 1, 2, 3]))]
            ret = self.val(1) if r.random() < .6 else VOID
            d = self.doc(.4)
            fs.append((n, G.fn_ptr([erased("nnmut" if mut else "nnref")] + args, ret)))
            fdocs.append(d)
            sig = "".join(f", {'_' if self.g3.random() < .2 else f'a{j}'}: {a.rust}" for j, a in enumerate(args)) + ")" + ("" if ret is VOID else f" -> {ret.rust}")
            body.append(self.doc_attrs(d, "    ").replace('#[doc(alias = "not_documentation")]', "// not documentation") + f"    {'unsafe ' if r.random() < .1 else ''}fn {n}({'&mut self' if mut else '&self'}{sig};")
        vt = G.struct_like(f"{rust}VTable<'static>", rust + "VTable", fs, user="struct", tag=rust + "VTable")
        vt.docs, vt.fdocs, vt.all_fields = [], fdocs, fs
        ptrs = [("ptr", erased("nnowned")), ("vtable", vt)]
        short = f"VirtualPtr__Erased_ptr_{vt.short}"
        t = G.struct_like(f"VirtualPtr<dyn 'static + {rust}{bounds}>", short, ptrs, user=None, tag=short, niche=True, niche_known=True)
        t.docs, t.all_fields = None, ptrs
        t.dyn = rust
        self.add(t, self.doc_attrs(self.doc()) + f"#[derive_ReprC(dyn{', Clone' if clone else ''})]\npub trait {rust} {{\n" + "\n".join(body) + "\n}")

    def u_generic(self):
        r = self.r
        rust = self.ident("Camel")
        short, attr = self.rename(rust)
        n = r.choice([1, 1, 2])
        ps = ["A", "B"][:n]
        docs = self.doc()
        shape = []
        lent = ["maybe"] if self.g4.random() < .4 else []   # a lifetime parameter, if there is anything that could have it
        # every parameter appears at least once
        for i, p in enumerate(ps):
            shape.append((f"g{i}", r.choice(["{}", "[{}; 2]", "*const {}", "Option<&'static {}>"]), i))
        extra = self.fields(1, 0, 3)
        nm = [(n_, f, i) for n_, f, i in shape] + [(n_, None, t) for n_, t in extra]
        const = self.g4.choice(["", "", "usize", "usize", "i16", "bool", "char"])
        if const == "usize":
            shape.append(("many", "[{}; N]", self.g4.randrange(n)))
            nm.append(shape[-1])
        r.shuffle(nm)
        fdocs = [self.doc(.3) for _ in nm]

        def make(args):
            fs = []
            c = {"": "", "usize": self.g4.randrange(1, 5), "i16": self.g4.choice([-7, -1, 0, 300]), "bool": self.g4.choice(["true", "false"]), "char": self.g4.choice("aZ9")}[const]
            for n_, f, i in nm:
                if f == "[{}; N]":
                    fs.append((n_, G.array(args[i], c)))
                elif f is None:
                    fs.append((n_, i))
                elif f == "{}":
                    fs.append((n_, args[i]))
                elif f == "[{}; 2]":
                    fs.append((n_, G.array(args[i], 2)))
                elif f == "*const {}":
                    fs.append((n_, G.pointer("constptr", args[i])))
                else:
                    fs.append((n_, G.option(G.pointer("ref", args[i]))))
            written = (["'static"] if lent[-1:] == [True] else []) + [a.rust for a in args] + ([f"'{c}'" if const == "char" else f"{c}" if const != "i16" else f"{{ {c} }}"] if const else [])
            t = G.struct_like(f"{rust}<{', '.join(written)}>", "_".join([short] + [a.short for a in args] + ([str(c).replace("-", "minus_")] if const else [])), fs, user="struct", ginst=rust)
            t.docs, t.fdocs = docs, fdocs
            t.tag = t.short
            t.all_fields = fs
            t.probe_fields = [(n_, n_) for n_, _, _ in t.fields]
            return t
        make.n = n
        self.generics.append(make)
        texts = [f.format(ps[i]) if f else i.rust for _, f, i in nm]
        if lent:
            texts = [x if "dyn" in x or "fn(" in x else x.replace("'static", "'a") for x in texts]
            lent.append(any("'a" in x for x in texts))
        body = "\n".join(self.doc_attrs(d, "    ") + f"    pub {n_}: {x}," for (n_, _, _), x, d in zip(nm, texts, fdocs))
        params = (["'a"] if lent[-1:] == [True] else []) + [p + ": 'static + ReprC" for p in ps] + ([f"const N: {const}"] if const else [])
        where = f" where [{ps[shape[-1][2]]}; N]: ReprC" if const == "usize" else ""
        self.decls.append(self.doc_attrs(docs) + f"#[derive_ReprC{attr}]\n#[repr(C)]\npub struct {rust}<{', '.join(params)}>{where} {{\n{body}\n}}")

    # ---- functions
    def function(self):
        r = self.r
        rust = self.ident("snake")
        name, attr = rust, ""
        if r.random() < .3:
            name = self.ident("snake")
            attr = f'(rename = "{name}")'
        n = r.choice([0, 1, 1, 2, 2, 3, 4, 5, 6, 8, 12])
        if self.g6.random() < .03:
            n = self.g6.choice([17, 33])
        args, used = [], set()
        for i in range(n):
            t = self.val(3)
            k = r.random()
            nm = f"{r.choice(['a', 'arg', 'x', 'len', 'the_ptr', 'Big'])}{i}"
            pat, cn = nm, nm
            if k < .06:
                pat = f"mut {nm}"
            elif k < .1 and t.copy:   # (a `_` argument is dropped: no garbage there)
                pat, cn = "_", f"__arg_{i}"
            elif k < .13:
                pat = nm
            args.append((pat, cn, t))
        ret = self.val(3) if r.random() < .75 else VOID
        f = Fn(name, rust, args, ret, self.doc())
        f.attr = attr
        f.k = len(self.fns)
        f.unsafe = r.random() < .15
        f.style = r.choice(["", "", "pub ", 'extern "C" '])
        f.exec = None
        f.lent = self.g5.choice([None, "elided", "named", "'_"])
        if self.p_async and r.random() < self.p_async:
            # exported `async fn`
            f.exec = r.choice(EXECUTORS)
            f.style = r.choice(["", "pub ", "pub(crate) "])
            f.swap = r.random() < .5
        elif self.g5.random() < .5:
            # arguments by other patterns, and by names the library uses itself
            for i, (pat, cn, t) in enumerate(args):
                k = self.g5.random()
                if pat == "_" or k > .3:
                    continue
                if k < .08:
                    args[i] = (f"__arg_{(i + 1) % n}", f"__arg_{i}", t)
                elif k < .14:
                    args[i] = (f"{cn} @ _", cn, t)
                elif k < .2 and t.copy:
                    args[i] = (self.g5.choice(["ref ", "ref mut "]) + cn, cn, t)
                elif k < .25:
                    args[i] = ("__arg_x", f"__arg_{i}", t) if not any(p == "__arg_x" for p, _, _ in args) else args[i]
        self.fns.append(f)

    # ---- constants
    def constant(self):
        r = self.r
        name = self.ident("snake").upper() + ("" if r.random() < .8 else "_c")
        k = r.choices(["int", "float", "bool", "char", "str"], [10, 7, 2, 2, 6])[0]
        untyped = k == "str" or r.random() < .25
        if k == "int":
            ty = PRIMS[r.choice([n for n, t in PRIMS.items() if t.kind in ("uint", "int")])]
            signed = ty.kind == "int"
            bits = 8 * ty.size
            lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if signed else (0, (1 << bits) - 1)
            v = r.choice([lo, hi, lo + 1, hi - 1, 0, 1, max(lo, -1), hi // 2 + 1, min(hi, 2**31), min(hi, 2**31 - 1), min(hi, 2**32), min(hi, 2**63), max(lo, -2**31), max(lo, -2**31 - 1), max(lo, -2**63 + 1), r.randrange(lo, hi + 1), r.randrange(max(lo, -1000), min(hi, 1000) + 1)])
            w = ty.rust.split("::")[-1]
            x = r.random()
            e = f"{w}::MAX" if v == hi and x < .5 and w != "c_int" else f"{w}::MIN" if v == lo and x < .5 and w != "c_int" else hex(v) if v >= 0 and x < .3 else f"{v // 2} + {v - v // 2}" if v > 1 and x < .5 else str(v)
            if w == "c_int":
                e = f"::safer_ffi::c_int({e})"
            elif r.random() < .2 and not e.startswith(w) and v >= 0:
                e = f"({v // 2}_i128 + {v - v // 2}) as {w}"
        elif k == "float":
            ty = PRIMS[r.choice(["f32", "f64"])]
            fm, bm, n = ("f", "I", 32) if ty.size == 4 else ("d", "Q", 64)
            x = r.random()
            if x < .4:
                v = struct.unpack("<" + fm, struct.pack("<" + bm, r.randrange(1 << n)))[0]
            else:
                v = r.choice([0.0, -0.0, 1.0, -1.0, .1, .5, 1 / 3, 1e16, 1e15, 1e-7, 1e21, 123456789.0, 16777216.0, 16777217.0, 9007199254740993.0, 3.4028234663852886e38, 1.1754943508222875e-38, 1.401298464324817e-45, 2.2250738585072014e-308, 5e-324, 1.7976931348623157e308, float("inf"), float("-inf"), float("nan"), 2.0**63, 1e-45, 8.5e37, 3.1415927])
                if n == 32:
                    v = struct.unpack("<f", struct.pack("<f", v))[0] if abs(v) < 3.5e38 or v != v else (v if v in (float("inf"), float("-inf")) else 3.0)
            w = ty.rust
            e = f"{w}::NAN" if v != v else f"{w}::INFINITY" if v == float("inf") else f"{w}::NEG_INFINITY" if v == float("-inf") else repr(v) if "." in repr(v) or "e" in repr(v) else repr(v) + ".0"
            v = struct.pack("<" + fm, v)
        elif k == "bool":
            ty, v = PRIMS["bool"], r.random() < .5
            e = str(v).lower()
        elif k == "char":
            ty, v = PRIMS["::safer_ffi::c_char"], r.choice([0, 10, 34, 39, 65, 92, 127, 128, 200, 255])
            e = f"::safer_ffi::c_char({v})"
        else:
            ty = STR_TY
            v = "".join(r.choice(CONST_TEXT + [chr(r.randrange(32, 127)) for _ in range(10)]) for _ in range(r.choice([1, 1, 2, 3])))
            e = '"' + "".join(c if c.isascii() and c.isprintable() and c not in '"\\' else f"\\u{{{ord(c):x}}}" for c in v) + '"'
        docs = self.doc()
        rty = "&str" if k == "str" else ty.rust
        vis = r.choice(["pub ", "", "pub(crate) "])
        src = self.doc_attrs(docs) + f"#[ffi_export{'(untyped)' if untyped else ''}]\n{vis}const {name}: {rty} = {e};"
        self.consts.append(Const(name=name, ty=ty, value=v, untyped=untyped, docs=docs, kind=k, src=src))

    def async_src(self, f):
        """The even arguments are looked at before the future, the odd ones within it."""
        named = [(i, cn, t) for i, (p, cn, t) in enumerate(f.args) if p != "_"]
        args = ", ".join(f"{p}: {t.rust}" for p, cn, t in f.args)
        ret = "" if f.ret is VOID else f" -> {f.ret.rust}"
        take = "" if f.ret is VOID else f"take_ret::<{f.ret.rust}>()"
        keep = "".join(f" let {cn} = ::core::mem::ManuallyDrop::new({cn});" for i, cn, t in named)
        n0 = "".join(f" note({f.k}, {i}, &*{cn});" for i, cn, t in named if not i & 1)
        n1 = "".join(f" note({f.k}, {i}, &*{cn});" for i, cn, t in named if i & 1)
        params = [f"executor = {f.exec}"] + ([f.attr[1:-1]] if f.attr else [])
        if f.swap:
            params.reverse()
        un = "unsafe " if f.unsafe else ""
        unit = " return;" if f.ret is VOID else f" return {take};"
        return (self.doc_attrs(f.docs) + f"#[ffi_export({', '.join(params)})]\n{f.style}async {un}fn {f.rust_name}({args}){ret} {{ let _later = PanicsLater(4); let _d = Guard(b'D', 8); enter({f.k});{keep} alog(b'P');{n0} apanic(5); let g = Guard(b'G', 7); "
                f"if early() {{{n1} leave({f.k});{unit} }} ffi_await!(async move {{ let _g = g; alog(b'f'); suspend().await; apanic(6);{n1} leave({f.k}); alog(b'e'); {take} }}) }}")

    def fn_src(self, f):
        if f.exec:
            return self.async_src(f)
        def bound(p):
            return p.replace(" @ _", "").split(" ")[-1]
        seen = "".join(f" note({f.k}, {i}, {'' if p.startswith('ref ') else '&'}{bound(p)});" for i, (p, cn, t) in enumerate(f.args) if p != "_")
        fg = "".join(f" ::core::mem::forget({bound(p)});" for i, (p, cn, t) in enumerate(f.args) if p != "_" and not p.startswith("ref "))
        def lend(t):
            if not f.lent or not re.fullmatch(LENT, t.rust):
                return t.rust
            if f.lent == "elided" and t.rust[0] == "&":
                return t.rust.replace("'static ", "")
            return t.rust.replace("'static", "'lt" if f.lent == "named" else "'_")
        args = ", ".join(f"{p}: {lend(t)}" for p, cn, t in f.args)
        ret = "" if f.ret is VOID else f" -> {lend(f.ret) if f.lent == 'named' else f.ret.rust}"
        named = "<'lt>" if f.lent == "named" else ""
        un = "unsafe " if f.unsafe else ""
        st = f.style
        if st.startswith("extern"):
            st = un + st
        else:
            st = st + un
        body = f"let _later = PanicsLater(4); enter({f.k});{seen}{fg} leave({f.k});" + ("" if f.ret is VOID else f" take_ret::<{f.ret.rust}>()")
        return self.doc_attrs(f.docs) + f"#[ffi_export{f.attr}]\n{st}fn {f.rust_name}{named}({args}){ret} {{ {body} }}"

    def source(self, extra="", nodocs=False, shuffle=None):
        return re.sub("\x01[^\x02]*\x02" if nodocs else "[\x01\x02]", "", self.marked_source(extra, shuffle))

    def marked_source(self, extra="", shuffle=None):
        out = ['#![allow(warnings)]\n#![recursion_limit = "512"]', "use ::safer_ffi::prelude::*;", "use ::safer_ffi::ptr::*;", "use ::safer_ffi::layout::{ReprC, CLayoutOf};", "use ::safer_ffi::prelude::Out;", "use ::safer_ffi::dyn_traits::VirtualPtr;",
               'include!(concat!(env!("CARGO_MANIFEST_DIR"), "/support.rs"));']
        if self.p_async:
            out.append('include!(concat!(env!("CARGO_MANIFEST_DIR"), "/async.rs"));')
        items = [(0, d) for d in self.decls] + [(1, self.fn_src(f)) for f in self.fns] + [(1, c.src) for c in self.consts]
        if shuffle is not None:
            # the same exports, in another order and other modules
            r = random.Random(shuffle)
            r.shuffle(items)
            items = [(0, f"mod vf_m{i} {{ use super::*;\n{s} }}") if k and r.random() < .3 else (k, s) for i, (k, s) in enumerate(items)]
        out += [s for _, s in items]
        arms = "\n".join(f"        {i} => probe::<{t.rust}>(op, n, inp, outp)," for i, t in enumerate(self.probes))
        offs = []
        for i, t in enumerate(self.probes):
            pf = t.__dict__.get("probe_fields")
            if pf:
                ex = ", ".join([f"field_off!({t.rust}, {rf})" for _, rf in pf] + [f"layout_off!({t.rust}, {cf})" for cf, _ in pf])
                offs.append(f"        {i} => vec![{ex}],")
        out.append(f"""
#[no_mangle] pub unsafe extern "C" fn vf_probe(i: u32, op: u32, n: usize, inp: *const u8, outp: *mut u8) -> i64 {{
    match i {{
{arms}
        _ => -1,
    }}
}}
#[no_mangle] pub unsafe extern "C" fn vf_offsets(i: u32, out: *mut u64) -> i64 {{
    let v: Vec<usize> = match i {{
{chr(10).join(offs)}
        _ => return -1,
    }};
    for (k, o) in v.iter().enumerate() {{ *out.add(k) = *o as u64; }}
    v.len() as i64
}}""")
        out.append(extra)
        return "\n\n".join(out) + "\n"

    # ---- everything whose declaration has to be in the headers
    def reachable(self):
        """Types reached from the exports, dependencies first."""
        order, seen = [], set()

        def go(t):
            key = t.rust
            if key in seen or t is VOID or t is G.CVOIDP:
                return
            seen.add(key)
            for d in t.deps:
                go(d)
            w = t.__dict__.get("wrapped")
            if w is not None:
                go(w)
            if t.kind == "option":
                go(t.inner)
            order.append(t)
        for t in self.exports:
            go(t)
        for f in self.fns:
            for _, _, t in f.args:
                go(t)
            go(f.ret)
        for c in self.consts:
            go(c.ty)
        return order


STRS = G.strs()
