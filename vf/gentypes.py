"""An independent model of safer_ffi's FFI-safe types, and random types and programs built from it.

Every type knows: its Rust expression; size, alignment and (for aggregates) field placement by the C rules of
x86-64; the C declarator the header has to use; its C# name and marshaler; and the leaves that decide which bit
patterns are values: (offset, size, kind, argument), kind being one of
  any                 every pattern
  bool                0 or 1
  enum (values, signed)
  nn  align           non-null and aligned          on  align    the same or null
  tag (leaves)        0, or 1 followed by the leaves
  opt (leaves)        null, or any other followed by the leaves
Nothing here is read from /repo: it is what the documentation and the C ABI promise.
"""
import random, re


def up(n, a):
    return (n + a - 1) // a * a


class Ty:
    """kind: prim bool float int ptr fn struct enum alias opaque array void zst ..."""
    zst = opaque = False
    niche = False      # Option<T> is the same representation with null for None
    niche_known = False  # Option<T> reads uninitialised bytes (fat optional pointers): kept out of byte-exact checks
    abi_ok = True      # may be passed by value
    cs_m = None
    copy = False       # rust Copy
    kind = ""
    fields = None      # [(cname, offset, Ty)] for anything that is a C struct
    user = None

    def __init__(self, rust, size, align, short, leaves=(), **kw):
        self.rust, self.size, self.align, self.short = rust, size, align, short
        self._leaves = list(leaves)
        self.deps = []
        self.__dict__.update(kw)

    def leaves(self):
        return self._leaves

    def c(self, var=""):
        n = self.__dict__.get("cname") or self.short + "_t"
        return n + (" " + var if var else "")

    def cs(self):
        return self.__dict__.get("csname") or self.short + "_t"

    def __repr__(self):
        return f"<{self.rust}>"


def shift(leaves, off):
    return [(o + off, s, k, shift(a, off) if k in ("tag", "opt") else a) for o, s, k, a in leaves]


# ---- primitive types
PRIMS = {}


def _prim(rust, size, short, cs, kind, cname=None, leaf="any", cs_m=None):
    t = Ty(rust, size, size, short, [(0, size, leaf, None)], kind=kind, copy=True, csname=cs, cs_m=cs_m)
    if cname:
        t.cname = cname
    PRIMS[rust] = t
    return t


for w in (8, 16, 32, 64):
    _prim(f"u{w}", w // 8, f"uint{w}", {8: "byte", 16: "UInt16", 32: "UInt32", 64: "UInt64"}[w], "uint")
    _prim(f"i{w}", w // 8, f"int{w}", {8: "sbyte", 16: "Int16", 32: "Int32", 64: "Int64"}[w], "int")
_prim("usize", 8, "size", "UIntPtr", "uint")
_prim("isize", 8, "ssize", "IntPtr", "int")
_prim("f32", 4, "float", "float", "float", cname="float")
_prim("f64", 8, "double", "double", "float", cname="double")
_prim("bool", 1, "bool", "bool", "bool", cname="bool", leaf="bool", cs_m="UnmanagedType.U1")
_prim("::safer_ffi::c_char", 1, "char", "byte", "char", cname="char")
C_INT = _prim("::safer_ffi::c_int" , 4, "int", "int", "int", cname="int", cs_m="UnmanagedType.I4")
VOID = Ty("()", 0, 1, "void", [], kind="void", cname="void", csname="void", zst=True, copy=True)
CVOIDP = Ty("::core::ffi::c_void", 0, 1, "void", [], kind="void", cname="void", csname="void", zst=True)


def ptr_ty(rust, to, leaf, const, **kw):
    """A thin pointer. The pointee's alignment is checked, for opaque and zero-sized ones as far as Rust knows it."""
    short = f"{to.short}_{'const_' if const else ''}ptr"
    csn = f"{to.cs()} {'/*const*/ ' if const else ''}*"
    t = Ty(rust, 8, 8, short, [(0, 8, leaf[0], leaf[1])], kind="ptr", csname=csn, to=to, const=const, **kw)
    t.c = lambda var="": to.c(f"{'const ' if const else ''}*{var}")
    t.deps = [to]
    return t


PTRS = {
    # name: (format, C const?, leaf kind, niche, copy)
    "constptr": ("*const {}", True, "any", False, True),
    "mutptr": ("*mut {}", False, "any", False, True),
    "ref": ("&'static {}", True, "nn", True, True),
    "mutref": ("&'static mut {}", False, "nn", True, False),
    "nonnull": ("::core::ptr::NonNull<{}>", False, "nn", True, True),
    "nnref": ("::safer_ffi::ptr::NonNullRef<{}>", True, "nn", True, True),
    "nnmut": ("::safer_ffi::ptr::NonNullMut<{}>", False, "nn", True, False),
    "nnowned": ("::safer_ffi::ptr::NonNullOwned<{}>", False, "nn", True, False),
    "out": ("Out<'static, {}>", False, "nn", True, False),
    "box": ("repr_c::Box<{}>", False, "nn", True, False),
}


def pointer(kind, to):
    fmt, const, leaf, niche, copy = PTRS[kind]
    al = max(1, to.__dict__.get("ptr_align", to.align))
    return ptr_ty(fmt.format(to.rust), to, (leaf, al if leaf == "nn" else None), const, niche=niche, copy=copy, pk=kind)


def option(t):
    """Option<T> for a T with a niche."""
    lv = []
    for i, (o, s, k, a) in enumerate(t.leaves()):
        if o == t.__dict__.get("niche_off", 0):
            assert k == "nn", (t, k)
            k = "on"
        lv.append((o, s, k, a))
    if any(l[2] != "any" for l in lv[1:]):
        assert lv[0][:4] == (0, 8, "on", 1), t
        lv = [(0, 8, "opt", lv[1:])]
    o = Ty(f"Option<{t.rust}>", t.size, t.align, t.short, lv, kind="option", inner=t, copy=t.copy, fields=t.fields)
    for k in ("cname", "csname", "cs_m", "to", "const", "args", "ret", "user", "c"):
        if k in t.__dict__:
            o.__dict__[k] = t.__dict__[k]
    o.none_any = len(t.leaves()) > 1 and len(lv) > 1  # when None, only the niche counts
    o.deps = t.deps if not t.user else [t]
    o.alias_of = t
    return o


def fn_ptr(args, ret, unsafe=False):
    rust = f"{'unsafe ' if unsafe else ''}extern \"C\" fn({', '.join(a.rust for a in args)})" + (f" -> {ret.rust}" if ret is not VOID else "")
    short = "_".join([ret.short] + [a.short for a in args]) + "_fptr"
    t = Ty(rust, 8, 8, short, [(0, 8, "nn", 1)], kind="fn", niche=True, copy=True, cs_m="UnmanagedType.FunctionPtr", args=args, ret=ret, csname=short)
    cargs = ", ".join(a.c() for a in args) or "void"
    # what a C declaration of `var` as such a pointer is
    t.c = lambda var="": ret.c(f"(*{var})({cargs})")
    t.deps = list(args) + [ret]
    return t


def array(t, n):
    lv = []
    for i in range(n):
        lv += shift(t.leaves(), i * t.size)
    a = Ty(f"[{t.rust}; {n}]", t.size * n, t.align, f"{t.short}_{n}_array", lv, kind="array", copy=t.copy, elem=t, n=n)
    a.fields = [("idx", 0, a)]
    a.deps = [t]
    return a


def layout(fields):
    """C struct layout of [(name, Ty)] -> ([(name, offset, Ty)] without zero-sized ones, size, align, leaves)"""
    off, al, out, lv = 0, 1, [], []
    for name, t in fields:
        if t.size == 0:
            continue
        off = up(off, t.align)
        al = max(al, t.align)
        out.append((name, off, t))
        lv += shift(t.leaves(), off)
        off += t.size
    return out, up(off, al), al, lv


def struct_like(rust, short, fields, **kw):
    fl, size, al, lv = layout(fields)
    t = Ty(rust, size, al, short, lv, kind=kw.pop("kind", "struct"), fields=fl, **kw)
    t.deps = [f for _, f in fields if f.size]
    t.tag = kw.get("tag", short)
    return t


def slice_(kind, t):
    """kind: Ref Mut Raw Box"""
    pk, sn, lt = {"Ref": ("nnref", "slice_ref", "'static, "), "Mut": ("nnmut", "slice_mut", "'static, "), "Raw": ("nonnull", "slice_raw", ""), "Box": ("nnowned", "slice_boxed", "")}[kind]
    return struct_like(f"c_slice::{kind}<{lt}{t.rust}>", f"{sn}_{t.short}", [("ptr", pointer(pk, t)), ("len", PRIMS["usize"])], kind="slice",
                       niche=True, niche_known=True, copy=kind in ("Ref", "Raw"), elem=t)


def vec_(t):
    return struct_like(f"repr_c::Vec<{t.rust}>", f"Vec_{t.short}", [("ptr", pointer("nnowned", t)), ("len", PRIMS["usize"]), ("cap", PRIMS["usize"])], kind="vec", niche=True, niche_known=True, elem=t)


def renamed(base, rust, **kw):
    """A transparent library type whose header name is that of what it wraps."""
    t = Ty(rust, base.size, base.align, base.short, base.leaves(), kind=base.kind, fields=base.fields)
    for k in ("cname", "csname", "cs_m", "niche", "niche_known", "elem", "to", "const", "tag", "c"):
        if k in base.__dict__:
            t.__dict__[k] = base.__dict__[k]
    t.deps = base.deps
    t.__dict__.update(kw)
    return t


def strs():
    u8, ch = PRIMS["u8"], PRIMS["::safer_ffi::c_char"]
    return [
        renamed(slice_("Ref", u8), "str::Ref<'static>", copy=True),
        renamed(slice_("Box", u8), "str::Box", copy=False),
        renamed(slice_("Raw", u8), "str::Raw", copy=True) if False else renamed(slice_("Ref", u8), "str::Ref<'static>", copy=True),
        renamed(vec_(u8), "repr_c::String"),
        renamed(pointer("nnref", ch), "char_p::Ref<'static>", copy=True, niche=True),
        renamed(pointer("nnref", ch), "char_p::Raw", niche=True, copy=False),
        renamed(pointer("nnowned", ch), "char_p::Box", niche=True),
    ]


def tuple_(ts):
    return struct_like(f"::safer_ffi::tuple::Tuple{len(ts)}<{', '.join(t.rust for t in ts)}>", f"Tuple{len(ts)}_" + "_".join(t.short for t in ts),
                       [(f"_{i}", t) for i, t in enumerate(ts)], kind="tuple")


def tagged(t):
    base = tuple_([PRIMS["bool"], t])
    r = Ty(f"::safer_ffi::option::TaggedOption<{t.rust}>", base.size, base.align, base.short,
           [(0, 1, "tag", shift(t.leaves(), up(1, t.align)))], kind="tagged", fields=base.fields, copy=t.copy, payload=t)
    r.deps = base.deps
    r.tag = base.short
    return r


def closure(kind, args, ret):
    """kind: Box Arc Ref"""
    n = len(args)
    sig = f"({', '.join(a.rust for a in args)})" + (f" -> {ret.rust}" if ret is not VOID else "")
    env = ptr_ty("ENV", CVOIDP, ("nn", 1), False)
    call = fn_ptr([env] + list(args), ret)
    optcall = option(call)
    one = fn_ptr([env], VOID)
    name = {"Box": "BoxDynFnMut", "Arc": "ArcDynFn", "Ref": "RefDynFnMut"}[kind] + str(n)
    short = "_".join([name, ret.short] + [a.short for a in args])
    if kind == "Box":
        f = [("env_ptr", env), ("call", optcall), ("free", option(one))]
        rust = f"repr_c::Box<dyn 'static + Send + FnMut{sig}>"
    elif kind == "Arc":
        f = [("env_ptr", env), ("call", call), ("release", one), ("retain", option(one))]
        rust = f"repr_c::Arc<dyn 'static + Send + Sync + Fn{sig}>"
    else:
        f = [("env_ptr", env), ("call", call)]
        rust = f"::safer_ffi::closure::RefDynFnMut{n}<'static, {', '.join(t.rust for t in [ret] + list(args))}>"
    t = struct_like(rust, short, f, kind="closure", args=args, ret=ret, ck=kind, copy=False)
    return t


# ---- validity
def leaf_ok(leaf, b):
    o, s, k, a = leaf
    v = int.from_bytes(b[o:o + s], "little")
    if k == "any":
        return True
    if k == "bool":
        return v in (0, 1)
    if k == "enum":
        return v in a
    if k == "nn":
        return v != 0 and v % a == 0
    if k == "on":
        return v % a == 0
    if k == "opt":
        return v == 0 or all(leaf_ok(l, b) for l in a)
    if k == "tag":
        return v == 0 or (v == 1 and all(leaf_ok(l, b) for l in a))
    raise KeyError(k)


def is_valid(t, b):
    if t.kind == "option" and t.none_any:
        off = t.inner.__dict__.get("niche_off", 0)
        if int.from_bytes(b[off:off + 8], "little") == 0:
            return True
    if t.__dict__.get("valid_fn"):
        return t.valid_fn(b)
    return all(leaf_ok(l, b) for l in t.leaves())


def value_ranges(t, b):
    """The byte ranges of `b` that carry the value (no padding, no payload of an absent option)."""
    if t.kind == "option" and t.none_any:
        off = t.inner.__dict__.get("niche_off", 0)
        if int.from_bytes(b[off:off + 8], "little") == 0:
            return [(off, 8)]
    out = []
    for o, s, k, a in t.leaves():
        out.append((o, s))
        if k == "tag" and b[o] == 1 or k == "opt" and any(b[o:o + s]):
            out += [(p, q) for p, q, _, _ in flat(a, b)]
    return out


def flat(leaves, b):
    for l in leaves:
        yield l
        if l[2] == "tag" and b[l[0]] == 1 or l[2] == "opt" and any(b[l[0]:l[0] + l[1]]):
            yield from flat(l[3], b)


def canon(t, b):
    """`b` with everything that is not part of the value zeroed."""
    out = bytearray(len(b))
    for o, s in value_ranges(t, b):
        out[o:o + s] = b[o:o + s]
    return bytes(out)


SPECIAL = {1: [0, 1, 2, 0x7f, 0x80, 0xff], 2: [0, 1, 0x7fff, 0x8000, 0xffff, 0x100],
           4: [0, 1, 0x7fffffff, 0x80000000, 0xffffffff, 0x7fc00000, 0x7fa00001, 0x3f800000, 0x100, 0x10000],
           8: [0, 1, 2**63 - 1, 2**63, 2**64 - 1, 0x7ff8000000000000, 0x7ff4000000000001, 0x3ff0000000000000, 2**32, 2**31, 256]}


def rnd_leaf(r, leaf, good):
    """-> value of one leaf, valid or not (None when there is no invalid one)"""
    o, s, k, a = leaf
    full = 1 << (8 * s)
    if k == "any":
        return (r.choice(SPECIAL[s]) if r.random() < .4 else r.randrange(full)) if good else None
    if k == "opt":
        return (0 if r.random() < .3 else r.choice([1, r.randrange(1, 1 << 47), full - 1])) if good else None
    if k == "bool" or k == "tag":
        return r.randrange(2) if good else r.choice([2, 3, 0x80, 0xff, 0x7f, r.randrange(2, 256)])
    if k == "enum":
        if good:
            return r.choice(a)
        if len(a) == full:
            return None
        for _ in range(50):
            c = r.choice([r.randrange(full), (r.choice(a) + r.choice([1, -1, 256, 65536, 2**31, 2**32])) % full, full - 1, 0, (-r.choice(a)) % full])
            if c not in a:
                return c
        return None
    if k in ("nn", "on"):
        if good:
            if k == "on" and r.random() < .3:
                return 0
            return r.choice([a, a * r.randrange(1, 1 << 20), 0x7f0000000000 + a * r.randrange(1 << 10), (full // a - 1) * a])
        bad = []
        if a > 1:
            bad += [a * r.randrange(1, 1 << 20) + r.randrange(1, a), r.randrange(1, a), a // 2 or 1]
        if k == "nn":
            bad += [0]
        return r.choice(bad) if bad else None
    raise KeyError(k)


def rnd_bytes(r, t, good=True, pad=None):
    """A random value of t as bytes; with good=False at least one leaf is invalid (None when t has no invalid pattern)."""
    b = bytearray(r.randrange(256) for _ in range(t.size)) if pad is None else bytearray([pad]) * t.size
    bad_at = None
    leaves = list(t.leaves())

    def put(l, v):
        b[l[0]:l[0] + l[1]] = v.to_bytes(l[1], "little")

    def fill(ls):
        for l in ls:
            put(l, rnd_leaf(r, l, True))
            if l[2] in ("tag", "opt"):
                fill(l[3])
    fill(leaves)
    if not good:
        cands = []

        def collect(ls, needs):
            for l in ls:
                if rnd_leaf(r, l, False) is not None:
                    cands.append((l, needs))
                if l[2] in ("tag", "opt"):
                    collect(l[3], needs + [l])
        collect(leaves, [])
        if not cands:
            return None
        for l, needs in r.sample(cands, min(len(cands), 1 if r.random() < .8 else 2)):
            for n in needs:
                if n[2] == "opt":
                    put(n, 0x7f0000001000)
                elif leaf_ok((n[0], 1, "bool", None), b):
                    put(n, 1)
            put(l, rnd_leaf(r, l, False))
        if is_valid(t, bytes(b)):
            return None
    return bytes(b)
