"""Programs in pairs: a safe one the library supports, and the one next to it that would let something FFI-unsafe through.

`pair(rng)` gives (family, what the second one does wrong, the safe program, the unsafe one, needs headers?).
Both are the same text but for what makes the difference."""

import random


class Dealer(random.Random):
    """Random choices that go through the whole of a list before repeating any of it."""

    def deal(self, xs):
        decks = self.__dict__.setdefault("decks", {})
        k = repr(xs)
        if not decks.get(k):
            decks[k] = list(range(len(xs)))
            self.shuffle(decks[k])
        return xs[decks[k].pop()]


PRELUDE = """#![allow(warnings)]
use ::safer_ffi::prelude::*;
use ::std::{rc::Rc, sync::Arc, cell::*, collections::*, pin::Pin, marker::PhantomData};
pub struct NoRepr { pub a: u8 }
#[repr(C)] #[derive(Clone, Copy, Debug)] pub struct NoDerive { pub a: u8 }
#[derive_ReprC] #[repr(C)] #[derive(Clone, Copy, Debug)] pub struct Good { pub a: u8, pub b: u32 }
#[derive_ReprC] #[repr(C)] #[derive(Clone, Copy)] pub struct Lt<'lt> { pub a: &'lt u8 }
#[derive_ReprC] #[repr(u8)] #[derive(Clone, Copy, Debug)] pub enum Kind { A, B }
#[derive_ReprC] #[repr(transparent)] #[derive(Clone, Copy, Debug)] pub struct Wrap(pub u16);
#[derive_ReprC] #[repr(opaque)] #[derive(Debug)] pub struct Opq { pub s: String }
#[derive_ReprC] #[repr(opaque)] pub struct GOpq<T> { pub s: Vec<T> }
#[derive_ReprC] #[repr(C)] #[derive(Clone, Copy)] pub struct Gen<T: ::safer_ffi::layout::ReprC> { pub a: T }
pub trait Tr { fn m(&self); }
pub trait Tr2 {} impl<T> Tr2 for T {}
"""

INTS = ["u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "usize", "isize"]
SAFE = INTS + ["f32", "f64", "bool", "Good", "Kind", "Wrap", "Gen<u8>", "Gen<Good>", "::safer_ffi::layout::CLayoutOf<u8>", "::safer_ffi::c_char", "Gen<[u16; 2]>"]
OPAQUE = ["Opq", "GOpq<u8>", "GOpq<NoRepr>", "String", "Vec<u8>", "&'static str", "&'static [u8]", "&'static mut [u8]", "Box<u8>", "Rc<u8>", "Arc<u8>", "HashMap<u8, u8>", "RefCell<u8>"]
BAD = ["NoRepr", "NoDerive", "(u8, u16)", "(u8,)", "Option<u32>", "Option<bool>", "Option<Kind>", "Option<Good>", "u128", "i128", "char", "Box<[u8]>", "Box<str>", "fn(u8)", "fn() -> u8", "unsafe fn()", "extern \"C-unwind\" fn(u8)", "extern \"system\" fn(u8)",
       "Option<fn()>", "Result<u8, u8>", "::core::num::NonZeroU8", "Option<::core::num::NonZeroU8>", "::std::borrow::Cow<'static, str>", "::std::ffi::CString", "&'static ::std::ffi::CStr", "Pin<Box<u8>>", "::core::mem::MaybeUninit<u8>",
       "[u8; 0]", "&'static dyn Tr", "Box<dyn Fn()>", "*const [u8]", "*const str", "*mut dyn Tr", "::std::time::Duration", "::core::cmp::Ordering", "::std::ops::Range<u8>", "::std::string::Drain<'static>", "Gen<NoRepr>", "Option<Option<&'static u8>>",
       "repr_c::Box<dyn FnMut(u8)>", "repr_c::Box<dyn Send + FnMut(NoRepr)>", "repr_c::Arc<dyn Send + Fn(u8)>", "repr_c::Arc<u8>", "&'static (dyn Send + Fn(u8))"]
# What leaves a pointer only (a type behind it may be opaque), and what holds the value itself.
POINTER = ["&'static %s", "&'static mut %s", "*const %s", "*mut %s", "::core::ptr::NonNull<%s>", "repr_c::Box<%s>", "repr_c::Vec<%s>", "c_slice::Ref<'static, %s>", "c_slice::Mut<'static, %s>", "c_slice::Box<%s>", "c_slice::Raw<%s>",
           "Option<&'static %s>", "Option<repr_c::Box<%s>>", "Option<::core::ptr::NonNull<%s>>", "Option<c_slice::Ref<'static, %s>>", "Option<repr_c::Vec<%s>>"]
VALUE = ["[%s; 2]", "[%s; 17]", "Gen<%s>"]
CALL = ["extern \"C\" fn(%s)", "extern \"C\" fn() -> %s", "unsafe extern \"C\" fn(u8, %s) -> u16", "Option<extern \"C\" fn(%s)>", "Option<unsafe extern \"C\" fn(u8, %s)>", "repr_c::Box<dyn Send + FnMut(%s)>", "repr_c::Box<dyn Send + FnMut() -> %s>", "repr_c::Arc<dyn Send + Sync + Fn(%s, u8)>"]


def pick(g, name, xs):
    """Deals, by number: the texts differ from one time to the next."""
    return xs[int(g.deal([f"{name}{len(xs)}:{i}" for i in range(len(xs))]).split(":")[1])]


def type_pair(g):
    """(safe type, unsafe type, what is wrong, does a callback hold it by value?)"""
    kind = g.choice(["opaque", "opaque", "bad", "bad", "bad"])
    safe = g.choice(SAFE)
    bad = g.deal(OPAQUE if kind == "opaque" else BAD)
    wrong = f"{bad} by value" if kind == "opaque" else bad
    call = False
    wraps = []
    for _ in range(g.choice([0, 0, 0, 1, 1, 1, 2, 3])):
        ws = VALUE * 4 + CALL if kind == "opaque" and not call else VALUE + POINTER + CALL
        w = g.choice(ws)
        if "dyn" in w and any("'static" in x for x in (safe, bad)):
            w = "[%s; 3]"
        if w in CALL:
            if kind == "opaque":
                call = True
        safe, bad = w % safe, w % bad
        wraps.append(w)
    if kind == "opaque" and g.random() < 0.25 and not wraps:
        # What the pointer is for: the same opaque type, behind one.
        safe = g.choice(POINTER) % bad
    return safe, bad, wrong + (" in " + " in ".join(w % "it" for w in wraps) if wraps else ""), call, kind == "opaque" and not any(w in POINTER + CALL for w in wraps)


def others(g, n, form):
    return [form(i, g.choice(SAFE + ["&'static Good", "repr_c::Box<Opq>", "c_slice::Ref<'static, u8>", "char_p::Box", "repr_c::String", "Option<&'static u8>", "extern \"C\" fn(u8)"])) for i in range(n)]


def amid(g, mine, form, most=4):
    xs = others(g, g.randrange(most), form)
    i = g.randrange(len(xs) + 1)
    return ", ".join(xs[:i] + [mine] + xs[i:])


def by_type(g):
    safe, bad, wrong, call, opaque = type_pair(g)
    pos = g.deal(["parameter", "parameter", "return type", "field", "field", "tuple field", "transparent field", "method parameter", "method return type", "callback parameter", "callback return type", "generic argument", "renamed parameter"])
    if opaque and pos.startswith("callback"):
        call = True
    st = g.getstate()

    def text(t):
        g.setstate(st)
        if pos == "parameter":
            return f"#[ffi_export] pub fn f({amid(g, 'x: ' + t, lambda i, t: f'a{i}: {t}')}) {g.choice(['', '-> u8'])} {{ loop {{}} }}"
        if pos == "renamed parameter":
            return f"#[ffi_export(rename = \"g\")] pub {g.choice(['', 'unsafe '])}fn f({amid(g, 'x: ' + t, lambda i, t: f'_: {t}')}) {{ loop {{}} }}"
        if pos == "return type":
            return f"#[ffi_export] pub fn f({', '.join(others(g, g.randrange(4), lambda i, t: f'a{i}: {t}'))}) -> {t} {{ loop {{}} }}"
        if pos == "field":
            return f"#[derive_ReprC] #[repr(C)] pub struct S {{ {amid(g, 'x: ' + t, lambda i, t: f'pub a{i}: {t}')} }}"
        if pos == "tuple field":
            return f"#[derive_ReprC] #[repr(C)] pub struct S({amid(g, t, lambda i, t: t)});"
        if pos == "transparent field":
            # An opaque type makes an opaque wrapper, which is then one that cannot go by value.
            use = g.choice(["#[ffi_export] pub fn g(s: S) {}", "#[ffi_export] pub fn g() -> S { loop {} }", "#[derive_ReprC] #[repr(C)] pub struct U { a: u8, s: S }"])
            return f"#[derive_ReprC] #[repr(transparent)] pub struct S{g.choice(['(pub ' + t + ');', ' { pub x: ' + t + ' }', '(pub ' + t + ', PhantomData<u8>);'])} {use}"
        if pos == "method parameter":
            return f"#[derive_ReprC(dyn{g.choice(['', ', Clone'])})] pub trait D {{ fn m(&{g.choice(['', 'mut '])}self, {amid(g, 'x: ' + t, lambda i, t: f'a{i}: {t}')}) -> u8; fn n(&self); }}"
        if pos == "method return type":
            return f"#[derive_ReprC(dyn)] pub trait D {{ fn n(&self); fn m(&{g.choice(['', 'mut '])}self, a: u8) -> {t}; }}"
        if pos == "callback parameter":
            return f"#[derive_ReprC] #[repr(transparent)] pub struct Cb(pub {g.choice(['', 'unsafe '])}extern \"C\" fn({amid(g, t, lambda i, t: t)}) -> u8);"
        if pos == "callback return type":
            return f"#[derive_ReprC] #[repr(transparent)] pub struct Cb(pub {g.choice(['', 'unsafe '])}extern \"C\" fn({', '.join(others(g, g.randrange(4), lambda i, t: t))}) -> {t});"
        if pos == "generic argument":
            return f"pub fn need<T: ::safer_ffi::layout::ConcreteReprC>() {{}} pub fn f() {{ need::<Gen<{t}>>() }}"
    return "type", ("the signature of a callback holds an opaque type by value: " if call else "") + f"{pos}: {wrong}", text(safe), text(bad), False


def vis(g):
    return g.choice(["pub ", "", "pub(crate) "])


def fields(g, n):
    return "{ " + ", ".join(f"{vis(g)}a{i}: {g.choice(SAFE)}" for i in range(n)) + " }"


def by_repr(g):
    n = g.randrange(1, 6)
    kind = g.choice(["struct", "struct", "enum", "enum"])
    if kind == "struct":
        body = fields(g, n)
        ok = f"#[repr(C)] pub struct S {body}"
        other = g.choice(["packed", "packed(2)", "align(16)", "align(32)"])
        rest = pick(g, "struct", [("no representation", f"pub struct S {body}"), ("Rust's own representation", f"#[repr(Rust)] pub struct S {body}"), ("an integer representation", f"#[repr({g.choice(INTS)})] pub struct S {body}"),
                         ("packed or aligned in the same attribute", f"#[repr(C, {other})] pub struct S {body}"), ("packed or aligned in the same attribute, first", f"#[repr({other}, C)] pub struct S {body}"),
                         ("packed or aligned in a later attribute", f"#[repr(C)] #[doc = \"x\"] #[repr({other})] pub struct S {body}"), ("packed or aligned in an earlier attribute", f"#[repr({other})] #[repr(C)] pub struct S {body}"),
                         ("packed or aligned conditionally", f"#[repr(C)] #[cfg_attr(all(), repr({other}))] pub struct S {body}"), ("packed or aligned alone", f"#[repr({other})] pub struct S {body}"),
                         ("no field", "#[repr(C)] pub struct S {}"), ("no field, tuple", "#[repr(C)] pub struct S();"), ("no field, unit", "#[repr(C)] pub struct S;"), ("no field, transparent", "#[repr(transparent)] pub struct S();"),
                         ("transparent over several fields", f"#[repr(transparent)] pub struct S {{ pub a: {g.choice(SAFE)}, pub b: u8 }}"),
                         ("a union", "#[repr(C)] pub union S { pub a: u8, pub b: u32 }"), ("an opaque union", "#[repr(opaque)] pub union S { pub a: u8, pub b: u32 }"),
                         ("an unsized tail", f"#[repr(C)] pub struct S {{ pub a: u8, pub b: {g.choice(['str', '[u8]', 'dyn Fn()'])} }}"), ("an unknown representation", f"#[repr(c)] pub struct S {body}"),
                         ("an empty representation", f"#[repr()] pub struct S {body}")])
    else:
        vs = [f"V{i}" for i in range(n)]
        at = g.randrange(n)
        payload = g.choice(["(u8)", "(u8, u16)", "{ a: u32 }", "(&'static Good)", "(char)"])
        it = g.choice(["u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64"])
        plain = "{ " + ", ".join(vs) + " }"
        ok = f"#[repr({it})] pub enum E {plain}"
        rest = pick(g, "enum", [("no representation", f"pub enum E {plain}"), ("a variant with fields", f"#[repr({it})] pub enum E {{ {', '.join(v + payload if i == at else v for i, v in enumerate(vs))} }}"),
                         ("a variant with fields, C", f"#[repr(C)] pub enum E {{ {', '.join(v + payload if i == at else v for i, v in enumerate(vs))} }}"), ("no variant", f"#[repr({it})] pub enum E {{}}"), ("no variant, C", "#[repr(C)] pub enum E {}"),
                         ("a 128-bit representation", f"#[repr({g.choice(['u128', 'i128'])})] pub enum E {plain}"), ("aligned in the same attribute", f"#[repr({it}, align(8))] pub enum E {plain}"), ("aligned in a later attribute", f"#[repr({it})] #[repr(align(16))] pub enum E {plain}"),
                         ("aligned conditionally", f"#[repr({it})] #[cfg_attr(all(), repr(align(16)))] pub enum E {plain}"), ("Rust's own representation", f"#[repr(Rust)] pub enum E {plain}"), ("transparent", f"#[repr(transparent)] pub enum E {{ A(u8) }}"),
                         ("generic", f"#[repr({it})] pub enum E<T> {plain}"), ("an empty representation", f"#[repr()] pub enum E {plain}"), ("two integers", f"#[repr({it})] #[repr({'u8' if it != 'u8' else 'i8'})] pub enum E {plain}")])
    # The attribute under test may stand below or above others.
    pre, post = g.choice([("", ""), ("#[derive(Clone, Copy)] ", ""), ("", "#[doc = \"text\"] "), ("#[allow(dead_code)] ", "")])
    pre = pre if "unsized" not in rest[0] and "align" not in rest[0] and "pack" not in rest[0] else ""
    return "representation", f"{kind}: {rest[0]}", f"#[derive_ReprC] {pre}{post}{ok}", f"#[derive_ReprC] {pre}{post}{rest[1]}", False


def by_callback(g):
    args = ", ".join(g.choice(SAFE) for _ in range(g.randrange(4)))
    ret = g.choice(["", " -> " + g.choice(SAFE)])
    name = g.choice(["#[derive_ReprC] #[repr(transparent)] pub struct Cb(pub %s);", "#[derive_ReprC] #[repr(transparent)] pub struct Cb { pub cb: %s }", "#[ffi_export] pub fn f(cb: %s) {}", "#[derive_ReprC] #[repr(C)] pub struct Cb { pub ctx: u8, pub cb: %s }", "#[derive_ReprC] #[repr(transparent)] pub struct Cb(pub Option<%s>);", "#[ffi_export] pub fn f() -> Option<%s> { None }"])
    un = g.choice(["", "unsafe "])
    how, bad = pick(g, "how", [("the Rust ABI", f"{un}fn({args}){ret}"), ("the Rust ABI, spelled out", f"{un}extern \"Rust\" fn({args}){ret}"), ("another ABI", f"{un}extern \"{g.choice(['system', 'sysv64', 'win64', 'C-unwind', 'efiapi', 'system-unwind'])}\" fn({args}){ret}"),
                         ("variable arguments", f"unsafe extern \"C\" fn({args + ', ' if args else 'u8, '}...){ret}"), ("never returning", f"{un}extern \"C\" fn({args}) -> !")])
    return "callback", how, name % f"{un}extern \"C\" fn({args}){ret}", name % bad, False


def by_literal(g):
    bits = ["a", "Z", "é", "\\n", "\\\\", "\\\"", "%s", "\\u{1F980}", "0", " ", "\\x7f", "ß"]
    word = lambda n: "".join(g.choice(bits) for _ in range(n))
    nul = g.choice(["\\0", "\\x00", "\\u{0}", "\\u{00}"])
    a, b = word(g.randrange(6)), word(g.randrange(1, 6))
    end = g.choice(["", "\\0"])
    ok = f"{a}{b}{end}"
    how, bad = pick(g, "how", [("in the middle", f"{a}{nul}{b}{end}"), ("twice at the end", f"{a}{b}{nul}\\0"), ("at the start", f"{nul}{b}{end}"), ("several", f"{nul}{nul}{b}")])
    use = g.choice(["pub fn f() { let _ = c!(\"%s\"); }", "pub const X: char_p::Ref<'static> = c!(\"%s\");", "pub static X: char_p::Ref<'static> = c!(\"%s\");", "pub fn f(x: &str) -> bool { ::safer_ffi::c!(\"%s\").to_str() == x }"])
    return "literal", "an interior NUL " + how, use.replace("%s", ok), use.replace("%s", bad), False


# (how to make it, does it demand Send / Sync / 'static of what it captures?)
CAPTURES = [("Rc<u8>", "let c = Rc::new(1_u8);", "drop(&c)", "Send"), ("RefCell by reference", "let c: &'static RefCell<u8> = Box::leak(Box::new(RefCell::new(1_u8)));", "drop(&c)", "Send"),
            ("Rc inside a struct", "struct In(Rc<u8>); let c = In(Rc::new(1));", "drop(&c)", "Send"), ("*const u8", "let c: *const u8 = ::core::ptr::null();", "drop(&c)", "Send"), ("MutexGuard", "let m: &'static ::std::sync::Mutex<u8> = Box::leak(Box::new(::std::sync::Mutex::new(1))); let c = m.lock().unwrap();", "drop(&c)", "Send"),
            ("Box<dyn Fn()>", "let c: Box<dyn Fn()> = Box::new(|| ());", "drop(&c)", "Send"),
            ("Cell<u8>", "let c = Cell::new(1_u8);", "drop(&c)", "Sync"), ("RefCell<u8>", "let c = RefCell::new(1_u8);", "drop(&c)", "Sync"), ("mpsc::Receiver", "let c = ::std::sync::mpsc::channel::<u8>().1;", "drop(&c)", "Sync"), ("Arc<Cell<u8>>", "let c = Arc::new(Cell::new(1_u8));", "drop(&c)", "Send"),
            ("a borrowed local", "let l = 1_u8; let c = &l;", "drop(&c)", "'static"), ("a borrowed String", "let l = String::new(); let c: &str = &l;", "drop(&c)", "'static")]
SAFE_CAPTURES = ["let c = 1_u8;", "let c = Arc::new(1_u8);", "let c = String::from(\"x\");", "let c: &'static str = \"x\";", "let c = ::std::sync::Mutex::new(1_u8);", "let c = ::std::sync::atomic::AtomicU8::new(1);"]


def by_capture(g):
    n = g.randrange(0, 4)
    params = ", ".join("_: u8" for _ in range(n))
    tys = ", ".join("u8" for _ in range(n))
    ret = g.choice(["", "u16"])
    r = f" -> {ret}" if ret else ""
    val = "1_u16" if ret else "()"
    box = [("repr_c::Box<dyn Send + FnMut>", f"let _: repr_c::Box<dyn Send + FnMut({tys}){r}> = Box::new(%s).into();", {"Send", "'static"}),
           ("BoxDynFnMut", f"let _ = ::safer_ffi::closure::boxed::BoxDynFnMut{n}::new(Box::new(%s));", {"Send", "'static"}),
           ("From<Box> for BoxDynFnMut", f"let _ = ::safer_ffi::closure::boxed::BoxDynFnMut{n}::from(Box::new(%s));", {"Send", "'static"})]
    arc = [("repr_c::Arc<dyn Send + Sync + Fn>", f"let _: repr_c::Arc<dyn Send + Sync + Fn({tys}){r}> = Arc::new(%s).into();", {"Send", "Sync", "'static"}),
           ("ArcDynFn", f"let _ = ::safer_ffi::closure::arc::ArcDynFn{n}::new(Arc::new(%s));", {"Send", "Sync", "'static"}),
           ("From<Arc> for ArcDynFn", f"let _ = ::safer_ffi::closure::arc::ArcDynFn{n}::from(Arc::new(%s));", {"Send", "Sync", "'static"})]
    ref = [("RefDynFnMut", f"let mut it = %s; let _ = ::safer_ffi::closure::borrowed::RefDynFnMut{n}::new(&mut it);", {"Send"})]
    ctor, form, needs = pick(g, "ctor", box + arc + ref)
    what, make, use, lacks = pick(g, "".join(sorted(needs)), [c for c in CAPTURES if c[3] in needs])
    safe = g.choice(SAFE_CAPTURES)
    form = form.replace("%s", f"move |{params}| {{ let _ = &c; {val} }}")
    return "capture", f"{ctor} capturing {what}", f"pub fn f() {{ {safe} {form} }}", f"pub fn f() {{ {make} {form} }}", False


TRAITS = [("repr_c::Box<%s>", "T", "T"), ("repr_c::Vec<%s>", "T", "T"), ("c_slice::Box<%s>", "T", "T"), ("c_slice::Ref<'static, %s>", "S", "S"), ("c_slice::Mut<'static, %s>", "T", "S"), ("Option<repr_c::Box<%s>>", "T", "T"), ("Option<c_slice::Ref<'static, %s>>", "S", "S"), ("Gen<repr_c::Vec<%s>>", "T", "T"), ("&'static repr_c::Box<%s>", "S", "S"), ("::std::vec::Vec<repr_c::Box<%s>>", "T", "T"), ("[c_slice::Ref<'static, %s>; 2]", "S", "S")]


def by_thread(g):
    form, send, sync = g.deal(TRAITS)
    want = g.choice(["Send", "Sync"])
    rule = {"T": want, "S": "Sync"}[send if want == "Send" else sync]
    # Types that lack `rule` (Cell is Send, and not Sync).
    bad = g.choice({"Send": ["Rc<u8>", "*const u8", "*mut Good", "::core::ptr::NonNull<u8>"], "Sync": ["Cell<u8>", "RefCell<u8>", "Rc<u8>", "*const u8"]}[rule])
    ok = g.choice(["u8", "Good", "Opq", "&'static u8"] + (["Cell<u8>", "RefCell<u8>"] if rule == "Send" and "Gen" not in form else []))
    use = g.choice(["pub fn f() { fn need<T: %s>() {} need::<%s>() }", "pub fn f(it: %s) { fn need<T: %s>(it: T) {} need(it) }", "pub struct X(%s); pub fn f() { fn need<T: %s>() {} need::<X>() }"])
    fill = lambda t: use % ((want, form % t) if "T: %s>() {} need::<%s>" in use else (form % t, want))
    return "threads", f"{form.replace('%s', bad)} as {want}", fill(ok), fill(bad), False


LIFETIMES = [
    ("c_slice::Ref of a local returned", "pub fn f(v: &'static [u8]) -> c_slice::Ref<'static, u8> { v.into() }", "pub fn f() -> c_slice::Ref<'static, u8> { let v = vec![1_u8]; v[..].into() }"),
    ("c_slice::Ref outliving its slice", "pub fn f() -> u8 { let v = vec![1_u8]; let r: c_slice::Ref<'_, u8> = v[..].into(); let n = r[0]; drop(v); n }", "pub fn f() -> u8 { let v = vec![1_u8]; let r: c_slice::Ref<'_, u8> = v[..].into(); drop(v); r[0] }"),
    ("c_slice::Mut aliased", "pub fn f() { let mut v = vec![1_u8]; let mut r: c_slice::Mut<'_, u8> = (&mut v[..]).into(); r[0] = 2; v[0] = 3; }", "pub fn f() { let mut v = vec![1_u8]; let mut r: c_slice::Mut<'_, u8> = (&mut v[..]).into(); v[0] = 3; r[0] = 2; }"),
    ("c_slice::Mut copied", "pub fn f(r: c_slice::Mut<'_, u8>) { let a = r; }", "pub fn f(r: c_slice::Mut<'_, u8>) { let a = r; let b = r; }"),
    ("c_slice::Mut of a shared slice", "pub fn f(v: &mut [u8]) { let _: c_slice::Mut<'_, u8> = v.into(); }", "pub fn f(v: &[u8]) { let _: c_slice::Mut<'_, u8> = v.into(); }"),
    ("char_p::Ref outliving its string", "pub fn f(b: char_p::Box) -> usize { let r: char_p::Ref<'_> = b.as_ref(); let n = r.to_bytes().len(); drop(b); n }", "pub fn f(b: char_p::Box) -> usize { let r: char_p::Ref<'_> = b.as_ref(); drop(b); r.to_bytes().len() }"),
    ("char_p::Ref returned", "pub fn f(b: &char_p::Box) -> char_p::Ref<'_> { b.as_ref() }", "pub fn f(b: char_p::Box) -> char_p::Ref<'static> { b.as_ref() }"),
    ("the str of a char_p::Ref outliving it", "pub fn f<'a>(b: char_p::Ref<'a>) -> &'a str { b.to_str() }", "pub fn f<'a>(b: char_p::Ref<'a>) -> &'static str { b.to_str() }"),
    ("str::Ref outliving its string", "pub fn f(s: String) -> usize { let r: str::Ref<'_> = s[..].into(); let n = r.len(); drop(s); n }", "pub fn f(s: String) -> usize { let r: str::Ref<'_> = s[..].into(); drop(s); r.len() }"),
    ("repr_c::Box used after being moved", "pub fn f(b: repr_c::Box<u8>) -> u8 { let n = *b; drop(b); n }", "pub fn f(b: repr_c::Box<u8>) -> u8 { drop(b); *b }"),
    ("repr_c::Box copied", "pub fn f(b: repr_c::Box<u8>) { let c = b; }", "pub fn f(b: repr_c::Box<u8>) { let c = b; let d = b; }"),
    ("repr_c::Vec copied", "pub fn f(b: repr_c::Vec<u8>) { let c = b; }", "pub fn f(b: repr_c::Vec<u8>) { let c = b; let d = b; }"),
    ("an item outliving its repr_c::Vec", "pub fn f(b: repr_c::Vec<u8>) -> u8 { let r = &b[0]; let n = *r; drop(b); n }", "pub fn f(b: repr_c::Vec<u8>) -> u8 { let r = &b[0]; drop(b); *r }"),
    ("with_rust_mut leaking its reference", "pub fn f(mut b: repr_c::Vec<u8>) -> usize { b.with_rust_mut(|v| v.len()) }", "pub fn f(mut b: repr_c::Vec<u8>) { let mut out = None; b.with_rust_mut(|v| { out = Some(v); }); drop(out); }"),
    ("Bytes of a local returned", "pub fn f(v: &'static [u8]) -> ::safer_ffi::bytes::Bytes<'static> { v.into() }", "pub fn f() -> ::safer_ffi::bytes::Bytes<'static> { let v = vec![1_u8]; (&v[..]).into() }"),
    ("Bytes outliving its slice", "pub fn f() -> usize { let v = vec![1_u8]; let b = ::safer_ffi::bytes::Bytes::from_slice(&v[..]); let n = b.len(); drop(b); drop(v); n }", "pub fn f() -> usize { let v = vec![1_u8]; let b = ::safer_ffi::bytes::Bytes::from_slice(&v[..]); drop(v); b.len() }"),
    ("a slice of Bytes outliving them", "pub fn f(b: ::safer_ffi::bytes::Bytes<'static>) -> u8 { let s: &[u8] = &b; let n = s[0]; drop(b); n }", "pub fn f(b: ::safer_ffi::bytes::Bytes<'static>) -> u8 { let s: &[u8] = &b; drop(b); s[0] }"),
    ("Bytes claiming a longer lifetime", "pub fn f<'a>(b: ::safer_ffi::bytes::Bytes<'static>) -> ::safer_ffi::bytes::Bytes<'a> { b }", "pub fn f<'a>(b: ::safer_ffi::bytes::Bytes<'a>) -> ::safer_ffi::bytes::Bytes<'static> { b }"),
    ("c_slice::Ref claiming a longer lifetime", "pub fn f<'a>(b: c_slice::Ref<'static, u8>) -> c_slice::Ref<'a, u8> { b }", "pub fn f<'a>(b: c_slice::Ref<'a, u8>) -> c_slice::Ref<'static, u8> { b }"),
    ("c_slice::Mut changing its item's lifetime", "pub fn f<'a>(b: c_slice::Mut<'a, &'static u8>) -> c_slice::Mut<'a, &'static u8> { b }", "pub fn f<'a>(b: c_slice::Mut<'a, &'static u8>) -> c_slice::Mut<'a, &'a u8> { b }"),
    ("a borrowed virtual object outliving its referent", "pub fn f(it: &'static X) -> VirtualPtr<dyn 'static + D> { it.into() } #[derive_ReprC(dyn)] pub trait D { fn m(&self); } pub struct X; impl D for X { fn m(&self) {} }", "pub fn f<'a>(it: &'a X) -> VirtualPtr<dyn 'static + D> { it.into() } #[derive_ReprC(dyn)] pub trait D { fn m(&self); } pub struct X; impl D for X { fn m(&self) {} }"),
    ("RefDynFnMut outliving its closure", "pub fn f() { let mut n = 0_u8; let mut c = || { n += 1; }; let r = ::safer_ffi::closure::borrowed::RefDynFnMut0::new(&mut c); drop(r); drop(c); }", "pub fn f() { let mut n = 0_u8; let mut c = || { n += 1; }; let r = ::safer_ffi::closure::borrowed::RefDynFnMut0::new(&mut c); drop(c); drop(r); }"),
    ("an Out reference read", "pub fn f(o: ::safer_ffi::prelude::Out<'_, u8>) { o.write(1); }", "pub fn f(o: ::safer_ffi::prelude::Out<'_, u8>) -> u8 { *o }"),
    ("an exported function promising 'static", "#[ffi_export] pub fn f(a: &'static u8) -> &'static u8 { a }", "#[ffi_export] pub fn f(a: &u8) -> &'static u8 { a }"),
    ("an exported function confusing lifetimes", "#[ffi_export] pub fn f<'a, 'b>(a: &'a u8, b: &'b u8) -> &'a u8 { a }", "#[ffi_export] pub fn f<'a, 'b>(a: &'a u8, b: &'b u8) -> &'a u8 { b }"),
    ("a hidden lifetime in an exported signature", "#[ffi_export] pub fn f(a: Lt<'_>) {}", "#[ffi_export] pub fn f(a: Lt) {}"),
]


def by_lifetime(g):
    what, ok, bad = g.deal(LIFETIMES)
    t = g.choice(["u8", "u16", "u32", "i64", "u64"])
    # Another item type, where the text is about slices of bytes and not about strings.
    if "u8; " not in ok and "char_p" not in ok + bad and "str" not in ok and "Bytes" not in ok and "Lt" not in ok and "1_u8" not in ok + bad and g.random() < 0.5:
        ok, bad = ok.replace("u8", t), bad.replace("u8", t)
    return "lifetime", what, ok, bad, False


EXPORTS = [
    ("a generic function", "#[ffi_export] pub fn f(a: {T}) {{}}", "#[ffi_export] pub fn f<X: ::safer_ffi::layout::ConcreteReprC>(a: X) {{}}"),
    ("a generic function not using its parameter", "#[ffi_export] pub fn f(a: {T}) {{}}", "#[ffi_export] pub fn f<X>(a: {T}) {{}}"),
    ("a const generic function", "#[ffi_export] pub fn f(a: [{T}; 4]) {{}}", "#[ffi_export] pub fn f<const N: usize>(a: [{T}; N]) {{}}"),
    ("impl Trait in argument position", "#[ffi_export] pub fn f(a: {T}) {{}}", "#[ffi_export] pub fn f(a: impl Copy) {{}}"),
    ("impl Trait in return position", "#[ffi_export] pub fn f() -> {T} {{ loop {{}} }}", "#[ffi_export] pub fn f() -> impl Copy {{ 1_u8 }}"),
    ("the Rust ABI", "#[ffi_export] pub extern \"C\" fn f(a: {T}) {{}}", "#[ffi_export] pub extern \"Rust\" fn f(a: {T}) {{}}"),
    ("another ABI", "#[ffi_export] pub extern fn f(a: {T}) {{}}", "#[ffi_export] pub extern \"{ABI}\" fn f(a: {T}) {{}}"),
    ("a C-variadic function", "#[ffi_export] pub unsafe extern \"C\" fn f(a: {T}) {{}}", "#[ffi_export] pub unsafe extern \"C\" fn f(a: {T}, ...) {{}}"),
    ("an async function without an executor", "#[ffi_export] pub fn f(a: {T}) {{}}", "#[ffi_export] pub async fn f(a: {T}) {{}}"),
    ("a method", "#[ffi_export] pub fn f(this: &'static Good, a: {T}) {{}}", "impl Good {{ #[ffi_export] pub fn f(&self, a: {T}) {{}} }}"),
    ("a generic type", "#[ffi_export] #[derive_ReprC] #[repr(C)] pub struct S {{ a: {T} }}", "#[ffi_export] #[derive_ReprC] #[repr(C)] pub struct S<X> {{ a: X }}"),
    ("an exported union", "#[ffi_export] #[derive_ReprC] #[repr(C)] pub struct S {{ a: {T} }}", "#[ffi_export] pub union S {{ a: {T} }}"),
    ("an exported mutable static", "#[ffi_export] pub const X: u8 = 1;", "#[ffi_export] pub static mut X: u8 = 1;"),
    ("a `dyn` trait without `dyn`", "#[derive_ReprC(dyn)] pub trait D {{ fn m(&self, a: {T}); }}", "#[derive_ReprC] pub trait D {{ fn m(&self, a: {T}); }}"),
    ("an owned receiver", "#[derive_ReprC(dyn)] pub trait D {{ fn m(&self, a: {T}); }}", "#[derive_ReprC(dyn)] pub trait D {{ fn m(self, a: {T}); }}"),
    ("a boxed receiver", "#[derive_ReprC(dyn)] pub trait D {{ fn m(&self, a: {T}); }}", "#[derive_ReprC(dyn)] pub trait D {{ fn m(self: Box<Self>, a: {T}); }}"),
    ("a counted receiver", "#[derive_ReprC(dyn)] pub trait D {{ fn m(&self, a: {T}); }}", "#[derive_ReprC(dyn)] pub trait D {{ fn m(self: Rc<Self>, a: {T}); }}"),
    ("no receiver", "#[derive_ReprC(dyn)] pub trait D {{ fn m(&self, a: {T}); }}", "#[derive_ReprC(dyn)] pub trait D {{ fn m(a: {T}); }}"),
    ("a generic method", "#[derive_ReprC(dyn)] pub trait D {{ fn m<'a>(&self, a: &'a {T}); }}", "#[derive_ReprC(dyn)] pub trait D {{ fn m<X>(&self, a: {T}); }}"),
    ("an async method", "#[derive_ReprC(dyn)] pub trait D {{ fn m(&self, a: {T}); }}", "#[derive_ReprC(dyn)] pub trait D {{ async fn m(&self, a: {T}); }}"),
    ("a method returning Self", "#[derive_ReprC(dyn)] pub trait D {{ fn m(&self) -> {T}; }}", "#[derive_ReprC(dyn)] pub trait D {{ fn m(&self) -> Self; }}"),
    ("pinned and unpinned exclusive receivers", "#[derive_ReprC(dyn)] pub trait D {{ fn m(self: Pin<&mut Self>, a: {T}); fn n(&self); }}", "#[derive_ReprC(dyn)] pub trait D {{ fn m(self: Pin<&mut Self>, a: {T}); fn n(&mut self); }}"),
    ("a shared reference as a virtual object with exclusive methods", "#[derive_ReprC(dyn)] pub trait D {{ fn m(&self, a: {T}); }} pub struct X; impl D for X {{ fn m(&self, a: {T}) {{}} }} pub fn f(x: &'static X) -> VirtualPtr<dyn D> {{ x.into() }}",
     "#[derive_ReprC(dyn)] pub trait D {{ fn m(&mut self, a: {T}); }} pub struct X; impl D for X {{ fn m(&mut self, a: {T}) {{}} }} pub fn f(x: &'static X) -> VirtualPtr<dyn D> {{ x.into() }}"),
    ("a shared owner as a virtual object with exclusive methods", "#[derive_ReprC(dyn)] pub trait D {{ fn m(&self, a: {T}); }} pub struct X; impl D for X {{ fn m(&self, a: {T}) {{}} }} pub fn f(x: Rc<X>) -> VirtualPtr<dyn D> {{ x.into() }}",
     "#[derive_ReprC(dyn)] pub trait D {{ fn m(&mut self, a: {T}); }} pub struct X; impl D for X {{ fn m(&mut self, a: {T}) {{}} }} pub fn f(x: Rc<X>) -> VirtualPtr<dyn D> {{ x.into() }}"),
    ("a clonable virtual object of what cannot be cloned", "#[derive_ReprC(dyn, Clone)] pub trait D {{ fn m(&self, a: {T}); }} #[derive(Clone)] pub struct X; impl D for X {{ fn m(&self, a: {T}) {{}} }} pub fn f(x: Box<X>) -> VirtualPtr<dyn D> {{ x.into() }}",
     "#[derive_ReprC(dyn, Clone)] pub trait D {{ fn m(&self, a: {T}); }} pub struct X; impl D for X {{ fn m(&self, a: {T}) {{}} }} pub fn f(x: Box<X>) -> VirtualPtr<dyn D> {{ x.into() }}"),
    ("an exclusive borrow as a clonable virtual object", "#[derive_ReprC(dyn, Clone)] pub trait D {{ fn m(&self, a: {T}); }} pub struct X; impl D for X {{ fn m(&self, a: {T}) {{}} }} pub fn f(x: &'static X) -> VirtualPtr<dyn D> {{ x.into() }}",
     "#[derive_ReprC(dyn, Clone)] pub trait D {{ fn m(&self, a: {T}); }} pub struct X; impl D for X {{ fn m(&self, a: {T}) {{}} }} pub fn f(x: &'static mut X) -> VirtualPtr<dyn D> {{ x.into() }}"),
    ("an unpinned box as a virtual object with pinned methods", "#[derive_ReprC(dyn)] pub trait D {{ fn m(self: Pin<&mut Self>, a: {T}); }} pub struct X(::core::marker::PhantomPinned); impl D for X {{ fn m(self: Pin<&mut Self>, a: {T}) {{}} }} pub fn f(x: Pin<Box<X>>) -> VirtualPtr<dyn D> {{ x.into() }}",
     "#[derive_ReprC(dyn)] pub trait D {{ fn m(self: Pin<&mut Self>, a: {T}); }} pub struct X(::core::marker::PhantomPinned); impl D for X {{ fn m(self: Pin<&mut Self>, a: {T}) {{}} }} pub fn f(x: Pin<&'static X>) -> VirtualPtr<dyn D> {{ x.into() }}"),
    ("thread-bound state in a sendable virtual object", "#[derive_ReprC(dyn)] pub trait D: Send {{ fn m(&self, a: {T}); }} pub struct X(Cell<u8>); impl D for X {{ fn m(&self, a: {T}) {{}} }} pub fn f(x: Box<X>) -> VirtualPtr<dyn D> {{ x.into() }}",
     "#[derive_ReprC(dyn)] pub trait D: Send {{ fn m(&self, a: {T}); }} pub struct X(Rc<u8>); impl D for X {{ fn m(&self, a: {T}) {{}} }} pub fn f(x: Box<X>) -> VirtualPtr<dyn D> {{ x.into() }}"),
    ("a thread-bound virtual object sent", "#[derive_ReprC(dyn)] pub trait D: Send {{ fn m(&self, a: {T}); }} pub fn f(x: VirtualPtr<dyn D>) {{ fn need(it: impl Send) {{}} need(x) }}",
     "#[derive_ReprC(dyn)] pub trait D {{ fn m(&self, a: {T}); }} pub fn f(x: VirtualPtr<dyn D>) {{ fn need(it: impl Send) {{}} need(x) }}"),
    ("a sendable virtual object shared", "#[derive_ReprC(dyn)] pub trait D: Send + Sync {{ fn m(&self, a: {T}); }} pub fn f(x: VirtualPtr<dyn D>) {{ fn need(it: impl Sync) {{}} need(x) }}",
     "#[derive_ReprC(dyn)] pub trait D: Send {{ fn m(&self, a: {T}); }} pub fn f(x: VirtualPtr<dyn D>) {{ fn need(it: impl Sync) {{}} need(x) }}"),
    ("state held by a counted sendable virtual object", "#[derive_ReprC(dyn)] pub trait D{SEND} {{ fn m(&self, a: {T}); }} pub struct X(Cell<u8>); impl D for X {{ fn m(&self, a: {T}) {{}} }} pub fn f(x: Box<X>) -> VirtualPtr<dyn D> {{ x.into() }}",
     "#[derive_ReprC(dyn)] pub trait D{SEND} {{ fn m(&self, a: {T}); }} pub struct X(Cell<u8>); impl D for X {{ fn m(&self, a: {T}) {{}} }} pub fn f(x: {RCREF}<X>) -> VirtualPtr<dyn D> {{ x.into() }}"),
    ("an Rc as a sendable virtual object", "#[derive_ReprC(dyn)] pub trait D{SYNC} {{ fn m(&self, a: {T}); }} pub struct X(u8); impl D for X {{ fn m(&self, a: {T}) {{}} }} pub fn f(x: Arc<X>) -> VirtualPtr<dyn D> {{ x.into() }}",
     "#[derive_ReprC(dyn)] pub trait D{SYNC} {{ fn m(&self, a: {T}); }} pub struct X(u8); impl D for X {{ fn m(&self, a: {T}) {{}} }} pub fn f(x: Rc<X>) -> VirtualPtr<dyn D> {{ x.into() }}"),
    ("a reference to what is not Sync in a sendable virtual object", "#[derive_ReprC(dyn)] pub trait D{SEND} {{ fn m(&self, a: {T}); }} pub struct X(Cell<u8>); impl D for X {{ fn m(&self, a: {T}) {{}} }} pub fn f(x: &'static mut X) -> VirtualPtr<dyn D> {{ x.into() }}",
     "#[derive_ReprC(dyn)] pub trait D{SEND} {{ fn m(&self, a: {T}); }} pub struct X(Cell<u8>); impl D for X {{ fn m(&self, a: {T}) {{}} }} pub fn f(x: &'static X) -> VirtualPtr<dyn D> {{ x.into() }}"),
    ("an Rc as a virtual object, sendable by another trait", "#[derive_ReprC(dyn)] pub trait D: A {{ fn m(&self, a: {T}); }} pub trait A: Send {{}} impl<T: Send> A for T {{}} pub struct X(u8); impl D for X {{ fn m(&self, a: {T}) {{}} }} pub fn f(x: Box<X>) -> VirtualPtr<dyn D> {{ x.into() }}",
     "#[derive_ReprC(dyn)] pub trait D: A {{ fn m(&self, a: {T}); }} pub trait A: Send {{}} impl<T: Send> A for T {{}} pub struct X(u8); impl D for X {{ fn m(&self, a: {T}) {{}} }} pub fn f(x: Rc<X>) -> VirtualPtr<dyn D> {{ x.into() }}"),
    ("an Rc as the executor of exported futures", "pub struct X(u8); impl ::safer_ffi::futures::FfiFutureExecutor for X {EXEC} pub fn f(x: Arc<X>) -> VirtualPtr<dyn ::safer_ffi::futures::FfiFutureExecutor> {{ x.into() }}",
     "pub struct X(u8); impl ::safer_ffi::futures::FfiFutureExecutor for X {EXEC} pub fn f(x: Rc<X>) -> VirtualPtr<dyn ::safer_ffi::futures::FfiFutureExecutor> {{ x.into() }}"),
    ("what does not implement the trait", "#[derive_ReprC(dyn)] pub trait D {{ fn m(&self, a: {T}); }} pub struct X; impl D for X {{ fn m(&self, a: {T}) {{}} }} pub fn f(x: Box<X>) -> VirtualPtr<dyn D> {{ x.into() }}",
     "#[derive_ReprC(dyn)] pub trait D {{ fn m(&self, a: {T}); }} pub struct X; pub fn f(x: Box<X>) -> VirtualPtr<dyn D> {{ x.into() }}"),
    ("an unsafe method called safely", "#[derive_ReprC(dyn)] pub trait D {{ fn m(&self, a: {T}); }} pub fn f(x: VirtualPtr<dyn D>, a: {T}) {{ x.m(a) }}", "#[derive_ReprC(dyn)] pub trait D {{ unsafe fn m(&self, a: {T}); }} pub fn f(x: VirtualPtr<dyn D>, a: {T}) {{ x.m(a) }}"),
]


def by_export(g):
    what, ok, bad = g.deal(EXPORTS)
    t = g.choice(["u8", "u16", "i64", "f64", "bool", "Good", "Kind", "Wrap"])
    fill = dict(T=t, ABI=g.choice(["system", "sysv64", "win64", "C-unwind", "efiapi", "stdcall", "fastcall"]), RCREF=g.choice(["Rc", "Arc"]),
                SEND=g.choice([": Send", ": ::core::marker::Send", ": Tr2 + Send", ": Send + Tr2"]) , SYNC=g.choice([": Send + Sync", ": Sync + Send", ": Tr2 + Send + Sync"]),
                EXEC="{ fn dyn_spawn(&self, f: VirtualPtr<dyn 'static + Send + ::safer_ffi::futures::FfiFuture>) -> VirtualPtr<dyn 'static + Send + ::safer_ffi::futures::FfiFuture> { loop {} } fn dyn_spawn_blocking(&self, f: repr_c::Box<dyn 'static + Send + FnMut()>) -> VirtualPtr<dyn 'static + Send + ::safer_ffi::futures::FfiFuture> { loop {} } fn dyn_block_on(&self, f: VirtualPtr<dyn '_ + ::safer_ffi::futures::FfiFuture>) { loop {} } fn dyn_enter(&self) -> VirtualPtr<dyn '_ + ::safer_ffi::dyn_traits::DropGlue> { loop {} } }")
    return "item", what, ok.format(**fill), bad.format(**fill), False


CONSTS = [("a tuple", "u8 = 1", "(u8, u8) = (1, 1)"), ("a char", "u32 = 1", "char = 'c'"), ("an Option", "i64 = -1", "Option<u32> = None"), ("a u128", "u64 = 1", "u128 = 1"), ("a type that is not FFI-safe", "i8 = 1", "NoDerive = NoDerive { a: 1 }")]


def by_const(g):
    what, ok, bad = g.deal(CONSTS)
    v = g.choice(["pub ", ""])
    return "constant", what, f"#[ffi_export] {v}const X: {ok};", f"#[ffi_export] {v}const X: {bad};", True


FAMILIES = [by_type] * 10 + [by_repr] * 4 + [by_callback] * 2 + [by_literal] * 2 + [by_capture] * 3 + [by_thread] * 3 + [by_lifetime] * 2 + [by_export] * 4 + [by_const]


def pair(g, family=None):
    return (family or g.choice(FAMILIES))(g)
