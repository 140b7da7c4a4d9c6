"""Calls of exported async functions, with an event log (see worker.py, harness/gen/async.rs)."""
import ctypes, mmap, random, re, struct, time
import gentypes as G
from worker_calls import Rec, arg_values, check_call, pack, sig


class Aux:
    """What the next future does, and the log of what happened: shared with forked processes."""
    def __init__(self, lib):
        self.m = mmap.mmap(-1, 4096)
        self.addr = ctypes.addressof(ctypes.c_char.from_buffer(self.m))
        lib.vf_set_aux.restype = ctypes.c_size_t
        n = lib.vf_set_aux(ctypes.c_void_p(self.addr))
        assert n == 4096, n

    def reset(self, susp, wake, early=False):
        self.m[0:16] = struct.pack("<4I", susp, wake, early, 0)

    def log(self):
        n, = struct.unpack("<I", self.m[12:16])
        return self.m[16:16 + min(n, 4080)].decode("latin1")


def logged(executor):
    return "futures::executor" not in executor and "ex_pool" not in executor


def expected(executor, susp, early):
    """P prelude, B…R the executor, p…q/d its polls, f…e the future's body, s/r suspensions, G a captured guard, D one of the prelude's."""
    if early:
        return "PGD"
    inner = "f" + "s" * susp + "reG"
    if not logged(executor):
        return "P" + inner + "D"
    out = "PB"
    for i in range(susp + 1):
        out += "p" + ("f" if i == 0 else "") + ("sq" if i < susp else "reGd")
    return out + "RD"


def mode_async(w):
    """C25: the prelude and the future run once, on the executor given, and the caller gets the future's output."""
    rec, aux = Rec(w.lib), Aux(w.lib)
    drv = {k: ctypes.CDLL(so) for k, so in w.spec["drivers"].items()}
    rounds = 0
    while True:
        rounds += 1
        for f in w.prog.fns:
            if not f.exec:
                continue
            for who, d in drv.items():
                fn = getattr(d, f"vf_call_{f.k}")
                fn.restype = None
                for _ in range(5):
                    vals = arg_values(w, f)
                    ret = b"" if f.ret is G.VOID else G.rnd_bytes(w.r, f.ret, True)
                    susp, wake, early = w.r.choice([0, 0, 1, 1, 2, 3, 7, 40]), w.r.randrange(5), w.r.random() < .15
                    if susp == 40 and wake == 3:
                        wake = 4
                    rec.reset(ret)
                    aux.reset(susp, wake, early)
                    out = ctypes.create_string_buffer(max(1, f.ret.size))
                    w.progress(f"call from {who} of async {sig(f)} on {f.exec} with {susp} suspensions (manner {wake})")
                    fn(pack(f, vals), out)
                    w.count("calls")
                    if not check_call(w, rec, f, vals, ret, out.raw, who):
                        return
                    log, want = aux.log(), expected(f.exec, susp, early)
                    # (how an executor polls is its own affair, but these are ours)
                    if log != want:
                        w.violate(f"async {sig(f)} on {f.exec}, {susp} suspensions{', returning early' if early else ''}: what happened was {log}, not {want}")
                        return
                    w.count("events", len(log))
                    w.count("suspensions", susp)
                    w.count("early_returns", int(early))
                    w.see("async", f.exec, min(susp, 8), wake, early, bool(f.attr), f.ret.kind)
        if rounds == 1:
            w.sample(f"{len([f for f in w.prog.fns if f.exec])} exported async functions, e.g. log {want}")
        if time.time() > w.end and rounds > 1:
            return


# ---- by hand: asyncs.rs
P = ctypes.c_void_p
u8, u32, u64, sz = ctypes.c_uint8, ctypes.c_uint32, ctypes.c_uint64, ctypes.c_size_t
CB = ctypes.CFUNCTYPE(u32, u32)


class Pair(ctypes.Structure):
    _fields_ = [("a", P), ("n", u64), ("b", P)]


class Vec(ctypes.Structure):
    _fields_ = [("ptr", P), ("len", sz), ("cap", sz)]


class Slice(ctypes.Structure):
    _fields_ = [("ptr", P), ("len", sz)]


def mode_asyncs(w):
    rec, aux = Rec(w.lib), Aux(w.lib)
    L = w.lib
    L.vf_hook_say()

    def fn(name, ret, *args):
        f = getattr(L, name)
        f.restype, f.argtypes = ret, args
        return f
    tok_, tok_free = fn("tok", P, u8), fn("tok_free", u8, P)
    names = "abcxyz"

    def tok(l):
        return tok_(ord(l))

    def letter(p):
        """Frees a token that came back and tells its letter."""
        n = len(aux.log())
        l = chr(tok_free(p))
        assert aux.log()[n:] == l, aux.log()
        aux.m[12:16] = struct.pack("<I", n)
        return l
    r = w.r

    def run(name, call, stuff, value=None, executor=True, want=None, again=""):
        """`stuff`: the events (a multiset, as a string) besides those of the executor; `again`: those of nested executors."""
        susp, wake = r.choice([0, 1, 2, 3, 9]), r.randrange(5)
        aux.reset(susp, wake)
        w.progress(f"call of {name} with {susp} suspensions in manner {wake}")
        got = call()
        log = aux.log()
        w.count("calls")
        w.count("events", len(log))
        w.see("by hand", name, min(susp, 4), wake)
        what = f"{name} with {susp} suspensions (manner {wake})"
        if got != value:
            w.violate(f"{what} returned {got!r}, not {value!r}")
        if executor:
            exp = sorted("PBRr" + "p" * (susp + 1) + "q" * susp + "d" + "s" * susp + stuff(susp) if callable(stuff) else "PBRr" + "p" * (susp + 1) + "q" * susp + "d" + "s" * susp + stuff)
        else:
            exp = sorted(stuff)
        if sorted(log) != exp:
            w.violate(f"{what}: what happened was {log}, which has not the events {''.join(exp)}")
        elif executor and not re.fullmatch(r"[^BRpqd]*P[^BRpqd]*B(p.*)+R[^BRpqds]*", log) and "BpB" not in log and not again:
            w.violate(f"{what}: what happened was {log}: not the prelude, then the future")
        elif want and not re.fullmatch(want, log):
            w.violate(f"{what}: what happened was {log}, not {want}")
        if w.viol:
            raise StopIteration

    a_nothing = fn("a_nothing", None)
    a_sum = fn("a_sum", u64, u32, u64)
    one = {n: fn(n, u8, P) for n in ("a_moved", "a_moved_early", "a_prelude", "a_borrowed")}
    two = {n: fn(n, u8, P, u8) for n in ("a_unused", "a_underscore", "a_return")}
    a_back, a_choose = fn("a_back", P, P), fn("a_choose", P, P, P, ctypes.c_bool)
    a_option = fn("a_option", P, P, ctypes.c_bool)
    a_pair = fn("a_pair", Pair, Pair)
    a_vec = fn("a_vec", Vec, Vec)
    a_text, a_slice = fn("a_text", P, ctypes.c_char_p), fn("a_slice", Slice, Slice)
    a_out, a_mut = fn("a_out", None, P, u32), fn("a_mut", u32, P)
    a_callback = fn("a_callback", u32, CB, u32)
    nn = {n: fn(n, u32, u32) for n in ("a_two_guards", "a_join", "a_value", "a_boxed", "a_renamed", "a_renamed_2", "a_deep")}
    a_nested = fn("a_nested", u64, u32)
    vec_new, free_text, free_slice = fn("vec_new", Vec, u32), fn("free_text", None, P), fn("free_slice", None, Slice)

    def text(b):
        p = a_text(b)
        s = ctypes.string_at(p)
        free_text(p)
        return s

    def sl(b):
        buf = ctypes.create_string_buffer(b, len(b) + 1)
        x = a_slice(Slice(ctypes.addressof(buf), len(b)))
        s = ctypes.string_at(x.ptr, x.len)
        free_slice(x)
        return s

    def vec(n):
        v = a_vec(vec_new(n))
        ps = (P * v.len).from_address(v.ptr)
        return "".join(chr(ctypes.cast(p, ctypes.POINTER(u8))[0]) for p in ps), v

    try:
        while True:
            n, m = r.getrandbits(32), r.getrandbits(63)
            run("a_nothing", a_nothing, "")
            run("a_sum", lambda: a_sum(n, m), "", n + m)
            x = r.choice(names)
            for k, want in (("a_moved", ".*B.*x.*R"), ("a_moved_early", None), ("a_prelude", "x?P.*"), ("a_borrowed", ".*Rx")):
                t = tok("t")
                run(k, lambda: one[k](t), "t", ord("t"), want=want and want.replace("x", "t"))
            for k in ("a_unused", "a_underscore"):
                t = tok("t")
                run(k, lambda: two[k](t, n & 255), "t", n & 255)
            t, k = tok("t"), r.randrange(0, 20)
            run("a_return", lambda: two["a_return"](t, k), "PDt" if k > 9 else "Dt", k + 1 if k > 9 else k, executor=k <= 9)
            t = tok(x)
            run("a_back", lambda: letter(a_back(t)), "", x)
            t, v, first = tok("a"), tok("b"), r.random() < .5
            run("a_choose", lambda: letter(a_choose(t, v, first)), "b" if first else "a", "a" if first else "b")
            keep, some = r.random() < .5, r.random() < .7
            t = tok("t") if some else None

            def opt():
                p = a_option(t, keep)
                return p and letter(p)
            run("a_option", opt, "t" if some and not keep else "", "t" if some and keep else None)
            t, v = tok("a"), tok("b")

            def pair():
                p = a_pair(Pair(t, n, v))
                return letter(p.a), p.n, letter(p.b)
            run("a_pair", pair, "", ("b", n + 1, "a"))
            k = r.randrange(0, 6)
            vs = []

            def vecs():
                s, v = vec(k)
                vs.append(v)
                return s
            letters = "abcxyz"[:k]
            run("a_vec", vecs, letters[:1], letters[::-1][:-1] if k else "")
            fn("vec_free", None, Vec)(vs[0])
            s = bytes(r.randrange(97, 123) for _ in range(r.randrange(0, 30)))
            run("a_text", lambda: text(s), "", s + b"!")
            run("a_slice", lambda: sl(s), "", s[::-1])
            o = u32(0)

            def out():
                a_out(ctypes.addressof(o), n & 0xffffff)
                return o.value
            run("a_out", out, "", (n & 0xffffff) * 3)
            o2 = u32(n & 0xffff)
            run("a_mut", lambda: (a_mut(ctypes.addressof(o2)), o2.value), "", (((n & 0xffff) + 1) * 2 + 1,) * 2)
            seen = []

            def cb(x):
                seen.append(x)
                return x + 1
            cbo = CB(cb)
            run("a_callback", lambda: (a_callback(cbo, n & 0xffff), seen), "", ((n & 0xffff) + 2, [n & 0xffff, (n & 0xffff) + 1]))
            run("a_two_guards", lambda: nn["a_two_guards"](n), "DGH", n, want="PB.*HG.*RD")
            run("a_nested", lambda: a_nested(n), lambda s: "PBRr" + "p" * (s + 1) + "q" * s + "d" + "s" * s, n + 1, again="1")
            run("a_join", lambda: nn["a_join"](n & 0xffff), lambda s: "12r" + "s" * s, (n & 0xffff) + 1)
            run("a_value", lambda: nn["a_value"](n), "PEBpdR", n, executor=False, want="PEBpdR|PBEpdR")
            for k in ("a_boxed", "a_renamed", "a_renamed_2"):
                run(k, lambda: nn[k](n), "", n)
            run("a_deep", lambda: nn["a_deep"](n & 0xffff), "", (n & 0xffff) + 1)
            if time.time() > w.end:
                break
    except StopIteration:
        pass


MODES = {k[5:]: v for k, v in list(globals().items()) if k.startswith("mode_")}
