"""Calls of exported functions from compiled C (see worker.py)."""
import ctypes, mmap, os, signal, struct, sys, time
import gentypes as G
import drivers

NARGS = 64
REC_HEAD = 4 * (4 + NARGS + 1 + NARGS + 1)
RET_AT = REC_HEAD
BYTES_AT = RET_AT + 16384
PANIC_AT = BYTES_AT + 131072
FLAGS_AT = PANIC_AT + 4
REC_SIZE = FLAGS_AT + 28


class Rec:
    def __init__(self, lib):
        self.m = mmap.mmap(-1, (REC_SIZE + 4095) & ~4095)
        self.addr = ctypes.addressof(ctypes.c_char.from_buffer(self.m))
        lib.vf_set_rec.restype = ctypes.c_size_t
        n = lib.vf_set_rec(ctypes.c_void_p(self.addr))
        assert n == REC_SIZE, (n, REC_SIZE)

    def reset(self, ret):
        self.m[0:REC_HEAD] = bytes(REC_HEAD)
        self.m[12:16] = struct.pack("<I", len(ret))
        self.m[RET_AT:RET_AT + len(ret)] = ret

    def panic(self, k):
        self.m[PANIC_AT:PANIC_AT + 4] = struct.pack("<I", k)
        self.m[FLAGS_AT:FLAGS_AT + 28] = bytes(28)

    def flags(self):
        return struct.unpack("<7I", self.m[FLAGS_AT:FLAGS_AT + 28])

    def head(self):
        return struct.unpack("<4I", self.m[0:16])

    def notes(self):
        n = struct.unpack("<I", self.m[8:12])[0]
        head = struct.unpack(f"<{NARGS}II{NARGS}I", self.m[16:REC_HEAD - 4])
        lens, fid, ids = head[:NARGS], head[NARGS], head[NARGS + 1:]
        out, at = {}, BYTES_AT
        for i in range(min(n, NARGS)):
            out[ids[i]] = self.m[at:at + lens[i]]
            at += lens[i]
        return fid, n, out


def same(t, a, b):
    return all(a[o:o + s] == b[o:o + s] for o, s in G.value_ranges(t, a))


def arg_values(w, f, good=True):
    return [G.rnd_bytes(w.r, t, good) for _, _, t in f.args]


def pack(f, vals):
    """The arguments one after the other, 16-aligned."""
    b = bytearray()
    for v in vals:
        b += v + bytes(-len(v) % 16)
    return bytes(b)


def sig(f):
    return f"{f.name}({', '.join(t.rust for _, _, t in f.args)}) -> {f.ret.rust}"


def check_call(w, rec, f, vals, ret, out, who):
    ent, left, n, _ = rec.head()
    fid, n, notes = rec.notes()
    if (ent, left) != (1, 1) or fid != f.k:
        w.violate(f"{who} called {sig(f)} and function #{fid} ran {ent} times, to its end {left} times")
        return False
    noted = [i for i, (p, _, _) in enumerate(f.args) if p != "_"]
    if sorted(notes) != noted or n != len(noted):
        w.violate(f"{sig(f)} saw the arguments {sorted(notes)}, not {noted}")
        return False
    for i in noted:
        t = f.args[i][2]
        if len(notes[i]) != t.size or not same(t, vals[i], notes[i]):
            w.violate(f"argument {i} of {sig(f)}, a `{t.rust}`, was {vals[i].hex()} in {who} and {notes[i].hex()} in Rust {w.decl(t)}")
            return False
        w.count("arguments")
        w.see("arg", t.kind, t.user or "", min(t.size, 96), min(i, 7))
    if f.ret is not G.VOID:
        if not same(f.ret, ret, out[:f.ret.size]):
            w.violate(f"the result of {sig(f)} was {ret.hex()} in Rust and {out[:f.ret.size].hex()} in {who} {w.decl(f.ret)}")
            return False
        w.count("results")
        w.see("ret", f.ret.kind, f.ret.user or "", min(f.ret.size, 96))
    return True


def mode_calls(w):
    """C13: every argument and result, through the generated header."""
    rec = Rec(w.lib)
    drv = {}
    for which, so in w.spec["drivers"].items():
        drv[which] = ctypes.CDLL(so)
    rounds = 0
    while True:
        rounds += 1
        for f in w.prog.fns:
            for who, d in drv.items():
                fn = getattr(d, f"vf_call_{f.k}")
                fn.restype = None
                for _ in range(6):
                    vals = arg_values(w, f)
                    ret = b"" if f.ret is G.VOID else G.rnd_bytes(w.r, f.ret, True)
                    rec.reset(ret)
                    out = ctypes.create_string_buffer(max(1, f.ret.size))
                    w.progress(f"call from {who} of {sig(f)} with {[v.hex() for v in vals]}")
                    fn(pack(f, vals), out)
                    w.count("calls")
                    if not check_call(w, rec, f, vals, ret, out.raw, who):
                        return
            if rounds == 1:
                w.sample(f"{sig(f)[:160]}: {len(f.args)} arguments")
        if time.time() > w.end and rounds > 1:
            return


def mode_invalid(w):
    """C21: an illegal argument stops the process before the body runs; legal ones never do."""
    rec = Rec(w.lib)
    d = ctypes.CDLL(w.spec["drivers"]["raw"])
    err = w.spec["progress"] + ".stderr"
    w.lib.vf_hook_say()
    rounds = 0
    while True:
        rounds += 1
        for f in w.prog.fns:
            fn = getattr(d, f"vf_call_{f.k}")
            fn.restype = None
            out = ctypes.create_string_buffer(max(1, f.ret.size))
            # legal
            vals = arg_values(w, f)
            ret = b"" if f.ret is G.VOID else G.rnd_bytes(w.r, f.ret, True)
            rec.reset(ret)
            w.progress(f"call of {sig(f)} with the legal arguments {[v.hex() for v in vals]}")
            fn(pack(f, vals), out)
            w.count("legal_calls")
            if not check_call(w, rec, f, vals, ret, out.raw, "C"):
                return
            # illegal
            bad = []
            for i, (_, _, t) in enumerate(f.args):
                b = G.rnd_bytes(w.r, t, False)
                if b:
                    bad.append((i, b))
            if not bad:
                continue
            picks = [[x] for x in (bad if rounds == 1 else w.r.sample(bad, min(2, len(bad))))] + ([bad] if len(bad) > 1 else [])
            for pick in picks:
                vals = arg_values(w, f)
                for i, b in pick:
                    vals[i] = b
                rec.reset(ret)
                w.progress(f"call of {sig(f)} with illegal {[(i, b.hex()) for i, b in pick]}")
                pid = os.fork()
                if pid == 0:
                    try:
                        fd = os.open(err, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
                        os.dup2(fd, 2)
                        signal.alarm(20)
                        fn(pack(f, vals), out)
                    finally:
                        os._exit(77)
                _, st = os.waitpid(pid, 0)
                w.count("illegal_calls")
                ent, left, n, _ = rec.head()
                what = f"{sig(f)} called with the illegal {', '.join(f'argument {i} (`{f.args[i][2].rust}`) {b.hex()} {w.decl(f.args[i][2])}' for i, b in pick)}"
                if ent:
                    w.violate(f"the body ran: {what}")
                    return
                if not (os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGABRT):
                    how = "the call returned" if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 77 else f"the process ended with status {st}"
                    w.violate(f"{how} instead of aborting: {what}")
                    return
                w.count("stopped")
                for i, b in pick:
                    t = f.args[i][2]
                    w.see("stop", t.kind, t.user or "", min(i, 7), len(pick) > 1)
        # the conversion itself
        w.lib.vf_hook_panics()
        for i, t in enumerate(w.prog.probes):
            for _ in range(4):
                b = G.rnd_bytes(w.r, t, False)
                if b:
                    w.progress(f"from_raw_unchecked of `{t.rust}` from the illegal {b.hex()}")
                    k, o = w.probe(i, 3, 1, b, t.size)
                    w.count("unchecked_refused")
                    if k != 0:
                        w.violate(f"from_raw_unchecked of `{t.rust}` accepted {b.hex()} {w.decl(t)}")
                        return
                g = G.rnd_bytes(w.r, t, True)
                w.progress(f"from_raw_unchecked of `{t.rust}` from {g.hex()}")
                k, o = w.probe(i, 3, 1, g, t.size)
                w.count("unchecked_accepted")
                if k != 1 or not same(t, g, o):
                    w.violate(f"from_raw_unchecked of `{t.rust}` {'changed' if k else 'refused'} the legal {g.hex()} {w.decl(t)}")
                    return
        if time.time() > w.end and rounds > 1:
            return


def forked(f, err, thread=False):
    """-> (status, stderr). Exit status 77: the call came back."""
    pid = os.fork()
    if pid == 0:
        try:
            fd = os.open(err, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
            os.dup2(fd, 2)
            signal.alarm(20)
            if thread:
                import threading
                t = threading.Thread(target=f)
                t.start()
                t.join()
            else:
                f()
        finally:
            os._exit(77)
    _, st = os.waitpid(pid, 0)
    return st, open(err, "rb").read().decode("utf-8", "replace")


def mode_panics(w):
    """C14: a panic in any signature ends in an abort, with its message out, before the foreign caller sees anything."""
    resource = __import__("resource")
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    rec = Rec(w.lib)
    drv = {k: ctypes.CDLL(so) for k, so in w.spec["drivers"].items()}
    for d in drv.values():
        d.vf_set_flags(ctypes.c_void_p(rec.addr + FLAGS_AT))
    err = w.spec["progress"] + ".stderr"
    w.lib.vf_hook_say()
    kinds = {1: "VFMSG", 2: "panicked at", 3: "index out of bounds", 4: "VFMSG destructor", 5: "VFMSG at 5", 6: "VFMSG at 6", 7: "VFMSG at 7", 8: "VFMSG at 8"}
    if w.prog.p_async:
        import worker_async
        aux = worker_async.Aux(w.lib)
    rounds = 0
    while True:
        rounds += 1
        for f in w.prog.fns:
            who = w.r.choice(sorted(drv))
            fn = getattr(drv[who], f"vf_call_{f.k}")
            fn.restype = None
            out = ctypes.create_string_buffer(max(1, f.ret.size))
            ret = b"" if f.ret is G.VOID else G.rnd_bytes(w.r, f.ret, True)
            vals = arg_values(w, f)
            kind = w.r.choice([0, 1, 1, 2, 3, 4])
            if getattr(f, "exec", None):
                kind = w.r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8])
                aux.reset(w.r.choice([0, 0, 1, 2, 4]), w.r.randrange(5), kind not in (6, 7) and w.r.random() < .15)
            thread = w.r.random() < .3
            rec.reset(ret)
            rec.panic(kind)
            w.progress(f"call from {who} of {sig(f)} panicking in manner {kind}")
            st, text = forked(lambda: fn(pack(f, vals), out), err, thread)
            ent, left, n, _ = rec.head()
            returned, unwound, caught = rec.flags()[:3]
            what = f"{sig(f)} called from {who}{' on a thread' if thread else ''}, {'panic ' + str(kind) if kind else 'no panic'}"
            if ent != 1:
                w.violate(f"the body ran {ent} times: {what}")
                return
            if not kind:
                if not (os.WIFEXITED(st) and os.WEXITSTATUS(st) == 77 and returned == 1 and not caught):
                    w.violate(f"it did not return although it did not panic (status {st}, {text[:200]}): {what}")
                    return
                w.count("quiet_calls")
                continue
            if returned or unwound or caught:
                w.violate(f"the foreign caller {'saw it return' if returned else 'was unwound' if unwound and not caught else 'caught the panic'}: {what}")
                return
            if not (os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGABRT):
                w.violate(f"the process ended with status {st} instead of aborting: {what}")
                return
            if kinds[kind] not in text:
                w.violate(f"its message was not reported ({text[:200]!r}): {what}")
                return
            w.count("aborts")
            if getattr(f, "exec", None):
                w.count("async_aborts")
                w.see("async abort", kind, f.exec, min(f.ret.size, 64))
            w.see("abort", kind, who, thread, f.ret.kind, min(f.ret.size, 64), len(f.args))
        if time.time() > w.end and rounds > 1:
            return


MODES = {k[5:]: v for k, v in list(globals().items()) if k.startswith("mode_")}
