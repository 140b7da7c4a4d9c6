"""Header generation in-process: into hostile sinks (C17), and again and again (C16)."""
import ctypes, fcntl, os, resource, signal, threading, time

U32, U64 = ctypes.c_uint32, ctypes.c_uint64
LANGS = ["C", "C#", "Python"]
KINDS = ["Other", "BrokenPipe", "WouldBlock", "TimedOut", "PermissionDenied", "AlreadyExists", "UnexpectedEof", "InvalidData", "NotFound", "OutOfMemory"]
WRAPS = ["bare", "BufWriter", "BufWriter larger than the header", "LineWriter", "BufWriter of 7 bytes", "custom Definer", "Box<dyn Write>", "&mut BufWriter"]
NEVER = 2**64 - 1


class Plan(ctypes.Structure):
    _fields_ = [("lang", U32), ("at_write", U64), ("at_byte", U64), ("kind", U32), ("sticky", U32), ("chunk", U32), ("interrupts", U32), ("wrap", U32), ("fail_flush", U32), ("seed", U64)]


class Seen(ctypes.Structure):
    _fields_ = [("status", U32), ("same_error", U32), ("prefix", U32), ("complete", U32), ("accepted", U64), ("writes", U64), ("failed", U32), ("flushes", U32), ("interrupted", U64), ("after", U64), ("msg_len", U32), ("msg", ctypes.c_ubyte * 256)]


def mode_sinks(w):
    r = w.r
    w.lib.vf_sink.restype = U64
    w.lib.vf_to_fd.restype = ctypes.c_int64
    w.lib.vf_hook_panics()
    full = []

    def run(**kw):
        p = Plan(at_write=NEVER, at_byte=NEVER, seed=r.randrange(1, 2**63))
        for k, v in kw.items():
            setattr(p, k, v)
        what = f"{LANGS[p.lang]} header of {full[p.lang] if len(full) > p.lang else '?'} bytes into a {WRAPS[p.wrap]} sink ({', '.join(f'{k}={v}' for k, v in kw.items() if k not in ('lang', 'wrap'))}"
        w.progress(what)
        s = Seen()
        w.lib.vf_sink(ctypes.byref(p), ctypes.byref(s))
        msg = bytes(s.msg[:s.msg_len]).decode("utf-8", "replace")
        what += f"): accepted {s.accepted} bytes in {s.writes} writes; result {['Ok', 'Err ' + msg, 'panic'][s.status]}"
        w.count("generations")
        w.count("sink_writes", s.writes + s.after)
        if s.interrupted:
            w.count("interrupted_writes", s.interrupted)
        if s.status == 2:
            w.violate("header generation panicked: " + what)
        elif s.failed:
            w.count("faults")
            if s.status == 0:
                w.violate("header generation reported success though the sink failed: " + what)
            elif not s.same_error:
                w.violate("header generation returned another error than the sink's: " + what)
            elif not s.prefix:
                w.violate("what reached the failing sink is not a prefix of the complete header: " + what)
            w.see("fault", p.lang, p.kind, p.sticky, p.wrap, bool(p.chunk), bool(p.interrupts), bool(p.fail_flush), 20 * s.accepted // max(1, full[p.lang]))
        else:
            if s.status == 1:
                w.violate("header generation failed though the sink did not: " + what)
            elif not s.complete:
                w.violate("header generation reported success but the sink got something else than the complete header: " + what)
            w.count("complete_headers")
            w.see("complete", p.lang, p.wrap, p.chunk.bit_length(), p.interrupts // 25)
        return s

    nwrites = []
    for lang in range(3):
        p = Plan(lang=lang, at_write=NEVER, at_byte=NEVER)
        n = w.lib.vf_sink(ctypes.byref(p), None)
        full.append(n)
        nwrites.append(run(lang=lang).writes)
    w.sample(f"{w.prog.name}: headers of {full} bytes written in {nwrites} writes")
    # files and descriptors
    fds(w, full)
    # each write and (the budget permitting) each byte fails in turn, in random order
    sites = [(lang, "at_write", k) for lang in range(3) for k in range(1, nwrites[lang] + 1)]
    r.shuffle(sites)
    byts = [(lang, "at_byte", k) for lang in range(3) for k in range(0, full[lang])]
    r.shuffle(byts)
    t_mid = time.time() + (w.end - time.time()) * .5
    done = set()
    for lang, how, k in sites:
        if time.time() > t_mid or w.viol:
            break
        run(lang=lang, kind=r.choice([*range(10), 100, 101]), sticky=r.randrange(2), **{how: k})
        done.add((lang, k))
        w.count("write_positions_failed")
    if len(done) == len(sites):
        w.count("exhaustive_write_positions")
    i = 0
    while time.time() < w.end and not w.viol:
        lang, how, k = byts[i % len(byts)]
        i += 1
        x = r.random()
        if x < .45:
            kw = dict(at_byte=k)
        elif x < .6:
            kw = dict(at_byte=r.choice([full[lang] - 1, full[lang] - r.randrange(1, 40), k]))
        elif x < .7:
            kw = dict(fail_flush=1)
        else:
            kw = {}
        if r.random() < .6:
            kw["chunk"] = r.choice([1, 2, 3, 7, 16, 100])
        if r.random() < .5:
            kw["interrupts"] = r.choice([5, 50, 95])
        kind = r.choice([*range(10), 100, 101]) if "fail_flush" not in kw else r.randrange(10)
        run(lang=lang, wrap=r.randrange(8), kind=kind, sticky=r.randrange(2), **kw)


def fds(w, full):
    """Real files, pipes and devices."""
    r = w.r
    d = w.spec["progress"] + ".d"
    os.makedirs(d, exist_ok=True)

    def judge(what, rc, errs, got=None, want=None):
        w.count("descriptor_sinks")
        w.see("descriptor", what.split(" (")[0])
        if rc == 1:
            w.violate(f"header generation panicked: {what}")
        elif rc == 0 and errs:
            w.violate(f"header generation reported success though the sink failed: {what}")
        elif rc and rc - 1000 not in errs:
            w.violate(f"header generation returned errno {rc - 1000}: {what}")
        elif got is not None and (not want.startswith(got) or (rc == 0 and got != want)):
            w.violate(f"{'the complete header did not reach' if rc == 0 else 'no prefix of the header reached'} the sink: {what}")

    def call(lang, fd, wrap=0, path=b""):
        return w.lib.vf_to_fd(U32(lang), ctypes.c_int32(fd), U32(wrap), ctypes.c_char_p(path))
    for lang in range(3):
        path = f"{d}/h{lang}"
        if os.path.exists(path):
            os.unlink(path)
        w.progress(f"{LANGS[lang]} into a new file")
        rc = call(lang, -1, path=path.encode())
        want = open(path, "rb").read() if os.path.exists(path) else b""
        judge("new file", rc, [])
        if len(want) != full[lang]:
            w.violate(f"the file has {len(want)} bytes, the header {full[lang]}")
        open(path, "wb").write(b"#error old contents\n" * 40000)
        rc = call(lang, -1, path=path.encode())
        judge("file that was longer before", rc, [], open(path, "rb").read(), want)
        judge("directory that is not there", call(lang, -1, path=f"{d}/none/h".encode()), [2])
        judge("path that is a directory", call(lang, -1, path=d.encode()), [21])
        judge("full device", call(lang, -1, path=b"/dev/full"), [28])
        for wrap in (0, 1):
            fd = os.open("/dev/full", os.O_WRONLY)
            judge(f"full device (wrap {wrap})", call(lang, fd, wrap), [28])
            # a pipe nobody reads
            a, b = os.pipe()
            os.close(a)
            judge(f"pipe without a reader (wrap {wrap})", call(lang, b, wrap), [32])
            # a pipe that is read slowly, in small pieces
            a, b = os.pipe()
            fcntl.fcntl(b, fcntl.F_SETPIPE_SZ, 4096)
            got = []

            def read():
                while True:
                    c = os.read(a, r.choice([1, 10, 1000, 4096]))
                    if not c:
                        return
                    got.append(c)
            t = threading.Thread(target=read)
            t.start()
            rc = call(lang, b, wrap)
            t.join()
            os.close(a)
            judge(f"slow pipe (wrap {wrap})", rc, [], b"".join(got), want)
            # a pipe that does not block
            a, b = os.pipe()
            fcntl.fcntl(b, fcntl.F_SETPIPE_SZ, 4096)
            os.set_blocking(b, False)
            rc = call(lang, b, wrap)
            if len(want) > 4096:
                judge(f"full pipe (wrap {wrap})", rc, [11], os.read(a, 1 << 20), want)
            os.close(a)
            # a read-only descriptor
            fd = os.open(path, os.O_RDONLY)
            judge(f"read-only file (wrap {wrap})", call(lang, fd, wrap), [9])
            # a file that may not grow beyond a limit, in a child of its own
            for _ in range(4):
                lim = r.choice([0, 1, r.randrange(full[lang]), full[lang] - 1, full[lang]])
                p2 = f"{d}/limited"
                open(p2, "wb").close()
                rd, wr = os.pipe()
                pid = os.fork()
                if pid == 0:
                    try:
                        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                        fd = os.open(p2, os.O_WRONLY | os.O_TRUNC)
                        resource.setrlimit(resource.RLIMIT_FSIZE, (lim, lim))
                        os.write(wr, str(call(lang, fd, wrap)).encode())
                    finally:
                        os._exit(0)
                os.close(wr)
                rc = int(os.read(rd, 100) or b"1")
                os.close(rd)
                os.waitpid(pid, 0)
                judge(f"file of limited size (wrap {wrap}, limit {lim} of {full[lang]})", rc, [27] if lim < full[lang] else [], open(p2, "rb").read(), want)


SINKS = ["Vec", "new file", "file that was longer", "buffered file", "definer over a BTreeSet", "definer over a Vec", "sink that generates headers itself", "LineWriter", "one byte at a time", "after failed generations", "twice into one sink"]


def mode_again(w):
    """Any history of generations, on any number of threads, yields the reference bytes (from other processes)."""
    refs = {int(k): open(v, "rb").read() for k, v in w.spec["refs"].items()}
    w.lib.vf_again.restype = ctypes.c_int64
    w.lib.vf_hook_panics()
    d = w.spec["progress"] + ".d"
    os.makedirs(d, exist_ok=True)
    lock = threading.Lock()
    cap = 1 << 22

    def one(r, buf, path, hist):
        opts = r.choice(list(refs))
        sink = r.choice([0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10]) if r.random() < .6 else r.choice([0, 4, 5, 7])
        if sink == 6 and r.random() < .7:
            sink = 0
        n = w.lib.vf_again(U32(opts), U32(sink), U64(r.randrange(10000)), ctypes.c_char_p(path), buf, ctypes.c_size_t(cap))
        got = buf.raw[:n] if 0 <= n <= cap else None
        hist.append(f"{LANGS[opts & 255]}{'/unsorted' if opts & 256 else ''}{'/dressed' if opts & 512 else ''} into {SINKS[sink]}")
        with lock:
            w.count("repeated_generations")
            w.see("again", opts, sink, hist[-2].split(" ")[0] if len(hist) > 1 else "first", len(hist) > 20)
            if got != refs[opts]:
                if got is None:
                    what = f"failed ({n}: {buf.raw[:max(0, -1000 - n)].decode('utf-8', 'replace')})"
                else:
                    a, b = got, refs[opts]
                    i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
                    what = f"differs from byte {i} on: {a[max(0, i - 60):i + 60]!r} instead of {b[max(0, i - 60):i + 60]!r}"
                w.violate(f"generation {len(hist)} of a process, after {hist[-6:-1]}, of {hist[-1]} {what}")
    fns = [f.name for f in w.prog.fns] + [c.name for c in w.prog.consts]
    buf = ctypes.create_string_buffer(cap)
    for name in fns:
        for lang in range(3):
            if lang == 1 and name in {c.name for c in w.prog.consts if c.untyped}:
                continue
            n = w.lib.vf_again(U32(lang), U32(11), U64(0), ctypes.c_char_p(name.encode()), buf, ctypes.c_size_t(cap))
            got = buf.raw[:max(0, n)].decode("utf-8", "replace")
            w.count("taken_names")
            if got != "AlreadyExists":
                w.violate(f"the name of {name} is already taken but generating the {LANGS[lang]} header gave {got or n} instead of AlreadyExists")
    hist = []
    while time.time() < w.end and not w.viol:
        for _ in range(10):
            w.progress(f"generation {len(hist)} of a process, after {hist[-6:]}")
            one(w.r, buf, f"{d}/again".encode(), hist)
        # all at once
        seeds = [w.r.randrange(2**32) for _ in range(w.r.choice([2, 4, 8]))]

        def th(seed):
            import random
            r, b, h = random.Random(seed), ctypes.create_string_buffer(cap), []
            for _ in range(4):
                one(r, b, f"{d}/again{seed}".encode(), h)
        ts = [threading.Thread(target=th, args=(s,)) for s in seeds]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        w.count("concurrent_bursts")
        for s in seeds:
            if os.path.exists(f"{d}/again{s}"):
                os.unlink(f"{d}/again{s}")
    w.sample(f"{w.prog.name}: {len(hist)} generations in one process")


MODES = {k[5:]: v for k, v in list(globals().items()) if k.startswith("mode_")}
