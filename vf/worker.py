"""Drives one generated program through ctypes, in a process of its own (it may be killed by what it calls).

    worker.py MODE SPEC       SPEC: JSON {so, seed, name, kw, millis, seed2, progress, ...}

Prints one JSON document: {"counts": {}, "distinct": [], "samples": [], "violations": []}; what it was doing when it
died is in the file `progress`."""
import ctypes, json, mmap, os, random, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import genprog
import gentypes as G


class W:
    def __init__(self, spec):
        self.spec = spec
        self.prog = genprog.Prog(spec["seed"], spec["name"], **spec["kw"]) if "kw" in spec else None
        os.environ["CARGO_CRATE_NAME"] = spec["name"]   # (generation takes the library's name from here)
        self.lib = ctypes.CDLL(spec["so"])
        self.r = random.Random(spec.get("seed2", 0))
        self.counts, self.distinct, self.samples, self.viol = {}, set(), [], []
        self.end = time.time() + spec.get("millis", 2000) / 1000
        f = open(spec["progress"], "w+b")
        f.truncate(4096)
        self.pm = mmap.mmap(f.fileno(), 4096)
        if self.prog:
            self.lib.vf_probe.restype = ctypes.c_int64
            self.lib.vf_offsets.restype = ctypes.c_int64

    def progress(self, s):
        b = s.encode()[:4000]
        self.pm[:len(b) + 1] = b + b"\0"

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def see(self, *k):
        self.distinct.add(":".join(map(str, k)))

    def violate(self, s):
        if len(self.viol) < 20:
            self.viol.append(s)

    def sample(self, s):
        if len(self.samples) < 4:
            self.samples.append(s)

    def done(self):
        print(json.dumps(dict(counts=self.counts, distinct=sorted(self.distinct), samples=self.samples, violations=self.viol)))

    def probe(self, i, op, n, inp, outlen):
        out = ctypes.create_string_buffer(bytes([0xA5]) * outlen, outlen)
        k = self.lib.vf_probe(ctypes.c_uint32(i), ctypes.c_uint32(op), ctypes.c_size_t(n), inp, out)
        return k, out.raw

    def decl(self, t):
        d = t.__dict__.get("decl")
        return " ".join(d.split())[:500] if d else ""


def leaf_classes(t):
    return "+".join(sorted({l[2] for l in t.leaves()}))


def mode_valid(w):
    """C11: is_valid and from_raw against the model."""
    w.lib.vf_hook_panics()
    r = w.r
    probes = w.prog.probes

    def judge(i, t, pats, how):
        n = len(pats)
        buf = b"".join(pats)
        w.progress(f"validity of {n} {how} patterns for `{t.rust}` {w.decl(t)}; first {pats[0].hex()}")
        k, out = w.probe(i, 1, n, buf, n)
        for j, p in enumerate(pats):
            want = G.is_valid(t, p)
            w.count("is_valid_" + ("accept" if want else "refuse"))
            if out[j] != want:
                what = {0: "refused", 1: "accepted", 0xEE: "is_valid panicked for"}.get(out[j], f"answered {out[j]} for")
                w.violate(f"is_valid of `{t.rust}` {what} the {'legal' if want else 'illegal'} pattern {p.hex()} {w.decl(t)}")
                return
        w.progress(f"from_raw of {n} {how} patterns for `{t.rust}` {w.decl(t)}; first {pats[0].hex()}")
        st = 2 * t.size + 1
        k, out = w.probe(i, 2, n, buf, n * st)
        for j, p in enumerate(pats):
            want = G.is_valid(t, p)
            o = out[j * st:(j + 1) * st]
            w.count("from_raw_" + ("some" if want else "none"))
            if o[0] != want:
                w.violate(f"from_raw of `{t.rust}` returned {'a value' if o[0] else 'nothing'} for the {'legal' if want else 'illegal'} pattern {p.hex()} {w.decl(t)}")
                return
            if want:
                own = o[1 + t.size:]
                for a, b in G.value_ranges(t, p):
                    if own[a:a + b] != p[a:a + b]:
                        w.violate(f"from_raw of `{t.rust}` changed the value: {p.hex()} became {own.hex()} {w.decl(t)}")
                        return
        w.see(t.kind, t.user or "", leaf_classes(t)[:40], min(t.size, 64), how)

    # every pattern of the one- and two-byte types
    for i, t in enumerate(probes):
        if t.size <= 2 and t.leaves():
            judge(i, t, [v.to_bytes(t.size, "little") for v in range(256 ** t.size)], "all")
            w.count("exhaustive_types")
    rounds = 0
    while True:
        rounds += 1
        for i, t in enumerate(probes):
            pats = []
            for _ in range(10):
                pats.append(G.rnd_bytes(r, t, True))
                b = G.rnd_bytes(r, t, False)
                if b:
                    pats.append(b)
            pats.append(bytes(r.randrange(256) for _ in range(t.size)))
            pats += [bytes([v]) * t.size for v in (0, 255, 1)]
            # one leaf at a time: every value of a small one, the neighbourhood of the legal ones
            ls = [l for l in t.leaves() if l[2] != "any"]
            if ls:
                o, s, k, a = r.choice(ls)
                base = G.rnd_bytes(r, t, True)
                vals = list(range(256)) if s == 1 else {v % (1 << 8 * s) for x in (a if k == "enum" else [0, 1] if k == "opt" else [0, a or 1]) for d in (-2, -1, 0, 1, 2, 256, 65536, 1 << 31, 1 << 32, 1 << 63) for v in (x + d, -x + d)}
                for v in sorted(vals):
                    p = bytearray(base)
                    p[o:o + s] = v.to_bytes(s, "little")
                    pats.append(bytes(p))
            judge(i, t, pats, "random")
            if rounds == 1 and t.user:
                w.sample(f"{t.rust}: {sum(G.is_valid(t, p) for p in pats)}/{len(pats)} patterns legal, e.g. {pats[0].hex()[:64]}")
            if time.time() > w.end and rounds > 1:
                return


def mode_layout(w):
    """C12: sizes, alignments, offsets; conversion to C and back."""
    r = w.r
    probes = w.prog.probes
    facts = []
    for i, t in enumerate(probes):
        w.progress(f"facts of `{t.rust}` {w.decl(t)}")
        k, out = w.probe(i, 0, 0, None, 64)
        f = [int.from_bytes(out[8 * j:8 * j + 8], "little") for j in range(5)]
        w.count("size_and_alignment")
        if f[:2] != [t.size, t.align]:
            w.violate(f"`{t.rust}` has size {f[0]} and alignment {f[1]} where C gives {t.size} and {t.align} {w.decl(t)}")
        if f[2:4] != f[:2]:
            w.violate(f"`{t.rust}` has size {f[0]} and alignment {f[1]} but its C layout {f[2]} and {f[3]} {w.decl(t)}")
        if t.niche and f[4] != f[0]:
            w.violate(f"Option<{t.rust}> has size {f[4]}, not {f[0]}")
        fo = None
        pf = t.__dict__.get("probe_fields")
        if pf:
            b = (ctypes.c_uint64 * 128)()
            n = w.lib.vf_offsets(i, b)
            want = [o for _, o, _ in t.fields]
            w.count("field_offsets", n)
            got = list(b[:n])
            if got[:n // 2] != want:
                w.violate(f"fields of `{t.rust}` are at {got[:n // 2]} where C puts them at {want} {w.decl(t)}")
            if got[n // 2:] != want:
                w.violate(f"fields of the C layout of `{t.rust}` are at {got[n // 2:]} where C puts them at {want} {w.decl(t)}")
        w.see("layout", t.kind, t.user or "", t.size, t.align)
        if t.user == "struct":
            w.sample(f"{t.rust}: size {t.size} align {t.align} fields {[(n, o) for n, o, _ in t.fields][:6]}")
    rounds = 0
    while True:
        rounds += 1
        for i, t in enumerate(probes):
            if t.kind == "option" and (t.__dict__.get("none_any") or t.leaves()[0][2] == "opt"):
                # a fat None: only the absent pointer is defined, and reading the rest is a known finding
                pats = [p for p in (G.rnd_bytes(r, t, True) for _ in range(12)) if any(p[:8])]
            else:
                pats = [G.rnd_bytes(r, t, True) for _ in range(12)]
            if not pats:
                continue
            n, st = len(pats), 2 * t.size + 1
            w.progress(f"conversion of {n} values of `{t.rust}` {w.decl(t)}; first {pats[0].hex()}")
            k, out = w.probe(i, 2, n, b"".join(pats), n * st)
            for j, p in enumerate(pats):
                o = out[j * st:(j + 1) * st]
                if o[0] != 1:
                    continue   # a matter of C11
                w.count("round_trips")
                for what, got in (("C representation", o[1:1 + t.size]), ("value", o[1 + t.size:])):
                    for a, b in G.value_ranges(t, p):
                        if got[a:a + b] != p[a:a + b]:
                            w.violate(f"the {what} of `{t.rust}` is {got.hex()} after a round trip of {p.hex()} {w.decl(t)}")
                            return
                if t.kind == "option":
                    w.count("option_none" if not any(p[:8]) else "option_some")
            w.see("value", t.kind, t.user or "", leaf_classes(t)[:40])
        if time.time() > w.end and rounds > 1:
            return


MODES = {k[5:]: v for k, v in list(globals().items()) if k.startswith("mode_")}

if __name__ == "__main__":
    w = W(json.loads(sys.argv[2]))
    if sys.argv[1] in ("sinks", "again"):
        import worker_hdr
        worker_hdr.MODES[sys.argv[1]](w)
    elif sys.argv[1] in ("async", "asyncs"):
        import worker_async
        worker_async.MODES[sys.argv[1]](w)
    elif sys.argv[1] not in MODES:
        import worker_calls
        worker_calls.MODES[sys.argv[1]](w)
    else:
        MODES[sys.argv[1]](w)
    w.done()
