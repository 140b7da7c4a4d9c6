"""Stateful C programs that use an exported library through its generated header only, under ASan/UBSan on both sides.
scenario (C13): an ordinary library. virtual (C09, C10): virtual objects, futures and executors implemented on both sides."""
import concurrent.futures as cf
import os, re, subprocess
import core, engines, gen, stage

G = stage.VERIF + "/harness/gen/"


class Scenario:
    def __init__(self, name, key, kinds, mode=None):
        self.name, self.key, self.kinds, self.mode = name, key, kinds.split(), mode
        self.src, self.c = f"{G}{name}.rs", f"{G}{name}.c"

    def library(self, kind):
        src = {self.name: open(self.src).read()}
        tag = self.name[:4] + (self.mode or "")
        if kind == "asan":
            return gen.build(tag + "asan", src, toolchain="nightly", flags="-Zsanitizer=address", target=engines.TRIPLE)[self.name]
        return gen.build(tag + kind, src, release=kind == "rel")[self.name]

    def one(self, res, so, label, which, hdr, seed, steps):
        exe = f"{os.path.dirname(so)}/{self.name}-{which}"
        if not os.path.exists(exe):
            return
        cmd = [exe, str(seed), str(steps)] + ([self.mode] if self.mode else [])
        env = dict(engines.BASE_ENV, ASAN_OPTIONS="detect_leaks=0:exitcode=98:detect_stack_use_after_return=1", UBSAN_OPTIONS="halt_on_error=1:print_stacktrace=0")
        try:
            p = subprocess.run(cmd, env=env, capture_output=True, timeout=240)
            rc, out = p.returncode, (p.stdout + p.stderr).decode("utf-8", "replace")
        except subprocess.TimeoutExpired:
            rc, out = None, "did not come to its end"
        m = re.search(r"^STATS ([\d ]+)$", out, re.M)
        if rc == 0 and m:
            v = [int(x) for x in m[1].split()]
            res.count(f"{self.key}_steps", v[0], label)
            res.count(f"{self.key}_checks", v[1], label)
            for k, n in zip(self.kinds, v[2:]):
                if n:
                    res.count(f"{self.key}_" + k, n)
                    res.see(label, f"{self.name} {k} {label}")
            return
        m = re.search(r"^VIOL (.*)$|(LEDGER: .*)|(ERROR: AddressSanitizer: .*)|(.*runtime error: .*)|(.*panicked at .*(?:\n.*)?)|(.*across the FFI boundary.*)", out, re.M)
        res.violate(f"{label}: {m.group(0) if m else out[-400:]} (status {rc})", dict(command=cmd, header=hdr, program=self.src, driver=self.c, output=out[-5000:]))

    def lib(self, res, kind, n, steps, hdr=None):
        err = None
        so = self.library(kind)
        d = os.path.dirname(so)
        if not hdr:   # (python cannot load an instrumented library: that one shares the header)
            hdr, err = gen.headers(so, 0, self.name)
        if err:
            res.violate(err, dict(program=self.src))
            return
        open(f"{d}/{self.name}.h", "w").write(hdr)

        def compile(which):
            exe = f"{d}/{self.name}-{which}"
            if os.path.exists(exe):
                os.unlink(exe)
            rc, out = gen.cc(which, ["-g", "-O1", "-w", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", f'-D{self.name.upper()}_H="{d}/{self.name}.h"', self.c, "-x", "none", so, "-lpthread", "-lm", "-o", exe])
            if rc != 0:
                res.violate(f"{which} does not accept the {self.name} scenario through the generated header: {out[:800]}", dict(header=hdr, driver=self.c))
        which = ["clang", "gcc"] if kind == "asan" else ["gcc", "clang", "g++", "clang++"]
        with cf.ThreadPoolExecutor(4) as ex:
            list(ex.map(compile, which))
            list(ex.map(lambda k: self.one(res, so, f"{self.name} {kind} {which[k % len(which)]}", which[k % len(which)], hdr, res.seed * 7919 + k, steps), range(n)))
        return hdr

    def run(self, res, n, steps):
        hdr = self.lib(res, "dbg", n, steps)
        if hdr:
            self.lib(res, "asan", n, steps, hdr)
        self.lib(res, "rel", n, steps)


ORDINARY = Scenario("scenario", "scenario", "store_new store_free store_add store_add2 store_remove store_names set_hook call_hook take_hook hook_threads set_filter filter_count clear_filter ints_new ints_push ints_clone ints_boxed ints_free concat text utf8 counter adder points apply nested")
VIRTUAL_KINDS = "new use clone drop wrap threads shelf shelf_add shelf_take shelf_get machine drive give_up drop_future executor executor_run"
OBJECTS = Scenario("virtual", "foreign", VIRTUAL_KINDS, "d")
FUTURES = Scenario("virtual", "foreign", VIRTUAL_KINDS, "f")


def run(res, q):
    ORDINARY.run(res, 6 if q else 60, 20000 if q else 200000)
