"""Builds of the Rust workload crates under the different observers, and the reading of their verdicts."""
import concurrent.futures as cf
import json, os, re, shlex, shutil, signal, subprocess, sys, time
import stage

PIN = "1.72.1"  # the toolchain the project pins
TRIPLE = "x86_64-unknown-linux-gnu"
BASE_ENV = {
    "PATH": "/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:" + os.environ.get("PATH", ""),
    "HOME": os.environ.get("HOME", "/root"),
    "LANG": "C.UTF-8",
    "CARGO_NET_OFFLINE": "true",
    "CARGO_TERM_COLOR": "never",
    "RUSTC_BOOTSTRAP": "1",
    "RUST_BACKTRACE": "0",
    "TMPDIR": os.environ.get("TMPDIR", "/tmp"),
}

# engine: toolchain, cargo args, features, rustflags, std rebuilt?, description of what observes the run
ENGINES = {
    "dbg": dict(tc=PIN, args=[], feats="ledger", obs="model/ledger oracle, debug assertions and overflow checks (rustc 1.72.1)"),
    "rel": dict(tc=PIN, args=["--release"], feats="ledger", obs="model/ledger oracle, optimised build without overflow checks (rustc 1.72.1)"),
    "stb": dict(tc=PIN, args=[], feats="ledger,stb", flags="--cfg stabby_max_tuple=\"10\"", obs="model/ledger oracle with the stabby feature (rustc 1.72.1)"),
    "asan": dict(tc="nightly", args=["--target", TRIPLE], feats="", flags="-Zsanitizer=address", obs="AddressSanitizer + model oracle (nightly)"),
    "tsan": dict(tc="nightly", args=["-Zbuild-std=core,alloc,std,panic_unwind", "--target", TRIPLE], feats="", flags="-Zsanitizer=thread", std=True, obs="ThreadSanitizer, std instrumented too (nightly)"),
    "miri": dict(tc="nightly", args=[], feats="", miri=True, obs="Miri (undefined behaviour, data races, leaks) + model oracle (nightly)"),
}

MIRI_BASE = "-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows"


class Inconclusive(Exception):
    pass


def vendor_cfg(std=False):
    return ["--config", 'source.crates-io.replace-with="vendored"', "--config", f'source.vendored.directory="{stage.VENDOR}{"-std" if std else ""}"']


def run(cmd, env, cwd, timeout, stdin=None):
    """-> (returncode | None on timeout, output text). The whole process group is killed on timeout."""
    p = subprocess.Popen(cmd, env=env, cwd=cwd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
        rc = None
    return rc, out.decode("utf-8", "replace")


class Built:
    """A built workload under one engine: knows how to run it."""

    def __init__(self, engine, crate, exe, env, cwd):
        self.engine, self.crate, self.exe, self.env, self.cwd = engine, crate, exe, env, cwd


def build(engine, crate="rt", extra_feats="", timeout=800, bin=None, default=True, shared=None):
    """shared: builds that name the same shared directory reuse each other's dependencies (and must not run at once)."""
    e = ENGINES[engine]
    cwd = stage.prepare(crate, std=e.get("std", False))
    tgt = os.path.join(stage.BUILD, f"t-{crate}-{engine}" + ("-" + re.sub(r"\W", "_", extra_feats) if extra_feats else "") + ("" if default else "-nd"))
    if shared:
        tgt = os.path.join(stage.BUILD, f"t-{crate}-{engine}-{shared}")
    stage.fresh(tgt, "hash")
    env = dict(BASE_ENV, CARGO_TARGET_DIR=tgt)
    feats = ",".join(f for f in (e["feats"], extra_feats) if f)
    args = list(e["args"]) + (["--features", feats] if feats else []) + ([] if default else ["--no-default-features"])
    env["RUSTFLAGS"] = "-Awarnings " + e.get("flags", "")
    cargo = ["cargo", "+" + e["tc"]]
    name = bin or crate
    if e.get("miri"):
        env["MIRIFLAGS"] = MIRI_BASE
        # building is part of `miri run`: run the trivial workload once
        cmd = cargo + ["miri", "run"] + vendor_cfg(e.get('std', False)) + args + ["--offline", "--locked", "-q", "--bin", name, "--", "nop"]
        rc, out = run(cmd, env, cwd, timeout)
        if rc != 0 and not re.search(r"^STATS ", out, re.M):
            if re.search(r"Undefined Behavior", out):
                return Built(engine, crate, cargo + ["miri", "run"] + vendor_cfg(e.get('std', False)) + args + ["--offline", "--locked", "-q", "--bin", name, "--"], env, cwd)
            raise Inconclusive(f"build of {crate} for {engine} failed:\n" + out[-3000:])
        return Built(engine, crate, cargo + ["miri", "run"] + vendor_cfg(e.get('std', False)) + args + ["--offline", "--locked", "-q", "--bin", name, "--"], env, cwd)
    cmd = cargo + ["build"] + vendor_cfg(e.get('std', False)) + args + ["--offline", "--locked", "-q", "--bin", name]
    rc, out = run(cmd, env, cwd, timeout)
    if rc != 0:
        raise Inconclusive(f"build of {crate} for {engine} failed:\n" + out[-3000:])
    sub = ("release" if "--release" in args else "debug")
    exe = os.path.join(tgt, TRIPLE if "--target" in args else "", sub, name)
    if shared:
        own = exe + "-" + re.sub(r"\W", "_", extra_feats)
        shutil.copy2(exe, own)
        exe = own
    return Built(engine, crate, [exe], env, cwd)


def runtime_env(b, miriflags=""):
    env = dict(b.env)
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=98:detect_stack_use_after_return=1:allocator_may_return_null=1"
    env["TSAN_OPTIONS"] = "exitcode=97:halt_on_error=1:report_signal_unsafe=0:history_size=4"
    if b.engine == "miri":
        env["MIRIFLAGS"] = MIRI_BASE + " " + miriflags
    return env


def classify(b, rc, out):
    """-> ("ok", stats) | ("violation", text) | ("inconclusive", text)"""
    m = re.search(r"^VIOL (\{.*\})\s*$", out, re.M)
    if m:
        try:
            d = json.loads(m.group(1))
            return "violation", d["what"] + (f" [{d['context']}]" if d.get("context") else "")
        except ValueError:
            return "violation", m.group(1)
    for pat, tag in ((r"ERROR: AddressSanitizer: .*", "AddressSanitizer"), (r"WARNING: ThreadSanitizer: .*", "ThreadSanitizer")):
        m = re.search(pat, out)
        if m:
            where = [l.strip() for l in out[m.start():].splitlines() if re.match(r"\s+#\d+ ", l) and ("safer" in l or "/stage/" in l)][:4]
            return "violation", f"{m.group(0)} {' | '.join(where)}"
    if b.engine == "miri":
        m = re.search(r"error: (Undefined Behavior: .*|memory leaked: .*|the evaluated program deadlocked.*|abnormal termination: .*)", out)
        if m:
            where = re.search(r"-->\s+(\S+)", out[m.start():])
            return "violation", f"Miri: {m.group(1)} at {where.group(1) if where else '?'}"
        m = re.search(r"error: unsupported operation: .*", out)
        if m:
            return "inconclusive", m.group(0)
    if rc is None:
        return "inconclusive", "timed out: " + out[-400:]
    m = re.search(r"^STATS (\{.*\})\s*$", out, re.M)
    if rc == 0 and m:
        return "ok", json.loads(m.group(1))
    if rc == -9:
        return "inconclusive", "killed (out of memory?)"
    if rc < 0 or rc in (101, 134, 139):
        return "violation", f"the workload died (status {rc}): " + " / ".join(out.strip().splitlines()[-6:])[:1500]
    return "inconclusive", f"exit status {rc}: " + out[-800:]
