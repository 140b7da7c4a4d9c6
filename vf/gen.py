"""Builds generated programs (see genprog) as cdylibs of one cargo package, and C code against them."""
import json, os, re, shutil, subprocess, sys, tempfile
import stage, engines
from engines import Inconclusive

CC = {
    "gcc": ["gcc", "-x", "c", "-std=c11"], "clang": ["clang", "-x", "c", "-std=c11"],
    "g++": ["g++", "-x", "c++", "-std=c++17"], "clang++": ["clang++", "-x", "c++", "-std=c++17"],
}


def build(tag, sources, release=False, timeout=800, feats="", toolchain=None, flags="", kind="cdylib", target=None, defaults=True):
    """sources: {name: rust source}. -> {name: path of the shared library (or executable)}"""
    d = stage.prepare("gen")
    own = os.path.join(stage.BUILD, "h", "gen-" + tag)
    shutil.rmtree(own, ignore_errors=True)
    os.makedirs(own + "/examples")
    toml = open(d + "/Cargo.toml").read()
    for n, s in sources.items():
        stage.write(f"{own}/examples/{n}.rs", s)
        toml += f'\n[[example]]\nname = "{n}"\npath = "examples/{n}.rs"\n' + (f'crate-type = ["{kind}"]\n' if kind else "")
    stage.write(own + "/Cargo.toml", toml)
    shutil.copy(d + "/Cargo.lock", own + "/Cargo.lock")
    for f in ("support.rs", "async.rs", "monitor.rs", "lib.rs"):
        stage.link(f"{stage.VERIF}/harness/gen/{f}", f"{own}/{f}")
    tgt = os.path.join(stage.BUILD, "t-gen" + ("-rel" if release else "") + ("-" + tag if toolchain else ""))
    stage.fresh(tgt, "hash")
    env = dict(engines.BASE_ENV, CARGO_TARGET_DIR=tgt, RUSTFLAGS="-Awarnings " + flags)
    cmd = ["cargo", "+" + (toolchain or engines.PIN), "build"] + engines.vendor_cfg() + (["--release"] if release else []) + ([] if defaults else ["--no-default-features"]) + (["--features", feats] if feats else []) + (["--target", target] if target else []) + ["--offline", "--locked", "-q", "--examples"]
    rc, out = engines.run(cmd, env, own, timeout)
    if rc != 0:
        raise Inconclusive("the generated programs do not build:\n" + re.sub(r"(?m)^warning.*\n", "", out)[:3500])
    ex = os.path.join(tgt, target or "", "release" if release else "debug", "examples")
    keep = os.path.join(own, "out" + ("-rel" if release else ""))
    os.makedirs(keep, exist_ok=True)
    res = {}
    for n in sources:
        src = f"{ex}/lib{n}.so" if kind == "cdylib" else f"{ex}/{n}"
        dst = os.path.join(keep, os.path.basename(src))
        shutil.copy2(src, dst)
        res[n] = dst
    return res


def _ask(so, call, args, name, env, cwd):
    code = ("import ctypes,sys\nl=ctypes.CDLL(sys.argv[1])\nf=getattr(l,sys.argv[2])\nf.restype=ctypes.c_int64\nb=ctypes.create_string_buffer(1<<24)\n"
            "a=[ctypes.c_uint32(int(sys.argv[3]))]\nif len(sys.argv)>4:\n t=sys.argv[4].encode(); a+=[ctypes.c_char_p(t),ctypes.c_size_t(len(t))]\n"
            "n=f(*a,b,ctypes.c_size_t(1<<24))\nsys.stdout.buffer.write((b'OK\\n'+b.raw[:n]) if n>=0 else (b'ERR\\n'+(b.raw[:-1000-n] if n<=-1000 else b'panicked')))")
    env = {**engines.BASE_ENV, "CARGO_CRATE_NAME": name, **(env or {})}
    env = {k: v for k, v in env.items() if v is not None}
    p = subprocess.run([sys.executable, "-c", code, so, call] + [str(a) for a in args], env=env, cwd=cwd, capture_output=True, timeout=120)
    if p.returncode != 0 or not p.stdout.startswith((b"OK\n", b"ERR\n")):
        return None, f"generation died (status {p.returncode}): " + p.stderr.decode("utf-8", "replace")[-800:]
    if p.stdout.startswith(b"OK\n"):
        return p.stdout[3:].decode("utf-8", "replace"), None
    return None, "generation failed: " + p.stdout[4:].decode("utf-8", "replace") + " " + p.stderr.decode("utf-8", "replace")[-800:]


def libname(name, k):
    """A name for the library, in one of the ways cargo gives it: -> name, environment"""
    n = [name, f"the_{name}_lib", f"the_{name}", f"a_{name}_x_1"][k % 4]
    return n, [{"CARGO_CRATE_NAME": n}, {"CARGO_CRATE_NAME": None, "CARGO_PKG_NAME": n.replace("_", "-")}, {"CARGO_CRATE_NAME": n, "CARGO_PKG_NAME": "another-one"}][k % 3]


def headers(so, lang, name, env=None, cwd=None):
    """Header text of a built program, or an error string, produced in a process of its own."""
    return _ask(so, "vf_headers", [lang], name, env, cwd)


def solo(so, lang, name, names):
    """(what comes before, {export: its declarations and nothing else's}) through a Definer of our own, or an error string.
    The last export is left out: what ends the file comes after it."""
    text, err = _ask(so, "vf_solo", [lang, ",".join(names)], name, None, None)
    if err:
        return None, None, err
    parts = re.split("\n\x01(\\w+)\x01\n", text)
    return parts[0], dict(zip(parts[3:-2:2], parts[4:-2:2])), None


def cc(which, args, timeout=120, cwd=None):
    p = subprocess.run(CC[which] + args, capture_output=True, timeout=timeout, cwd=cwd, env=engines.BASE_ENV)
    return p.returncode, (p.stdout + p.stderr).decode("utf-8", "replace")


def library(headers):
    """The library alone, built with or without `headers`: what rustc has to be told to compile a program against it."""
    d = stage.prepare("gen")
    tgt = os.path.join(stage.BUILD, "t-lib" + ("" if headers else "-bare"))
    stage.fresh(tgt, "hash")
    env = dict(engines.BASE_ENV, CARGO_TARGET_DIR=tgt, RUSTFLAGS="-Awarnings")
    cmd = ["cargo", "+" + engines.PIN, "build", "--lib", "--message-format=json"] + engines.vendor_cfg() + ([] if headers else ["--no-default-features"]) + ["--offline", "--locked", "-q"]
    p = subprocess.run(cmd, env=env, cwd=d, capture_output=True, text=True, timeout=800)
    found = [f for l in p.stdout.splitlines() if l.startswith("{") for m in [json.loads(l)] if m.get("reason") == "compiler-artifact" and m["target"]["name"].replace("-", "_") == "safer_ffi" for f in m["filenames"] if f.endswith(".rlib")]
    if p.returncode != 0 or not found:
        raise Inconclusive("the library does not build:\n" + (p.stderr + p.stdout)[-3000:])
    return ["rustc", "+" + engines.PIN, "--edition=2021", "-Awarnings", "--crate-type=lib", "-L", f"dependency={tgt}/debug/deps", "--extern", f"safer_ffi={found[-1]}"]
