"""Prepares what the harness crates are compiled from, under /verif/build (git-ignored):

  build/stage/      a cargo package whose sources are symlinks into /repo (never a copy), with a
                    Cargo.toml derived from /repo's: the git dependency `napi` and the feature `js`
                    that needs it are unreachable offline and left out (as /opt/vp/stage.py does).
  build/vendor/     a cargo directory source made of symlinks into ~/.cargo/registry, so that every
                    installed toolchain resolves the same versions offline.
  build/h/<crate>/  the harness crates: symlinks to /verif/harness/<crate>, own Cargo.toml + lock.
"""
import glob, hashlib, json, os, re, shutil, subprocess, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.environ.get("VF_BUILD", os.path.join(VERIF, "build"))
STAGE = os.path.join(BUILD, "stage")
VENDOR = os.path.join(BUILD, "vendor")
REG = os.path.expanduser("~/.cargo/registry/")


def write(path, text):
    if os.path.islink(path):
        os.unlink(path)
    if not os.path.exists(path) or open(path).read() != text:
        with open(path, "w") as f:
            f.write(text)


def link(src, dst):
    if os.path.islink(dst):
        if os.readlink(dst) == src:
            return
        os.unlink(dst)
    elif os.path.isdir(dst):
        shutil.rmtree(dst)
    elif os.path.exists(dst):
        os.unlink(dst)
    os.symlink(src, dst)


def manifest(text):
    text = re.sub(r"(?ms)^\[dependencies\.napi\]\n.*?(?=^\[|\Z)", "", text)
    text = re.sub(r"(?ms)^js = \[.*?^\]\n", "", text)
    for table in ("workspace", "dev-dependencies", "lints.rust"):
        text = re.sub(r"(?ms)^\[%s\]\n.*?(?=^\[|\Z)" % re.escape(table), "", text)
    text = re.sub(r"(?ms)^\[\[test\]\]\n.*?(?=^\[|\Z)", "", text)
    text = re.sub(r"(?m)^exclude = .*\n", "", text)
    return text + "\n[workspace]\n"


def repo_hash():
    """Content hash of everything the library is compiled from."""
    h = hashlib.sha256()
    files = [REPO + "/Cargo.toml", REPO + "/build.rs", REPO + "/README.md"]
    for d, ds, fs in os.walk(REPO + "/src"):
        ds.sort()
        files += [os.path.join(d, f) for f in sorted(fs)]
    for f in files:
        if os.path.exists(f):
            h.update(f.encode() + b"\0")
            h.update(hashlib.sha256(open(f, "rb").read()).digest())
    return h.hexdigest()


def vendor_lock(lock, vendor):
    os.makedirs(vendor, exist_ok=True)
    blocks = open(lock).read().split("[[package]]")[1:]
    for b in blocks:
        if "source = " not in b:
            continue
        n = re.search(r'name = "(.*)"', b)[1]
        v = re.search(r'version = "(.*)"', b)[1]
        vendor_one(n, v, vendor)


def vendor_one(n, v, vendor):
    d = f"{vendor}/{n}-{v}"
    if os.path.exists(d + "/.cargo-checksum.json"):
        return
    crate = glob.glob(REG + f"cache/*/{n}-{v}.crate")
    if not crate:
        raise SystemExit(f"vf: crate {n} {v} is not in the local registry")
    src = glob.glob(REG + f"src/*/{n}-{v}")
    os.makedirs(d, exist_ok=True)
    if src:
        for e in os.listdir(src[0]):
            link(f"{src[0]}/{e}", f"{d}/{e}")
    else:
        subprocess.check_call(["tar", "xzf", crate[0], "-C", vendor])
    sha = hashlib.sha256(open(crate[0], "rb").read()).hexdigest()
    with open(d + "/.cargo-checksum.json", "w") as f:
        json.dump({"files": {}, "package": sha}, f)


def vendor_std(vendor):
    root = subprocess.check_output(["rustc", "+nightly", "--print", "sysroot"], text=True).strip()
    for d in glob.glob(root + "/lib/rustlib/src/rust/library/vendor/*"):
        dst = os.path.join(vendor, os.path.basename(d))
        if not os.path.lexists(dst):
            os.symlink(d, dst)


def stage_lib():
    os.makedirs(STAGE, exist_ok=True)
    link(REPO + "/src", STAGE + "/src")
    for f in ("README.md", "build.rs"):
        link(f"{REPO}/{f}", f"{STAGE}/{f}")
    write(STAGE + "/Cargo.toml", manifest(open(REPO + "/Cargo.toml").read()))


def stage_crate(name):
    """build/h/<name>: returns the directory to run cargo in."""
    src, dst = f"{VERIF}/harness/{name}", f"{BUILD}/h/{name}"
    os.makedirs(dst, exist_ok=True)
    for e in os.listdir(src):
        if e in ("Cargo.toml", "Cargo.lock"):
            text = open(f"{src}/{e}").read()
            if e == "Cargo.lock":
                # cargo may rewrite its working copy; start from ours only when ours changed.
                stamp = f"{dst}/.lock-input"
                if os.path.exists(stamp) and open(stamp).read() == text and os.path.exists(f"{dst}/{e}"):
                    continue
                write(stamp, text)
            write(f"{dst}/{e}", text.replace("@STAGE@", STAGE))
        elif e != "target":
            link(f"{src}/{e}", f"{dst}/{e}")
    return dst


def prepare(crate=None, std=False):
    os.makedirs(BUILD, exist_ok=True)
    with open(BUILD + "/.lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        stage_lib()
        d = None
        if crate:
            d = stage_crate(crate)
            vendor_lock(f"{VERIF}/harness/{crate}/Cargo.lock", VENDOR + "-std" if std else VENDOR)
        if std:
            # apart from the rest: cargo 1.72.1 cannot read the manifests of the newer std's dependencies
            vendor_std(VENDOR + "-std")
        return d


def fresh(target, key):
    os.makedirs(target, exist_ok=True)
    with open(target + "/.vf-lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        fresh_locked(target, key)


def fresh_locked(target, key):
    """Drop the library's artifacts from `target` when /repo's content is not what they were built from
    (cargo itself goes by mtime, which a restored or copied tree need not move forward)."""
    stamp = os.path.join(target, ".vf-" + key)
    now = repo_hash()
    if os.path.exists(stamp) and open(stamp).read() == now:
        return
    if os.path.isdir(target):
        for d, ds, fs in os.walk(target):
            for n in list(ds) + fs:
                if re.match(r"(lib)?safer[-_]ffi", n):
                    p = os.path.join(d, n)
                    shutil.rmtree(p, ignore_errors=True) if os.path.isdir(p) else os.unlink(p)
            ds[:] = [n for n in ds if not re.match(r"(lib)?safer[-_]ffi", n)]
    write(stamp, now)
