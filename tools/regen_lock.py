"""Regenerates harness/<crate>/Cargo.lock (version 3, readable by every toolchain used) after a change of its Cargo.toml.
Starts from the versions /opt/vp pins, so that everything is found offline."""
import os, shutil, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vf"))
import engines, stage

crate = sys.argv[1]
lock = f"{stage.VERIF}/harness/{crate}/Cargo.lock"
if not os.path.exists(lock):
    shutil.copy(f"{stage.VERIF}/harness/rt/Cargo.lock", lock)
d = stage.prepare(crate)
for l in (lock, "/opt/vp/ws/Cargo.lock"):
    stage.vendor_lock(l, stage.VENDOR)
shutil.copy(lock, d + "/Cargo.lock")
r = subprocess.run(["cargo", "+" + engines.PIN, "metadata", "--offline", "--format-version", "1"] + engines.vendor_cfg(), cwd=d, env=engines.BASE_ENV, capture_output=True, text=True)
print(r.stderr[-2000:], r.returncode)
if r.returncode == 0:
    open(lock, "w").write(open(d + "/Cargo.lock").read())
