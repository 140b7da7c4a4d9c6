"""Sanity of the sandbox: the toolchains and sources the checks build with are present."""
import subprocess, sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import stage, engines
for c in (["cargo", "+1.72.1", "--version"], ["cargo", "+nightly", "--version"], ["gcc", "--version"], ["clang", "--version"]):
    print(subprocess.check_output(c, text=True, env=engines.BASE_ENV).splitlines()[0])
stage.prepare("rt", std=True)
print("staged", stage.repo_hash()[:16])
