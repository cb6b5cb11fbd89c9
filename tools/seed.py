#!/usr/bin/env python3
"""Confirm planted changes: seed.py [--check] ID...   (development aid; no check uses it)

For each /verif/seeded/ID: in a scratch copy of /repo, the demo has to pass, and
with the patch the tree has to build, pass the baseline tests, and fail the demo.
With --check, the property's quick check is run against a scratch copy with
the patch applied."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, cwd, t=900):
    p = subprocess.run(c, cwd=cwd, shell=True, capture_output=True, text=True, errors="replace", timeout=t)
    return p.returncode, p.stdout + p.stderr
def confirm(i):
    d = f"{V}/seeded/{i}"; w = f"/tmp/seedcopy/{i}"
    shutil.rmtree(w, ignore_errors=True); os.makedirs("/tmp/seedcopy", exist_ok=True)
    sh(f"cp -a /repo {w}", "/")
    dd = f"/tmp/seedcopy/{i}.demo"; shutil.rmtree(dd, ignore_errors=True)
    shutil.copytree(d, dd, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    try:
        rc, o = sh(f"bash {dd}/demo.sh", w)
        if rc: return "demo fails on the clean tree: " + o[-800:]
        rc, o = sh(f"git apply {d}/patch.diff", w)
        if rc: return "does not apply: " + o
        rc, o = sh("go build ./... && go vet ./internal/kernel >/dev/null 2>&1; go build ./...", w)
        if rc: return "does not build: " + o[-800:]
        rc, o = sh("go test ./... 2>&1 | grep -v '^ok\\|no test files' | grep -E '^(FAIL|---|panic)' | head", w)
        if o.strip(): return "tests: " + o
        rc, o = sh(f"bash {dd}/demo.sh", w)
        if rc == 0: return "demo passes with the patch"
        return "ok"
    finally:
        shutil.rmtree(w, ignore_errors=True); shutil.rmtree(dd, ignore_errors=True)
def check(i, prop=None):
    d = f"{V}/seeded/{i}"; prop = prop or json.load(open(d + "/meta.json"))["property"]
    w = f"/tmp/seedcopy/{i}.check"; shutil.rmtree(w, ignore_errors=True); os.makedirs("/tmp/seedcopy", exist_ok=True)
    sh(f"cp -a /repo {w} && cd {w} && git checkout -q . && git apply {d}/patch.diff", "/")
    b = f"/tmp/seedcopy/engine{os.getpid()}"
    if not os.path.exists(b): sh(f"GOFLAGS=-mod=mod go build -o {b} .", V + "/engine")
    try:
        rc, o = sh(f"GOGC=300 {b} check -verif {V} -repo {w} -property {prop}", V)
        l = [x for x in o.splitlines() if x.startswith("VIOLATION")]
        return f"exit {rc} " + (l[0] if l else o[-300:]) + " " + o.splitlines()[-1][-12:]
    finally:
        shutil.rmtree(w, ignore_errors=True)
if __name__ == "__main__":
    a = sys.argv[1:]; c = "--check" in a; only = "--only" in a
    ids = [x for x in a if not x.startswith("-")] or sorted(os.listdir(V + "/seeded"))
    for i in ids:
        r = "-" if only else confirm(i)
        print(i, r, check(i) if c and r in ("ok", "-") else "", flush=True)
