#!/usr/bin/env python3
"""Planted bugs: make(...) writes /verif/seeded/<id>; `seed.py try <id>...` runs one against /repo and undoes it."""
import json, os, shutil, subprocess, sys
V = "/verif"
def sh(*a, **k): return subprocess.run(a, capture_output=True, text=True, **k)
def make(id, prop, edits, main, needs, breaks):
    d = f"{V}/seeded/{id}"
    assert sh("git", "-C", "/repo", "status", "--porcelain").stdout == "", "dirty /repo"
    try:
        for f, old, new in edits:
            p = f"/repo/{f}"; s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old))
            open(p, "w").write(s.replace(old, new))
        diff = sh("git", "-C", "/repo", "diff").stdout
    finally:
        sh("git", "-C", "/repo", "checkout", "--", ".")
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d + "/demo/src"); os.makedirs(d + "/demo/.cargo")
    t = f"{V}/tools/demo_template"
    for f in ("Cargo.toml", ".cargo/config.toml"): shutil.copy(f"{t}/{f}", f"{d}/demo/{f}")
    shutil.copy(f"{t}/Cargo.lock", f"{d}/demo/Cargo.lock")
    shutil.copy(f"{t}/demo.sh", d + "/demo.sh"); os.chmod(d + "/demo.sh", 0o755)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo/src/main.rs", "w").write(main)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
def tail(r, n=3): return "\n".join((r.stdout + r.stderr).strip().splitlines()[-n:])
def try_(id, others=()):
    d = f"{V}/seeded/{id}"; prop = json.load(open(d + "/meta.json"))["property"]
    assert sh("git", "-C", "/repo", "status", "--porcelain").stdout == "", "dirty /repo"
    r0 = sh("bash", d + "/demo.sh", cwd="/repo")
    a = sh("git", "-C", "/repo", "apply", d + "/patch.diff")
    if a.returncode: print(id, "does not apply", a.stderr); return
    try:
        b = sh("bash", "/opt/vp/build.sh")
        t = sh("bash", "/opt/vp/test.sh", "/tmp/seed-test.json") if b.returncode == 0 else None
        failed = len(json.load(open("/tmp/seed-test.json"))["failed"]) if t else None
        sh("git", "-C", "/repo", "checkout", "--", "dochy_test", "dochy_manual", "dochy_temporal_test")
        r1 = sh("bash", d + "/demo.sh", cwd="/repo")
        print(f"{id} [{prop}] build={b.returncode} failed_tests={failed} demo: clean={r0.returncode} patched={r1.returncode}")
        if b.returncode: print(tail(b, 15))
        if r0.returncode: print("clean demo:", tail(r0, 12))
        if r1.returncode == 0 or r1.returncode == 3: print("patched demo:", tail(r1, 12))
        for p in [prop] + list(others):
            c = sh(f"{V}/check.sh", p, cwd=V)
            print("  check", p, "exit", c.returncode, tail(c, 2)[:400])
    finally:
        sh("git", "-C", "/repo", "checkout", "--", ".")
        if b.returncode == 0: sh("bash", "/opt/vp/build.sh")
if __name__ == "__main__":
    for i in sys.argv[2:]: try_(i)
