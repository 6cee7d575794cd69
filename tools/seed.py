#!/usr/bin/env python3
"""Confirms planted bugs in a scratch copy of /repo (/tmp/wt):
   seed.py NAME... [--nocheck] [--all]   for each: patch applies, builds, stable tests pass, the demo
   passes without and fails with the patch, and whether the check of its property reports it."""
import json, os, subprocess, sys, glob, shutil, time
V = "/verif"; W = "/tmp/wt"; VB = "/tmp/wtvb"
S = "/opt/vp/ifem-scope"
env = dict(os.environ, CC="gcc", CXX="g++", FC="gfortran", OMP_NUM_THREADS="2", OPENBLAS_NUM_THREADS="1")

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=kw.pop("env", env), **kw)

def sync():
    os.makedirs(W, exist_ok=True)
    r = sh(f"rsync -rlc --delete --exclude _build --exclude .git /repo/ {W}/")
    assert r.returncode == 0, r.stdout

def build():
    if not os.path.exists(W + "/_build/build.ninja"):
        r = sh(f"cmake -S {W} -B {W}/_build -G Ninja -DCMAKE_BUILD_TYPE=Release -DIFEM_BUILD_TESTING=ON -DIFEM_USE_NATIVE=OFF -DIFEM_INSTALL_DOXY=OFF -DIFEM_USE_PETSC=OFF -DGoTools_DIR={S}/find -DGoTrivariate_DIR={S}/find -DCMAKE_PROJECT_TOP_LEVEL_INCLUDES={S}/scope.cmake -DCMAKE_CXX_LINKER_LAUNCHER={S}/link.py -DCMAKE_CXX_FLAGS=-Wno-error")
        assert r.returncode == 0, r.stdout
    return sh(f"ninja -C {W}/_build")

def tests():
    sh(f"ctest --test-dir {W}/_build -j8 --timeout 300 --output-junit {W}/_build/report.xml")
    sh(f"python3 /opt/vp/results.py /tmp/wt.json junit:{W}/_build/report.xml")
    t = json.load(open("/tmp/wt.json")); b = json.load(open("/opt/vp/BASELINE.json"))
    return [x for x in b["stable"] if x not in t["passed"]]

def demo(name):
    d = "/tmp/wtdemo"
    shutil.rmtree(d, ignore_errors=True); shutil.copytree(f"{V}/seeded/{name}", d)
    for f in glob.glob(d + "/*.diff") + glob.glob(d + "/meta.json"):
        os.remove(f)
    t = time.time()
    try:
        r = sh(["bash", d + "/demo.sh"], cwd=W, timeout=300)
        rc, out = r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        rc, out = "timeout", ""
    return rc, out, time.time() - t

def check(pid, tier="quick"):
    e = dict(env, IFEM_REPO=W, VERIF_BUILD=VB, VERIF_SEED="1", VERIF_TIER=tier)
    t = time.time()
    r = sh(["python3", V + "/check.py", pid, "--tier", tier], cwd=V, env=e)
    return r.returncode, [l[:260] for l in r.stdout.splitlines() if "VIOLATION" in l or l.startswith("  [") or "KNOWN" in l], time.time() - t, r.stdout

args = [a for a in sys.argv[1:] if not a.startswith("-")]
if "--all" in sys.argv:
    args = sorted(os.path.basename(os.path.dirname(p)) for p in glob.glob(V + "/seeded/*/patch.diff"))
if "--clean" in sys.argv:
    for d in (W, VB, "/tmp/wtdemo"):
        shutil.rmtree(d, ignore_errors=True)
    sys.exit(0)
pending = {}
sync()
r = build(); assert r.returncode == 0, r.stdout[-3000:]
clean = {}
for n in args:
    clean[n] = demo(n)
for n in args:
    meta = json.load(open(f"{V}/seeded/{n}/meta.json"))
    sync()
    a = sh(f"git apply --check {V}/seeded/{n}/patch.diff", cwd="/repo")
    p = sh(f"patch -p1 --no-backup-if-mismatch < {V}/seeded/{n}/patch.diff", cwd=W)
    if a.returncode or p.returncode:
        print(f"{n}: PATCH DOES NOT APPLY\n{a.stdout}{p.stdout}"); continue
    res = []
    b = build()
    if b.returncode:
        print(f"{n}: DOES NOT BUILD\n" + b.stdout[-2500:]); sync(); continue
    t = tests() if "--notest" not in sys.argv else []
    d = demo(n)
    ok = clean[n][0] == 0 and d[0] not in (0, 2) and not t
    line = f"{n} [{meta['property']}]: demo clean={clean[n][0]} patched={d[0]} ({clean[n][2]:.0f}s) failing-tests={t}"
    if clean[n][0] != 0: line += "\n   CLEAN DEMO OUTPUT: " + clean[n][1][-800:]
    if d[0] in (0, 2): line += "\n   PATCHED DEMO OUTPUT: " + d[1][-800:]
    if "--nocheck" not in sys.argv:
        c = check(meta["property"])
        line += f"\n   check exit={c[0]} ({c[2]:.0f}s) {'CAUGHT' if c[0]==1 and c[1] else 'MISSED'} " + " | ".join(c[1][1:3])
        if c[0] not in (0, 1): line += c[3][-1500:]
    print(("OK   " if ok else "BAD  ") + line, flush=True)
sync()
