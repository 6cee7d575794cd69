#!/usr/bin/env python3
"""Creates planted bugs from python specs on stdin: S(name, prop, needs, breaks, edits, demo[, extra])
with edits = [(file, old, new)], each old text occurring exactly once in /repo's HEAD."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def S(name, prop, needs, breaks, edits, demo, extra=""):
    d = f"{V}/seeded/{name}"
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp()
    for side in "ab":
        for f, _, _ in edits:
            os.makedirs(os.path.dirname(f"{t}/{side}/{f}"), exist_ok=True)
            with open(f"{t}/{side}/{f}", "wb") as o:
                o.write(subprocess.run(["git", "-C", "/repo", "show", "HEAD:" + f], stdout=subprocess.PIPE, check=True).stdout)
    for f, old, new in edits:
        p = f"{t}/b/{f}"
        s = open(p, encoding="utf-8", errors="surrogateescape", newline="").read()
        assert s.count(old) == 1, (name, f, s.count(old), old)
        open(p, "w", encoding="utf-8", errors="surrogateescape", newline="").write(s.replace(old, new))
    r = subprocess.run(["diff", "-ru", "a", "b"], cwd=t, stdout=subprocess.PIPE)
    out = b"".join(l + b"\n" for l in r.stdout.split(b"\n")[:-1] if not l.startswith(b"diff -ru"))
    open(d + "/patch.diff", "wb").write(out)
    shutil.rmtree(t)
    with open(d + "/demo.C", "w") as f:
        f.write(demo.lstrip("\n"))
    shutil.copy(V + "/tools/link.py", d + "/link.py")
    s = open(V + "/tools/demo_tmpl.sh").read()
    if extra:
        s = s.replace("$EXTRA", extra)
    open(d + "/demo.sh", "w").write(s.replace(" $EXTRA", "") if not extra else s)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
    r = subprocess.run(["git", "-C", "/repo", "apply", "--check", d + "/patch.diff"], stderr=subprocess.PIPE, text=True)
    print(name, "ok" if r.returncode == 0 else r.stderr)

exec(sys.stdin.read())
