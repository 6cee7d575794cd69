#!/usr/bin/env python3
"""Builds and runs one check: check.py <property id> [--tier quick|thorough].

Builds what the check needs from /repo's current working tree (in /verif/_build, ignored by git),
runs the explorer, replays every violation it reports, and writes evidence/<id>.json.
Exit 0: no violation that known_findings.jsonl does not list. Exit 1: VIOLATION line on stdout.
"""
import argparse, fcntl, json, os, re, shlex, subprocess, sys, time, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("IFEM_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "_build"))
SCOPE = os.path.join(VERIF, "build", "scope")
sys.path.insert(0, VERIF)
from checks import CHECKS

FLAGS = {
    "plain": "-O1 -g1 -ftrivial-auto-var-init=pattern",
    "asan": "-O1 -g1 -ftrivial-auto-var-init=pattern -fsanitize=address -fno-omit-frame-pointer",
}
LIBS = ("-Wl,-rpath,/usr/lib/x86_64-linux-gnu/hdf5/serial /usr/lib/x86_64-linux-gnu/libopenblas.so "
        "-lm -ldl /usr/lib/x86_64-linux-gnu/libarpack.so /usr/lib/x86_64-linux-gnu/libtinyxml2.so "
        "/usr/lib/x86_64-linux-gnu/hdf5/serial/libhdf5.so /usr/lib/gcc/x86_64-linux-gnu/13/libgomp.so "
        "-lpthread /usr/lib/x86_64-linux-gnu/libsuperlu.so /usr/lib/x86_64-linux-gnu/libumfpack.so "
        "/usr/lib/x86_64-linux-gnu/libsuitesparseconfig.so -ldunecommon -lgfortran -lquadmath").split()

ENV = {k: v for k, v in os.environ.items()}
ENV.update(HOME=ENV.get("HOME", "/root"), LANG="C.UTF-8", LC_ALL="C.UTF-8", CC="gcc", CXX="g++", FC="gfortran",
           OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MALLOC_PERTURB_="165",
           ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:detect_odr_violation=0:"
                        "max_malloc_fill_size=65536:allocator_may_return_null=1:hard_rss_limit_mb=3000:"
                        "quarantine_size_mb=16:handle_abort=0:malloc_context_size=6:"
                        "alloc_dealloc_mismatch=0:new_delete_type_mismatch=0")


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def run(cmd, **kw):
    return subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


class Builder:
    def __init__(self, variant):
        self.variant = variant
        self.dir = os.path.join(BUILD, variant)
        os.makedirs(self.dir, exist_ok=True)

    def configure(self):
        if os.path.exists(self.dir + "/build.ninja") and os.path.exists(self.dir + "/compile_commands.json"):
            return
        r = run(["cmake", "-S", REPO, "-B", self.dir, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=None",
                 "-DCMAKE_EXPORT_COMPILE_COMMANDS=ON", "-DIFEM_BUILD_TESTING=OFF", "-DIFEM_USE_NATIVE=OFF",
                 "-DIFEM_INSTALL_DOXY=OFF", "-DIFEM_USE_PETSC=OFF", f"-DGoTools_DIR={SCOPE}/find",
                 f"-DGoTrivariate_DIR={SCOPE}/find", f"-DCMAKE_PROJECT_TOP_LEVEL_INCLUDES={SCOPE}/scope.cmake",
                 f"-DCMAKE_CXX_LINKER_LAUNCHER={SCOPE}/link.py",
                 f"-DCMAKE_CXX_FLAGS=-Wno-error -w -DNDEBUG {FLAGS[self.variant]}"])
        if r.returncode:
            log(r.stdout)
            raise SystemExit("configuration failed")

    def flags(self):
        with open(self.dir + "/compile_commands.json") as f:
            db = json.load(f)
        for e in db:
            if e["file"].endswith("/Apps/Utils/TimeIntUtils.C") or e["file"].endswith("/src/LinAlg/SAM.C"):
                best = e
                if "/Apps/" in e["file"]:
                    break
        args = shlex.split(best["command"])
        out, skip = [], False
        for a in args[1:]:
            if skip:
                skip = False
            elif a in ("-o", "-c"):
                skip = True
            elif not a.endswith(".C"):
                out.append(a)
        for d in ("Eig", "Utility", "SIM", "LinAlg", "ASM"):
            inc = f"-I{REPO}/src/{d}"
            if inc not in out:
                out.append(inc)
        for d in ("3rdparty/expreval", "3rdparty/autodiff", "3rdparty", "Apps/Utils"):
            inc = f"-I{REPO}/{d}"
            if inc not in out:
                out.append(inc)
        return out

    def ninja(self, targets):
        return run(["ninja", "-C", self.dir] + targets)

    def targets(self):
        r = run(["ninja", "-C", self.dir, "-t", "targets", "all"])
        return set(l.split(":")[0] for l in r.stdout.splitlines() if ".o:" in l)

    @staticmethod
    def obj(src):
        if src.startswith("Apps/Utils/"):
            return "Apps/Utils/CMakeFiles/IFEMAppUtils.dir/" + src[11:] + ".o"
        return "CMakeFiles/IFEM.dir/" + src + ".o"

    def compile_harness(self, name):
        src = os.path.join(VERIF, "harness", name + ".C")
        obj = os.path.join(self.dir, "h_" + name + ".o")
        dep = obj + ".d"
        if os.path.exists(obj) and os.path.exists(dep):
            t = os.path.getmtime(obj)
            deps = re.sub(r"\\\n", " ", open(dep).read()).split(":", 1)[1].split()
            try:
                if all(os.path.getmtime(d) < t for d in deps):
                    return obj
            except OSError:
                pass
        r = run(["g++"] + self.flags() + ["-I" + VERIF + "/lib", "-MMD", "-MF", dep, "-c", src, "-o", obj], cwd=self.dir)
        if r.returncode:
            if os.path.exists(obj):
                os.remove(obj)
            log(r.stdout[-6000:])
            raise SystemExit("harness compilation failed")
        return obj

    def link(self, hobj, out, inputs, trace=None, allow=None, loose=False):
        san = ["-fsanitize=address"] if self.variant == "asan" else []
        cmd = [sys.executable, SCOPE + "/link.py", "g++"] + san + ["-fopenmp", hobj] + inputs + ["-o", out] + LIBS
        if trace:
            cmd.insert(-len(LIBS), "-Wl,-Map=" + trace)
        if loose:
            return run(cmd[2:] + ["-Wl,--warn-unresolved-symbols", "-Wl,--no-demangle"], cwd=self.dir)
        env = dict(ENV, LINK_ALLOW=allow) if allow and os.path.exists(allow) else ENV
        return subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=self.dir)

    def build(self, name, hints=True, make_hints=False, stub=False, cut=()):
        """Returns the path of the harness program, linked with objects built from the current tree."""
        with open(self.dir + "/.lock", "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            self.configure()
            exe = os.path.join(self.dir, "x_" + name)
            hfile = os.path.join(VERIF, "build", "hints", name + ".txt")
            cfile = hfile[:-3] + "cut"
            pool = ThreadPoolExecutor(2)
            fut = pool.submit(self.compile_harness, name)
            stubf = pool.submit(self.compile_harness, "ifem_stub") if stub else None
            if hints and not make_hints and os.path.exists(hfile):
                known = self.targets()
                objs = [self.obj(s) for s in open(hfile).read().split()]
                objs = [o for o in objs if o in known]
                r = self.ninja(objs) if objs else run(["true"])
                hobj = fut.result()
                if r.returncode == 0:
                    r = self.link(hobj, exe, objs + ([stubf.result()] if stub else []), allow=cfile)
                    if r.returncode == 0:
                        return exe
                else:
                    log(r.stdout[-3000:])
                log("partial link failed, building the complete library")
            r = self.ninja(["IFEM", "IFEMAppUtils"])
            if r.returncode:
                log(r.stdout[-6000:])
                raise SystemExit("library build failed")
            hobj = fut.result()
            mapf = exe + ".map"
            libs = ["lib/libIFEMAppUtils.a", "lib/libIFEM.a"]
            if make_hints and cut:
                for i, l in enumerate(libs):
                    libs[i] = l.replace("lib/", "lib/cut-")
                    shutil.copy(os.path.join(self.dir, l), os.path.join(self.dir, libs[i]))
                    for o in run(["ar", "t", libs[i]], cwd=self.dir).stdout.split():
                        if o.split(".")[0] in cut:
                            run(["ar", "d", libs[i], o], cwd=self.dir)
            r = self.link(hobj, exe, ([stubf.result()] if stub and make_hints else []) + libs, mapf,
                          loose=bool(make_hints and cut))
            if r.returncode:
                log(r.stdout[-6000:])
                raise SystemExit("link failed")
            if make_hints and cut:
                for l in libs:
                    os.remove(os.path.join(self.dir, l))
                syms = sorted(set(re.findall(r"undefined reference to `([^']+)'", r.stdout)))
                os.makedirs(os.path.dirname(cfile), exist_ok=True)
                with open(cfile, "w") as f:
                    f.write("\n".join(syms) + "\n")
                log(f"{name}: {len(syms)} symbols cut")
            if make_hints:
                m = set()
                for line in open(mapf):
                    g = re.match(r"^(lib/(?:cut-)?lib\w+\.a)\(([^)]*)\.o\)", line.strip())
                    if g:
                        m.add((g.group(1).replace("cut-", ""), g.group(2)))
                src = []
                for t in self.targets():
                    s = t[:-2]
                    if s.startswith("CMakeFiles/IFEM.dir/") and ("lib/libIFEM.a", os.path.basename(s)) in m:
                        src.append(s[len("CMakeFiles/IFEM.dir/"):])
                    p = "Apps/Utils/CMakeFiles/IFEMAppUtils.dir/"
                    if s.startswith(p) and ("lib/libIFEMAppUtils.a", os.path.basename(s)) in m:
                        src.append("Apps/Utils/" + s[len(p):])
                os.makedirs(os.path.dirname(hfile), exist_ok=True)
                with open(hfile, "w") as f:
                    f.write("\n".join(sorted(src)) + "\n")
                log(f"{name}: {len(src)} objects")
            return exe


def replay(exe, v, tier, scratch, timeout=180):
    """Runs the recorded execution again, alone; returns (reproduced, signature, log, how)."""
    for how, arg in (("--replay", v["replay"]), ("--replay-root", str(v["root"]))):
        try:
            r = subprocess.run([exe, "--tier", tier, how, arg], env=ENV, cwd=scratch, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=timeout if how == "--replay" else 3 * timeout)
            text = r.stdout.decode("utf-8", "replace")
        except subprocess.TimeoutExpired as e:
            text = (e.stdout or b"").decode("utf-8", "replace")
            if how == "--replay" and v["sig"] == "hang":
                return True, "hang", text, how
            continue
        sigs = re.findall(r"^REPLAYED-SIG (.*)$", text, re.M)
        if r.returncode == 1 and v["sig"] in sigs:
            return True, v["sig"], text, how
        if r.returncode == 1 and sigs and v["sig"] in ("crash", "hang"):
            return True, sigs[0], text, how
        if r.returncode not in (0, 1, 96, 97):
            return True, "crash", text, how
    return False, v["sig"], text, how


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--make-hints", action="store_true")
    ap.add_argument("--full", action="store_true")
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    args = ap.parse_args()
    tier = "thorough" if args.tier == "thorough" else "quick"
    pid, t0 = args.id, time.time()
    spec = CHECKS[pid]
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    scratch = os.path.join(BUILD, "scratch-%s-%d" % (pid, os.getpid()))
    os.makedirs(scratch, exist_ok=True)
    ENV["MC_SCRATCH"] = scratch
    ENV["MC_VERIF"] = VERIF
    known = []
    kf = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(kf):
        for line in open(kf):
            if line.strip():
                k = json.loads(line)
                if k["property"] == pid and k["status"] == "open":
                    known.append(k)

    total = dict(executions=0, states=0, transitions=0, roots=0)
    samples, outcomes, parts, viols, notes = [], {}, [], [], []
    capped = False
    nviol = 0
    try:
        for part in spec["parts"]:
            variant = part.get(tier + "_variant", part.get("variant", "plain"))
            b = Builder(variant)
            tb = time.time()
            exe = b.build(part["harness"], hints=not args.full, make_hints=args.make_hints,
                          stub=part.get("stub", False), cut=part.get("cut", ()))
            if args.make_hints:
                continue
            log(f"{pid}: built {part['harness']} ({variant}) in {time.time()-tb:.1f} s")
            # the program is copied, since a concurrent check may relink it
            out = os.path.join(scratch, part["harness"] + ".json")
            budget = part.get("budget", {}).get(tier, 420 if tier == "quick" else 3600)
            r = subprocess.run([exe, "--tier", tier, "--out", out, "--jobs", str(args.jobs), "--budget", str(budget)],
                               env={**ENV, **part.get("env", {})}, cwd=scratch)
            if r.returncode or not os.path.exists(out):
                raise SystemExit(f"explorer ended with {r.returncode}")
            res = json.load(open(out))
            log(f"{pid}: {part['harness']}: {res['executions']} executions, {res['states']} states, "
                f"{res['transitions']} transitions in {res['wall']} s{' (CAPPED)' if res['capped'] else ''}")
            log("   outcomes:", json.dumps(res["outcomes"])[:1500])
            for k in total:
                total[k] += res[k]
            capped |= res["capped"]
            samples += [part["harness"] + ": " + s for s in res["samples"]]
            outcomes[part["harness"]] = res["outcomes"]
            parts.append(dict(harness=part["harness"], variant=variant, rule=res["rule"], roots=res["roots"],
                              executions=res["executions"], states=res["states"], transitions=res["transitions"],
                              capped=res["capped"], wall_s=res["wall"]))
            for v in res["violations"]:
                v["count"] = res["violation_counts"].get(v["sig"], 1)
                if not v["sig"] in ("crash", "hang"):
                    k = [k for k in known if k["signature"] == v["sig"]]
                    if k:
                        k[0]["seen"] = True
                        continue
                viols.append((exe, v))
        if args.make_hints:
            return 0

        if viols and not args.full and any(p.get("stub") or p.get("cut") for p in spec["parts"]):
            # only a program linked with the complete library decides
            log(f"{pid}: violations seen, running again with the complete library")
            shutil.rmtree(scratch, ignore_errors=True)
            os.execv(sys.executable, [sys.executable, os.path.abspath(__file__), pid, "--tier", tier, "--full",
                                      "--jobs", str(args.jobs)])

        rc, n = 0, 0
        seen = set()
        for exe, v in viols[:12]:
            ok, sig, text, how = replay(exe, v, tier, scratch)
            if not ok:
                ok, sig, text, how = replay(exe, v, tier, scratch)
            if not ok:
                log(f"{pid}: violation [{v['sig']}] {v['msg']} did not reproduce on replay")
                notes.append(f"not reproduced: {v['sig']}: {v['msg']}")
                if v["sig"] == "hang":
                    continue    # slow, not hanging
                how = "not reproduced on replay"
            k = [k for k in known if k["signature"] == sig]
            if k:
                k[0]["seen"] = True
                continue
            if sig in seen and sig not in ("crash", "hang"):
                continue
            seen.add(sig)
            n += 1
            path = os.path.join(evdir, f"{pid}-violation-{n}.txt")
            with open(path, "w") as f:
                f.write(f"property {pid}\nsignature {sig}\ncount {v['count']}\nmessage {v['msg']}\n"
                        f"replay: {exe} --tier {tier} {how} "
                        f"{v['replay'] if how != '--replay-root' else v['root']}\n"
                        f"(build it first: python3 {VERIF}/check.py {pid})\n\n{text[-20000:]}\n")
            print(f"VIOLATION property={pid} replay={path}", flush=True)
            print(f"  [{sig}] {v['msg'][:600]}", flush=True)
            rc = 1
            nviol += 1
        for k in known:
            if k.get("seen"):
                print(f"KNOWN-FINDING: property={pid} {k['what']}", flush=True)

        ev = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="model_checking",
                  coverage=dict(states=total["states"], transitions=total["transitions"],
                                traces_validated_against_impl=total["executions"],
                                evaluations=total["executions"],
                                roots=total["roots"], exhaustive=not capped,
                                rule=" || ".join(p["harness"] + ": " + p["rule"] for p in parts),
                                parts=parts, outcomes=outcomes, samples=samples or ["(none)"]),
                  wall_s=round(time.time() - t0, 2), violations=nviol,
                  assumptions=spec.get("assumptions", []) + notes)
        with open(os.path.join(evdir, pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        log(f"{pid}: {'VIOLATED' if rc else 'held'} in {time.time()-t0:.1f} s")
        return rc
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit as e:
        if isinstance(e.code, str):
            log(e.code)
            sys.exit(3)
        raise
