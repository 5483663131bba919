"""Driver of the solver-based checks: encode /repo's current sources, let symx
and Z3 explore a set of jobs, replay every counterexample against the native
code, validate the encoding on sample paths, write the evidence file."""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
H = VERIF + "/harness"
BUILD = VERIF + "/build"
NCPU = os.cpu_count() or 4
DEFS = ["-D_XOPEN_SOURCE=700", "-DDEBUG", '-DSEATD_VERSION="0.0"',
        '-DSEATD_DEFAULTPATH="/run/seatd.sock"', '-DSEATD_INSTALLPATH="/usr/bin/seatd"',
        '-DLIBSEAT_SYMVER=0']


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


class Fail(Exception):
    pass


class Harness:
    """name: harness file; sources: repo sources, 'file' or ('file', [extra flags]);
    hdefs: flags of the harness; rdefs: of the repo's sources; acc: call the
    harness before every memory access of the repo's sources."""
    ACC = ["-O1", "-fno-inline", "-fno-vectorize", "-fno-slp-vectorize", "-fsanitize-coverage=bb,trace-loads,trace-stores"]

    def __init__(self, name, sources, hdefs=(), rdefs=(), cflags=(), acc=False):
        self.acc = acc
        self.name, self.sources, self.hdefs, self.rdefs, self.cflags = name, sources, list(hdefs), list(rdefs), list(cflags)

    def key(self):
        return re.sub(r"\W+", "_", self.name + "_" + "_".join(self.hdefs + self.rdefs) + ("acc" if self.acc else ""))

    def _units(self):
        inc = ["-I" + REPO + "/include", "-I" + H] + self.cflags
        yield "h", H + "/" + self.name, inc + DEFS + ["-D_GNU_SOURCE"] + self.hdefs, True
        for s in self.sources:
            s, fl = s if isinstance(s, tuple) else (s, [])
            tag = s + "".join(fl)
            yield re.sub(r"\W+", "_", tag), REPO + "/" + s, inc + DEFS + ["-include", H + "/rename.h"] + self.rdefs + fl, False

    def build_bc(self, d):
        jobs = []
        os.makedirs(d, exist_ok=True)
        base = ["clang", "-std=c11", "-O0", "-Xclang", "-disable-O0-optnone", "-g", "-emit-llvm", "-c", "-w"]
        jobs.append((base + ["-fno-builtin", "-I" + H, H + "/vf_sym.c", "-o", d + "/vf_sym.bc"]))
        outs = [d + "/vf_sym.bc"]
        for tag, src, fl, ish in self._units():
            o = d + "/" + tag + ".bc"
            outs.append(o)
            jobs.append(base + fl + (["-fno-builtin"] if ish else self.ACC if self.acc else []) + [src, "-o", o])
        with ThreadPoolExecutor(NCPU) as ex:
            for r, c in zip(ex.map(run, jobs), jobs):
                if r.returncode:
                    raise Fail("cannot encode: %s\n%s" % (" ".join(c), r.stdout[-3000:]))
        r = run(["llvm-link"] + outs + ["-o", d + "/all.bc"])
        if r.returncode:
            raise Fail("llvm-link: " + r.stdout[-2000:])
        r = run(["opt", "-passes=mem2reg,simplifycfg", d + "/all.bc", "-o", d + "/out.bc"])
        if r.returncode:
            raise Fail("opt: " + r.stdout[-2000:])
        return d + "/out.bc"

    def build_native(self, d, kind=""):
        # kind: "" plain, "pattern" / "zero" fill every automatic variable and heap block first, "msan"
        msan = kind == "msan"
        d = d + "/native" + kind
        os.makedirs(d, exist_ok=True)
        san = ["-fsanitize=memory", "-fno-sanitize-recover=all"] if msan else ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=pointer-overflow,nonnull-attribute"]
        if kind in ("pattern", "zero"):
            san = san + ["-ftrivial-auto-var-init=" + kind]
        cc = "clang" if msan or self.acc else "gcc"
        base = [cc, "-std=c11", "-O1", "-g", "-w", "-c", "-fno-builtin"] + san
        jobs = [base + ["-D_GNU_SOURCE", "-I" + H, H + "/vf_native.c", "-o", d + "/vf_native.o"]]
        outs = [d + "/vf_native.o"]
        for tag, src, fl, ish in self._units():
            o = d + "/" + tag + ".o"
            outs.append(o)
            jobs.append((base if ish or not self.acc else [cc, "-std=c11", "-g", "-w", "-c"] + self.ACC) + fl + [src, "-o", o])
        with ThreadPoolExecutor(NCPU) as ex:
            for r, c in zip(ex.map(run, jobs), jobs):
                if r.returncode:
                    raise Fail("native build: %s\n%s" % (" ".join(c), r.stdout[-3000:]))
        # a call the harness does not model is an error only where it is reached
        r = run([cc] + san + outs + ["-no-pie", "-Wl,--unresolved-symbols=ignore-all", "-o", d + "/prog"])
        if r.returncode:
            raise Fail("native link: " + r.stdout[-3000:])
        return d + "/prog"


class Job:
    def __init__(self, harness, script="", strs=None, jobs=1, time=None, max_instr=20_000_000, note="", **params):
        self.h, self.params, self.strs, self.jobs, self.time, self.max_instr, self.note = harness, params, dict(strs or {}), jobs, time, max_instr, note
        if script:
            self.strs["script"] = script

    def desc(self):
        return {"harness": self.h.name, "variant": self.h.hdefs + self.h.rdefs, "params": self.params, "strings": self.strs}


def unprivileged():
    r = subprocess.run(["setpriv", "--reuid=65534", "--regid=65534", "--clear-groups", "true"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    return ["setpriv", "--reuid=65534", "--regid=65534", "--clear-groups", "--no-new-privs"] if r.returncode == 0 else []


def native_run(prog, prefix, job, nds, prop, timeout=20, d=None):
    env = {"PATH": "/usr/bin:/bin", "VF_PROP": prop,
           "VF_PARAMS": ",".join("%s=%d" % kv for kv in job.params.items()),
           "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=1:symbolize=0", "UBSAN_OPTIONS": "halt_on_error=1:exitcode=99:print_stacktrace=0",
           "MSAN_OPTIONS": "exitcode=99:symbolize=0"}
    for k, v in job.strs.items():
        env["VF_S_" + k] = v
    f = tempfile.NamedTemporaryFile("w", dir=d, suffix=".vals", delete=False)
    f.write(",".join(map(str, nds)) + "\n")
    f.close()
    os.chmod(f.name, 0o644)
    try:
        p = subprocess.run(["timeout", "-k", "2", str(timeout)] + prefix + [prog, "-", f.name], cwd="/", env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL)
        return p.returncode, p.stdout.decode("latin1"), p.stderr.decode("latin1")
    finally:
        os.unlink(f.name)


# a replay reproduces the violation
def reproduced(kind, rc, out, err):
    if kind == "hang":
        return rc in (124, 137, 42)
    if rc == 42:
        return True
    if kind == "recursion":
        return rc in (99, 139, -11) or "stack-overflow" in err
    if rc == 99 or rc in (-6, 134, -11, 139, -8, 136, -4, 132):
        return True
    return False


def merge(results):
    t = {}
    wit, errs, fns, viols, samples = {}, set(), {}, [], []
    for job, r in results:
        for k, v in r.items():
            if isinstance(v, (int, float)):
                t[k] = max(t.get(k, 0), v) if k.startswith("max") else t.get(k, 0) + v
        for k, v in r["witnesses"].items():
            wit[k] = wit.get(k, 0) + v
        errs.update(r["errors"])
        for n, f in r["functions"].items():
            e = fns.setdefault(n, {"file": f["file"], "blocks": f["blocks"], "lines": f["lines"], "covered": set(), "calls": 0})
            e["covered"].update(f["covered"])
            e["calls"] += f["calls"]
        for v in r["violations"]:
            viols.append((job, v))
        for s in r["samples"]:
            samples.append((job, s))
    return t, wit, errs, fns, viols, samples


def known_findings(prop):
    out = []
    try:
        for l in open(VERIF + "/known_findings.txt"):
            l = l.strip()
            m = re.match(r"finding: property=(\S+) where=(\S+) msg=(.*)", l)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    except OSError:
        pass
    return out


def check(prop, tier, spec):
    """spec: dict(jobs=[Job], witnesses=[labels that must be reached], bounds=str, assumptions=[str], budget=seconds)"""
    t0 = time.time()
    symx = BUILD + "/symx"
    if not os.path.exists(symx):
        r = run([VERIF + "/bin/setup"])
        if r.returncode:
            print(r.stdout)
            return 2
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    work = tempfile.mkdtemp(prefix="run-", dir=BUILD)
    os.chmod(work, 0o755)
    try:
        return _check(prop, tier, spec, t0, symx, seed, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def _check(prop, tier, spec, t0, symx, seed, work):
    jobs = spec["jobs"]
    hs = {}
    for j in jobs:
        hs.setdefault(j.h.key(), j.h)
    bcs = {}
    try:
        for k, h in hs.items():
            bcs[k] = h.build_bc(work + "/" + k)
    except Fail as e:
        print("ERROR: " + str(e))
        return 2
    natives, nlock = {}, threading.Lock()

    def native(h, kind=""):
        k = (h.key(), kind)
        with nlock:
            if k not in natives:
                natives[k] = h.build_native(work + "/" + h.key(), kind)
            return natives[k]
    budget = spec.get("budget", 120 if tier == "quick" else 3000)
    deadline = t0 + budget
    results, lock = [], threading.Lock()
    slots = threading.Semaphore(0)
    free = [NCPU]
    cv = threading.Condition()
    stop = threading.Event()
    prefix = unprivileged()
    confirmed, unconfirmed, known_hit = [], [], []
    kf = known_findings(prop)
    tried = set()
    vlock = threading.Lock()

    def handle_violations(job, r):
        for v in r["violations"]:
            top = v["stack"].split(" < ")
            key = (v["kind"], v["msg"], v["where"])
            with vlock:
                if key in tried and tried_ok.get(key, 0) >= 3:
                    continue
                tried.add(key)
                tried_ok[key] = tried_ok.get(key, 0) + 1
            prog = native(job.h)
            rc, out, err = native_run(prog, prefix, job, v["nds"], prop, d=work)
            ok = reproduced(v["kind"], rc, out, err)
            # the counterexample may rest on what uninitialised memory happens to hold
            for kind in ("pattern", "zero", "msan"):
                if ok:
                    break
                if kind == "msan" and v["kind"] not in ("uninit", "memory"):
                    continue
                try:
                    prog = native(job.h, kind)
                    rc, out, err = native_run(prog, prefix, job, v["nds"], prop, d=work)
                    ok = reproduced(v["kind"], rc, out, err)
                except Fail:
                    pass
            if not ok:
                unconfirmed.append({"violation": v, "job": job.desc(), "rc": rc, "out": out[-500:], "err": err[-500:]})
                continue
            hit = None
            for w, m in kf:
                if w in [t.split(" ")[0] for t in top] and m == v["msg"]:
                    hit = (w, m)
            if hit:
                known_hit.append(hit)
                continue
            confirmed.append((job, v, rc, out, err))
            stop.set()
    tried_ok = {}

    def one(ix):
        job = jobs[ix]
        need = min(job.jobs, NCPU)
        with cv:
            while free[0] < need:
                cv.wait()
            free[0] -= need
        try:
            if stop.is_set():
                return
            left = deadline - time.time()
            if left < 1:
                with lock:
                    skipped.append(job.desc())
                return
            tl = min(left, job.time or left)
            out = "%s/j%d" % (work, ix)
            cmd = [symx, bcs[job.h.key()], "--prop", prop, "--out", out, "--jobs", str(need), "--time", "%.1f" % tl, "--max-instr", str(job.max_instr), "--samples", "3", "--sample-every", "17"]
            for k, v in job.params.items():
                cmd += ["--param", "%s=%d" % (k, v)]
            for k, v in job.strs.items():
                cmd += ["--str", "%s=%s" % (k, v)]
            p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
            while True:
                try:
                    o, _ = p.communicate(timeout=0.5)
                    break
                except subprocess.TimeoutExpired:
                    if stop.is_set() or time.time() > deadline + 30:
                        try:
                            os.killpg(p.pid, 9)
                        except OSError:
                            pass
                        p.communicate()
                        return
            got = []
            for i in range(need):
                fn = "%s.%d" % (out, i)
                if os.path.exists(fn):
                    got.append(json.load(open(fn)))
                    os.unlink(fn)
            if p.returncode or not got:
                with lock:
                    broken.append({"job": job.desc(), "rc": p.returncode, "out": o[-1000:]})
            with lock:
                for g in got:
                    results.append((job, g))
            for g in got:
                handle_violations(job, g)
        finally:
            with cv:
                free[0] += need
                cv.notify_all()
    skipped, broken = [], []
    with ThreadPoolExecutor(NCPU + 2) as ex:
        errs = [e for e in ex.map(lambda i: _guard(one, i), range(len(jobs))) if e]
    if errs and not confirmed:
        print("ERROR: " + errs[0])
        return 2
    t, wit, serr, fns, viols, samples = merge(results)
    # the encoding, checked against the native code on sample paths
    validated, mismatch = 0, []
    import random
    rnd = random.Random(seed)
    rnd.shuffle(samples)
    nval = spec.get("validate", 24 if tier == "quick" else 100)
    if not confirmed:
        def val(js):
            job, s = js
            rc, out, err = native_run(native(job.h), prefix, job, s["nds"], prop, d=work)
            obs = [[a, int(b)] for a, b in re.findall(r"^OBS (\S+) (\d+)$", out, re.M)]
            if rc == 0 and obs == s["obs"]:
                return None
            return {"job": job.desc(), "nds": s["nds"], "symbolic": s["obs"], "native": obs, "rc": rc, "err": err[-800:]}
        pick = samples[:nval]
        try:
            with ThreadPoolExecutor(NCPU) as ex:
                for m in ex.map(val, pick):
                    if m:
                        mismatch.append(m)
                    else:
                        validated += 1
        except Fail as e:
            print("ERROR: " + str(e))
            return 2
    missing = [w for w in spec.get("witnesses", []) if not wit.get(w)]
    repo_fns = {n: f for n, f in fns.items() if f["file"].startswith(REPO) or re.match(r"^(seatd|common|libseat|seatd-launch)/", f["file"])}
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": t.get("paths", 0) + t.get("dead", 0),
            "transitions": t.get("forks", 0),
            "traces_validated_against_impl": validated,
            "samples": [{"job": j.desc(), "solver_values": s["nds"], "observed": s["obs"][:40]} for j, s in samples[:5]],
            "evaluations": t.get("asserts", 0),
            "paths_completed": t.get("paths", 0), "paths_pruned": t.get("dead", 0), "paths_unfinished": t.get("incomplete", 0),
            "jobs_run": len({id(j) for j, _ in results}), "jobs_skipped": skipped, "jobs_failed": broken,
            "instructions": t.get("instrs", 0),
            "queries": {"total": t.get("queries", 0) + t.get("cached", 0), "solver": t.get("queries", 0), "sat": t.get("sat", 0), "unsat": t.get("unsat", 0), "unknown": t.get("unknown", 0), "answered_from_cache_or_model": t.get("cached", 0)},
            "assertions_on_symbolic_values": t.get("asserts_sym", 0),
            "solver_s": round(t.get("solver_s", 0), 3),
            "exhaustive": not (t.get("incomplete", 0) or skipped or broken or serr or t.get("unknown", 0)),
            "bounds": spec.get("bounds", ""),
            "functions_encoded": {n: "%s %d/%d blocks" % (os.path.relpath(f["file"], REPO) if f["file"].startswith(REPO) else f["file"], len(f["covered"]), f["blocks"]) for n, f in sorted(repo_fns.items())},
            "lines_not_reached": {n: l for n, l in ((n, sorted({x for i, x in enumerate(f["lines"]) if x and i not in f["covered"]})) for n, f in sorted(repo_fns.items())) if l},
            "reachability_witnesses": wit, "witnesses_missing": missing,
            "encoding_mismatches": mismatch[:5], "engine_errors": sorted(serr)[:20],
            "unconfirmed_counterexamples": unconfirmed[:5],
            "explanation": spec.get("explanation", "States are symbolic paths (finished plus pruned), transitions the branch decisions put to the solver; every path stands for all input values satisfying its path condition."),
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(confirmed),
    }
    json.dump(ev, open("%s/evidence/%s.json" % (VERIF, prop), "w"), indent=1)
    for w, m in sorted(set(known_hit)):
        print("KNOWN-FINDING: property=%s %s (%s)" % (prop, m, w))
    if confirmed:
        job, v, rc, out, err = confirmed[0]
        rdir = "%s/replay/%s" % (BUILD, prop)
        os.makedirs(rdir, exist_ok=True)
        path = "%s/replay.json" % rdir
        json.dump({"property": prop, "kind": v["kind"], "message": v["msg"], "stack": v["stack"], "job": job.desc(), "values": v["nds"], "names": v["names"], "native_exit": rc, "native_stdout": out[-4000:], "native_stderr": err[-4000:],
                   "replay_cmd": "%s/bin/replay %s" % (VERIF, path)}, open(path, "w"), indent=1)
        print("%s: %s" % (v["kind"], v["msg"]))
        print("  at %s" % v["stack"])
        print("  job %s" % json.dumps(job.desc()))
        print("  values %s" % list(zip(v["names"], v["nds"])))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if mismatch:
        print("WARNING: %d sample path(s) behave differently natively; see the evidence file" % len(mismatch))
    for e in sorted(serr)[:5]:
        print("WARNING: engine: " + e)
    for b in broken[:3]:
        print("WARNING: job failed: %s" % json.dumps(b))
    for u in unconfirmed[:3]:
        print("WARNING: counterexample not reproduced natively (not reported): %s at %s" % (u["violation"]["msg"], u["violation"]["stack"]))
    if missing:
        print("WARNING: not reached: " + ", ".join(missing))
    if not t.get("paths"):
        print("ERROR: nothing was explored")
        return 2
    print("ok property=%s tier=%s paths=%d queries=%d (%d unsat) solver=%.2fs validated=%d wall=%.1fs%s" % (prop, tier, t["paths"], t["queries"] + t["cached"], t["unsat"], t["solver_s"], validated, time.time() - t0, "" if ev["coverage"]["exhaustive"] else " (bounded by time: %d paths unfinished, %d jobs skipped)" % (t.get("incomplete", 0), len(skipped))))
    return 0


def _guard(f, i):
    try:
        f(i)
    except Fail as e:
        return str(e)
    except Exception as e:  # noqa
        import traceback
        return traceback.format_exc()
    return None
