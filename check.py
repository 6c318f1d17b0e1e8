#!/usr/bin/env python3
"""Decides one property of /repo by symbolic execution of its current sources.

usage: check.py PROPERTY [--tier quick|thorough] [--job NAME] [-v]

exit 0: every job of the property explored all its paths and no assertion can fail
exit 1: a violation, reproduced natively (line "VIOLATION property=<id> replay=<path>")
exit 2: no answer (an error, a limit, or a counterexample that does not reproduce)
"""
import argparse, concurrent.futures, fcntl, glob, json, os, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
sys.path.insert(0, VERIF)
import jobs as J  # noqa: E402

CORES = os.cpu_count() or 4
VSE = os.path.join(VERIF, "build", "vse")
VERBOSE = False

BASE = ["-std=c11", "-DNDEBUG", "-DWITH_PTHREAD", "-D_GNU_SOURCE=", "-I" + VERIF + "/lib", "-I" + VERIF + "/harness", "-I" + REPO, "-w"]
FORCE = ["-include", "vp_interpose.h"]
IR = ["clang-18"] + BASE + ["-DVP_VSE", "-O1", "-Xclang", "-disable-llvm-passes", "-gline-tables-only", "-emit-llvm", "-c"]
NATIVE = {
    "plain": ["gcc"] + BASE + ["-O2", "-fPIC"],
    "asan": ["gcc"] + BASE + ["-O1", "-g", "-fsanitize=address", "-fno-omit-frame-pointer"],
    "cost": ["gcc"] + BASE + ["-O2", "-DVP_MEASURE"],
    "msan": ["clang-18"] + BASE + ["-O1", "-g", "-fsanitize=memory", "-fno-omit-frame-pointer"],
}
NATIVE_ENV = {
    "plain": {},
    "cost": {},
    "asan": {"ASAN_OPTIONS": "exitcode=66:detect_leaks=0:detect_stack_use_after_return=1:allocator_may_return_null=1:abort_on_error=0"},
    "msan": {"MSAN_OPTIONS": "exitcode=67:poison_in_malloc=1"},
}


class NoAnswer(Exception):
    pass


def log(*a):
    if VERBOSE:
        print(*a, file=sys.stderr, flush=True)


def run(cmd, timeout=300, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, **kw)


def ensure_engine():
    os.makedirs(os.path.dirname(VSE), exist_ok=True)
    with open(os.path.join(VERIF, "build", ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = run(["make", "-s", "-C", os.path.join(VERIF, "engine"), "OUT=" + os.path.join(VERIF, "build")], timeout=900)
        if r.returncode or not os.path.exists(VSE):
            raise NoAnswer("building the engine failed:\n" + r.stdout + r.stderr)


def repo_sources():
    src = sorted(glob.glob(os.path.join(REPO, "*.c")))
    if not src:
        raise NoAnswer("no sources in " + REPO)
    return src


class Build:
    """The sources of /repo, compiled once per run and per mode."""

    def __init__(self, tmp):
        self.tmp = tmp
        self.lock = threading.Lock()
        self.done = {}

    def _compile(self, cmds):
        with concurrent.futures.ThreadPoolExecutor(CORES) as ex:
            for r in ex.map(lambda c: run(c), cmds):
                if r.returncode:
                    raise NoAnswer("the sources do not compile:\n" + r.stderr[-3000:])

    def ir(self, env=()):
        key = "ir" + "".join(env)
        with self.lock:
            if key not in self.done:
                outs, cmds = [], []
                for s in repo_sources():
                    o = os.path.join(self.tmp, key + "_" + os.path.basename(s) + ".bc")
                    outs.append(o)
                    cmds.append(IR + FORCE + list(env) + [s, "-o", o])
                libc = os.path.join(self.tmp, key + "_libc.bc")
                cmds.append(IR + ["-fno-builtin", VERIF + "/lib/vp_libc.c", "-o", libc])
                self._compile(cmds)
                self.done[key] = (outs, libc)
            return self.done[key]

    def objs(self, mode, env=()):
        key = mode + "".join(env)
        with self.lock:
            if key not in self.done:
                outs, cmds = [], []
                for s in repo_sources():
                    o = os.path.join(self.tmp, key + "_" + os.path.basename(s) + ".o")
                    outs.append(o)
                    cmds.append(NATIVE[mode] + (["-fsanitize-coverage=trace-pc"] if mode == "cost" else []) + FORCE + list(env) + ["-c", s, "-o", o])
                self._compile(cmds)
                self.done[key] = outs
            return self.done[key]


def defines(job):
    return ["-D%s" % k if v is True else "-D%s=%s" % (k, v) for k, v in sorted(job["defs"].items())]


class Job:
    def __init__(self, spec, build, tmp, seed):
        self.s = spec
        self.b = build
        self.dir = os.path.join(tmp, "job_" + spec["name"])
        os.makedirs(self.dir, exist_ok=True)
        self.seed = seed
        self.bins = {}
        self.lock = threading.Lock()

    def harness(self):
        return os.path.join(VERIF, "harness", self.s["src"])

    def env_defs(self):
        return ["-DVP_OWN_" + x for x in self.s.get("own", "").split()] + (["-UNDEBUG"] if self.s.get("debug") else [])

    def native(self, mode):
        with self.lock:
            if mode in self.bins:
                return self.bins[mode]
            out = os.path.join(self.dir, "replay_" + mode)
            main = os.path.join(self.dir, "main.c")
            with open(main, "w") as f:
                f.write("void harness(void);\nint main(void) { harness(); return 3; }\n")
            d = defines(self.s)
            h, e = out + "_h.o", out + "_e.o"
            for cmd in (NATIVE[mode] + FORCE + d + self.env_defs() + ["-c", self.harness(), "-o", h],
                        NATIVE[mode] + d + self.env_defs() + ["-c", VERIF + "/lib/vp_env.c", "-o", e],
                        NATIVE[mode] + [main, h, e] + self.b.objs(mode, self.env_defs()) + ["-o", out, "-lpthread"]):
                r = run(cmd)
                if r.returncode:
                    raise NoAnswer("%s: the replay does not build: %s" % (self.s["name"], r.stderr[-2000:]))
            self.bins[mode] = out
            return out

    def replay(self, mode, inputs, timeout=20):
        """-> (kind, detail, observations); kind: end, abort, assertion, memory, hang, crash, assumption, other"""
        path = os.path.join(self.dir, "inputs_%s_%d" % (mode, threading.get_ident()))
        with open(path, "w") as f:
            f.write("\n".join(str(i) for i in inputs) + "\n")
        env = dict(os.environ, VP_INPUTS=path)
        env.update(NATIVE_ENV[mode])
        try:
            r = subprocess.run([self.native(mode)], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout,
                               preexec_fn=limits(mode))
        except subprocess.TimeoutExpired:
            return "hang", "no end after %d s" % timeout, []
        out = r.stdout.decode("latin1")
        err = r.stderr.decode("latin1")
        obs = [int(x.split()[1]) for x in out.splitlines() if x.startswith("VP-OBS ")]
        if r.returncode == 99:
            return "assertion", first(out, "VP-ASSERTION-FAILED"), obs
        if r.returncode == 66:
            return "memory", first(err, "ERROR: AddressSanitizer"), obs
        if r.returncode == 67:
            return "memory", first(err, "WARNING: MemorySanitizer"), obs
        if r.returncode == 77:
            return "assumption", first(out, "VP-ASSUMPTION"), obs
        if r.returncode < 0:
            return "crash", "signal %d" % -r.returncode, obs
        if r.returncode == 0 and "VP-END" in out:
            return "end", "", obs
        if r.returncode == 0 and "VP-ABORT" in out:
            return "abort", "", obs
        return "other", "exit code %d %s" % (r.returncode, err[-300:]), obs

    def engine(self, cmd, limit, stop):
        errf = open(os.path.join(self.dir, "stderr"), "w+")
        p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=errf, start_new_session=True)
        end = time.time() + limit
        killed = False
        while p.poll() is None:
            if stop.wait(0.05) or time.time() > end:
                killed = stop.is_set()
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                p.wait()
                break
        errf.seek(0)
        err = errf.read()
        errf.close()
        if killed:
            return None
        return subprocess.CompletedProcess(cmd, p.returncode, "", err)

    def explore(self, workers, deadline, stop):
        s = self.s
        t0 = time.time()
        repo_bc, libc = self.b.ir(self.env_defs())
        h = os.path.join(self.dir, "h.bc")
        r = run(IR + FORCE + defines(s) + self.env_defs() + [self.harness(), "-o", h])
        if r.returncode:
            if s.get("whitebox"):
                return {"name": s["name"], "status": "skipped", "why": "this harness looks inside a structure the current tree declares differently"}
            raise NoAnswer("%s: the harness does not compile against the current tree: %s" % (s["name"], r.stderr[-2000:]))
        e = os.path.join(self.dir, "e.bc")
        r = run(IR + defines(s) + self.env_defs() + [VERIF + "/lib/vp_env.c", "-o", e])
        if r.returncode:
            raise NoAnswer(r.stderr[-2000:])
        a, m = os.path.join(self.dir, "all.bc"), os.path.join(self.dir, "m.bc")
        for cmd in (["llvm-link-18"] + repo_bc + [h, e, libc, "-o", a], ["opt-18", "-passes=mem2reg,simplifycfg" + (",tailcallelim" if s.get("measure") else ""), a, "-o", m]):
            r = run(cmd)
            if r.returncode:
                raise NoAnswer("%s: %s" % (s["name"], r.stderr[-2000:]))
        out = os.path.join(self.dir, "out")
        limit = max(5, min(s.get("timeout", 400), deadline - time.time()))
        cmd = [VSE, m, "--entry", "harness", "--timeout", str(limit), "--workers", str(workers), "--seed", str(self.seed),
               "--max-steps", str(10 * s.get("max_steps", 8000000)),
               "--max-depth", "200000" if s.get("measure") else "3000", "--out", out]
        r = self.engine(cmd, limit + 60, stop)
        if r is None:
            return {"name": s["name"], "status": "stopped", "why": "another job found a violation"}
        res = {"name": s["name"], "status": "ok", "why": "", "samples": [], "functions": {}, "wall_s": 0.0, "workers": workers}
        parts = []
        for f in sorted(glob.glob(out + ".*")):
            try:
                parts.append(json.load(open(f)))
            except ValueError:
                pass
        bugs = []
        for p in parts:
            if p["status"] == "bug":
                bugs.append({"what": p["bug"], "where": p["where"], "inputs": p["inputs"]})
            elif p["status"] == "incomplete" and res["status"] == "ok":
                res["status"], res["why"] = "incomplete", p["why"]
            for k, v in p.items():
                if isinstance(v, (int, float)) and not isinstance(v, bool):
                    res[k] = max(res.get(k, 0), v) if k == "max_path_constraints" else res.get(k, 0) + v
            res["samples"] += p["samples"]
            for fn, bits in p["functions"].items():
                old = res["functions"].get(fn, "0" * len(bits))
                res["functions"][fn] = "".join("1" if x == "1" or y == "1" else "0" for x, y in zip(old, bits))
        if bugs:
            res["status"], res["bugs"] = "bug", bugs
        elif r.returncode not in (0, 2, 10) or not parts:
            res["status"], res["why"] = "incomplete", "the engine ended with code %d: %s" % (r.returncode, r.stderr[-500:])
        elif r.returncode == 2 and res["status"] == "ok":
            res["status"], res["why"] = "incomplete", r.stderr[-500:] or "a worker gave no result"
        res["wall_s"] = round(time.time() - t0, 2)
        return res


def limits(mode):
    def f():
        import resource
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if mode == "plain":
            resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
        resource.setrlimit(resource.RLIMIT_CPU, (60, 60))
    return f


def first(text, needle):
    for ln in text.splitlines():
        if needle in ln:
            return ln.strip()
    return text.strip()[:200]


REPRODUCED = ("assertion", "memory", "hang", "crash")


def confirm(job, bug):
    """Replays a counterexample against the natively compiled sources."""
    tried = []
    for mode in ("cost",) if job.s.get("measure") else ("asan", "plain", "msan"):
        kind, detail, _ = job.replay(mode, bug["inputs"])
        tried.append("%s: %s %s" % (mode, kind, detail))
        if kind in (("assertion",) if job.s.get("assert_only") else REPRODUCED):
            return mode, kind, detail, tried
    return None, None, None, tried


def main():
    global VERBOSE
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--job")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--list", action="store_true")
    a = ap.parse_args()
    VERBOSE = a.v
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    pid, tier = a.property, a.tier if a.tier in ("quick", "thorough") else "quick"
    specs = [dict(s) for s in J.jobs_for(pid, tier) if not a.job or a.job in s["name"]]
    if a.list:
        for s in specs:
            print(s["name"], s["src"], s["defs"])
        return 0
    if not specs:
        print("no jobs for", pid)
        return 2
    budget = 840 if tier == "quick" else 4 * 3600
    t0 = time.time()
    deadline = t0 + budget
    tmp = tempfile.mkdtemp(prefix="vp_%s_" % pid)
    try:
        return decide(pid, tier, seed, specs, tmp, t0, deadline)
    except NoAnswer as e:
        print("NO-ANSWER property=%s %s" % (pid, e))
        return 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def decide(pid, tier, seed, specs, tmp, t0, deadline):
    ensure_engine()
    build = Build(tmp)
    build.ir()
    objs = [Job(s, build, tmp, seed) for s in specs]
    results, errors = [], []
    slots = threading.BoundedSemaphore(CORES)
    gate = threading.Lock()
    stop = threading.Event()

    def one(job):
        w = min(CORES, job.s.get("workers", 1))
        with gate:
            for _ in range(w):
                slots.acquire()
        try:
            if stop.is_set():
                return None
            log("start", job.s["name"])
            r = job.explore(w, deadline, stop)
            log("done ", job.s["name"], r["status"], r.get("why", ""), "paths", r.get("paths"), "q", r.get("queries"), "wall", r.get("wall_s"))
            for bug in r.get("bugs", []):
                bug["replayed"] = confirm(job, bug)
                if bug["replayed"][0]:
                    stop.set()
                    break
            return r
        finally:
            for _ in range(w):
                slots.release()

    order = sorted(objs, key=lambda j: -j.s.get("workers", 1))
    with concurrent.futures.ThreadPoolExecutor(len(order)) as ex:
        futs = [(j, ex.submit(one, j)) for j in order]
        for j, f in futs:
            try:
                r = f.result()
                if r:
                    results.append((j, r))
            except NoAnswer as e:
                errors.append(str(e))
    violations, unconfirmed = [], []
    for j, r in results:
        for bug in r.get("bugs", []):
            mode, kind, detail, tried = bug.get("replayed") or (None, None, None, [])
            if mode:
                violations.append((j, bug, mode, kind, detail))
                break
            if j.s.get("soft"):
                r["status"], r["why"] = "incomplete", "%s at %s, which is outside what this job models" % (bug["what"], bug["where"])
                break
            unconfirmed.append("%s: %s at %s; %s" % (j.s["name"], bug["what"], bug["where"], "; ".join(tried)))
        if violations:
            break
    # validation of the encoding: sampled paths are run natively and must end the same way
    validated = 0
    samples = []
    if not violations:
        def val(jr):
            j, r = jr
            n, bad, shown = 0, None, []
            for sm in spread(r.get("samples", []), j.s.get("replays", 6), seed):
                kind, detail, obs = j.replay("plain", sm["inputs"])
                if kind == "hang":
                    continue  # a loaded machine
                if kind != "end" or obs != sm["observed"]:
                    bad = "%s: a path the executor completed does not replay: %s %s inputs %s observed %s, executor %s" % (
                        j.s["name"], kind, detail, sm["inputs"], obs, sm["observed"])
                    break
                n += 1
                if len(shown) < 1:
                    shown.append({"job": j.s["name"], "inputs": sm["inputs"], "observed": sm["observed"]})
            return n, bad, shown
        with concurrent.futures.ThreadPoolExecutor(CORES) as ex:
            for n, bad, shown in ex.map(val, [(j, r) for j, r in results if r["status"] in ("ok", "incomplete")]):
                validated += n
                samples += shown
                if bad:
                    errors.append(bad)
    for j, r in results:
        if r["status"] == "incomplete" and not j.s.get("soft"):
            errors.append("%s is incomplete: %s" % (j.s["name"], r["why"]))
        if r["status"] == "ok" and not r.get("completed"):
            if j.s.get("all_abort") and r.get("aborted"):
                continue
            errors.append("%s is vacuous: no path reaches its end" % j.s["name"])
    if results and not violations and not any(r["status"] == "ok" for _, r in results):
        errors.append("no job of this property was completed")
    write_evidence(pid, tier, seed, results, validated, samples, violations, errors, unconfirmed, t0)
    if violations:
        j, bug, mode, kind, detail = violations[0]
        path = write_replay(pid, j, bug, mode, kind, detail)
        print("%s: %s (%s; replayed with %s: %s)" % (j.s["name"], bug["what"], bug["where"], mode, detail or kind))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    for e in errors:
        print("NO-ANSWER property=%s %s" % (pid, e))
    for u in unconfirmed:
        print("NO-ANSWER property=%s counterexample not reproduced: %s" % (pid, u))
    if errors or unconfirmed:
        return 2
    print("OK property=%s tier=%s jobs=%d paths=%d queries=%d replayed=%d wall=%.1fs" % (
        pid, tier, len(results), sum(r.get("paths", 0) for _, r in results), sum(r.get("queries", 0) for _, r in results), validated, time.time() - t0))
    return 0


def spread(items, n, seed):
    """n of the items, spread evenly over the list (and so over the workers that found them)"""
    if len(items) <= n:
        return items
    return [items[(seed + i * len(items) // n) % len(items)] for i in range(n)]


def write_replay(pid, j, bug, mode, kind, detail):
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, pid + ".json")
    with open(path, "w") as f:
        json.dump({"property": pid, "job": j.s["name"], "harness": "harness/" + j.s["src"], "defines": j.s["defs"], "what": bug["what"],
                   "where": bug["where"], "inputs": bug["inputs"], "replay_build": " ".join(NATIVE[mode]), "outcome": kind, "detail": detail,
                   "how": "compile the harness, lib/vp_env.c and /repo/*.c with these flags and defines, run with VP_INPUTS naming a file with the inputs, one per line"}, f, indent=1)
    return path


def write_evidence(pid, tier, seed, results, validated, samples, violations, errors, unconfirmed, t0):
    fns = {}
    for _, r in results:
        for fn, bits in r.get("functions", {}).items():
            if fn.startswith(REPO + "/"):
                fn = fn[len(REPO) + 1:]
                old = fns.get(fn, "0" * len(bits))
                fns[fn] = "".join("1" if x == "1" or y == "1" else "0" for x, y in zip(old, bits))
    tot = lambda k: sum(r.get(k, 0) for _, r in results)
    cov = {
        "states": tot("paths"),
        "transitions": tot("instructions"),
        "traces_validated_against_impl": validated,
        "samples": samples[:8],
        "explanation": "states: symbolic paths explored (each stands for every input satisfying its path condition); transitions: IR instructions executed symbolically; traces_validated_against_impl: completed paths re-run in the natively compiled sources with a solver-chosen input, ending and observing the same",
        "functions_encoded": {k: "%d/%d IR instructions reached" % (v.count("1"), len(v)) for k, v in sorted(fns.items())},
        "queries": {"decided": tot("queries"), "sent_to_solver": tot("q_sat") + tot("q_unsat") + tot("q_unknown"), "sat": tot("q_sat"),
                    "unsat": tot("q_unsat"), "unknown": tot("q_unknown"), "answered_from_cache": tot("q_cached")},
        "solver_s": round(tot("solver_s"), 3),
        "assertions_checked": tot("asserts"),
        "memory_accesses_checked": tot("accesses"),
        "paths_completed": tot("completed"),
        "paths_assumed_away": tot("assumed_away"),
        "paths_ended_by_abort": tot("aborted"),
        "exhaustive": bool(results) and all(r["status"] == "ok" for _, r in results),
        "jobs": [{"name": r["name"], "status": r["status"], "why": r.get("why", ""), "bounds": j.s["bounds"], "defines": j.s["defs"],
                  "paths": r.get("paths", 0), "completed": r.get("completed", 0), "queries": r.get("queries", 0),
                  "solver_s": round(r.get("solver_s", 0), 3), "wall_s": r.get("wall_s", 0)} for j, r in results],
        "no_answer": errors + unconfirmed,
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": J.ASSUMPTIONS + J.PROPERTY_ASSUMPTIONS.get(pid, []), "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", ".%s.tmp" % pid)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(tmp, os.path.join(VERIF, "evidence", pid + ".json"))


if __name__ == "__main__":
    sys.exit(main())
