"""Seeded search: groups of cases in forked workers, minimisation, replay files, evidence."""
import argparse
import copy
import json
import os
import shutil
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
CPU_CASE = 90      # CPU seconds after which a case counts as endless
SOFT = {"quick": 420, "thorough": 3300}   # no new group starts after this
HARD = {"quick": 780, "thorough": 4200}
T0 = time.time()

sys.stdout.reconfigure(line_buffering=True)
OUT = os.fdopen(os.dup(1), "w", buffering=1)


def say(*a):
    print(*a, file=OUT, flush=True)


# ---------------------------------------------------------------- in a worker
def guard():
    from .build import Budget

    def onprof(sig, frame):
        raise Budget()

    signal.signal(signal.SIGPROF, onprof)


def run_case(case):
    """(violations, stats, error)"""
    from . import cases, run as R
    from .build import Budget, Kill

    signal.setitimer(signal.ITIMER_PROF, CPU_CASE)
    try:
        v, st = cases.execute(case)
        return v, st, None
    except Budget:
        return [["endless", "the run did not end"]], {}, None
    except (Kill, R.HarnessError, Exception):  # noqa: BLE001
        return [], {}, traceback.format_exc()
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def jdump(o):
    import numpy as np

    def d(x):
        if isinstance(x, np.integer):
            return int(x)
        if isinstance(x, np.floating):
            return float(x)
        if isinstance(x, np.bool_):
            return bool(x)
        if isinstance(x, np.ndarray):
            return x.tolist()
        raise TypeError(type(x))

    return json.dumps(o, default=d)


def norm(case):
    return json.loads(jdump(case))


def child_env():
    """a worker's own scratch, quiet output"""
    from . import run as R

    R.quiet()
    guard()
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    if not os.environ.get("VERIF_DEBUG"):
        os.dup2(dn, 2)


def group(fam, seed, i, ps, path):
    """all runs of one structure, in a process of their own"""
    child_env()
    with open(path, "w", buffering=1) as f:
        for p in ps:
            f.write(json.dumps({"start": p}) + "\n")
            t = time.time()
            try:
                case = norm(fam["make"](seed, i, p))
            except Exception:  # noqa: BLE001
                f.write(json.dumps({"p": p, "error": "generator: " + traceback.format_exc()}) + "\n")
                return
            v, st, err = run_case(case)
            f.write(jdump({"p": p, "v": v, "st": st, "error": err, "wall": time.time() - t}) + "\n")
            if v or err:
                return
        from .boot import BUILT

        f.write(json.dumps({"built": BUILT[0]}) + "\n")


def fork(fn, *a):
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.setpgid(0, 0)
            fn(*a)
        except BaseException:  # noqa: BLE001
            try:
                sys.stderr.write(traceback.format_exc())
            except Exception:  # noqa: BLE001
                pass
            code = 3
        os._exit(code)
    return pid


def killpg(pid):
    for f in (os.killpg, os.kill):
        try:
            f(pid, signal.SIGKILL)
        except OSError:
            pass


def read_group(path):
    out = []
    if os.path.exists(path):
        with open(path) as f:
            for ln in f:
                try:
                    out.append(json.loads(ln))
                except ValueError:
                    pass
    return out


# ---------------------------------------------------------------- the search
class Search:
    def __init__(self, pid, tier, seed, workers):
        from . import families

        self.pid, self.tier, self.seed, self.workers = pid, tier, seed, workers
        self.fam = families.FAM[pid]
        self.ns, self.np = self.fam[tier]
        if os.environ.get("VERIF_CASES"):
            self.ns, self.np = (int(v) for v in os.environ["VERIF_CASES"].split("x"))
        self.stat, self.sigs, self.orders = {}, set(), set()
        self.done = self.nontrivial = self.built = self.groups = 0
        self.violations, self.errors, self.samples = [], [], []
        self.slow = []
        self.where = {}
        self.todo, self.begun, self.cut, self.unrepeated = list(range(self.ns)), set(), [], []

    def take(self, i, path, status, killed):
        rows = read_group(path)
        started = [r["start"] for r in rows if "start" in r]
        ended = {r["p"]: r for r in rows if "p" in r}
        for r in ended.values():
            if r.get("error"):
                self.errors.append((i, r["p"], r["error"]))
                continue
            self.done += 1
            st = r["st"]
            for k, v in st.items():
                if k == "sigs":
                    self.sigs.update(v)
                elif k == "orders":
                    self.orders.update(v)
                elif k == "nontrivial":
                    self.nontrivial += bool(v)
                elif k.startswith("margin "):
                    if v > self.stat.get(k, 0):
                        self.stat[k] = v
                        self.where[k] = (i, r["p"])
                else:
                    self.stat[k] = self.stat.get(k, 0) + v
            self.slow.append((r["wall"], i, r["p"]))
            if r["v"]:
                self.violations.append((i, r["p"], r["v"]))
            elif len(self.samples) < 3 and st.get("steps"):
                self.samples.append({"structure": i, "run": r["p"], "runs": st.get("runs"), "steps": st.get("steps"),
                                     "faults": {k: v for k, v in st.items() if k.startswith("fault ")}})
        for r in rows:
            self.built += r.get("built", 0)
        self.groups += 1
        if not killed and os.WIFSIGNALED(status):
            last = [p for p in started if p not in ended]
            if last:
                self.violations.append((i, last[-1], [["crash", "the process died of signal %d" % os.WTERMSIG(status)]]))
        elif not killed and os.WEXITSTATUS(status) not in (0,):
            self.errors.append((i, started[-1:] or None, "worker exit %d" % os.WEXITSTATUS(status)))

    def run(self, scratch):
        """runs the groups that are left; stops at the first violation"""
        todo = self.todo
        live = {}
        stop = None
        while todo or live:
            now = time.time() - T0
            if now > HARD[self.tier]:
                for pid, (i, path) in live.items():
                    killpg(pid)
                self.errors.append((None, None, "hard time limit"))
                break
            if now > SOFT[self.tier]:
                todo = []
            if (self.violations or self.errors) and stop is None:
                stop = time.time()
                todo = []
            if stop is not None and time.time() - stop > 10:
                for pid, (i, path) in list(live.items()):
                    killpg(pid)
                    os.waitpid(pid, 0)
                    self.cut.append(i)
                    self.take(i, path, 0, True)
                break
            while todo and len(live) < self.workers:
                i = todo.pop(0)
                self.begun.add(i)
                path = os.path.join(scratch, "g%d.jsonl" % i)
                live[fork(group, self.fam, self.seed, i, range(self.np), path)] = (i, path)
            if live:
                pid, status = os.waitpid(-1, os.WNOHANG)
                if pid == 0:
                    time.sleep(0.02)
                    continue
                if pid in live:
                    i, path = live.pop(pid)
                    self.take(i, path, status, False)


# ---------------------------------------------------------------- minimisation and replay
def attempt(cases_, timeout, cls=None):
    """runs the cases in order in a forked process; the violation of the last one or None"""
    path = os.path.join(VERIF, ".scratch", "a%d.jsonl" % os.getpid())
    os.makedirs(os.path.dirname(path), exist_ok=True)

    def go():
        child_env()
        with open(path, "w", buffering=1) as f:
            for k, c in enumerate(cases_):
                v, st, err = run_case(c)
                if k == len(cases_) - 1:
                    f.write(jdump({"v": v, "err": err}) + "\n")

    if os.path.exists(path):
        os.unlink(path)
    pid = fork(go)
    t = time.time()
    status = None
    while time.time() - t < timeout:
        q, status = os.waitpid(pid, os.WNOHANG)
        if q:
            break
        time.sleep(0.01)
    else:
        killpg(pid)
        os.waitpid(pid, 0)
        return None
    rows = read_group(path)
    if os.path.exists(path):
        os.unlink(path)
    if os.WIFSIGNALED(status):
        v = [["crash", "the process died of signal %d" % os.WTERMSIG(status)]]
    elif rows and rows[0]["err"] is None:
        v = rows[0]["v"]
    else:
        return None
    if cls is not None:
        v = [x for x in v if x[0] == cls]
    return v or None


def shrinks(case):
    """simpler cases, most useful first"""
    kind = case["kind"]

    def scs(c):
        if "stages" in c:
            return [s["sc"] for s in c["stages"]]
        return c.get("scs") or [c["sc"]]

    def with_all(f):
        c = copy.deepcopy(case)
        for sc in scs(c):
            f(sc)
        return c

    if kind == "history" and len(case["stages"]) > 2:
        for k in range(len(case["stages"]) - 1):
            c = copy.deepcopy(case)
            gone = c["stages"].pop(k)
            c["stages"][k]["replace"] = sorted(set(c["stages"][k].get("replace", [])) | set(gone.get("replace", [])))
            yield c
    if kind == "interleave":
        n = len(case["turns"])
        for m in (0, n // 2, n - 1):
            if 0 <= m < n:
                c = copy.deepcopy(case)
                c["turns"] = c["turns"][:m]
                yield c
    for j, sc in enumerate(scs(case)):
        s = sc.get("schedule") or {}
        if s.get("default", {}).get("H", [""])[0] == "fake":
            continue
        for role in ("H", "T", "E"):
            keys = sorted([k for k, q in s.get(role, {}).items() if q[0] != "real"], key=int)
            if len(keys) > 3:
                for half in (keys[:len(keys) // 2], keys[len(keys) // 2:]):
                    c = copy.deepcopy(case)
                    for k in half:
                        scs(c)[j]["schedule"][role][k] = ["real"]
                    yield c
            for k in keys[::-1]:
                c = copy.deepcopy(case)
                scs(c)[j]["schedule"][role][k] = ["real"]
                yield c
    if (scs(case)[-1].get("schedule") or {}).get("default", {}).get("H", [""])[0] == "fake":  # stubbed solver
        H = scs(case)[-1]["schedule"]["H"]
        keys = sorted(H, key=int)
        for m in (0, len(keys) // 2, len(keys) - 1):
            if 0 <= m < len(keys):
                c = copy.deepcopy(case)
                scs(c)[-1]["schedule"]["H"] = {k: H[k] for k in keys[:m]}
                yield c
        for k in keys[::-1]:
            if H[k] != ["fake", 2]:
                c = copy.deepcopy(case)
                scs(c)[-1]["schedule"]["H"][k] = ["fake", 2]
                yield c
    one = scs(case)[-1]
    for k in ("clock", "log_level"):
        if k in one:
            yield with_all(lambda sc: sc.pop(k, None))
    if one.get("dt") and one["dt"].get("milestones"):
        for k in range(len(one["dt"]["milestones"])):
            c = copy.deepcopy(case)
            for sc in scs(c):
                if sc.get("dt") and sc["dt"].get("milestones") and k < len(sc["dt"]["milestones"]):
                    sc["dt"]["milestones"].pop(k)
            yield c
    if kind not in ("variant", "io"):
        for k in range(len(one.get("exports", []))):
            yield with_all(lambda sc: sc["exports"].pop(k) if k < len(sc.get("exports", [])) else None)
    for e in range(len(one.get("exports", []))):
        q = one["exports"][e].get("q", [])
        for k in range(len(q)):
            if len(q) > 1:
                yield with_all(lambda sc: sc["exports"][e]["q"].pop(k) if e < len(sc["exports"]) and k < len(sc["exports"][e].get("q", [])) else None)
    if kind != "history" and one["settings"]["transient"]:
        for part in ("sources", "ics", "bcs"):
            for k in range(len(one[part])):
                if one[part][k].get("kind") == "sk":
                    continue
                yield with_all(lambda sc: sc[part].pop(k) if k < len(sc[part]) else None)


def minimise(cases_, cls, limit):
    """drops what the violation does not need"""
    t0 = time.time()
    best = cases_
    if len(best) > 1 and attempt(best[-1:], 120, cls):
        best = best[-1:]
    while len(best) > 1 and time.time() - t0 < limit:
        for k in range(len(best) - 1):
            c = best[:k] + best[k + 1:]
            if attempt(c, 60, cls):
                best = c
                break
        else:
            break
    tried = 0
    again = True
    while again and time.time() - t0 < limit:
        again = False
        for c in shrinks(best[-1]):
            if time.time() - t0 > limit:
                break
            tried += 1
            if attempt(best[:-1] + [c], 40, cls):
                best = best[:-1] + [c]
                again = True
                break
    return best, tried


def report(search, scratch):
    """replay file of the first violation, reproduced in a fresh process"""
    i, p, v = sorted(search.violations, key=lambda x: (x[2][0][0] in ("endless", "crash"), x[1], x[0]))[0]
    fam, seed = search.fam, search.seed
    cases_ = [norm(fam["make"](seed, i, q)) for q in range(p + 1)]
    cls = v[0][0]
    tried = 0
    if cls not in ("endless",):
        left = HARD[search.tier] - (time.time() - T0) - 200
        try:
            cases_, tried = minimise(cases_, cls, max(5, min(60, left)))
        except Exception:  # noqa: BLE001
            say("minimisation failed:", traceback.format_exc())
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    path = os.path.join(VERIF, "replays", "%s-%d-%d-%d.json" % (search.pid, seed, i, p))
    with open(path, "w") as f:
        json.dump({"property": search.pid, "seed": seed, "structure": i, "run": p, "class": cls, "message": v[0][1],
                   "shrink_attempts": tried, "cases": cases_}, f, indent=1)
    ok = False
    for _ in range(2):
        r = subprocess.run([sys.executable, os.path.join(VERIF, "check.py"), search.pid, "--replay", path],
                           env={k: v for k, v in os.environ.items() if k != "VERIF_BOOTED"}, capture_output=True, text=True,
                           timeout=max(60, HARD[search.tier] + 100 - (time.time() - T0)))
        if r.returncode == 1:
            ok = True
            break
    return path, v, ok


def replay(pid, path):
    with open(path) as f:
        d = json.load(f)
    pid = pid or d["property"]
    v = attempt(d["cases"], 600)
    if v:
        say("%s: %s" % (v[0][0], v[0][1]))
        say("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    say("no violation")
    return 0


# ---------------------------------------------------------------- known findings
def known(pid):
    """(lines, violations) of the listed findings of this property"""
    from . import findings

    path = os.path.join(VERIF, "known-findings.json")
    with open(path) as f:
        items = [x for x in json.load(f)["known"] if x["property"] == pid]
    lines = []
    for x in items:
        out = os.path.join(VERIF, ".scratch", "k%d" % os.getpid())
        os.makedirs(os.path.dirname(out), exist_ok=True)

        def go():
            child_env()
            with open(out, "w") as f:
                f.write(json.dumps(findings.PROBES[x["probe"]]()))

        p = fork(go)
        _, status = os.waitpid(p, 0)
        if status == 0 and json.load(open(out)):
            lines.append("KNOWN-FINDING: property=%s %s" % (pid, x["what"]))
        if os.path.exists(out):
            os.unlink(out)
    return lines


# ---------------------------------------------------------------- main
def evidence(s, viol):
    wall = time.time() - T0
    faults = {k[6:]: v for k, v in sorted(s.stat.items()) if k.startswith("fault ")}
    reach = {k[6:]: v for k, v in sorted(s.stat.items()) if k.startswith("reach ")}
    margin = {k[7:]: float("%.2g" % v) for k, v in sorted(s.stat.items()) if k.startswith("margin ")}
    other = {k: v for k, v in sorted(s.stat.items()) if not k.startswith(("fault ", "reach ", "margin ")) and k not in ("runs", "steps", "solves", "simtime")}
    runs = s.stat.get("runs", 0)
    e = {
        "property": s.pid, "tier": s.tier, "seed": s.seed, "level": "exploration",
        "coverage": {
            "evaluations": s.done,
            "distinct_nontrivial": min(s.nontrivial, max(len(s.sigs), s.groups)),
            "rule": "a case is a scenario (model, stepsize control, exports) with a schedule of solver results, faults and interleavings, "
                    "all drawn from the seed; non-trivial: at least one step was accepted; distinct: counted by distinct sequences of "
                    "(solver, decision, iterations, outcome) or distinct structures, whichever is larger",
            "samples": s.samples or [{"structure": None}],
            "structures": s.groups, "structures_planned": s.ns, "cases_planned": s.ns * s.np,
            "simulated_runs": runs, "runs_per_hour": round(runs / max(wall, 1e-9) * 3600), "seeds_per_hour": round(s.done / max(wall, 1e-9) * 3600),
            "accepted_steps": s.stat.get("steps", 0), "solver_calls": s.stat.get("solves", 0), "simulated_seconds": float("%.9g" % s.stat.get("simtime", 0.0)),
            "faults_injected": faults, "conditions_reached": reach, "largest_deviation_over_tolerance": margin, "other_counts": other,
            "distinct_solver_histories": len(s.sigs), "distinct_interleavings": len(s.orders),
            "forms_compiled": s.built, "not_repeatable": s.unrepeated,
            "real_components": ["festim (all of it, from /repo)", "dolfin assembly, linear and Newton solvers (unless the schedule says 'fake')", "HDF5/XDMF/text files in a scratch directory"],
            "stubbed_components": ["outcome of the Newton solver where the schedule decides it", "fenics.Timer (simulated clock)", "file operations at injected faults"],
        },
        "assumptions": ["the reference model in sim/ref.py states the documented equations", "one process; MPI is not simulated"],
        "wall_s": round(wall, 1), "violations": viol,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", ".%s.%d" % (s.pid, os.getpid()))
    with open(tmp, "w") as f:
        json.dump(e, f, indent=1)
    os.replace(tmp, os.path.join(VERIF, "evidence", s.pid + ".json"))


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--workers", type=int, default=int(os.environ.get("VERIF_WORKERS", "0")) or min(8, os.cpu_count() or 1))
    ap.add_argument("--case", help="i,p: one case with its violations")
    ap.add_argument("--exec", dest="execute", help="scenario file: runs it, history to --out")
    ap.add_argument("--out")
    ap.add_argument("--setup", action="store_true")
    a = ap.parse_args(argv)
    tier = "thorough" if a.tier == "thorough" else "quick"
    from . import boot, cases, families  # noqa: F401
    from . import faults  # noqa: F401

    if a.execute:
        child_env()
        cases.execute_one(a.execute, a.out)
        return 0
    boot.prepare()
    if a.setup:
        say("ready")
        return 0
    if a.replay:
        return replay(a.property, a.replay)
    if a.case:
        i, p = map(int, a.case.split(","))
        fam = families.FAM[a.property]
        os.environ["VERIF_DEBUG"] = "1"
        for q in range(p, p + 1):
            c = norm(fam["make"](a.seed, i, q))
            t = time.time()

            def go():
                child_env()
                v, st, err = run_case(c)
                say(v, {k: x for k, x in st.items() if k != "sigs"}, err)

            os.waitpid(fork(go), 0)
            say("%.1fs" % (time.time() - t))
        return 0
    base = os.path.join(VERIF, ".scratch")
    os.makedirs(base, exist_ok=True)
    scratch = os.path.join(base, "s%d" % os.getpid())
    os.makedirs(scratch)
    os.environ["VERIF_SCRATCH"] = scratch
    from . import run as R

    R.SCRATCH = scratch
    s = Search(a.property, tier, a.seed, a.workers)
    try:
        lines = known(a.property)
        code = 0
        while True:
            s.run(scratch)
            if not s.violations:
                break
            path, v, ok = report(s, scratch)
            say("%s: %s" % (v[0][0], v[0][1]))
            if ok:
                say("VIOLATION property=%s replay=%s" % (a.property, path))
                code = 1
                break
            # what its own seed does not repeat is not a result: the structure is run again, and counted
            say("not reproduced by %s" % path)
            s.unrepeated.append("%s: %s" % (v[0][0], v[0][1]))
            if len(s.unrepeated) > 2:
                code = 2
                break
            again = sorted({x[0] for x in s.violations} | set(s.cut))
            s.todo = again + [i for i in range(s.ns) if i not in s.begun]
            s.violations, s.cut = [], []
        if s.errors and code == 0:
            code = 2
        for x in s.errors[:3]:
            say("ERROR of the check: structure %s run %s: %s" % (x[0], x[1], str(x[2])[-1500:]))
        if code == 0:
            for ln in lines:
                say(ln)
        evidence(s, len(s.violations))
        say("%s %s: %d cases, %d simulated runs, %d steps, %d violations, %.0f s" % (
            a.property, tier, s.done, s.stat.get("runs", 0), s.stat.get("steps", 0), len(s.violations), time.time() - T0))
        if os.environ.get("VERIF_DEBUG"):
            say("slowest", ["%.1f %d,%d" % x for x in sorted(s.slow)[::-1][:4]], "built", s.built)
            say({k[7:]: (float("%.2g" % v), s.where[k]) for k, v in sorted(s.stat.items()) if k.startswith("margin ") and v > 0.02})
        return code
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
        tmp = os.environ["TMPDIR"]
        for d in os.listdir(tmp):  # left empty by dijitso
            try:
                os.rmdir(os.path.join(tmp, d))
            except OSError:
                pass
