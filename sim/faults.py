"""Faults of the file system and of the process: failing writes (C16), kill and restart (C15)."""
import errno
import json
import os
import signal

from . import boot, cases, fn, oracles as O, outputs as X, run as R, shim
from .boot import WORLD
from .cases import Stat, diff_arr, diff_hist, keep_all, same_text

TEXT = (".csv", ".txt")


def texts(w):
    """contents of all text exports under the directory"""
    out = {}
    for d, _, fs in os.walk(w):
        for f in fs:
            if f.endswith(TEXT):
                p = os.path.join(d, f)
                out[os.path.relpath(p, w)] = X.read_file(p)
    return out


class Traced:
    """A fault-free run with the file operations counted and the text files kept at every step."""

    def __init__(self, sc, suffixes=()):
        self.snaps, self.marks = [], []
        sh = shim.get()

        def on_accept(rn, rec):
            self.snaps.append(texts(rn.work))
            self.marks.append(sh.count())

        def keep(w, rn):
            self.ops = [(op, os.path.relpath(p, w)) for op, p in sh.log()]
            sh.disarm()
            self.snaps.append(texts(w))
            if rn.reader is not None:
                rn.h.data = X.collect(sc, w, rn.sim)

        with R.work_dir() as w:
            rn = R.Runner(sc, w, on_accept=on_accept)
            sh.arm(w, suffixes)
            try:
                self.h = rn.go()
                keep(w, rn)
            finally:
                sh.disarm()

    def after(self, m):
        """text files once the exports of m steps are complete"""
        return self.snaps[m] if m < len(self.snaps) else self.snaps[-1]

    def step_of(self, k):
        """number of accepted steps when operation k happens"""
        return sum(1 for c in self.marks if c <= k)


def differs(a, b, skip=()):
    for f in sorted((set(a) | set(b)) - set(skip)):
        if not same_text(a.get(f), b.get(f), 1e-9):
            return f
    return None


# ---------------------------------------------------------------- kind: io (C16)
NAMES = {"enospc": errno.ENOSPC, "eacces": errno.EACCES, "eio": errno.EIO, "erofs": errno.EROFS, "edquot": errno.EDQUOT, "emfile": errno.EMFILE}
MODES = {"error": shim.ERROR, "torn": shim.SHORT_THEN_ERROR, "short": shim.SHORT, "eintr": shim.EINTR}


def named(e, err):
    """the exception or one it was raised from names the failure"""
    seen = 0
    while e is not None and seen < 10:
        if isinstance(e, OSError) and e.errno == err:
            return True
        if os.strerror(err).lower() in str(e).lower():
            return True
        e = e.__cause__ or e.__context__
        seen += 1
    return False


def k_io(case, st):
    sc = case["sc"]
    suff = TEXT + ("mkdir",)
    ref = Traced(sc, suff)
    st.hist(ref.h)
    if ref.h.outcome[0] == "budget":
        return [("endless", str(ref.h.outcome))]
    if case.get("none"):  # without any export the solution is the same
        bare = dict(sc, exports=[])
        if sc["dt"]:
            ts = [t for e in sc["exports"] if e["kind"] == "txt" for t in e.get("times") or []]
            if ts:
                bare["dt"] = dict(sc["dt"], milestones=list(sc["dt"]["milestones"] or []) + ts, plain=False)
        g = st.hist(R.simulate(bare))
        d = diff_hist(ref.h, g, tol=1e-9, data=False)
        if d:
            return [("exports-change-" + d[0], "with and without exports: " + d[1])]
    if not ref.ops:
        st.add("reach no file operation")
        return []
    for q in case["faults"]:
        v = one_io(case, sc, ref, q, suff, st)
        if v:
            return v
    return []


def one_io(case, sc, ref, q, suff, st):
    sh = shim.get()
    k = min(int(q["frac"] * len(ref.ops)), len(ref.ops) - 1)
    op, path = ref.ops[k]
    if q["mode"] in ("torn", "short") and op != "write":
        ks = [j for j, o in enumerate(ref.ops) if o[0] == "write"]
        if not ks:
            return []
        k = ks[min(int(q["frac"] * len(ks)), len(ks) - 1)]
        op, path = ref.ops[k]
    if q["mode"] == "eintr" and op in ("close", "mkdir"):
        return []
    err = NAMES[q["errno"]]
    with R.work_dir() as w:
        rn = R.Runner(sc, w)
        sh.arm(w, suff, k, MODES[q["mode"]], err)
        try:
            h = rn.go()
            fired, log = sh.fired(), sh.log()
        finally:
            sh.disarm()
        st.hist(h)
        if rn.reader is not None:
            h.data = X.collect(sc, w, rn.sim)
        files = texts(w)
    if not fired:
        return [("not-repeatable", "operation %d (%s %s) did not happen again" % (k, op, path))]
    st.add("fault %s at %s" % (q["mode"] if q["mode"] in ("short", "eintr") else "%s %s" % (q["mode"], q["errno"]), op))
    where = "%s on %s of %s (operation %d, step %d)" % (q["mode"] + (" " + q["errno"] if q["mode"] in ("error", "torn") else ""), op, path, k, ref.step_of(k))
    n = ref.step_of(k)
    if q["mode"] in ("short", "eintr"):
        d = diff_hist(h, ref.h, tol=1e-9)
        if d is None:
            f = differs(files, ref.after(10 ** 9))
            d = f and ("file", "%s differs" % f)
        return [("benign-fault-" + d[0], "%s: %s" % (where, d[1]))] if d else []
    if h.outcome[0] != "error":
        return [("write-failure-ignored", "%s: the run ended with %s" % (where, h.outcome[0]))]
    if not named(getattr(h, "exc", None), err):
        return [("write-failure-not-named", "%s: %s: %s" % (where, h.outcome[1], h.outcome[2]))]
    if len(h.accepts) > len(ref.h.accepts) or len(h.accepts) != n:
        return [("write-failure-late", "%s: the run went on to step %d" % (where, len(h.accepts)))]
    # the other files
    old, new = ref.after(n - 1) if n else {}, ref.after(n)
    for f in sorted(set(files) | set(old)):
        if f == path:
            continue
        if not any(same_text(files.get(f), s.get(f), 1e-9) for s in (old, new)):
            return [("other-file", "%s: %s holds %r, it should hold %r or %r" % (where, f, str(files.get(f))[:80], str(old.get(f))[:80], str(new.get(f))[:80]))]
    # what is in memory
    cut = R.Hist()
    cut.outcome, cut.accepts = h.outcome, ref.h.accepts[:n]
    d = diff_hist(h, cut, tol=1e-9, data=False)
    if d:
        return [("state-" + d[0], "%s: %s" % (where, d[1]))]
    for e in sc["exports"]:
        if e["kind"] != "dq":
            continue
        a, b = h.data[e["file"]], ref.h.data[e["file"]]
        nc = e.get("compute") or 1
        due = [sum(1 for j in range(x) if j % nc == 0) for x in (max(n - 1, 0), n)]
        m = len(a["t"])
        if m not in due or any(len(x) != m for x in a["qd"] + a["qt"]) or len(a["data"]) not in (m + 1, 0 if m == 0 else m + 1):
            return [("records", "%s: %s holds %d records, %s due" % (where, e["file"], m, due))]
        bad = diff_arr(a["t"], b["t"][:m], 1e-12)
        for u, v in zip(a["qd"], b["qd"]):
            bad = bad or diff_arr(u, v[:m], 1e-9)
        if bad:
            return [("records", "%s: records of %s are %s" % (where, e["file"], bad))]
    return []


# ---------------------------------------------------------------- kind: crash (C15)
def due_records(e, times, tf, m):
    """records of an XDMF export after m steps"""
    if e["mode"] == "last":
        return sum(1 for t in times[:m] if O.close(t, tf))
    return sum(1 for j in range(m) if j % e["mode"] == 0)


class Doomed(R.Runner):
    """A run in a process of its own that reports its steps and dies on request."""

    side = None
    die_solve = die_accept = None
    seen = 0

    def on_solve(self, solver, problem, x, real):
        if self.die_solve is not None and self.seen == self.die_solve:
            os.kill(os.getpid(), signal.SIGKILL)
        self.seen += 1
        return super().on_solve(solver, problem, x, real)


def doomed(sc, w, side, kill, ref):
    """runs in a forked process; (accepted steps, exit status, hit path or None, in the middle of a step's exports)"""
    hit = None
    pid = os.fork()
    if pid == 0:
        try:
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.alarm(150)
            fd = os.open(side, os.O_WRONLY | os.O_CREAT | os.O_APPEND)

            def on_accept(rn, rec):
                os.write(fd, b"%r\n" % rec["t"] if False else ("%r\n" % rec["t"]).encode())
                if kill["at"] == "accept" and len(rn.h.accepts) == kill["n"]:
                    os.kill(os.getpid(), signal.SIGKILL)

            rn = Doomed(sc, w, on_accept=on_accept, states=False)
            if kill["at"] == "solve":
                rn.die_solve = kill["n"]
            sh = shim.get()
            if kill["at"] == "op":
                sh.arm(w, (), kill["n"], kill["how"])
            rn.go()
        except BaseException:  # noqa: BLE001
            os._exit(7)
        os._exit(0)
    _, status = os.waitpid(pid, 0)
    n = 0
    if os.path.exists(side):
        with open(side) as f:
            n = len(f.read().split())
    if kill["at"] == "op":
        hit = ref.ops[kill["n"]][1]
    return n, status, hit


def stem(p):
    return p[:-3] if p.endswith(".h5") else p[:-5] if p.endswith(".xdmf") else p


def k_crash(case, st):
    sc = case["sc"]
    ref = Traced(sc)
    st.hist(ref.h)
    if ref.h.outcome[0] != "ok":
        v = list(O.o_outcome(O.Ctx(sc, ref.h), ref.h))
        return [tuple(v[0])] if v else []
    for q in case["kills"]:
        kill = {"at": q["at"]}
        if q["at"] == "solve":
            kill["n"] = int(q["frac"] * len(ref.h.solves))
        elif q["at"] == "accept":
            kill["n"] = 1 + int(q["frac"] * len(ref.h.accepts))
        else:
            first = [k for k in range(len(ref.ops)) if ref.step_of(k) >= 1]
            if not first:
                continue
            kill["n"] = first[min(int(q["frac"] * len(first)), len(first) - 1)]
            kill["how"] = {"before": shim.KILL_BEFORE, "after": shim.KILL_AFTER, "torn": shim.TORN_KILL}[q["how"]]
        v = one_crash(sc, ref, kill, q, st, case)
        if v:
            return v
    return []


def one_crash(sc, ref, kill, q, st, case):
    times, tf = ref.h.times, sc["settings"]["final_time"]
    with R.work_dir() as w, R.work_dir() as s:
        n, status, hit = doomed(sc, w, os.path.join(s, "steps"), kill, ref)
        where = "killed at %s %d%s after %d accepted steps" % (kill["at"], kill["n"], " (%s %s)" % (q.get("how"), hit) if hit else "", n)
        if not (os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGKILL):
            return [("not-repeatable", "%s: exit status %s instead of the kill" % (where, status))]
        st.add("fault kill at " + kill["at"] + (" " + q["how"] if hit else ""))
        st.add("runs")
        st.add("steps", n)
        lo = n if kill["at"] == "solve" else max(n - 1, 0)
        skip = {hit} if hit else set()
        files = texts(w)
        for f in sorted(set(files) | set(ref.after(lo))):
            if f in skip:
                continue
            if not any(same_text(files.get(f), ref.after(m).get(f), 1e-9) for m in (lo, n)):
                return [("text-record-lost", "%s: %s holds %r instead of %r" % (where, f, str(files.get(f))[-120:], str(ref.after(lo).get(f))[-120:]))]
        count = {}
        mesh = X.dolfin_mesh_of(sc, ref)
        for e in sc["exports"]:
            if e["kind"] != "xdmf" or (hit and stem(hit) == stem(e["file"])):
                continue
            path = os.path.join(w, e["file"])
            got = X.xdmf_times(path) or []
            a, b = due_records(e, times, tf, lo), due_records(e, times, tf, n)
            want = ref.h.data[e["file"]]["times"] or []
            if not a <= len(got) <= b or diff_arr(got, want[:len(got)], 1e-6):
                return [("record-lost", "%s: %s lists the times %s, complete were %s" % (where, e["file"], got, want[:a]))]
            try:
                fields = X.read_checkpoints(sc, e, path, mesh, len(got)) if got else []
            except (RuntimeError, ValueError, MemoryError, OverflowError) as x:
                return [("record-unreadable", "%s: %s: %s" % (where, e["file"], X.reason(x)))]
            for j, (u, v) in enumerate(zip(fields, ref.h.data[e["file"]]["fields"])):
                d = diff_arr(u, v, 1e-9)
                if d:
                    return [("record-wrong", "%s: %s: record %d is %s" % (where, e["file"], j, d))]
            count[e["file"]] = len(got)
            st.add("reach records read back after a kill", len(got))
        return restart(sc, ref, w, count, where, st, case)


def restart(sc, ref, w, count, where, st, case):
    """the trajectory continued from the last complete checkpoint"""
    if not case.get("restart"):
        return []
    need = [e for e in sc["exports"] if e.get("ckpt")]
    if any(e["file"] not in count for e in need):
        st.add("reach checkpoint was being written")
        return []
    j = min(count[e["file"]] for e in need)
    if j == 0:
        st.add("reach killed before the first checkpoint")
        return []
    times = ref.h.times
    mode = need[0]["mode"]
    m = (j - 1) * mode + 1  # step of the checkpoint
    tc = times[m - 1]
    rest = [t - tc for t in times[m:]]
    if not rest or any(b - a < 1e-4 * b for a, b in zip([0.0] + rest, rest)):
        return []
    s = {k: v for k, v in sc.items() if k not in ("exports", "schedule", "dt", "ics")}
    for k in ("bcs", "sources", "traps"):
        frozen = sc["temp"]["kind"] == "heat" and not sc["temp"]["transient"]  # solved once, with the inputs of time zero
        s[k] = [x if frozen and x.get("field") == "T" else fn.shift_all(x, tc) for x in sc[k]]
    tp = dict(sc["temp"])
    if tp["kind"] == "fn":
        tp["f"] = fn.shift(tp["f"], tc)
    s["ics"], s["exports"], s["mesh"] = [], [], dict(sc["mesh"])
    for e in need:
        path = os.path.join(w, e["file"])
        if e["field"] == "T":
            tp.update(file=path, label=X.label_of(e, sc), time_step=j - 1)
        else:
            s["ics"].append({"field": 0 if e["field"] == "solute" else int(e["field"]), "file": path, "label": X.label_of(e, sc), "time_step": j - 1})
    s["temp"] = tp
    s["settings"] = dict(sc["settings"], final_time=times[-1] - tc)
    s = cases.twin_of(s, rest)
    s["budget"] = 400
    h = st.hist(R.simulate(s))
    where += ", restarted at t=%.9g (step %d)" % (tc, m)
    if h.outcome[0] != "ok":
        return [("restart-error", "%s: %s" % (where, h.outcome))]
    if len(h.times) != len(rest):
        st.add("reach restart not comparable")
        return []
    st.add("reach restart compared")
    for n, (x, y) in enumerate(zip(h.accepts, ref.h.accepts[m:])):
        for k in ("T", "mob"):
            d = diff_arr(x["st"][k], y["st"][k], case.get("tol", 1e-6))
            if d:
                return [("restart-trajectory", "%s: %s after %d further steps is %s" % (where, k, n + 1, d))]
        for i, (u, v) in enumerate(zip(x["st"]["traps"], y["st"]["traps"])):
            d = diff_arr(u, v, case.get("tol", 1e-6))
            if d:
                return [("restart-trajectory", "%s: trap %d after %d further steps is %s" % (where, i + 1, n + 1, d))]
    return []


cases.KINDS["io"] = k_io
cases.KINDS["crash"] = k_crash
