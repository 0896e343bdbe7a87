"""Process set-up: environment, JIT cache, seams.  Import this first.

Nothing of festim is replaced.  What is replaced, before festim is imported, is what festim
calls at the edge of the simulated world:

* ``fenics.NewtonSolver`` -> SimSolver: the real solver, whose outcome the schedule may change;
* ``fenics.Timer``        -> SimTimer: a simulated clock;
* dolfin's Form/Expression constructors: numeric literals become run-time parameters, so that a
  form compiled once serves every scenario of the same structure (pure speed, same values).
"""
import os
import re
import sys
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")

warnings.simplefilter("ignore")
for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS"):
    os.environ[k] = "1"
os.environ.setdefault("OMPI_ALLOW_RUN_AS_ROOT", "1")
os.environ.setdefault("OMPI_ALLOW_RUN_AS_ROOT_CONFIRM", "1")
os.environ.setdefault("OMPI_MCA_btl_vader_single_copy_mechanism", "none")
CACHE = os.environ["DIJITSO_CACHE_DIR"] = os.environ.get("VERIF_CACHE") or os.path.join(VERIF, ".cache", "dijitso")
# dijitso renames its files into the cache: same file system
os.environ["TMPDIR"] = os.path.join(os.path.dirname(CACHE), "tmp")
os.makedirs(os.environ["TMPDIR"], exist_ok=True)
sys.dont_write_bytecode = True
if sys.path[0] != REPO:
    sys.path.insert(0, REPO)

import numpy as np  # noqa: E402
import dolfin  # noqa: E402
import fenics  # noqa: E402
import ufl_legacy as ufl  # noqa: E402
from ufl_legacy.algorithms.map_integrands import map_integrand_dags  # noqa: E402
from ufl_legacy.constantvalue import FloatValue  # noqa: E402
from ufl_legacy.corealg.multifunction import MultiFunction  # noqa: E402

warnings.simplefilter("ignore")
dolfin.set_log_level(50)
import logging  # noqa: E402

for _n in ("FFC", "UFL", "UFL_LEGACY", "dijitso", "ufl_legacy"):
    logging.getLogger(_n).setLevel(logging.CRITICAL)


# ---------------------------------------------------------------- quick C++ compilation of forms
import dijitso.build as _db  # noqa: E402

_status_output = _db.get_status_output
BUILT = [0]
_HEADERS = {"expr": "#include <dolfin/function/Expression.h>\n#include <dolfin/math/basic.h>\n#include <Eigen/Dense>\n",
            "form": "#include <ufc.h>\n#include <algorithm>\n#include <cmath>\n#include <iostream>\n#include <stdexcept>\n"}


def _pch(kind, flags):
    """precompiled header, made once per cache"""
    d = os.path.join(CACHE, "pch")
    h = os.path.join(d, kind + ".h")
    if os.path.exists(h + ".gch"):
        return h
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, "%s.%d" % (kind, os.getpid()))
    with open(tmp + ".h", "w") as f:
        f.write(_HEADERS[kind])
    st, _ = _status_output(["c++", "-x", "c++-header"] + flags + [tmp + ".h", "-o", tmp + ".gch"])
    if st != 0:
        return None
    os.replace(tmp + ".h", h)
    os.replace(tmp + ".gch", h + ".gch")
    return h


def _quick_compile(cmd, *a, **k):
    """The same translation unit without optimisation and with a precompiled header."""
    BUILT[0] += 1
    try:
        flags = ["-fPIC", "-std=c++11", "-O0", "-w"] + [c for c in cmd if c.startswith("-I") and "dijitso" not in c and not c.startswith("-I" + CACHE)]
        src = [c for c in cmd if c.endswith(".cpp")][0]
        kind = "expr" if "dolfin_" in os.path.basename(src) else "form"
        h = _pch(kind, flags)
        libs = [c for c in cmd if c.startswith(("-L" + CACHE, "-Wl,-rpath", "-ldolfin", "-ldijitso", "-lffc"))]
        own = ["-I" + os.path.join(CACHE, "include")]
        out = [c for c in cmd if c.startswith("-o")]
        st, txt = _status_output(["c++", "-shared"] + flags + (["-include", h] if h else []) + own + [src] + libs + out, *a, **k)
        if st == 0:
            return st, txt
    except Exception:  # noqa: BLE001
        pass
    return _status_output(cmd, *a, **k)


_db.get_status_output = _quick_compile

# dijitso's own "lock-free" moves race when several workers build the same form into one cache:
# one build at a time per form, and plain atomic renames
import fcntl  # noqa: E402
import dijitso.system as _ds  # noqa: E402

_build_shared_library = _db.build_shared_library
_dj = sys.modules["dijitso.jit"]
_last = []


def _one_build(signature, header, source, dependencies, params):
    d = os.path.join(CACHE, "locks")
    os.makedirs(d, exist_ok=True)
    fd = os.open(os.path.join(d, signature), os.O_CREAT | os.O_RDWR, 0o644)
    try:
        fcntl.flock(fd, fcntl.LOCK_EX)
        lib = _db.create_lib_filename(signature, params["cache"])
        if os.path.exists(lib):
            return 0, "", lib, None
        del _last[:]
        out = _build_shared_library(signature, header, source, dependencies, params)
        for a, b in _last:
            os.replace(a, b)
        return out
    finally:
        os.close(fd)


def _move(src, dst):
    if dst.endswith(".so"):
        _last.append((src, dst))  # what others look for becomes visible last
    else:
        os.replace(src, dst)


_db.build_shared_library = _dj.build_shared_library = _one_build
_db.lockfree_move_file = _ds.lockfree_move_file = _move


def prepare():
    """Precompiled headers, once, before the workers start."""
    try:
        for kind in ("form", "expr"):
            if os.path.exists(os.path.join(CACHE, "pch", kind + ".h.gch")):
                continue
            pid = os.fork()
            if pid == 0:
                try:
                    dn = os.open(os.devnull, os.O_WRONLY)
                    os.dup2(dn, 1)
                    os.dup2(dn, 2)
                    m = dolfin.UnitIntervalMesh(1)
                    V = dolfin.FunctionSpace(m, "CG", 1)
                    dolfin.interpolate(dolfin.Expression("x[0]", degree=1), V)
                finally:
                    os._exit(0)
            os.waitpid(pid, 0)
            break
    except Exception:  # noqa: BLE001
        pass


# ---------------------------------------------------------------- literal lifting
class _Lift(MultiFunction):
    """Replaces float literals (except exponents) by Constants."""

    def __init__(self, pool):
        MultiFunction.__init__(self)
        self.pool = pool

    expr = MultiFunction.reuse_if_untouched

    def float_value(self, o):
        v = float(o)
        return self.pool(v)

    def power(self, o, base, exponent):
        b0, e0 = o.ufl_operands
        if isinstance(e0, FloatValue):
            exponent = e0
        return o._ufl_expr_reconstruct_(base, exponent)


def _has_float(form):
    from ufl_legacy.corealg.traversal import unique_pre_traversal

    for itg in form.integrals():
        for e in unique_pre_traversal(itg.integrand()):
            if isinstance(e, FloatValue):
                return True
    return False


def lift_form(form):
    got = form._cache.get("verif_lifted")
    if got is not None:
        return got
    if not _has_float(form):
        form._cache["verif_lifted"] = form
        return form
    seen = {}

    def pool(v):
        if v not in seen:
            seen[v] = dolfin.Constant(v)
        return seen[v]

    new = map_integrand_dags(_Lift(pool), form)
    new._cache["verif_lifted"] = new
    form._cache["verif_lifted"] = new
    return new


import dolfin.fem.form as _dff  # noqa: E402

_form_init = _dff.Form.__init__


def _patched_form_init(self, form, **kwargs):
    if isinstance(form, ufl.Form):
        form = lift_form(form)
    _form_init(self, form, **kwargs)


_dff.Form.__init__ = _patched_form_init

import dolfin.function.expression as _dfe  # noqa: E402

_expr_init = _dfe.Expression.__init__
_NUM = re.compile(r"(?<![\w.\[])(\d+\.\d*(?:[eE][-+]?\d+)?|\d+[eE][-+]?\d+)(?![\w.])")


def _patched_expr_init(self, cpp_code=None, *args, **kwargs):
    if isinstance(cpp_code, str):
        vals = []

        def sub(m):
            vals.append(float(m.group(1)))
            return "vq%d" % (len(vals) - 1)

        code = _NUM.sub(sub, cpp_code)
        for i, v in enumerate(vals):
            kwargs["vq%d" % i] = v
        cpp_code = code
    _expr_init(self, cpp_code, *args, **kwargs)


_dfe.Expression.__init__ = _patched_expr_init


# ---------------------------------------------------------------- seams
class World:
    """What the current simulated run shares with the seams."""

    def __init__(self):
        self.reset()

    def reset(self):
        self.on_solve = None  # callable(solver, problem, x, real_solve) -> (nb_it, converged)
        self.clock = 0.0
        self.clock_fn = None  # callable() -> increment
        self.clock_reads = 0


WORLD = World()
_RealNewton = dolfin.NewtonSolver


class SimSolver(_RealNewton):
    """The real Newton solver behind the schedule."""

    def solve(self, problem, x):
        if WORLD.on_solve is None:
            return _RealNewton.solve(self, problem, x)
        return WORLD.on_solve(self, problem, x, lambda: _RealNewton.solve(self, problem, x))


class SimTimer:
    def __init__(self, *a):
        self.t0 = WORLD.clock

    def start(self):
        self.t0 = WORLD.clock

    resume = start

    def _tick(self):
        WORLD.clock_reads += 1
        if WORLD.clock_fn is not None:
            WORLD.clock += WORLD.clock_fn()

    def elapsed(self):
        self._tick()
        d = WORLD.clock - self.t0
        return (d, d, d)

    def stop(self):
        self._tick()
        return WORLD.clock - self.t0


for _m in (dolfin, fenics):
    _m.NewtonSolver = SimSolver
    _m.Timer = SimTimer

import festim  # noqa: E402

warnings.simplefilter("ignore")
assert os.path.realpath(festim.__file__).startswith(os.path.realpath(REPO) + os.sep), festim.__file__
