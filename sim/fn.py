"""Input functions of space and time, as data: to festim (float or sympy) and to numpy."""
import numpy as np
import sympy as sp

X, Y, T = sp.symbols("x[0] x[1] t")


def const(v):
    return {"k": "c", "v": float(v)}


def to_festim(f):
    k = f["k"]
    if k == "c":
        return 0 if f["v"] == 0 else float(f["v"])
    if k == "lin":
        e = f["a"] + f["b"] * X + f["c"] * T + f["d"] * X * T
    elif k == "tlin":
        e = f["a"] + f["c"] * T
    elif k == "xlin":
        e = f["a"] + f["b"] * X
    elif k == "quad":
        e = f["a"] + f["b"] * X + f["e"] * X**2 + f["c"] * T + f["d"] * X * T
    elif k == "step":
        return sp.Piecewise((f["a"], T < f["t0"]), (f["b"], True))
    elif k == "osc":
        e = f["a"] + f["b"] * sp.sin(f["w"] * T + f["ph"]) if f.get("ph") else f["a"] + f["b"] * sp.sin(f["w"] * T)
    elif k == "gauss":  # festim.ImplantationFlux builds it
        raise ValueError
    else:
        raise ValueError(k)
    if "y" in f:
        e = e + f["y"] * Y
    return e


def ev(f, x, t):
    """Value at points x (..., dim) and time t."""
    x = np.asarray(x, dtype=float)
    x0 = x[..., 0]
    k = f["k"]
    if "y" in f:
        return ev({q: v for q, v in f.items() if q != "y"}, x, t) + f["y"] * x[..., 1]
    if k == "c":
        return np.full(x0.shape, float(f["v"]))
    if k == "lin":
        return f["a"] + f["b"] * x0 + f["c"] * t + f["d"] * x0 * t
    if k == "tlin":
        return np.full(x0.shape, f["a"] + f["c"] * t)
    if k == "xlin":
        return f["a"] + f["b"] * x0
    if k == "quad":
        return f["a"] + f["b"] * x0 + f["e"] * x0**2 + f["c"] * t + f["d"] * x0 * t
    if k == "step":
        return np.full(x0.shape, f["a"] if t < f["t0"] else f["b"])
    if k == "osc":
        return np.full(x0.shape, f["a"] + f["b"] * np.sin(f["w"] * t + f.get("ph", 0.0)))
    if k == "gauss":
        fl = ev(f["flux"], x, t)
        return fl / (f["w"] * (2 * np.pi) ** 0.5) * np.exp(-0.5 * ((x0 - f["d"]) / f["w"]) ** 2)
    raise ValueError(k)


def time_dependent(f):
    if f["k"] == "gauss":
        return time_dependent(f["flux"])
    return f["k"] in ("lin", "tlin", "quad", "step", "osc")


def uniform(f):
    return f["k"] in ("c", "tlin", "step", "osc")


def breakpoints(f):
    if f["k"] == "gauss":
        return breakpoints(f["flux"])
    return [f["t0"]] if f["k"] == "step" else []


def shift(f, tc):
    """the function of the time counted from tc"""
    f = dict(f)
    k = f["k"]
    if k in ("lin", "quad"):
        f["a"], f["b"] = f["a"] + f["c"] * tc, f["b"] + f["d"] * tc
    elif k == "tlin":
        f["a"] = f["a"] + f["c"] * tc
    elif k == "step":
        f["t0"] = f["t0"] - tc
    elif k == "osc":
        f["ph"] = f.get("ph", 0.0) + f["w"] * tc
    elif k == "gauss":
        f["flux"] = shift(f["flux"], tc)
    return f


def shift_all(o, tc):
    """shifts every input function in a piece of scenario data"""
    if isinstance(o, dict):
        if "k" in o and isinstance(o["k"], str):
            return shift(o, tc)
        return {k: shift_all(v, tc) for k, v in o.items()}
    if isinstance(o, list):
        return [shift_all(v, tc) for v in o]
    return o


class Draw:
    """Random input functions; scale ~ typical size of the value."""

    def __init__(self, rng, tmax, xmax=1.0):
        self.r, self.tmax, self.xmax = rng, tmax, xmax

    def u(self, a, b):
        return float(self.r.uniform(a, b))

    def make(self, kind, scale):
        u = self.u
        s = scale
        if kind == "c":
            return const(s * u(0.5, 1.5))
        if kind == "lin":
            return {"k": "lin", "a": s * u(0.5, 1), "b": s * u(0.1, 0.5) / self.xmax,
                    "c": s * u(0.3, 1.5) / self.tmax, "d": s * u(0.1, 0.5) / self.xmax / self.tmax}
        if kind == "tlin":
            return {"k": "tlin", "a": s * u(0.4, 1), "c": s * u(0.4, 2.0) / self.tmax}
        if kind == "xlin":
            return {"k": "xlin", "a": s * u(0.4, 1), "b": s * u(0.2, 0.8) / self.xmax}
        if kind == "quad":
            return {"k": "quad", "a": s * u(0.5, 1), "b": s * u(0.1, 0.5) / self.xmax,
                    "e": s * u(0.1, 0.5) / self.xmax**2, "c": s * u(0.3, 1.5) / self.tmax,
                    "d": s * u(0.1, 0.5) / self.xmax / self.tmax}
        if kind == "step":
            return {"k": "step", "a": s * u(0.3, 0.8), "b": s * u(1.0, 2.0), "t0": u(0.2, 0.8) * self.tmax}
        if kind == "osc":
            return {"k": "osc", "a": s * u(0.8, 1.2), "b": s * u(0.3, 0.7), "w": u(2, 9) / self.tmax}
        raise ValueError(kind)
