"""Reference semantics.  A field is an explicit array over explicit coordinates,
unfolded over the whole extent of its axes; requests are evaluated on it with
elementary numpy.  Nothing here imports the library under test."""

import numpy as np

from vlib.core import rng


class Ax:
    """One axis of a case: stored samples, symmetry, and the unfolded axis."""

    def __init__(self, spec):
        self.spec = spec
        self.name = spec["name"]
        self.unit = spec.get("unit", "")
        self.kind = spec["kind"]
        self.sym = spec.get("sym")  # None | ["period", p] | ["antiperiod", q]
        if self.kind == "comp":
            self.stored = np.array([str(s) for s in spec["names"]])
        elif self.kind == "pat":
            self.stored = np.array(spec["xs"], dtype=float)
        elif self.kind == "d1" and spec.get("xs") is not None:
            self.stored = np.array(spec["xs"], dtype=float)
        else:
            self.stored = spec["x0"] + spec["dx"] * np.arange(spec["n"])
        self.n = len(self.stored)
        if self.kind == "pat":
            self.map = np.array(spec["rebuild"], dtype=int)
            self.sign = np.ones(len(self.map))
            self.full = np.array(spec["whole"], dtype=float)
        else:
            rep = self.sym[1] if self.sym else 1
            self.map = np.tile(np.arange(self.n), rep)
            self.sign = np.ones(self.n * rep)
            if self.sym and self.sym[0] == "antiperiod":
                self.sign = np.repeat([(-1.0) ** k for k in range(rep)], self.n)
            if rep == 1 or self.kind == "comp":
                self.full = self.stored
            else:
                self.full = spec["x0"] + spec["dx"] * np.arange(self.n * rep)
        self.N = len(self.map)

    @property
    def is_num(self):
        return self.kind != "comp"

    @property
    def aper(self):
        return bool(self.sym) and self.sym[0] == "antiperiod"

    def one(self):
        """Number of samples in one full period."""
        if self.aper:
            return 2 * self.n
        return self.n


def values_of(spec, shape):
    """Field values as multiples of 1/8 (times a power of two), a pure function of the
    case."""
    r = rng(spec["vseed"])
    dt = spec.get("dtype", "real")
    v = r.randint(-400, 401, size=shape) / 8.0
    if dt == "complex":
        v = v + 1j * r.randint(-400, 401, size=shape) / 8.0
    elif dt == "pos":
        v = np.abs(v) + 0.125
    elif dt == "int":
        return np.round(v)
    return v * spec.get("scale", 1.0)


def unfold(stored, axes):
    full = stored
    for i, a in enumerate(axes):
        shp = [1] * full.ndim
        shp[i] = -1
        full = np.take(full, a.map, axis=i) * a.sign.reshape(shp)
    return full


class Field:
    """Model of a field: axes, stored values and unfolded values."""

    def __init__(self, spec):
        self.spec = spec
        self.axes = [Ax(a) for a in spec["axes"]]
        self.names = [a.name for a in self.axes]
        self.unit = spec.get("unit", "T")
        self.symbol = spec.get("symbol", "X")
        self.stored = values_of(spec, tuple(a.n for a in self.axes))
        self.full = unfold(self.stored, self.axes)
        self.is_real = spec.get("dtype", "real") != "complex"

    def ax(self, name):
        return self.axes[self.names.index(name)]


# ------------------------------------------------------------- requests


def req_string(name, req, unit=""):
    """The request as the user writes it."""
    k = req["k"]
    u = unit
    if k == "whole":
        return name + u
    if k == "idx":
        return "%s[%d]%s" % (name, req["i"], u)
    if k == "idxs":
        return "%s[%s]%s" % (name, ",".join(str(i) for i in req["i"]), u)
    if k == "range":
        return "%s[%d:%d]%s" % (name, req["i"], req["j"], u)
    if k == "all":
        return "%s[]%s" % (name, u)
    if k == "interval":
        return "%s=[%r,%r]%s" % (name, req["a"], req["b"], u)
    if k == "gt":
        return "%s>%r%s" % (name, req["a"], u)
    if k == "lt":
        return "%s<%r%s" % (name, req["b"], u)
    if k == "eq":
        return "%s=%r%s" % (name, req["v"], u)
    if k == "list":
        return "%s=[%s]%s" % (name, ",".join(repr(v) for v in req["v"]), u)
    if k == "axis_data":
        return "%s=axis_data%s" % (name, u)
    if k in ("oneperiod", "antiperiod", "smallestperiod", "pattern"):
        return "%s[%s]%s" % (name, k, u)
    if k == "op":
        return "%s=%s%s" % (name, req["op"], u)
    raise ValueError(k)


def req_axis_data(name, req):
    return {name: np.array(req["v"], dtype=float)} if req["k"] == "axis_data" else {}


def interp(x, A, v, axis):
    """Piecewise linear interpolation of A (coordinates x) along axis at v."""
    x = np.asarray(x, dtype=float)
    o = np.argsort(x, kind="stable")
    xs = x[o]
    B = np.take(A, o, axis=axis)
    v = np.asarray(v, dtype=float)
    hi = np.clip(np.searchsorted(xs, v, side="left"), 1, len(xs) - 1)
    lo = hi - 1
    w = (v - xs[lo]) / (xs[hi] - xs[lo])
    shp = [1] * A.ndim
    shp[axis] = -1
    w = w.reshape(shp)
    return np.take(B, lo, axis=axis) * (1 - w) + np.take(B, hi, axis=axis) * w


def apply(ax, A, axis, req, coords=None):
    """Evaluate a request on the unfolded array A along `axis`.

    Returns (coordinates, array); the axis is kept (length one when reduced to
    a single sample)."""
    k = req["k"]
    x = ax.full if coords is None else coords
    if k in ("whole", "all"):
        return x, A
    if k == "idx":
        sel = [req["i"]]
    elif k == "idxs":
        sel = list(req["i"])
    elif k == "range":
        sel = list(range(req["i"], req["j"]))
    elif k == "interval":
        sel = [i for i in range(ax.N) if req["a"] <= x[i] <= req["b"]]
    elif k == "gt":
        sel = [i for i in range(ax.N) if x[i] >= req["a"]]
    elif k == "lt":
        sel = [i for i in range(ax.N) if x[i] <= req["b"]]
    elif k == "eq" and req.get("out"):
        return np.array([req["v"]]), np.take(A, [0], axis=axis) * np.nan
    elif k == "eq":
        sel = [int(np.argmin(np.abs(x - req["v"])))]
        return np.array([req["v"]]), np.take(A, sel, axis=axis)
    elif k in ("list", "axis_data"):
        return np.array(req["v"], dtype=float), interp(x, A, req["v"], axis)
    elif k == "smallestperiod":
        sel = list(range(ax.n))
    elif k == "oneperiod":
        sel = list(range(ax.one()))
    elif k == "antiperiod":
        sel = list(range(ax.n))
    else:
        raise ValueError(k)
    return x[sel], np.take(A, sel, axis=axis)
