"""Spectra at arbitrary points are direct Fourier sums."""

from math import pi

import numpy as np
from hypothesis import strategies as st

from vlib import fourier, gen, query
from vlib.build import field_obj
from vlib.core import Sub, expect, observing, rng, same, same_coords
from vlib.model import Ax, Field, apply, req_axis_data, req_string, values_of
from vlib.props import C09

RULE = (
    "field with time and/or angle axes (uniform or not, any position) asked for its spectrum at given frequencies / wavenumbers (on the natural grid, off it, mixed, "
    "beyond it), alone or with the full natural spectrum of the other axis; spectrum given at arbitrary frequencies / wavenumbers asked at given instants / angles; "
    "non-trivial: at least two points off the natural grid or a non-uniform axis"
)
OTHERS = ("whole", "idx", "idxs", "range", "interval")


@st.composite
def points(draw, grid, span, mode, minlen):
    """Points on the grid, between its points, or beyond it (up to span)."""
    m = draw(st.integers(minlen, 6))
    step = float(grid[1] - grid[0]) if len(grid) > 1 else span / 4
    out = []
    for k in range(m):
        if mode == "on" or mode == "mixed" and k % 2:
            out.append(float(grid[draw(st.integers(0, len(grid) - 1))]))
        else:
            base = draw(st.integers(0, int(round(span / step))))
            neg = grid[0] < 0 and draw(st.booleans())
            v = (base + draw(st.sampled_from([0.25, 0.4, 0.5, 0.7]))) * step
            out.append(float(-v if neg else v))
    return out


@st.composite
def forward(draw):
    f = draw(fourier.fourier_field(psym=0.0, starts=(0.0, 0.0, 0.0, 1.0, -0.5), maxfull=500, sizes=st.integers(2, 10), dtypes=("real", "int", "complex")))
    is_real = f["dtype"] != "complex"
    reqs = []
    four = [a["name"] for a in f["axes"] if a["name"] in ("time", "angle")]
    asked = False
    for a in f["axes"]:
        if a["name"] not in four:
            a["sym"] = None
            reqs.append(draw(st.one_of(st.none(), query.request(a, OTHERS), query.request(a, OTHERS))))
            continue
        kind = draw(st.sampled_from(["axis_data", "axis_data", "list"]))
        minlen = 2 if kind == "axis_data" else 3
        irregular = draw(st.integers(0, 3)) == 0
        if irregular:
            inc = draw(st.lists(st.integers(1, 9), min_size=a["n"] - 1, max_size=a["n"] - 1))
            if len(set(inc)) > 1:
                dx = a["dx"] if a["name"] == "time" else 2 * pi / (sum(inc) + 4)
                xs = [a["x0"]]
                for i in inc:
                    xs.append(xs[-1] + i * dx / (4 if a["name"] == "time" else 1))
                a.update(kind="d1", xs=xs)
        if a.get("xs") is not None:
            grid = np.arange(4.0) if a["name"] == "angle" else np.arange(4.0) / (a["xs"][-1] - a["xs"][0])
            how = draw(st.sampled_from(["on", "off", "mixed"]))
            if draw(st.booleans()):
                grid = np.r_[-grid[:0:-1], grid]
            v = draw(points(grid, float(grid[-1]) * 2, how, minlen))
        else:
            how = draw(st.sampled_from(["fft", "on", "off", "off", "mixed"]))
            if a["name"] == four[-1] and not asked and how == "fft":
                how = "off"
            grid, _ = fourier.fourier_axis(Ax(a), is_real)
            if a["name"] == "angle" and draw(st.booleans()):
                grid = grid[grid >= 0]
            if how == "fft":
                reqs.append({"k": "whole", "ft": True})
                continue
            v = draw(points(grid, float(np.abs(grid).max()) * 2 + 1, how, minlen))
        asked = True
        reqs.append({"k": kind, "v": v, "ft": True, "how": how})
    return {"field": f, "reqs": reqs}


def run_forward(case, note):
    f = Field(case["field"])
    A = f.full
    out, nt, shifted = [], False, False
    has_freqs = any(r and r.get("ft") and ax.name == "time" for ax, r in zip(f.axes, case["reqs"]))
    for i, (ax, r) in enumerate(zip(f.axes, case["reqs"])):
        if r is None:
            A = np.take(A, [0], axis=i)
        elif not r.get("ft"):
            x, A = apply(ax, A, i, r)
            out.append((ax.name, x, query.axis_scale(ax)))
    for i, (ax, r) in enumerate(zip(f.axes, case["reqs"])):
        if r is None or not r.get("ft"):
            continue
        if r["k"] == "whole":
            v, cycles = fourier.fourier_axis(ax, f.is_real)
        else:
            v = np.array(r["v"])
            nt = nt or r["how"] != "on" or ax.spec.get("xs") is not None
        w = 2 * pi if ax.name == "time" else 1.0
        E = np.exp(-1j * w * np.outer(v, ax.full - ax.full[0])) / ax.N
        A = np.moveaxis(np.tensordot(E, A, axes=((1,), (i,))), 0, i)
        shifted = shifted or ax.full[0] != 0
        if f.is_real and (ax.name == "time" or not has_freqs) and v.min() >= 0:
            shp = [1] * A.ndim
            shp[i] = -1
            A = A * np.where(v != 0, 2.0, 1.0).reshape(shp)
        out.append((fourier.PARTNER[ax.name], v, float(np.abs(v).max()) + 1e-12))
        note("%s/%s/%s/%s" % (ax.name, r.get("how", "fft"), "uneven" if ax.spec.get("xs") is not None else "even", "real" if f.is_real else "complex"))
    args, data = C09.args_of(case)
    with observing("building the field"):
        obj = field_obj(case["field"])
    res = query.ask(obj, args, data)
    what = "(%s)" % ", ".join(args)
    with observing("answer " + what):
        got = np.asarray(res[f.symbol])
        axes = {name: res[name] for name, x, s in out}
    for name, x, s in out:
        same_coords(axes[name], x, "axis %s %s" % (name, what), scale=s)
    want = np.squeeze(A)
    if shifted:  # phases refer to the first sample or to the origin
        got, want = np.abs(got), np.abs(want)
    same(got, want, "spectrum %s" % what, rtol=1e-8, scale=float(np.abs(f.full).max()))
    return nt


@st.composite
def inverse(draw):
    both = draw(st.sampled_from([("freqs",), ("wavenumber",), ("freqs", "wavenumber")]))
    dtype = draw(st.sampled_from(["real", "complex"]))  # of the signal
    pool = [("freqs", "Hz"), ("wavenumber", "dimless"), ("z", "m"), ("radius", "m"), ("loadcase", "")]
    n = max(len(both), draw(st.integers(1, 3)))
    f = draw(gen.field(naxes=(n, n), need=both, psym=0.0, pcomp=0.1, axkinds=("d1",), names=[p for p in pool if p[0] in both or p[1] not in ("Hz", "dimless")], maxfull=400, dtypes=("complex",), cls="DataFreq", sizes=st.integers(2, 8)))
    case = {"field": f, "reqs": [], "is_real": dtype == "real"}
    for a in f["axes"]:
        if a["name"] not in both:
            case["reqs"].append(draw(st.one_of(st.none(), query.request(a, OTHERS), query.request(a, OTHERS))))
            continue
        how = draw(st.sampled_from(["natural", "uneven", "uneven", "shifted"]))
        n = a["n"]
        if a["name"] == "freqs":
            step = draw(st.sampled_from([1.0, 10.0, 50.0, 0.5]))
            if how == "natural":
                k = np.arange(n) if dtype == "real" else np.arange(n) - n // 2
                xs = k * step
            elif how == "shifted":
                xs = (np.arange(n) + draw(st.sampled_from([0.5, 1.0, 2.0]))) * step
            else:
                xs = np.cumsum(draw(st.lists(st.integers(1, 5), min_size=n, max_size=n))) * step - draw(st.sampled_from([0.0, 1.0])) * step
                if dtype == "complex":
                    xs = xs - 3 * step
            period = 1 / step
        else:
            if how == "natural":
                xs = np.arange(n) - n // 2
            elif how == "shifted":
                xs = np.arange(n) + draw(st.integers(1, 3))
            else:
                xs = np.cumsum(draw(st.lists(st.integers(1, 4), min_size=n, max_size=n))) - draw(st.integers(0, 6))
            period = 2 * pi
        a.update(kind="d1", xs=[float(x) for x in xs], how=how)
        m = draw(st.integers(2, 7))
        p = draw(st.sampled_from(["uneven", "uneven", "even", "even", "even0"]))
        if p == "uneven":
            v = np.cumsum(draw(st.lists(st.integers(1, 9), min_size=m, max_size=m))) / 40.0 * period
            if draw(st.booleans()):
                v = v[::-1]
        elif p == "even":
            v = (np.arange(m) + 1) / draw(st.sampled_from([m + 1.0, 2.0 * m, m + 3.0])) * period
        else:
            v = np.arange(m) / draw(st.sampled_from([m * 1.0, 2.0 * m, m + 1.0, 2.0 * (n - 1)])) * period
        case["reqs"].append({"k": "axis_data", "v": [float(x) for x in v], "ft": True, "how": p})
    return case


BACK = {"freqs": "time", "wavenumber": "angle"}


def run_inverse(case, note):
    f = Field(case["field"])
    X = np.array(f.stored)
    for i, ax in enumerate(f.axes):
        if case["is_real"] and ax.name == "freqs" and ax.full[0] == 0 and np.allclose(np.diff(ax.full), ax.full[1]):
            # a stored line at half the sampling frequency has twice its amplitude
            sl = [slice(None)] * X.ndim
            sl[i] = -1
            X[tuple(sl)] = 0
    A = X
    out, nt = [], False
    for i, (ax, r) in enumerate(zip(f.axes, case["reqs"])):
        if r is None:
            A = np.take(A, [0], axis=i)
        elif not r.get("ft"):
            x, A = apply(ax, A, i, r)
            out.append((ax.name, x, query.axis_scale(ax)))
        else:
            v = np.array(r["v"])
            w = 2 * pi if ax.name == "freqs" else 1.0
            E = np.exp(1j * w * np.outer(v, ax.full))
            A = np.moveaxis(np.tensordot(E, A, axes=((1,), (i,))), 0, i)
            out.append((BACK[ax.name], v, float(np.abs(v).max()) + 1e-12))
            nt = nt or ax.spec["how"] != "natural" or r["how"] == "uneven"
            note("%s/%s/%s" % (ax.name, ax.spec["how"], r["how"]))
    if case["is_real"]:
        A = A.real
    args, data = [], {}
    for ax, r in zip(f.axes, case["reqs"]):
        if r is not None:
            name = BACK[ax.name] if r.get("ft") else ax.name
            args.append(req_string(name, r))
            data.update(req_axis_data(name, r))
    with observing("building the spectrum"):
        obj = field_obj(case["field"], values=X)
        obj.is_real = case["is_real"]
    res = query.ask(obj, args, data)
    what = "(%s)" % ", ".join(args)
    with observing("answer " + what):
        got = res[f.symbol]
        axes = {name: res[name] for name, x, s in out}
    for name, x, s in out:
        same_coords(axes[name], x, "axis %s %s" % (name, what), scale=s)
    same(got, np.squeeze(A), "signal %s" % what, rtol=1e-8, scale=float(np.abs(X).sum()) + 1.0)
    return nt


SUBS = [
    Sub("forward", forward(), run_forward, 5000),
    Sub("inverse", inverse(), run_inverse, 5000),
]
