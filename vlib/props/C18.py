"""Integrals, antiderivatives and derivatives agree with calculus."""

from math import pi

import numpy as np
from hypothesis import strategies as st

from vlib import fourier, gen, query, units
from vlib.build import field_obj
from vlib.core import Sub, expect, observing, same, same_coords
from vlib.model import Ax, Field, apply, unfold
from vlib.props import C09

RULE = (
    "field of 1-3 axes, one of them (time, angle, z; uniform with any start, step and symmetry, or a pattern) integrated, derived or "
    "antiderived, or a frequency axis derived/antiderived, the others sliced, interpolated or whole; also the unit of the extracted "
    "field; non-trivial: the operated axis has at least 3 samples over its extent"
)
OTHERS = ("whole", "idx", "idxs", "range", "interval", "list", "axis_data", "oneperiod")
UNITS = ["", "m", "T", "N", "V", "W", "A", "Pa", "s", "Ohm", "rpm", "dimless", "N/m2", "m/s", "m/s2", "T/s", "A/m", "V/m", "W/m2", "Nm", "Wb", "J/s", "H/m", "N/m", "m2/s3"]
AXIS_UNIT = {"time": "s", "angle": "m", "z": "m", "freqs": "s"}


@st.composite
def cases(draw, ops, unit=False):
    main = draw(st.sampled_from(["time", "angle", "z"]))
    case = draw(query.query(OTHERS, pomit=0.1, naxes=(1, 3), need=(main,), maxfull=1500, ppat=0.1, dtypes=("real", "int", "complex")))
    f = case["field"]
    op = draw(st.sampled_from(ops))
    for i, a in enumerate(f["axes"]):
        if a["name"] == main:
            if draw(st.integers(0, 5)) == 0 and not unit:
                p = draw(gen.pat_axis(main, a["unit"]))
                while len(p["rebuild"]) < 3:
                    p["rebuild"].append(draw(st.integers(0, len(p["xs"]) - 1)))
                    p["whole"].append(p["whole"][-1] + 0.5)
                f["axes"][i] = a = p
            elif a.get("xs") is not None:
                a["xs"] = None
            if main == "angle" and a["kind"] != "pat" and draw(st.booleans()):
                a["dx"] = 2 * pi / gen.axis_len(a)
            case["reqs"][i] = {"k": "op", "op": op}
    if unit:
        f["unit"] = draw(st.sampled_from(UNITS))
    case["squeeze"] = draw(st.booleans())
    return case


def integral(ax, A, i):
    if ax.kind == "pat":
        return np.trapezoid(A, ax.full, axis=i) if hasattr(np, "trapezoid") else np.trapz(A, ax.full, axis=i)
    return A.sum(axis=i) * ax.spec["dx"]


def cumulated(ax, A, i):
    """Antiderivative by trapezes at every sample, of zero mean."""
    A = np.moveaxis(A, i, 0)
    if ax.kind == "pat":
        x = ax.full
    else:
        A = A[: ax.one()]
        x = ax.spec["dx"] * np.arange(len(A))
    F = np.zeros(A.shape, dtype=A.dtype if A.dtype.kind == "c" else float)
    for k in range(1, len(A)):
        F[k] = F[k - 1] + (A[k] + A[k - 1]) / 2 * (x[k] - x[k - 1])
    F = F - F.mean(axis=0)
    if ax.kind != "pat":
        F = F[: ax.n]
    return np.moveaxis(F, 0, i)


def derived(ax, A, i):
    if ax.kind == "pat":
        return np.gradient(A, ax.full, axis=i)
    D = (np.roll(A, -1, axis=i) - np.roll(A, 1, axis=i)) / (2 * ax.spec["dx"])
    return np.take(D, np.arange(ax.n), axis=i)


def evaluate(case, f):
    A = f.full
    out = []
    for i, (ax, r) in enumerate(zip(f.axes, case["reqs"])):
        if r is None:
            A = np.take(A, [0], axis=i)
        elif r["k"] != "op":
            x, A = apply(ax, A, i, r)
            out.append((ax, r, x))
    for i, (ax, r) in enumerate(zip(f.axes, case["reqs"])):
        if r is not None and r["k"] == "op":
            main = i
            if r["op"] == "integrate":
                A = np.expand_dims(integral(ax, A, i), i)
            elif r["op"] == "derivate":
                A = derived(ax, A, i)
            else:
                A = cumulated(ax, A, i)
    return out, A, main


def run(case, note):
    f = Field(case["field"])
    out, A, main = evaluate(case, f)
    ax = f.axes[main]
    op = case["reqs"][main]["op"]
    args, data = query.arguments(case)
    with observing("building the field"):
        obj = field_obj(case["field"])
    what = "(%s)" % ", ".join(args)
    x = ax.full if ax.kind == "pat" else ax.stored
    scale = np.abs(f.full).max()
    if op == "derivate":
        scale = scale / np.diff(x).min()
    else:
        scale = scale * abs(ax.full[-1] - ax.full[0] + (x[1] - x[0]))
    res = query.ask(obj, args, data, is_squeeze=case["squeeze"])
    with observing("answer " + what):
        got = res[f.symbol]
        axes = {a.name: res[a.name] for a, r in zip(f.axes, case["reqs"]) if r is not None}
    same(got, np.squeeze(A) if case["squeeze"] else A, "field " + what, rtol=1e-8, scale=scale)
    for a, r, v in out:
        same_coords(axes[a.name], v, "axis %s %s" % (a.name, what), scale=query.axis_scale(a))
    if op != "integrate":
        same_coords(axes[ax.name], x, "axis %s %s" % (ax.name, what), scale=query.axis_scale(ax))
    note("%s/%s/%s" % (op, ax.name, (ax.sym or [ax.kind])[0]))
    return ax.N >= 3


# ---------------------------------------------------------------- segments


@st.composite
def local_cases(draw):
    main = draw(st.sampled_from(["time", "angle", "z", "z"]))
    case = draw(query.query(OTHERS, pomit=0.1, naxes=(1, 3), need=(main,), maxfull=1500, ppat=0.1, psym=0.0, dtypes=("real", "int")))
    f = case["field"]
    for i, a in enumerate(f["axes"]):
        if a["name"] == main:
            if main == "z" and draw(st.booleans()):
                p = draw(gen.pat_axis(main, a["unit"]))
                while len(p["rebuild"]) < 3:
                    p["rebuild"].append(draw(st.integers(0, len(p["xs"]) - 1)))
                    p["whole"].append(p["whole"][-1] + 0.5)
                # step distributions repeat coordinates
                for k in range(1, len(p["whole"]) - 1):
                    if draw(st.integers(0, 3)) == 0:
                        p["whole"][k] = p["whole"][k - 1]
                f["axes"][i] = p
            case["reqs"][i] = {"k": "op", "op": "integrate_local"}
    return case


def run_local(case, note):
    """Integral over each segment between samples (z), or shared between the ends
    of each segment (time, angle)."""
    f = Field(case["field"])
    A = f.full
    for i, (ax, r) in enumerate(zip(f.axes, case["reqs"])):
        if r is None:
            A = np.take(A, [0], axis=i)
        elif r["k"] != "op":
            _, A = apply(ax, A, i, r)
        else:
            main = i
    ax = f.axes[main]
    x = ax.full
    B = np.moveaxis(A, main, 0)
    seg = (B[1:] + B[:-1]) / 2 * np.diff(x).reshape((-1,) + (1,) * (B.ndim - 1))
    if ax.name == "z":
        keep = np.diff(x) != 0
        W, xw = seg[keep], ((x[1:] + x[:-1]) / 2)[keep]
    else:
        W, xw = np.zeros(B.shape), x
        W[:-1] += seg / 2
        W[1:] += seg / 2
    W = np.moveaxis(W, 0, main)
    args, data = query.arguments(case)
    with observing("building the field"):
        obj = field_obj(case["field"])
    what = "(%s)" % ", ".join(args)
    res = query.ask(obj, args, data)
    with observing("answer " + what):
        got, gx = res[f.symbol], res[ax.name]
    same(got, np.squeeze(W), "field " + what, rtol=1e-8, scale=np.abs(f.full).max() * (x[-1] - x[0]))
    same_coords(gx, xw, "axis " + what, scale=query.axis_scale(ax))
    note(ax.name + "/" + ax.kind)
    return len(x) > 2


# ---------------------------------------------------------------- frequency


@st.composite
def freq_cases(draw):
    case = draw(C09.cases(naxes=(1, 3), both=draw(st.sampled_from([("time",), ("time", "angle")])), maxfull=1500))
    for i, a in enumerate(case["field"]["axes"]):
        if a["name"] == "time":
            case["reqs"][i] = {"k": "op", "op": draw(st.sampled_from(["derivate", "derivate", "antiderivate"])), "ft": True}
    return case


def run_freq(case, note):
    f = Field(case["field"])
    sub = {"field": case["field"], "reqs": [dict(r, k="whole") if r and r["k"] == "op" else r for r in case["reqs"]]}
    out, A = C09.model(sub, f)
    i = f.names.index("time")
    op = case["reqs"][i]["op"]
    fr = [x for name, ax, r, x in out if name == "freqs"][0]
    shp = [1] * A.ndim
    shp[i] = -1
    w = (2j * pi * fr).reshape(shp)
    if op == "derivate":
        A = A * w
        scale = np.abs(f.full).max() * 2 * np.abs(w).max()
    else:
        # the constant is free: the line at zero frequency is not compared
        keep = np.flatnonzero(fr != 0)
        A = np.take(A / np.where(w == 0, 1, w), keep, axis=i)
        scale = np.abs(f.full).max() * 2 / np.abs(w[w != 0]).min() if len(keep) else 1.0
    args, data = C09.args_of(case)
    what = "(%s)" % ", ".join(args)
    with observing("building the field"):
        obj = field_obj(case["field"])
    res = query.ask(obj, args, data, is_squeeze=False)
    with observing("answer " + what):
        got, gf = np.asarray(res[f.symbol]), res["freqs"]
        expect(bool(np.all(np.isfinite(got))), "infinite or missing values in the answer to %s", what)
        if op == "antiderivate":
            got = np.take(got, keep, axis=i)
    same_coords(gf, fr, "frequencies " + what)
    same(got, A, "spectrum " + what, rtol=1e-9, scale=scale)
    note(op)
    return len(fr) > 2


# ---------------------------------------------------------------- units


def parse_unit(text):
    """Dimensions of a unit written without prefixes."""
    dims = [0] * 6
    for sign, part in zip((1, -1), (text.split("/") + [""])[:2]):
        part = part.replace("dimless", "")
        while part:
            for s in sorted(units.BASE, key=len, reverse=True):
                if part.startswith(s):
                    part = part[len(s):]
                    n = ""
                    while part[:1].isdigit():
                        n, part = n + part[0], part[1:]
                    dims = [d + sign * int(n or 1) * e for d, e in zip(dims, units.BASE[s][1])]
                    break
            else:
                return None
    return dims


def run_unit(case, note):
    f = Field(case["field"])
    out, A, main = evaluate(case, f)
    op = case["reqs"][main]["op"]
    args, data = query.arguments(case)
    what = "get_data_along(%s)" % ", ".join(args)
    with observing("building the field"):
        obj = field_obj(case["field"])
    with observing(what):
        sub = obj.get_data_along(*args, axis_data=data)
        unit = str(sub.unit)
    sign = -1 if op == "derivate" else 1
    want = [a + sign * b for a, b in zip(parse_unit(f.unit), parse_unit(AXIS_UNIT[f.axes[main].name]))]
    got = parse_unit(unit)
    expect(got == want and unit.count("/") <= 1, "%s of a field in %r has unit %r", what, f.unit, unit)
    note("%s/%s" % (op, f.unit))
    return True


SUBS = [
    Sub("integrate", cases(["integrate"]), run, 2500),
    Sub("derivate", cases(["derivate"]), run, 2500),
    Sub("antiderivate", cases(["antiderivate"]), run, 2500),
    Sub("segments", local_cases(), run_local, 1500),
    Sub("frequency", freq_cases(), run_freq, 2000),
    Sub("unit", cases(["integrate", "derivate", "antiderivate"], unit=True), run_unit, 1500),
]
