"""Reductions over a folded axis equal reductions over the whole axis."""

import numpy as np
from hypothesis import strategies as st

from vlib import gen, query
from vlib.build import field_obj
from vlib.core import Sub, observing, same, same_coords, expect
from vlib.model import Ax, Field, apply, unfold
from vlib.props import C09

RULE = (
    "field of 1-4 axes (plain, periodic, antiperiodic, pattern or component axes; real, complex or with missing values), one or "
    "several of them reduced (sum, mean, rms, rss, max, min) and the others sliced, interpolated or whole; non-trivial: a "
    "reduced axis has at least 2 samples"
)
OTHERS = ("whole", "idx", "idxs", "range", "interval", "list", "axis_data", "smallestperiod", "oneperiod")
PHYS = ("time", "angle", "z")


def physical(ax):
    """Mean-like reductions are integrals on these axes."""
    return ax.name in PHYS and (ax.N if ax.kind == "pat" else ax.n) > 1


def uniform(ax):
    return ax.kind in ("d1", "lin") and ax.spec.get("xs") is None


@st.composite
def cases(draw, nan=False, **kw):
    case = draw(query.query([k for k in OTHERS if not nan or k not in ("list", "axis_data")], pomit=0.1, dtypes=("real",) if nan else ("real", "int", "real", "complex"), **kw))
    f = case["field"]
    n = len(f["axes"])
    which = [draw(st.booleans()) for _ in range(n)]
    which[draw(st.integers(0, n - 1))] = True
    for i, a in enumerate(f["axes"]):
        if which[i]:
            ax = Ax(a)
            ops = ["sum"]
            if f["dtype"] != "complex":
                ops += ["max", "min"]
                if not nan:
                    ops += ["rss"] if not physical(ax) or uniform(ax) else []
            if not physical(ax) or (uniform(ax) and not nan):
                ops.append("mean")
                if f["dtype"] != "complex" and not nan:
                    ops.append("rms")
            case["reqs"][i] = {"k": "op", "op": draw(st.sampled_from(ops))}
    if nan:
        N = int(np.prod([Ax(a).n for a in f["axes"]]))
        case["holes"] = draw(st.lists(st.integers(0, N - 1), max_size=max(1, N // 3), unique=True))
    case["squeeze"] = draw(st.booleans())
    return case


def reduce(A, i, ax, op):
    kw = dict(axis=i, keepdims=True)
    if op == "sum":
        return np.nansum(A, **kw)
    if op == "max":
        return np.nanmax(A, **kw)
    if op == "min":
        return np.nanmin(A, **kw)
    if op == "mean":
        return np.nanmean(A, **kw)
    if op == "rms":
        return np.sqrt(np.mean(A**2, **kw))
    if op == "rss":
        return np.sqrt(np.sum(A**2, **kw) * (ax.spec["dx"] if physical(ax) else 1.0))
    raise ValueError(op)


def run(case, note):
    f = Field(case["field"])
    stored = f.stored.copy()
    if case.get("holes"):
        stored.ravel()[case["holes"]] = np.nan
    A = unfold(stored, f.axes)
    scale = 0.0
    out = []
    for i, (ax, r) in enumerate(zip(f.axes, case["reqs"])):
        if r is None:
            A = np.take(A, [0], axis=i)
        elif r["k"] != "op":
            x, A = apply(ax, A, i, r)
            out.append((ax, r, x))
    scale = np.nanmax(np.abs(f.full))
    nt = False
    for i, (ax, r) in enumerate(zip(f.axes, case["reqs"])):
        if r is not None and r["k"] == "op":
            scale = scale * (ax.N if r["op"] in ("sum", "rss") else 1)
            A = reduce(A, i, ax, r["op"])
            nt = nt or ax.N > 1
            note("%s/%s/%s%s" % (r["op"], (ax.sym or [ax.kind])[0], "phys" if physical(ax) else "other", "/nan" if case.get("holes") else ""))
    args, data = query.arguments(case)
    with observing("building the field"):
        obj = field_obj(case["field"], values=stored)
    res = query.ask(obj, args, data, is_squeeze=case["squeeze"])
    what = "(%s)" % ", ".join(args)
    with observing("answer " + what):
        got = res[f.symbol]
        axes = {ax.name: res[ax.name] for ax, r in zip(f.axes, case["reqs"]) if r is not None}
    same(got, np.squeeze(A) if case["squeeze"] else A, "field " + what, rtol=1e-9, scale=scale)
    for ax, r, x in out:
        same_coords(axes[ax.name], x, "axis %s %s" % (ax.name, what), scale=query.axis_scale(ax))
    for ax, r in zip(f.axes, case["reqs"]):
        if r is not None and r["k"] == "op":
            expect(isinstance(axes[ax.name], str) and axes[ax.name] == r["op"], "reduced axis %s reported as %r", ax.name, axes[ax.name])
    return nt


@st.composite
def magnitude_cases(draw, **kw):
    """Reductions of magnitudes, over original or Fourier axes."""
    case = draw(C09.cases(**kw))
    f = case["field"]
    which = [draw(st.booleans()) for _ in f["axes"]]
    which[draw(st.integers(0, len(which) - 1))] = True
    for i, a in enumerate(f["axes"]):
        if which[i]:
            ax = Ax(a)
            r = case["reqs"][i]
            four = bool(r) and r.get("ft", False)
            plain = four or not physical(ax)
            ops = ["sum", "max", "min"] + (["mean", "rms", "rss"] if plain or uniform(ax) else [])
            case["reqs"][i] = {"k": "op", "op": draw(st.sampled_from(ops)), "ft": four}
    return case


def run_magnitude(case, note):
    f = Field(case["field"])
    ops = {}
    sub = {"field": case["field"], "reqs": []}
    for i, r in enumerate(case["reqs"]):
        if r is not None and r["k"] == "op":
            ops[i] = r
            r = {"k": "whole", "ft": r["ft"]}
        sub["reqs"].append(r)
    out, A = C09.model(sub, f)
    A = np.abs(A)
    scale = np.abs(f.full).max() * 2
    for i, ax in enumerate(f.axes):
        if i in ops:
            four = ops[i]["ft"]
            N = A.shape[i]
            op = ops[i]["op"]
            if four and op == "rss":
                A = np.sqrt(np.sum(A**2, axis=i, keepdims=True))
            else:
                A = reduce(A, i, ax, op)
            scale *= N if op in ("sum", "rss") else 1
            note("%s/%s/%s" % (op, "fourier" if four else "original", (ax.sym or ["plain"])[0]))
    args, data = C09.args_of(case)
    what = "magnitude(%s)" % ", ".join(args)
    with observing("building the field"):
        obj = field_obj(case["field"])
    with observing(what):
        got = obj.get_magnitude_along(*args, axis_data=data)[f.symbol]
    same(got, np.squeeze(A), what, rtol=1e-9, scale=scale)
    return True


KW = dict(maxfull=2000, ppat=0.1, pcomp=0.12)
SUBS = [
    Sub("one-axis", cases(naxes=(1, 1), **KW), run, 2500),
    Sub("several-axes", cases(naxes=(2, 4), **KW), run, 5000),
    Sub("magnitudes", magnitude_cases(naxes=(1, 3), maxfull=1500), run_magnitude, 4000),
    Sub("missing", cases(nan=True, naxes=(1, 3), **KW), run, 2500),
]
