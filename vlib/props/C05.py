"""Pattern axes unfold through their rebuild indices."""

import numpy as np
from hypothesis import strategies as st

from vlib import gen, query
from vlib.build import axis_obj, field_obj
from vlib.core import Sub, expect, observing, same, same_coords, scale_of
from vlib.model import Field, apply, interp

RULE = (
    "field with one pattern axis (step or linear, arbitrary rebuild map, possibly double points) among 1-3 axes and a "
    "request on every axis; non-trivial: the rebuild map is not the identity"
)

STARTS = gen.STARTS + [1000.0, 5000.0]
NAMES = [("z", "m"), ("slice", "m"), ("radius", "m")]


@st.composite
def pattern(draw, name, unit):
    a = draw(gen.pat_axis(name, unit, starts=STARTS))
    if draw(st.integers(0, 2)) == 0:
        # slices with a double point at every inner edge: each slice gives two
        # samples holding the same pattern value
        k = draw(st.integers(1, 4))
        n = draw(st.integers(1, k))
        edges = [draw(st.sampled_from(STARTS))]
        for _ in range(k):
            edges.append(edges[-1] + draw(st.integers(1, 8)) / 4)
        who = [draw(st.integers(0, n - 1)) for _ in range(k)]
        whole, rebuild = [], []
        for i in range(k):
            whole += [edges[i], edges[i + 1]]
            rebuild += [who[i], who[i]]
        a.update(whole=whole, rebuild=rebuild, xs=edges[:n], double=True, is_step=True)
    return a


@st.composite
def cases(draw, naxes=(1, 3)):
    f = draw(gen.field(naxes=naxes, psym=0.4, pcomp=0.1, maxfull=2000, names=[n for n in gen.NAMES if n[0] not in ("z", "radius")]))
    i = draw(st.integers(0, len(f["axes"]) - 1))
    name, unit = draw(st.sampled_from(NAMES))
    pat = draw(pattern(name, unit))
    f["axes"][i] = pat
    reqs = []
    for j, a in enumerate(f["axes"]):
        if j != i:
            reqs.append(draw(st.one_of(st.none(), query.request(a, ("whole", "idx", "idxs", "range", "interval", "smallestperiod", "oneperiod")))))
            continue
        N = len(a["rebuild"])
        k = draw(st.sampled_from(["whole", "pattern", "idx", "idxs", "range", "interval", "gt", "lt", "max", "min", "sum", "rss", "mean", "rms", "integrate", "list", "list", None]))
        if k is None:
            reqs.append(None)
        elif k in ("idx", "idxs", "range"):
            reqs.append(draw(gen.index_request(N, kinds=(k,))))
        elif k in ("interval", "gt", "lt"):
            reqs.append(draw(gen.value_request(sorted(set(a["whole"])), kinds=(k,), exact=True)))
        elif k in ("max", "min", "sum", "rss", "mean", "rms", "integrate"):
            reqs.append({"k": "op", "op": k})
        elif k == "list" and len(set(a["whole"])) > 1:
            x = sorted(set(a["whole"]))
            v = draw(gen.interp_request(x, kinds=("list",), minlen=3, maxlen=6))["v"]
            if draw(st.booleans()):  # just beside a sample
                c = draw(st.integers(0, len(x) - 2))
                d = (x[c + 1] - x[c]) * draw(st.sampled_from([1e-2, 1e-4]))
                v[draw(st.integers(0, len(v) - 1))] = draw(st.sampled_from([x[c] + d, x[c + 1] - d]))
            if draw(st.booleans()):
                v = sorted(set(v))
            if len(v) < 3:
                v = None
            reqs.append({"k": draw(st.sampled_from(["list", "axis_data"])), "v": v} if v else {"k": "whole"})
        else:
            reqs.append({"k": "whole"} if k == "list" else {"k": k})
    if all(r is None for r in reqs):
        reqs[0] = {"k": "whole"}
    return {"field": f, "reqs": reqs, "pat": i}


def step_interp(x, A, v, axis):
    """Value of the step function: the sample at or just left of the coordinate,
    the mean of both samples on a double point."""
    out = []
    for c in v:
        on = [i for i in range(len(x)) if x[i] == c]
        if on:
            out.append(np.take(A, on, axis=axis).mean(axis=axis))
        else:
            out.append(np.take(A, max(i for i in range(len(x)) if x[i] < c), axis=axis))
    return np.stack(out, axis=axis)


def reduce(ax, A, i, op, is_real):
    """Reduction over the whole axis, mean-like ones being integrals along z."""
    kw = dict(axis=i, keepdims=True)
    if op == "sum":
        return A.sum(**kw)
    if op == "integrate" or op == "mean" and ax.name == "z" and ax.N > 1:
        if ax.name != "z" or ax.N < 2:
            return None
        w = np.expand_dims(np.trapz(A, x=ax.full, axis=i), i)
        return w if op == "integrate" else w / (ax.full[-1] - ax.full[0])
    if op == "mean":
        return A.mean(**kw)
    if not is_real:
        return None
    if op in ("max", "min"):
        return getattr(A, op)(**kw)
    if ax.name == "z" and ax.N > 1:
        w = np.expand_dims(np.trapz(A**2, x=ax.full, axis=i), i)
        return np.sqrt(w if op == "rss" else w / (ax.full[-1] - ax.full[0]))
    return np.sqrt((A**2).sum(**kw) if op == "rss" else (A**2).mean(**kw))


def run(case, note):
    f = Field(case["field"])
    p = case["pat"]
    r = case["reqs"][p]
    A = f.full
    if r is not None and r["k"] == "pattern":
        # only this request sees the stored samples
        A = f.stored
        for i, ax in enumerate(f.axes):
            if i != p:
                shp = [1] * A.ndim
                shp[i] = -1
                A = np.take(A, ax.map, axis=i) * ax.sign.reshape(shp)
    coords = []
    for i, (ax, r) in enumerate(zip(f.axes, case["reqs"])):
        if r is None:
            A = np.take(A, [0], axis=i)
            continue
        if r["k"] == "pattern":
            x = ax.stored
        elif r["k"] == "op":
            A = reduce(ax, A, i, r["op"], f.is_real)
            if A is None:
                note("skipped")
                return False
            continue
        elif i == p and r["k"] in ("list", "axis_data"):
            x = np.array(r["v"])
            A = (step_interp if ax.spec.get("is_step", True) else interp)(ax.full, A, x, i)
        else:
            x, A = apply(ax, A, i, r)
        coords.append((ax, r, x))
    args, data = query.arguments(case)
    with observing("building the field"):
        obj = field_obj(case["field"])
    res = query.ask(obj, args, data)
    query.check_answer(res, f.symbol, coords, A, args, scale=scale_of(f.full))
    r = case["reqs"][p]
    ax = f.axes[p]
    if r is None:
        with observing("unrequested pattern axis"):
            x0 = float(res["axes_dict_other"][ax.name][0])
        expect(abs(x0 - ax.full[0]) < 1e-9, "unrequested pattern axis reported at %r instead of %r", x0, ax.full[0])
    note("%s/%s%s" % ("step" if ax.spec["is_step"] else "linear", r["k"] if r else "omitted", "/double" if ax.spec.get("double") else ""))
    return list(ax.map) != list(range(ax.n))


def run_axis(case, note):
    with observing("building the axis"):
        obj = axis_obj(case["axis"])
    a = case["axis"]
    for whole in case["order"]:
        kw = {} if whole else {"is_smallestperiod": True}
        with observing("pattern axis values"):
            v = obj.get_values(**kw)
            n = obj.get_length(**kw)
            h = obj.has_period()
        expect(not h, "pattern axis with periodicity: %r", h)
        want = a["whole"] if whole else a["xs"]
        same_coords(v, np.array(want), "pattern axis values (whole: %r)" % whole)
        expect(n == len(want), "pattern axis length (whole: %r) %r instead of %d", whole, n, len(want))
    note("axis")
    return a["rebuild"] != list(range(len(a["xs"])))


SUBS = [
    Sub("axis", st.fixed_dictionaries({"axis": pattern("z", "m"), "order": st.lists(st.booleans(), min_size=1, max_size=4)}), run_axis, 600),
    Sub("field", cases(), run, 6000),
]
