"""Fourier requests return the Fourier coefficients of the unfolded field."""

import numpy as np
from hypothesis import strategies as st

from vlib import fourier, gen, query
from vlib.build import field_obj
from vlib.core import Sub, observing, same, same_coords
from vlib.model import Ax, Field, apply, req_axis_data, req_string

RULE = (
    "real or complex field with a time and/or angle axis (any position, parity, start, symmetry) requested as frequency "
    "and/or wavenumber with whole, index or interval selection, any request on the other axes; non-trivial: a "
    "transformed axis has at least 3 samples over one period"
)
OTHERS = ("whole", "idx", "idxs", "range", "interval", "list", "axis_data", "smallestperiod", "oneperiod", "all")


@st.composite
def cases(draw, **kw):
    f = draw(fourier.fourier_field(**kw))
    is_real = f["dtype"] != "complex"
    reqs = []
    four = [a["name"] for a in f["axes"] if a["name"] in ("time", "angle")]
    done = []
    for a in f["axes"]:
        if a["name"] in four and (a["name"] == four[-1] and not done or draw(st.integers(0, 3)) > 0):
            done.append(a["name"])
            vals, cyc = fourier.fourier_axis(Ax(a), is_real)
            k = draw(st.sampled_from(["whole", "whole", "idx", "idxs", "range", "interval", "gt", "lt"]))
            if k == "whole":
                r = {"k": k}
            elif k in ("idx", "idxs", "range"):
                r = draw(gen.index_request(len(vals), kinds=(k,)))
            else:
                r = draw(gen.value_request(vals, kinds=(k,), exact=False))
            r["ft"] = True
            reqs.append(r)
        else:
            reqs.append(draw(st.one_of(st.none(), query.request(a, OTHERS), query.request(a, OTHERS), query.request(a, OTHERS))))
    return {"field": f, "reqs": reqs}


def model(case, f):
    """Coordinates and array (not squeezed) expected for a Fourier query."""
    A = f.full
    out = []
    has_freqs = any(r and r.get("ft") and ax.name == "time" for ax, r in zip(f.axes, case["reqs"]))
    for i, (ax, r) in enumerate(zip(f.axes, case["reqs"])):
        if r is None:
            A = np.take(A, [0], axis=i)
        elif not r.get("ft"):
            x, A = apply(ax, A, i, r)
            out.append((ax.name, ax, r, x))
    for i, (ax, r) in enumerate(zip(f.axes, case["reqs"])):
        if r is None or not r.get("ft"):
            continue
        vals, cycles = fourier.fourier_axis(ax, f.is_real)
        N = len(vals)
        k = r["k"]
        if k == "whole":
            sel = list(range(N))
        elif k == "idx":
            sel = [r["i"]]
        elif k == "idxs":
            sel = r["i"]
        elif k == "range":
            sel = list(range(r["i"], r["j"]))
        else:
            lo = r["a"] if k in ("interval", "gt") else -np.inf
            hi = r["b"] if k in ("interval", "lt") else np.inf
            sel = [j for j in range(N) if lo <= vals[j] <= hi]
        A = fourier.dft(A, i, cycles[sel])
        v = vals[sel]
        one_sided = f.is_real and (ax.name == "time" or (not has_freqs and v.min() >= 0))
        if one_sided:
            shp = [1] * A.ndim
            shp[i] = -1
            A = A * np.where(v != 0, 2.0, 1.0).reshape(shp)
        out.append((fourier.PARTNER[ax.name], ax, r, v))
    return out, A


def args_of(case):
    args, data = [], {}
    for a, r in zip(case["field"]["axes"], case["reqs"]):
        if r is None:
            continue
        name = fourier.PARTNER[a["name"]] if r.get("ft") else a["name"]
        args.append(req_string(name, r, r.get("u", "")))
        data.update(req_axis_data(name, r))
    return args, data


def run(case, note):
    f = Field(case["field"])
    out, A = model(case, f)
    args, data = args_of(case)
    with observing("building the field"):
        obj = field_obj(case["field"])
    res = query.ask(obj, args, data)
    what = "(%s)" % ", ".join(args)
    with observing("answer " + what):
        got = res[f.symbol]
        axes = {name: res[name] for name, ax, r, x in out}
    nt = False
    for name, ax, r, x in out:
        if r.get("ft"):
            sc = float(np.abs(fourier.fourier_axis(ax, f.is_real)[0]).max())
            same_coords(axes[name], x, "axis %s %s" % (name, what), scale=sc)
            nt = nt or ax.one() >= 3
            note("%s/%s/%s/%s/%s" % (name, "real" if f.is_real else "complex", (ax.sym or ["plain"])[0], r["k"], "odd" if ax.one() % 2 else "even"))
        else:
            same_coords(axes[name], x, "axis %s %s" % (name, what), scale=query.axis_scale(ax))
    same(got, np.squeeze(A), "spectrum %s" % what, rtol=1e-9, scale=np.abs(f.full).max())
    return nt


SUBS = [
    Sub("one-axis", cases(naxes=(1, 1), pcomp=0), run, 4000),
    Sub("several-axes", cases(naxes=(2, 3)), run, 5000),
]
