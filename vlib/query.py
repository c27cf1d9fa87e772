"""Generation and evaluation of whole queries (one request per axis)."""

import numpy as np
from hypothesis import strategies as st

from vlib import gen
from vlib.core import expect, observing, same, same_coords
from vlib.model import Ax, Field, apply, req_axis_data, req_string


@st.composite
def request(draw, spec, kinds):
    """A request on one axis, among the kinds that make sense for it."""
    ax = Ax(spec)
    ok = []
    for k in kinds:
        if ax.kind == "comp":
            if k in ("idx", "idxs", "whole", "all", "range"):
                ok.append(k)
        elif k == "antiperiod":
            if ax.aper:
                ok.append(k)
        elif k in ("list", "axis_data"):
            if ax.N > 1 and ax.kind != "pat":
                ok.append(k)
        elif k in ("oneperiod", "smallestperiod"):
            if ax.kind != "pat":
                ok.append(k)
        elif k == "all":
            pass
        else:
            ok.append(k)
    k = draw(st.sampled_from(ok or ["whole"]))
    if k in ("idx", "idxs", "range"):
        return draw(gen.index_request(ax.N, kinds=(k,)))
    if k in ("interval", "gt", "lt", "eq"):
        return draw(gen.value_request(ax.full, kinds=(k,), exact=gen.is_exact(spec)))
    if k in ("list", "axis_data"):
        return draw(gen.interp_request(ax.full, kinds=(k,)))
    return {"k": k}


@st.composite
def query(draw, kinds, pomit=0.15, **kw):
    """A field and one request per axis (None: axis not requested)."""
    f = draw(gen.field(**kw))
    reqs = []
    for a in f["axes"]:
        if draw(st.integers(0, 99)) < 100 * pomit:
            reqs.append(None)
        else:
            reqs.append(draw(request(a, kinds)))
    if all(r is None for r in reqs):
        reqs[0] = draw(request(f["axes"][0], kinds))
    return {"field": f, "reqs": reqs}


def arguments(case):
    """Request strings and axis data of a query, in the order of the axes."""
    args, data = [], {}
    for a, r in zip(case["field"]["axes"], case["reqs"]):
        if r is not None:
            args.append(req_string(a["name"], r, r.get("u", "")))
            data.update(req_axis_data(a["name"], r))
    return args, data


def evaluate(case, field=None):
    """Model answer: list of (axis, request, coordinates), array not squeezed."""
    f = field or Field(case["field"])
    A = f.full
    out = []
    for i, (ax, r) in enumerate(zip(f.axes, case["reqs"])):
        if r is None:
            _, A = apply(ax, A, i, {"k": "idx", "i": 0})
        else:
            x, A = apply(ax, A, i, r)
            out.append((ax, r, x))
    return out, A


def axis_scale(ax):
    """Size of the coordinates of an axis, to set tolerances."""
    return float(np.abs(ax.full).max()) if ax.is_num else None


def ask(obj, args, data, **kw):
    if data:
        kw["axis_data"] = data
    with observing("get_along(%s)" % ", ".join(args)):
        return obj.get_along(*args, **kw)


def check_answer(res, symbol, coords, A, args, rtol=1e-9, squeeze=True, scale=None):
    what = "(%s)" % ", ".join(args)
    want = np.squeeze(A) if squeeze else A
    with observing("reading answer" + what):
        got = res[symbol]
        axes = {ax.name: res[ax.name] for ax, r, x in coords}
    for ax, r, x in coords:
        if r["k"] == "eq":
            # the requested coordinate, or that of the sample returned
            with observing("axis %s %s" % (ax.name, what)):
                g = float(np.asarray(axes[ax.name]).ravel()[0])
                n = np.asarray(axes[ax.name]).size
            near = ax.full[int(np.argmin(np.abs(ax.full - r["v"])))]
            s = np.abs(ax.full).max() + 1e-12
            expect(
                n == 1 and min(abs(g - r["v"]), abs(g - near)) <= 1e-9 * s,
                "axis %s %s: coordinate %r reported for a request at %r", ax.name, what, g, r["v"],
            )
        else:
            same_coords(axes[ax.name], x, "axis %s %s" % (ax.name, what), scale=axis_scale(ax))
    same(got, want, "field %s" % what, rtol=rtol, scale=scale)
