"""Value requests select the samples that satisfy the request."""

from math import pi

import numpy as np
from hypothesis import strategies as st

from vlib import gen, query
from vlib.build import field_obj
from vlib.core import Sub, observing
from vlib.model import Ax, Field, apply

RULE = (
    "field of 1-3 axes with interval, threshold and single-coordinate requests, bounds on or between samples, "
    "in the axis unit or another one; non-trivial: a numeric axis is requested by value and has at least 3 samples"
)

# unit -> other units with the size of one base unit in it
UNITS = {
    "s": [("ms", 1e3), ("us", 1e6), ("ks", 1e-3), ("min", 1.0 / 60)],
    "rad": [("°", 180 / pi)],
    "m": [("mm", 1e3), ("km", 1e-3), ("cm", 1e2)],
    "A": [("mA", 1e3), ("kA", 1e-3)],
    "rpm": [],
    "": [],
}


@st.composite
def cases(draw, **kw):
    f = draw(gen.field(**kw))
    reqs = []
    for a in f["axes"]:
        ax = Ax(a)
        c = draw(st.integers(0, 9))
        if ax.kind == "comp" or c == 0:
            reqs.append(None if c < 3 else {"k": "whole"})
            continue
        if c == 1:
            reqs.append(draw(gen.index_request(ax.N)))
            continue
        units = UNITS.get(a["unit"], [])
        u = draw(st.sampled_from(units)) if units and draw(st.booleans()) else None
        x = ax.full * (u[1] if u else 1.0)
        r = draw(gen.value_request(x, exact=gen.is_exact(a) and u is None))
        if r["k"] == "eq" and ax.N > 1 and draw(st.integers(0, 5)) == 0:
            step, low = draw(st.sampled_from([0.2, 0.6, 3.0])) * (x[1] - x[0]), draw(st.booleans())
            r.update(v=float(x[0] - step if low else x[-1] + step), out=True)
            r.pop("on")
        if u:
            r["u"] = "{%s}" % u[0]
            r["f"] = u[1]
        reqs.append(r)
    if all(r is None for r in reqs):
        reqs[0] = {"k": "whole"}
    return {"field": f, "reqs": reqs}


def run(case, note):
    f = Field(case["field"])
    A = f.full
    coords = []
    nt = False
    for i, (ax, r) in enumerate(zip(f.axes, case["reqs"])):
        if r is None:
            _, A = apply(ax, A, i, {"k": "idx", "i": 0})
            continue
        x, A = apply(ax, A, i, r, coords=ax.full * r.get("f", 1.0) if ax.is_num else None)
        if r.get("f"):
            ax = Ax(ax.spec)
            ax.full = ax.full * r["f"]
        coords.append((ax, r, x))
        if r["k"] in ("interval", "gt", "lt", "eq"):
            note("%s/%s/%s%s" % (ax.kind, (ax.sym or ["plain"])[0], "outside" if r.get("out") else r["k"], "/unit" if r.get("f") else ""))
            nt = nt or ax.N >= 3
    args, data = query.arguments(case)
    with observing("building the field"):
        obj = field_obj(case["field"])
    res = query.ask(obj, args, data)
    query.check_answer(res, f.symbol, coords, A, args)
    return nt


SUBS = [
    Sub("one-axis", cases(naxes=(1, 1), pcomp=0, psym=0.6), run, 6000),
    Sub("several-axes", cases(naxes=(2, 3), psym=0.5), run, 6000),
]
