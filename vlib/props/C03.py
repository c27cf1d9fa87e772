"""Interpolated requests are exact piecewise-linear interpolation."""

from hypothesis import strategies as st

from vlib import gen, query
from vlib.build import field_obj
from vlib.core import Sub, observing, scale_of
from vlib.model import Ax, Field, apply
from vlib.props.C02 import UNITS

RULE = (
    "field of 1-3 axes with lists of coordinates or axis data (sorted or not, repeated, on and off samples, "
    "in the axis unit or another one); non-trivial: at least one axis is requested at 3 or more coordinates"
)


@st.composite
def cases(draw, **kw):
    f = draw(gen.field(**kw))
    reqs = []
    for a in f["axes"]:
        ax = Ax(a)
        c = draw(st.integers(0, 9))
        if ax.kind == "comp" or c == 0:
            reqs.append(None if c < 3 else {"k": "whole"})
            continue
        if c == 1:
            reqs.append(draw(gen.index_request(ax.N)))
            continue
        if c == 2:
            reqs.append(draw(gen.value_request(ax.full, exact=gen.is_exact(a))))
            continue
        units = UNITS.get(a["unit"], [])
        u = draw(st.sampled_from(units)) if units and draw(st.integers(0, 3)) == 0 else None
        x = ax.full * (u[1] if u else 1.0)
        r = draw(gen.interp_request(x))
        if draw(st.integers(0, 9)) == 0 and not u:
            # as many coordinates as samples, slightly moved inside the axis
            s = draw(st.sampled_from([0.01, 0.1, 0.3]))
            r["v"] = [float(x[i] + s * (x[i + 1] - x[i])) for i in range(ax.N - 1)] + [float(x[-1])]
            if len(r["v"]) < 3:
                r["k"] = "axis_data"
        if u:
            r["u"] = "{%s}" % u[0]
            r["f"] = u[1]
            lo, hi = float(x[0]), float(x[-1])
            pad = 1e-6 * (hi - lo)
            r["v"] = [min(max(v, lo + pad), hi - pad) for v in r["v"]]
        reqs.append(r)
    if all(r is None for r in reqs):
        reqs[0] = {"k": "whole"}
    return {"field": f, "reqs": reqs}


def run(case, note):
    f = Field(case["field"])
    A = f.full
    coords = []
    nt = False
    for i, (ax, r) in enumerate(zip(f.axes, case["reqs"])):
        if r is None:
            _, A = apply(ax, A, i, {"k": "idx", "i": 0})
            continue
        x, A = apply(ax, A, i, r, coords=ax.full * r.get("f", 1.0) if ax.is_num else None)
        coords.append((ax, r, x))
        if r["k"] in ("list", "axis_data"):
            note("%s/%s/%s%s" % (ax.kind, (ax.sym or ["plain"])[0], r["k"], "/unit" if r.get("f") else ""))
            nt = nt or len(r["v"]) >= 3
    args, data = query.arguments(case)
    with observing("building the field"):
        obj = field_obj(case["field"])
    res = query.ask(obj, args, data)
    query.check_answer(res, f.symbol, coords, A, args, rtol=1e-7, scale=scale_of(f.full))
    return nt


BIG = [0.0, 1.0, -2.5, 100.0, -1000.0]
SUBS = [
    Sub("one-axis", cases(naxes=(1, 1), pcomp=0, psym=0.5), run, 6000),
    Sub("offset-axis", cases(naxes=(1, 1), pcomp=0, psym=0.3, starts=BIG), run, 2000),
    Sub("several-axes", cases(naxes=(2, 3), psym=0.5), run, 5000),
]
