"""Every answer has one field dimension per returned axis, in order."""

import numpy as np
from hypothesis import strategies as st

from vlib import fourier, gen, query
from vlib.build import field_obj
from vlib.core import Sub, expect, observing, same_coords
from vlib.model import Ax, Field
from vlib.props import C09

RULE = (
    "field of 1-4 axes of any kind with a random request on each (index, interval, threshold, single value, interpolation, period "
    "extraction, reduction, integral, derivative, Fourier, units), plain, magnitude or phase query, squeezed or not; non-trivial: at "
    "least two axes requested or one axis of length one"
)
KINDS = ("whole", "idx", "idxs", "range", "interval", "gt", "lt", "eq", "list", "axis_data", "smallestperiod", "oneperiod", "antiperiod", "all")
AXU = {"s": "ms", "m": "mm", "rad": "mrad", "A": "kA", "rpm": "rad/s"}


@st.composite
def cases(draw, four):
    if four:
        case = draw(C09.cases(naxes=(1, 4), maxfull=1500))
    else:
        case = draw(query.query(KINDS, naxes=(1, 4), pomit=0.15, ppat=0.12, maxfull=1500))
    f = case["field"]
    for i, (a, r) in enumerate(zip(f["axes"], list(case["reqs"]))):
        if r is None:
            continue
        ax = Ax(a)
        d = draw(st.integers(0, 9))
        if d <= 2 and not (f["dtype"] == "complex" and not r.get("ft") and a["kind"] == "comp"):
            ops = ["sum", "max", "min", "mean", "rms", "rss"]
            if r.get("ft"):
                if a["name"] == "time":
                    ops += ["derivate", "antiderivate"]
            elif a["name"] in ("time", "angle", "z") and (ax.N if ax.kind == "pat" else ax.n) > 2:
                ops += ["integrate", "derivate", "antiderivate", "integrate_local"]
            if a["kind"] == "comp":
                ops = ["sum", "max", "min"]
            case["reqs"][i] = {"k": "op", "op": draw(st.sampled_from(ops)), "ft": r.get("ft", False)}
        elif d == 3 and r["k"] in ("whole", "idx", "range") and not r.get("ft") and a["unit"] in AXU:
            r["u"] = "{%s}" % AXU[a["unit"]]
    case["method"] = draw(st.sampled_from(["get_along", "get_along", "get_magnitude_along", "get_phase_along"]))
    case["squeeze"] = draw(st.booleans())
    n = sum(r is not None for r in case["reqs"])
    case["perm"] = draw(st.permutations(list(range(n))))
    return case


REDUCED = ("sum", "max", "min", "mean", "rms", "rss", "integrate")


def run(case, note):
    f = Field(case["field"])
    args, data = C09.args_of(case)
    permuted = [args[i] for i in case["perm"]]
    squeeze = case["squeeze"] or case["method"] == "get_phase_along"
    kw = {} if case["method"] == "get_phase_along" else {"is_squeeze": case["squeeze"]}
    what = "%s(%s)%s" % (case["method"], ", ".join(permuted), "" if squeeze else " not squeezed")
    with observing("building the field"):
        obj = field_obj(case["field"])
    with observing(what):
        res = getattr(obj, case["method"])(*permuted, axis_data=data, **kw)
        got = np.asarray(res[f.symbol])
        listed = [(a.name, a.values) for a in res["axes_list"]] if "axes_list" in res else None
        other = dict(res["axes_dict_other"]) if "axes_dict_other" in res else None
    shape, k = [], 0
    for ax, r in zip(f.axes, case["reqs"]):
        if r is None:
            shape.append(1)
            continue
        name = fourier.PARTNER[ax.name] if r.get("ft") else ax.name
        with observing(what):
            v = res[name]
            n = 1 if isinstance(v, str) else len(v)
        expect(isinstance(v, str) == (r["k"] == "op" and r["op"] in REDUCED), "%s: axis %s reported as %r", what, name, v)
        if isinstance(v, str):
            expect(v == r["op"], "%s: axis %s reported as %r", what, name, v)
        shape.append(n)
        if listed is not None:
            expect(k < len(listed) and listed[k][0] == name, "%s: axes listed as %r", what, [x[0] for x in listed])
            if not isinstance(v, str):
                same_coords(listed[k][1], np.asarray(v), "%s: listed axis %s" % (what, name), rtol=0)
        k += 1
    if listed is not None:
        expect(k == len(listed), "%s: axes listed as %r", what, [x[0] for x in listed])
    if other is not None:
        omitted = [ax.name for ax, r in zip(f.axes, case["reqs"]) if r is None]
        expect(sorted(other) == sorted(omitted), "%s: unrequested axes %r reported as %r", what, omitted, sorted(other))
    keys = [n for n in res if n not in (f.symbol, "axes_list", "axes_dict_other")]
    want = [fourier.PARTNER[ax.name] if r.get("ft") else ax.name for ax, r in zip(f.axes, case["reqs"]) if r is not None]
    expect(keys == want, "%s: axes returned %r instead of %r", what, keys, want)
    if squeeze:
        shape = [n for n in shape if n != 1]
    expect(got.shape == tuple(shape), "%s: field of shape %s on axes of lengths %s", what, got.shape, tuple(shape))
    for r in case["reqs"]:
        if r is not None:
            note(("ft/" if r.get("ft") else "") + r.get("op", r["k"]))
    return len(args) > 1 or 1 in shape


SUBS = [
    Sub("original", cases(False), run, 6000),
    Sub("fourier", cases(True), run, 5000),
]
