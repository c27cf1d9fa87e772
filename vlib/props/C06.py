"""Order of requests and unrequested axes follow fixed rules."""

import numpy as np
from hypothesis import strategies as st

from vlib import query
from vlib.build import field_obj
from vlib.core import Sub, expect, observing, same, same_coords, scale_of
from vlib.model import Ax, Field
from vlib.props import C09

RULE = (
    "field of 2-4 axes, requests on a subset of them (original or Fourier domain, with units) issued in the order of the "
    "axes and in a random order, and with omitted axes replaced by their first index; non-trivial: the two argument "
    "lists differ or an axis is omitted"
)


@st.composite
def cases(draw, four):
    if four:
        case = draw(C09.cases(naxes=(2, 4), maxfull=1500))
    else:
        case = draw(query.query(C09.OTHERS + ("eq", "gt", "lt", "antiperiod"), naxes=(2, 4), pomit=0.3, ppat=0.1, maxfull=1500))
        for i, (r, a) in enumerate(zip(list(case["reqs"]), case["field"]["axes"])):
            if r and r["k"] == "whole" and a["unit"] == "m" and draw(st.booleans()):
                r["u"] = "{mm}"
            if r and r["k"] in ("whole", "smallestperiod", "idx") and a["kind"] not in ("comp", "pat") and draw(st.integers(0, 4)) == 0:
                ops = ["sum", "max", "min"]
                if Ax(a).N > 1:
                    ops += ["mean", "rms"] + (["integrate"] if a["name"] in ("time", "angle", "z") and Ax(a).n > 1 else [])
                case["reqs"][i] = {"k": "op", "op": draw(st.sampled_from(ops))}
    # names that contain one another, and units that contain axis names
    for a, r in zip(case["field"]["axes"], case["reqs"]):
        new = {"radius": "z_radius", "speed": "timeline", "current": "angle_rotor", "loadcase": "z2"}.get(a["name"])
        if new and draw(st.booleans()):
            a["name"] = new
        if r and r.get("ft") and a["name"] == "time" and draw(st.booleans()):
            r["u"] = "{Hz}"
    n = sum(r is not None for r in case["reqs"])
    case["perm"] = draw(st.permutations(list(range(n))))
    return case


def answer(res, symbol, what):
    with observing("answer " + what):
        skip = (symbol, "axes_list", "axes_dict_other")
        return (
            res[symbol],
            {k: v for k, v in res.items() if k not in skip},
            [a.name for a in res["axes_list"]],
            dict(res["axes_dict_other"]),
        )


def equal(a, b, what, size, other=True):
    same(b[0], np.asarray(a[0]), "field " + what, rtol=1e-12, scale=max(size, scale_of(a[0])))
    expect(list(a[1]) == list(b[1]), "axes returned %r and %r: %s", list(a[1]), list(b[1]), what)
    expect(a[2] == b[2], "axes listed %r and %r: %s", a[2], b[2], what)
    for k in a[1]:
        if isinstance(a[1][k], str):
            expect(a[1][k] == b[1][k], "axis %s: %r and %r %s", k, a[1][k], b[1][k], what)
        else:
            same_coords(b[1][k], np.asarray(a[1][k]), "axis %s %s" % (k, what))
    if other:
        expect(sorted(a[3]) == sorted(b[3]), "unrequested axes %r and %r %s", sorted(a[3]), sorted(b[3]), what)


def run(case, note):
    f = Field(case["field"])
    args, data = C09.args_of(case)
    permuted = [args[i] for i in case["perm"]]
    with observing("building the field"):
        obj = field_obj(case["field"])
    ref = answer(query.ask(obj, args, data), f.symbol, str(args))
    got = answer(query.ask(obj, permuted, data), f.symbol, str(permuted))
    equal(ref, got, "of %s and %s" % (args, permuted), scale_of(f.full))
    # the axes come back in the order of the field
    order = [C09.fourier.PARTNER[ax.name] if r.get("ft") else ax.name for ax, r in zip(f.axes, case["reqs"]) if r is not None]
    expect(list(ref[1]) == order, "axes returned in order %r instead of %r", list(ref[1]), order)
    # unrequested axes: first sample, reported as such
    omitted = [ax for ax, r in zip(f.axes, case["reqs"]) if r is None]
    expect(sorted(ref[3]) == sorted(a.name for a in omitted), "unrequested axes %r reported as %r", [a.name for a in omitted], sorted(ref[3]))
    full = []
    for ax, r, in zip(f.axes, case["reqs"]):
        if r is None:
            full.append("%s[0]" % ax.name)
            with observing("unrequested axis"):
                v, u = ref[3][ax.name][0], ref[3][ax.name][1]
            expect(u == ax.unit, "unrequested axis %s reported with unit %r", ax.name, u)
            if ax.is_num:
                expect(abs(float(v) - ax.full[0]) <= 1e-9 * (abs(ax.full[0]) + 1e-6), "unrequested axis %s reported at %r instead of %r", ax.name, v, ax.full[0])
            else:
                expect(str(v) == ax.full[0], "unrequested axis %s reported at %r instead of %r", ax.name, v, ax.full[0])
    if omitted:
        extra = answer(query.ask(obj, args + full, data), f.symbol, str(args + full))
        same(extra[0], np.asarray(ref[0]), "field of %s and %s" % (args, args + full), rtol=1e-12, scale=scale_of(f.full, ref[0]))
        expect(not extra[3], "axes reported as unrequested: %r", extra[3])
    note("naxes%d/omitted%d" % (len(f.axes), len(omitted)))
    return permuted != args or bool(omitted)


SUBS = [
    Sub("original", cases(four=False), run, 4000),
    Sub("fourier", cases(four=True), run, 4000),
]
