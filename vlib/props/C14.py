"""A requested unit rescales the answer and nothing else."""

import numpy as np
from hypothesis import strategies as st

from vlib import fourier, gen, query, units
from vlib.build import axis_obj, field_obj
from vlib.core import Sub, expect, fail, observing, raises, same, same_coords
from vlib.model import Ax, Field
from vlib.props import C02, C09
from vlib.snapshot import difference, freeze

RULE = (
    "field of 1-3 axes in a unit among simple, product and quotient units; query (original or Fourier domain, slices, intervals, "
    "interpolation, reductions) with another compatible unit for the field and/or for some axes, or with an incompatible one; "
    "non-trivial: a compatible unit different from the stored one"
)
KINDS = ("whole", "whole", "idx", "idxs", "range", "smallestperiod", "oneperiod", "interval", "gt", "lt", "eq", "list", "axis_data")
OPS = ["sum", "mean", "max", "min", "rms"]

# units with their (numerator, denominator) tokens
FIELD = [
    [[["", "T", 1]], []],
    [[["", "N", 1]], [["", "m", 2]]],
    [[["", "A", 1]], [["", "m", 1]]],
    [[["", "m", 1]], [["", "s", 2]]],
    [[["k", "g", 1], ["", "m", 1]], []],
    [[["", "W", 1]], []],
    [[["", "V", 1]], []],
    [[["m", "m", 1]], []],
    [[["", "rpm", 1]], []],
    [[["", "A", 1], ["", "s", 1]], []],
]
PREF = ["", "m", "k", "µ", "M", "c"]
AXES = {"s": ["ms", "min", "µs", "h"], "m": ["mm", "cm", "km"], "rad": ["°", "mrad"], "A": ["kA", "mA"], "rpm": ["rad/s", "°/s"], "Hz": ["kHz", "mHz"]}
SIZE = {
    "s": 1.0, "ms": 1e-3, "min": 60.0, "µs": 1e-6, "h": 3600.0, "m": 1.0, "mm": 1e-3, "cm": 1e-2, "km": 1e3, "rad": 1.0, "°": np.pi / 180,
    "mrad": 1e-3, "A": 1.0, "kA": 1e3, "mA": 1e-3, "rpm": np.pi / 30, "rad/s": 1.0, "°/s": np.pi / 180, "Hz": 1.0, "kHz": 1e3, "mHz": 1e-3,
}
FOREIGN = ["kg", "N/m", "Ohm", "degC", "foo"]


@st.composite
def field_unit(draw, base):
    """The same dimension with other prefixes or symbols."""

    def other(t):
        return [draw(st.sampled_from(PREF)), draw(st.sampled_from(sorted(s for s in units.BASE if units.BASE[s][1] == units.BASE[t[1]][1]))), t[2]]

    return [[other(t) for t in base[0]], [other(t) for t in base[1]]]


@st.composite
def cases(draw):
    if draw(st.integers(0, 2)) == 0:
        case = draw(C09.cases(naxes=(1, 3), maxfull=1200))
    else:
        case = draw(query.query(KINDS, naxes=(1, 3), ppat=0.2, maxfull=1200))
    base = draw(st.sampled_from(FIELD))
    case["field"]["unit"] = units.text(base[0], base[1], "", False)
    case["ubase"] = base
    case["uto"] = draw(st.one_of(st.none(), field_unit(base), field_unit(base)))
    case["foreign"] = draw(st.one_of(st.none(), st.none(), st.none(), st.sampled_from(FOREIGN)))
    case["axu"] = {}
    for i, (a, r) in enumerate(zip(case["field"]["axes"], case["reqs"])):
        if r is None:
            continue
        if a["kind"] == "pat" and not r.get("ft") and draw(st.integers(0, 2)) == 0:
            r = case["reqs"][i] = {"k": "pattern"}
        if not r.get("ft") and a["kind"] not in ("comp", "pat") and case["field"]["dtype"] != "complex" and draw(st.integers(0, 5)) == 0:
            case["reqs"][i] = {"k": "op", "op": draw(st.sampled_from(OPS))}
        elif r["k"] in ("whole", "idx", "idxs", "range", "smallestperiod", "oneperiod", "pattern") and draw(st.booleans()):
            u = "Hz" if r.get("ft") and a["name"] == "time" else a["unit"]
            if r.get("ft") and a["name"] == "angle":
                continue
            if u in AXES:
                case["axu"][a["name"]] = [u, draw(st.sampled_from(AXES[u]))]
    case["badaxis"] = draw(st.integers(0, 9)) == 0
    case["method"] = draw(st.sampled_from(["get_along", "get_along", "get_magnitude_along"]))
    return case


def run(case, note):
    spec = case["field"]
    f = Field(spec)
    args, data = C09.args_of(case)
    with observing("building the field"):
        obj = field_obj(spec)
    kw = {"axis_data": data} if data else {}
    method = case["method"]
    what = "%s(%s)" % (method, ", ".join(args))
    with observing(what):
        ref = getattr(obj, method)(*args, **kw)
        ref = {k: (v if isinstance(v, str) else np.array(v)) for k, v in ref.items() if k not in ("axes_list", "axes_dict_other")}

    # the same query with units
    named = []
    factor = {}
    names = [fourier.PARTNER[a["name"]] if r.get("ft") else a["name"] for a, r in zip(spec["axes"], case["reqs"]) if r is not None]
    owners = [a["name"] for a, r in zip(spec["axes"], case["reqs"]) if r is not None]
    for name, owner, arg in zip(names, owners, args):
        if owner in case["axu"]:
            u0, u1 = case["axu"][owner]
            arg = "%s{%s}" % (arg, u1)
            factor[name] = SIZE[u0] / SIZE[u1]
        named.append(arg)
    k = 1.0
    ukw = dict(kw)
    if case["uto"] is not None:
        ukw["unit"] = units.text(case["uto"][0], case["uto"][1], "", False)
        k = units.size_dims(*case["ubase"])[0] / units.size_dims(*case["uto"])[0]
    what = "%s(%s, unit=%s) of a field in %s" % (method, ", ".join(named), ukw.get("unit"), spec["unit"])
    with observing(what):
        res = getattr(obj, method)(*named, **ukw)
        res = {n: (v if isinstance(v, str) else np.asarray(v)) for n, v in res.items() if n not in ("axes_list", "axes_dict_other")}
    expect(set(res) == set(ref), "%s returns %s", what, sorted(res))
    for n in ref:
        if isinstance(ref[n], str) or isinstance(res[n], str):
            expect(np.array_equal(ref[n], res[n]), "%s: %s reported as %r", what, n, res[n])
        elif n == f.symbol:
            same(res[n], ref[n] * k, what, rtol=1e-11)
        elif n in factor:
            same(res[n], ref[n] * factor[n], what + " axis " + n, rtol=1e-11)
        else:
            same_coords(res[n], ref[n], what + " axis " + n, rtol=1e-11)
    # incompatible units fail and change nothing
    if case["foreign"] is not None:
        before = freeze(obj)
        bad = list(named)
        bkw = dict(ukw)
        if case["badaxis"] and any(not r.get("ft") and r["k"] in ("whole", "idx", "range") and a["kind"] != "comp" for a, r in zip(spec["axes"], case["reqs"]) if r):
            i = [not r.get("ft") and r["k"] in ("whole", "idx", "range") and a["kind"] != "comp" for a, r in zip(spec["axes"], case["reqs"]) if r].index(True)
            bad[i] = args[i] + "{%s}" % case["foreign"]
        else:
            bkw["unit"] = case["foreign"]
        w = "%s(%s, unit=%s) of a field in %s" % (method, ", ".join(bad), bkw.get("unit"), spec["unit"])
        raises(None, lambda: getattr(obj, method)(*bad, **bkw), w)
        d = difference(before, freeze(obj))
        if d is not None:
            fail("%s: refused but altered the object: %s", w, d)
        with observing(what + " again"):
            res2 = getattr(obj, method)(*named, **ukw)
        expect(np.array_equal(np.asarray(res2[f.symbol]), res[f.symbol], equal_nan=True), "%s differs after a refused unit", what)
        note("refused")
    note("field unit %s" % (case["uto"] is not None))
    for n in factor:
        note("axis unit/%s" % n)
    return k != 1.0 or any(v != 1.0 for v in factor.values())


@st.composite
def axis_cases(draw):
    name, unit = draw(st.sampled_from([n for n in gen.NAMES if C02.UNITS.get(n[1])]))
    a = draw(st.one_of(gen.num_axis(name, unit), gen.pat_axis(name, unit)))
    return {"axis": a, "to": list(draw(st.sampled_from(C02.UNITS[unit]))), "span": draw(st.sampled_from(["whole", "smallestperiod", "oneperiod"]))}


def run_axis(case, note):
    """The coordinates of the axis itself in another unit."""
    a, (to, k) = case["axis"], case["to"]
    ax = Ax(a)
    with observing("building the axis"):
        obj = axis_obj(a)
        before = freeze(obj)
    N = {"whole": ax.N, "smallestperiod": ax.n, "oneperiod": ax.one()}[case["span"]]
    x = ax.full
    kw = {} if case["span"] == "whole" else {"is_" + case["span"]: True}
    if a["kind"] == "pat" and kw:
        kw, x, N = {"is_pattern" if case["span"] == "oneperiod" else "is_smallestperiod": True}, ax.stored, ax.n
    what = "coordinates (%s) in %s" % (kw, to)
    with observing(what):
        got = obj.get_values(unit=to, **kw)
        own = [obj.get_values(unit=u, **kw) for u in ("SI", a["unit"])]
    same(got, x[:N] * k, what, scale=np.abs(x).max() * k)
    for o in own:
        same(o, x[:N], "coordinates (%s) in their own unit" % kw, scale=np.abs(x).max())
    raises(None, lambda: obj.get_values(unit="kg" if a["unit"] != "kg" else "A", **kw), "coordinates in a unit of another dimension")
    diff = difference(before, freeze(obj))
    expect(diff is None, "%s changed the axis: %s", what, diff)
    note("axis/%s/%s" % (a["kind"], case["span"]))
    return ax.N > 1


SUBS = [Sub("units", cases(), run, 8000), Sub("axes", axis_cases(), run_axis, 1500)]
