"""An extracted sub-field answers like the original field."""

import numpy as np
from hypothesis import strategies as st

from vlib import fourier, gen, query
from vlib.build import field_obj, norm_obj
from vlib.core import Sub, expect, observing, same, same_coords, scale_of
from vlib.model import Ax, Field
from vlib.props import C09

RULE = (
    "field of 1-3 axes, each one whole, sliced, interpolated, reduced, derived, folded, converted to another unit or "
    "to the Fourier domain, requests given in any order and some axes omitted; the extracted field is queried on its whole axes and "
    "compared with the original answer; non-trivial: at least one axis is kept with two samples"
)
KINDS = ("whole", "idx", "idxs", "range", "interval", "list", "axis_data", "smallestperiod", "oneperiod", "antiperiod", "gt", "lt", "all")
AXU = {"s": "ms", "m": "mm", "rad": "mrad", "A": "kA", "rpm": "rad/s", "": ""}


@st.composite
def cases(draw, four):
    if four:
        case = draw(C09.cases(naxes=(1, 3), maxfull=1200))
    else:
        case = draw(query.query(KINDS, naxes=(1, 3), pomit=0.15, ppat=0.1, maxfull=1200))
    f = case["field"]
    for i, (a, r) in enumerate(zip(f["axes"], list(case["reqs"]))):
        if r is None or r.get("ft"):
            continue
        d = draw(st.integers(0, 9))
        ax = Ax(a)
        if d == 0 and a["kind"] != "comp" and f["dtype"] != "complex":
            ops = ["sum", "max", "min"]
            if a["name"] in ("time", "angle", "z") and (ax.N if ax.kind == "pat" else ax.n) > 2 and not four and a.get("xs") is None:
                ops += ["integrate", "derivate", "antiderivate", "mean", "rms"]
            case["reqs"][i] = {"k": "op", "op": draw(st.sampled_from(ops))}
        elif d <= 2 and r["k"] in ("whole", "idx", "idxs", "range", "smallestperiod", "oneperiod") and a["kind"] != "comp" and AXU[a["unit"]]:
            r["u"] = "{%s}" % AXU[a["unit"]]
    case["funit"] = draw(st.sampled_from(["SI", "SI", "T", "mT", "G"]))
    f["norms"] = {"ref": {"k": "ref", "ref": draw(st.sampled_from([1.0, 2e-5, 4.0]))}}
    n = sum(r is not None for r in case["reqs"])
    case["perm"] = draw(st.permutations(list(range(n))))
    return case


def scale_to(u):
    return {"SI": 1.0, "T": 1.0, "mT": 1e3, "G": 1e4}[u]


def run(case, note):
    f = Field(case["field"])
    args, data = C09.args_of(case)
    permuted = [args[i] for i in case["perm"]]
    what = "get_data_along(%s, unit=%s)" % (", ".join(permuted), case["funit"])
    with observing("building the field"):
        obj = field_obj(case["field"])
    res = query.ask(obj, args, data, is_squeeze=False, unit=case["funit"])
    with observing("answer"):
        want = np.array(res[f.symbol])
        kept = []
        for ax, r in zip(f.axes, case["reqs"]):
            if r is None:
                continue
            name = fourier.PARTNER[ax.name] if r.get("ft") else ax.name
            if not isinstance(res[name], str):
                kept.append((name, np.array(res[name]), ax, r))
    with observing(what):
        sub = obj.get_data_along(*permuted, axis_data=data, unit=case["funit"])
        got_names = [a.name for a in sub.axes]
        keep_values = np.array(sub.values)
    expect(got_names == [k[0] for k in kept], "%s has axes %r instead of %r", what, got_names, [k[0] for k in kept])
    ft = any(r and r.get("ft") for r in case["reqs"])
    with observing(what):
        meta = (sub.name, sub.symbol, sorted(sub.normalizations), sub.normalizations["ref"].ref, sub.is_real)
        unit = sub.unit
    expect(meta == (obj.name, f.symbol, ["ref"], case["field"]["norms"]["ref"]["ref"], f.is_real), "%s has name, symbol, reference %r", what, meta)
    if not any(r and r["k"] == "op" and r["op"] in ("integrate", "derivate", "antiderivate") for r in case["reqs"]):
        expect(unit == ("T" if case["funit"] == "SI" else case["funit"]), "%s has unit %r", what, unit)
    nt = False
    for (name, x, ax, r), i in zip(kept, range(len(kept))):
        with observing(what):
            u = sub.axes[i].unit
            comp = bool(sub.axes[i].is_components)
        wu = r["u"].strip("{}") if r.get("u") else {"freqs": "Hz", "wavenumber": "dimless"}.get(name, ax.unit)
        expect(u == wu, "%s: axis %s has unit %r instead of %r", what, name, u, wu)
        expect(comp == (ax.kind == "comp"), "%s: axis %s is %sa component axis", what, name, "" if comp else "not ")
        nt = nt or len(x) > 1
        note(r["k"] if not r.get("ft") else "fourier/" + r["k"])
    if kept:
        folded = []
        whole = []
        W, xs = want, [k[1] for k in kept]
        for name, x, ax, r in kept:
            # folded requests are read back folded
            fold = r["k"] == "smallestperiod" or (r["k"] == "op" and r["op"] in ("derivate", "antiderivate"))
            whole.append(name + ("[smallestperiod]" if fold and ax.kind not in ("comp", "pat") else ""))
        with observing("query of the result of " + what):
            back = sub.get_along(*whole)
            v = back[f.symbol]
            coords = [back[k[0]] for k in kept]
        same(v, np.squeeze(want), "field answered by the result of " + what, rtol=1e-9, scale=scale_of(f.full, want))
        for (name, x, ax, r), c in zip(kept, coords):
            same_coords(c, x, "axis %s answered by the result of %s" % (name, what))
        # a folded axis still unfolds
        for (name, x, ax, r), i in zip(kept, range(len(kept))):
            if r["k"] == "smallestperiod" and ax.sym and not r.get("u"):
                with observing("length of the result of " + what):
                    L = sub.axes[i].get_length()
                expect(L == ax.N, "%s: axis %s unfolds to %d samples instead of %d", what, name, L, ax.N)
    # nothing shared with the original
    with observing("modifying the result of " + what):
        sub.values[...] = -12345.0
        sub.normalizations["ref"].ref = 77.0
        sub.normalizations["other"] = norm_obj({"k": "ref", "ref": 3.0})
        for a in sub.axes:
            a.symmetries["period"] = 7
            a.normalizations["other"] = norm_obj({"k": "ref", "ref": 3.0})
            if a.is_components:
                a.values[0] = "zz"
            elif hasattr(a, "values") and not hasattr(a, "initial"):
                a.values[...] = -1.0
    again = query.ask(obj, args, data, is_squeeze=False, unit=case["funit"])
    with observing("answer"):
        same(again[f.symbol], want, "original field after modifying the result of " + what, rtol=0)
        expect(sorted(obj.normalizations) == ["ref"], "normalizations shared with the result of %s", what)
        expect(obj.normalizations["ref"].ref == case["field"]["norms"]["ref"]["ref"], "reference value shared with the result of %s", what)
        for name, x, ax, r in kept:
            same_coords(again[name], x, "original axis %s after modifying the result of %s" % (name, what), rtol=0)
        for a, ax in zip(obj.axes, f.axes):
            expect(dict(a.symmetries) == dict(norm_sym(ax)), "symmetries of axis %s shared with the result of %s", ax.name, what)
            expect(not a.normalizations, "normalizations of axis %s shared with the result of %s", ax.name, what)
    return nt


def norm_sym(ax):
    d = {}
    if ax.sym:
        d[ax.sym[0]] = ax.sym[1]
        if ax.n == 1:
            d["delta"] = ax.spec["dx"]
    return d


SUBS = [
    Sub("original", cases(False), run, 5000),
    Sub("fourier", cases(True), run, 3500),
]
