"""Queries as displayed by plots and exports: one or two axes shown, one of them
possibly as separate curves, all other axes sliced or reduced."""

import copy
from math import pi

import numpy as np
from hypothesis import strategies as st

from vlib import fourier, gen, query
from vlib.model import Ax
from vlib.props import C09, C15

MAIN = ("whole", "whole", "whole", "interval", "gt", "lt", "oneperiod", "smallestperiod", "axis_data")
AXU = {"s": ("ms", 1e3), "m": ("mm", 1e3), "rad": ("°", 180 / pi), "A": ("kA", 1e-3)}
FIELDU = {"SI": ("T", 1.0), "T": ("T", 1.0), "mT": ("mT", 1e3)}


@st.composite
def cases(draw, ndims=(1, 1), overlay=False, kinds=MAIN, fourier_too=True, both=False, levels=True, dtypes=("real", "int"), curves=False, naxes=(1, 3)):
    n = draw(st.integers(*ndims))
    total = draw(st.integers(max(n + int(overlay), naxes[0]), max(n + int(overlay), naxes[1])))
    ft = fourier_too and draw(st.integers(0, 2)) == 0 or both
    if ft:
        need = ("time", "angle") if both else None
        f = draw(fourier.fourier_field(naxes=(total, total), both=need, maxfull=600, dtypes=("real", "int", "complex") if "complex" in dtypes else ("real", "int"), sizes=st.integers(2, 7)))
    else:
        f = draw(gen.field(naxes=(total, total), maxfull=600, dtypes=dtypes, psym=0.3, steps=gen.STEPS))
    axes = f["axes"]
    total = len(axes)
    unit = draw(st.sampled_from(["SI", "SI", "T", "mT"] + (["dB", "dB"] if levels else [])))
    f["norms"] = {}
    if unit == "dB":
        f["scale"] = 1.0
        f["unit"] = draw(st.sampled_from(["Pa", "W", "T"]))
        if f["dtype"] == "real":
            f["dtype"] = "pos"
        f["norms"] = {"ref": {"k": "ref", "ref": draw(st.sampled_from([2e-5, 1e-6, 0.5, 10.0]))}}
    order = list(draw(st.permutations(list(range(total)))))
    if ft:  # a Fourier axis first
        order.sort(key=lambda i: axes[i]["name"] not in ("time", "angle"))
    # axes shown need at least two samples
    order.sort(key=lambda i: gen.axis_len(axes[i]) < 2)
    shown, rest = order[:n], order[n:]
    over = rest.pop(0) if overlay and rest and gen.axis_len(axes[rest[0]]) > 1 else None
    case = {"field": f, "reqs": [None] * total, "shown": shown, "over": over, "unit": unit, "ft": ft}
    for c, i in enumerate(shown):
        a = axes[i]
        if ft and a["name"] in ("time", "angle") and (c == 0 or both or draw(st.booleans())):
            vals, cyc = fourier.fourier_axis(Ax(a), f["dtype"] != "complex")
            k = draw(st.sampled_from(["whole", "whole", "whole", "interval", "gt", "lt"]))
            r = {"k": "whole"} if k == "whole" else draw(gen.value_request(vals, kinds=(k,), exact=False))
            r["ft"] = True
        else:
            r = draw(query.request(a, kinds))
            if r["k"] == "axis_data" and not curves:
                r["v"] = sorted(set(r["v"]), reverse=draw(st.booleans()))
            if r["k"] in ("whole", "oneperiod", "smallestperiod") and a["unit"] in AXU and a["kind"] != "comp" and draw(st.integers(0, 2)) == 0:
                r["u"] = "{%s}" % AXU[a["unit"]][0]
        case["reqs"][i] = r
    if over is not None:
        case["reqs"][over] = draw(query.request(axes[over], ("idxs",)))
    has_ft = any(r and r.get("ft") for r in case["reqs"])
    for i in rest:
        a = axes[i]
        k = draw(st.sampled_from(["none", "idx", "idx", "op"]))
        if k == "none":
            continue
        if k == "op" and f["dtype"] in ("real", "int") and not has_ft and unit != "dB":
            case["reqs"][i] = {"k": "op", "op": draw(st.sampled_from(["max", "min", "sum"]))}
        else:
            case["reqs"][i] = draw(gen.index_request(gen.axis_len(a), kinds=("idx",)))
    return case


def arguments(case):
    """Request strings, shown axes first (the first one is the abscissa), and axis data."""
    args, data = C09.args_of(case)
    asked = [i for i, r in enumerate(case["reqs"]) if r is not None]
    order = list(case["shown"]) + [i for i in asked if i not in case["shown"]]
    return [args[asked.index(i)] for i in order], data


class Dim:
    """An axis of the expected answer."""

    def __init__(self, name, ax, r, x, pos):
        self.name, self.ax, self.req, self.pos = name, ax, r, pos
        self.x = x
        self.unit = {"freqs": "Hz", "wavenumber": ""}.get(name, ax.unit)
        if r.get("u"):
            u = AXU[ax.unit]
            self.unit = u[0]
            self.x = np.asarray(x) * u[1]
        self.is_num = ax.is_num
        if not r.get("ft"):
            self.scale = query.axis_scale(ax)
            if self.scale is not None and r.get("u"):
                self.scale *= AXU[ax.unit][1]
        else:
            self.scale = float(np.abs(x).max()) + 1e-12


def expected(case, f, positive=False):
    """Expected axes (name -> Dim) and array, one dimension per axis of the field
    (not squeezed), magnitudes or levels included.  Lines: only positive
    wavenumbers are drawn when all are asked for."""
    reqs = copy.deepcopy(case["reqs"])
    for i, r in enumerate(reqs):
        if r and r["k"] == "op":
            reqs[i] = {"k": "whole"}
        if positive and r and r.get("ft") and r["k"] == "whole" and case["field"]["axes"][i]["name"] == "angle":
            reqs[i] = {"k": "gt", "a": 0.0, "ft": True}
    out, A = C09.model(dict(case, reqs=reqs), f)
    names = [a["name"] for a in case["field"]["axes"]]
    dims = {}
    for name, ax, r, x in out:
        i = names.index(ax.name)
        if case["reqs"][i]["k"] == "op":
            A = getattr(np, case["reqs"][i]["op"])(A, axis=i, keepdims=True)
            continue
        dims[i] = Dim(name, ax, r, x, i)
    scale = float(np.abs(f.full).max())
    if any(r and r["k"] == "op" and r["op"] == "sum" for r in case["reqs"]):
        scale *= f.full.size
    unit = case["unit"]
    if unit == "dB":
        A = C15.level(A, f.unit, case["field"]["norms"]["ref"]["ref"])
        scale = float(np.abs(A).max()) + 1.0
        label = "dB"
    else:
        if any(r and r.get("ft") for r in case["reqs"]):
            A = np.abs(A)
        label, c = FIELDU[unit]
        A = A * c
        scale *= c
    return dims, A, label, scale


def vanishing(case, A, f):
    """Levels of (nearly) vanishing magnitudes depend on rounding."""
    return case["unit"] == "dB" and bool((A < 1e-6).any() and any(r and r.get("ft") for r in case["reqs"]))
