"""Comparing fields aligns them on common coordinates."""

import copy

import numpy as np
from hypothesis import strategies as st

from vlib import gen, query
from vlib.build import field_obj
from vlib.core import Sub, expect, observing, same, same_coords, same_strings
from vlib.model import Ax, Field, interp
from vlib.props import C15
from vlib.snapshot import freeze

RULE = (
    "two or three fields over the same axes in any order, each axis on the same or on another grid (start, step, length, symmetry), compared by value, magnitude, "
    "phase or level along any request; non-trivial: two fields with different grids share at least two samples of one of them"
)
KINDS = ("whole", "whole", "whole", "idx", "interval", "gt", "lt", "oneperiod", "smallestperiod", "all")


@st.composite
def cases(draw):
    case = draw(query.query(KINDS, pomit=0.1, maxfull=600, steps=gen.DYADIC, axkinds=("d1", "lin", "irr"), dtypes=("real", "int", "complex"), psym=0.3, starts=[0.0, 0.0, 1.0, -2.5]))
    f = case["field"]
    f["scale"] = 1.0
    case["others"] = []
    for _ in range(draw(st.sampled_from([1, 1, 1, 2]))):
        g = copy.deepcopy(f)
        g["vseed"] = draw(gen.seeds)
        g["symbol"] = draw(st.sampled_from(["X", "Y"]))
        for i, a in enumerate(g["axes"]):
            if a["kind"] != "comp" and draw(st.integers(0, 2)) > 0:
                full = Ax(a).full
                b = draw(gen.num_axis(a["name"], a["unit"], steps=[a["dx"], a["dx"], a["dx"] / 2, a["dx"] * 2], starts=[a["x0"], a["x0"], float(full[len(full) // 2]), a["x0"] - a["dx"] / 2], nmax=len(full) + 3, psym=0.2))
                g["axes"][i] = b
        order = draw(st.permutations(list(range(len(g["axes"]))))) if draw(st.integers(0, 3)) == 0 else list(range(len(g["axes"])))
        case["others"].append({"field": dict(g, axes=[g["axes"][i] for i in order]), "order": order})
    case["how"] = draw(st.sampled_from(["value", "value", "magnitude", "phase", "level"]))
    n = draw(st.integers(1, 4))
    for c in case["others"]:
        c["field"]["unit"] = f["unit"] = "Pa"
        c["field"]["norms"] = f["norms"] = {"ref": {"k": "ref", "ref": 2e-5}} if n > 1 else {}
    return case


def answer(f, reqs, how):
    """Model answer, axes in the order of the field: name -> coordinates, array."""
    out, A = query.evaluate({"reqs": reqs}, f)
    if how == "magnitude":
        A = np.abs(A)
    elif how == "phase":
        A = np.angle(A)
    elif how == "level":
        A = C15.level(A, "Pa", (f.spec.get("norms") or {}).get("ref", {}).get("ref"))
    return {ax.name: x for ax, r, x in out}, A


def ok_request(ax, r):
    """The request selects something on this axis too."""
    if r is None or r["k"] in ("whole", "all", "oneperiod", "smallestperiod"):
        return True
    if r["k"] == "idx":
        return r["i"] < ax.N
    lo, hi = r.get("a", -np.inf), r.get("b", np.inf)
    return bool(((ax.full >= lo) & (ax.full <= hi)).any())


def run(case, note):
    fields = [Field(case["field"])] + [Field(c["field"]) for c in case["others"]]
    reqs = [case["reqs"]] + [[case["reqs"][i] for i in c["order"]] for c in case["others"]]
    for f, rr in zip(fields, reqs):
        if not all(ok_request(ax, r) for ax, r in zip(f.axes, rr)):
            note("nothing selected")
            return False
    how = case["how"]
    if how == "phase" and any((f.full == 0).any() or (not f.is_real and (f.full.imag == 0).any()) for f in fields):
        note("phase of zero")  # depends on the sign of zero
        return False
    answers = [answer(f, rr, how) for f, rr in zip(fields, reqs)]
    names = [a["name"] for a, r in zip(case["field"]["axes"], case["reqs"]) if r is not None]
    for n in names:
        if len({len(c[n]) > 1 for c, A in answers}) > 1:
            note("single point against axis")
            return False
        xs = [c[n] for c, A in answers]
        if fields[0].ax(n).is_num and len(xs[0]) > 1:
            lo, hi = max(x[0] for x in xs), min(x[-1] for x in xs)
            if max(((x >= lo) & (x <= hi)).sum() for x in xs) < 2:
                note("no overlap")
                return False
    args, data = query.arguments(case)
    with observing("building the fields"):
        objs = [field_obj(case["field"])] + [field_obj(c["field"]) for c in case["others"]]
    before = [freeze(o) for o in objs]
    fn = {"value": "compare_along", "magnitude": "compare_magnitude_along", "phase": "compare_phase_along", "level": "compare_magnitude_along"}[how]
    kw = {"unit": "dB"} if how == "level" else {}
    what = "%s(%s)" % (fn, ", ".join(args))
    with observing(what):
        res = getattr(objs[0], fn)(*args, data_list=objs[1:], **kw)
        got = [res[fields[0].symbol]] + [res["%s_%d" % (f.symbol, i)] for i, f in enumerate(fields[1:])]
        coords = {n: res[n] for n in names}
    moved = False
    vals = []
    for f, (c, A) in zip(fields, answers):
        A = np.moveaxis(A, [f.names.index(n) for n in fields[0].names], range(A.ndim))
        vals.append(A)
    for n in names:
        i = fields[0].names.index(n)
        xs = [c[n] for c, A in answers]
        if len(xs[0]) == 1 or not fields[0].ax(n).is_num:
            if fields[0].ax(n).is_num:
                same_coords(coords[n], xs[0], "axis %s of %s" % (n, what))
            else:
                with observing(what):
                    g = [str(s) for s in coords[n]]
                same_strings(g, [str(s) for s in xs[0]], "axis %s of %s" % (n, what))
            continue
        lo, hi = max(x[0] for x in xs), min(x[-1] for x in xs)
        inside = [np.array([v for v in x if lo <= v <= hi]) for x in xs]
        with observing("axis %s of %s" % (n, what)):
            g = np.asarray(coords[n], dtype=float)
        if len(g) < 2:
            expect(len(xs) > 2, "axis %s of %s: %d coordinates although the fields overlap from %g to %g", n, what, len(g), lo, hi)
            note("overlap of three fields reduced to a point")
            return False
        best = max(len(v) for v in inside)
        if len(xs) == 2:
            cand = [v for v in inside if len(v) == best]
            expect(any(v.shape == g.shape and np.allclose(v, g, rtol=0, atol=1e-9) for v in cand), "axis %s of %s: coordinates %s are not the samples of the finest axis in the common range %g..%g", n, what, g, lo, hi)
        else:
            expect(g[0] >= lo - 1e-9 and g[-1] <= hi + 1e-9, "axis %s of %s: coordinates %s leave the common range %g..%g", n, what, g, lo, hi)
            run_of = [any(v.shape == (len(g),) and np.allclose(v, g, rtol=0, atol=1e-9) for v in (x[k : k + len(g)] for k in range(len(x)))) for x in inside]
            expect(any(run_of), "axis %s of %s: coordinates %s are samples of none of the fields", n, what, g)
        if not all(x.shape == xs[0].shape and np.array_equal(x, xs[0]) for x in xs):
            moved = True
        vals = [interp(x, v, g, i) for x, v in zip(xs, vals)]
    for k, (f, v) in enumerate(zip(fields, vals)):
        same(got[k], np.squeeze(v), "field %d of %s" % (k, what), rtol=1e-9, scale=200.0 if how == "level" else max(4.0, float(np.abs(f.full).max())))
    for o, b in zip(objs, before):
        C15.untouched(o, b, what)
    note("%s/%d fields/%s" % (how, len(fields), "other grids" if moved else "same grids"))
    return moved


SUBS = [Sub("comparisons", cases(), run, 6000)]
