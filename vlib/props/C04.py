"""Folded periodic and antiperiodic axes unfold exactly."""

import numpy as np
from hypothesis import strategies as st

from vlib import gen, query
from vlib.build import axis_obj, field_obj
from vlib.core import Sub, expect, observing, raises, same, same_coords
from vlib.model import Ax, Field

RULE = (
    "axes with (anti)periods, any start/step/size (one stored sample included), fields on 1-3 of them, and whole axes "
    "folded into periods; non-trivial: the axis really has a symmetry of 2 or more (anti)periods"
)


@st.composite
def sym_axis(draw, name="time", unit="s"):
    a = draw(gen.num_axis(name, unit, psym=0.85, even=False, kinds=("d1", "lin"), maxrep=8, sizes=st.one_of(st.integers(1, 6), gen.SIZES)))
    if a["n"] == 1 and a["kind"] == "lin":
        a["form"] = draw(st.sampled_from([0, 2]))
    if a["sym"] is None and draw(st.booleans()):
        a["sym"] = ["period", 1]  # a single period is no symmetry
    return a


def part(ax, how):
    """Sizes announced for a request of the axis, None when it must be refused."""
    if how == "is_smallestperiod":
        return ax.n
    if how == "is_oneperiod":
        return ax.one()
    if how == "is_antiperiod":
        return ax.n if ax.aper else None
    return ax.N


def run_axis(case, note):
    ax = Ax(case["axis"])
    with observing("building the axis"):
        obj = axis_obj(case["axis"])
    order = case["order"]
    names = ["", "is_smallestperiod", "is_oneperiod", "is_antiperiod"]
    for k in order:
        how = names[k]
        kw = {how: True} if how else {}
        n = part(ax, how)
        if n is None:
            raises(["AxisError"], lambda: obj.get_values(**kw), "antiperiod of an axis without antiperiodicity")
            raises(["AxisError"], lambda: obj.get_length(**kw), "antiperiod length of an axis without antiperiodicity")
            continue
        with observing("axis values %s" % how):
            v = obj.get_values(**kw)
        same_coords(v, ax.full[:n], "axis values %s" % how, scale=np.abs(ax.full).max())
        with observing("axis length %s" % how):
            m = obj.get_length(**kw)
        expect(m == n, "axis length %s: %r instead of %d", how, m, n)
    with observing("periodicity"):
        per = obj.get_periodicity()
        has = obj.has_period()
    rep = ax.sym[1] if ax.sym else 1
    expect(tuple(per) == (rep, ax.aper), "periodicity reported as %r, built with %r", per, ax.sym)
    expect(bool(has) == (rep > 1), "has_period is %r with %r", has, ax.sym)
    note("%s/%s/n%s" % (ax.kind, (ax.sym or ["plain"])[0], "1" if ax.n == 1 else "+"))
    return rep > 1


axis_cases = st.fixed_dictionaries({"axis": sym_axis(), "order": st.permutations([0, 1, 2, 3])})


@st.composite
def fold_cases(draw):
    per = draw(st.integers(1, 6))
    aper = draw(st.booleans())
    rep = 2 * per if aper else per
    divisible = draw(st.integers(0, 6)) > 0
    n = rep * draw(st.integers(1, 8)) if divisible else draw(st.integers(2, 30))
    a = draw(gen.num_axis("angle", "rad", psym=0, kinds=("d1", "lin"), sizes=st.just(max(n, 2))))
    inner = draw(st.sampled_from([1, 1, 1, 2, 3, 4]))
    if inner > 1 and a["n"] % inner == 0 and a["n"] // inner > 1:
        # the axis to fold is itself stored on one period
        a["n"] //= inner
        a["sym"] = [draw(st.sampled_from(["period", "antiperiod"])) if inner % 2 == 0 else "period", inner]
    if draw(st.booleans()):
        s = draw(st.sampled_from([2.0, -1.0, 0.5]))
        a["norms"] = {"vec": {"k": "vector", "vector": [1.0 + s * i for i in range(a["n"])]}}
    return {"axis": a, "per": per, "aper": aper}


def run_fold(case, note):
    ax = Ax(case["axis"])
    with observing("building the axis"):
        obj = axis_obj(case["axis"])
    rep = case["per"] * (2 if case["aper"] else 1)
    with observing("folding the axis"):
        new = obj.get_axis_periodic(case["per"], is_aper=case["aper"])
        whole = new.get_values()
        length = new.get_length()
        stored = new.get_values(is_smallestperiod=True)
        again = obj.get_values()
    sc = np.abs(ax.full).max()
    same_coords(whole, ax.full, "unfolded axis after folding", scale=sc)
    expect(length == ax.N, "length after folding %r instead of %d", length, ax.N)
    same_coords(again, ax.full, "original axis after folding", scale=sc)
    if ax.N % rep == 0:
        n = ax.N // rep
        same_coords(stored, ax.full[:n], "stored part of the folded axis", scale=sc)
        with observing("periodicity of the folded axis"):
            per = tuple(new.get_periodicity())
        expect(per == (rep, case["aper"]), "folded axis reports periodicity %r", per)
    if case["axis"].get("norms"):
        vec = case["axis"]["norms"]["vec"]["vector"]
        d = vec[1] - vec[0]
        full = vec[0] + d * np.arange(ax.N)
        with observing("normalization of the original axis"):
            o = obj.get_values(normalization="vec")
        same(o, full, "normalization of the original axis after folding")
        if ax.N % rep or ax.N // rep > 1:
            # (the spacing of a vector folded to one sample is not stored)
            with observing("normalization of the folded axis"):
                w = new.get_values(normalization="vec")
            same(w, full, "normalization of the folded axis")
    note("%s/rep%d/%s" % (ax.kind, rep, "exact" if ax.N % rep == 0 else "indivisible"))
    return rep > 1


def run_field(case, note):
    f = Field(case["field"])
    coords, A = query.evaluate(case, f)
    args, data = query.arguments(case)
    with observing("building the field"):
        obj = field_obj(case["field"])
    res = query.ask(obj, args, data)
    query.check_answer(res, f.symbol, coords, A, args)
    with observing("symmetries and axes of the field"):
        has = bool(obj.has_period())
        names = [a.name for a in obj.get_axes()]
        each = [[a.name for a in obj.get_axes(n)] for n in f.names]
    expect(has == any(ax.sym for ax in f.axes), "has_period is %r with %r", has, [ax.sym for ax in f.axes])
    expect(names == f.names and each == [[n] for n in f.names], "axes %s, one by one %s", names, each)
    for ax, r, x in coords:
        note("%s/%s/%s" % (ax.kind, (ax.sym or ["plain"])[0], r["k"]))
    return any(ax.sym for ax, r, x in coords)


@st.composite
def linear_cases(draw):
    a = draw(gen.num_axis("time", "s", psym=0.3, kinds=("d1", "irr"), steps=gen.STEPS + [1e-6, 1e-9], starts=gen.STARTS + [1000.0]))
    return {"axis": a}


def run_linear(case, note):
    """Recognising a linear spacing never changes the coordinates."""
    ax = Ax(case["axis"])
    with observing("building the axis"):
        obj = axis_obj(case["axis"])
    with observing("to_linspace"):
        new = obj.to_linspace()
        v = new.get_values()
        n = new.get_length()
        u = new.unit
        name = new.name
        cls = type(new).__name__
    step = np.abs(np.diff(ax.stored)).min()
    same(v, ax.full, "coordinates after conversion to linear spacing", scale=1.0, rtol=1e-6 * step + 1e-12 * np.abs(ax.full).max())
    expect(n == ax.N and u == ax.unit and name == ax.name, "length, unit or name changed: %r %r %r", n, u, name)
    uniform = case["axis"].get("xs") is None
    if uniform and case["axis"]["x0"] in (0.0, 1.0, -1.0):
        expect(cls == "DataLinspace", "a linear spacing was not recognised")
    note("uniform" if uniform else "irregular")
    return True


PER = ("whole", "oneperiod", "antiperiod", "smallestperiod")
SUBS = [
    Sub("axis", axis_cases, run_axis, 4000),
    Sub("fold", fold_cases(), run_fold, 4000),
    Sub("field", query.query(PER, naxes=(1, 3), psym=0.8, even=False, pcomp=0.1, axkinds=("d1", "lin")), run_field, 4000),
    Sub("linear", linear_cases(), run_linear, 1500),
]
