"""Reducing the declared periodicity keeps the field on the unfolded axes."""

import copy

import numpy as np
from hypothesis import strategies as st

from vlib import gen
from vlib.build import VectorField, field_obj
from vlib.core import Sub, expect, observing, same, same_coords
from vlib.model import Ax, Field, unfold, values_of
from vlib.props.C23 import LABELS, SYMBOLS
from vlib.snapshot import difference, freeze

RULE = (
    "vector field with one to three components in either frame on time, angle and further axes (any order, start, kind, period or antiperiod, patterns), "
    "asked for every smaller number of periods with or without antiperiodicity; non-trivial: the number of periods of an axis really changes"
)


def periods(a):
    """Number of whole periods and antiperiodicity declared on an axis."""
    s = a.get("sym")
    if not s:
        return 1, False
    return (s[1] // 2, True) if s[0] == "antiperiod" else (s[1], False)


@st.composite
def cases(draw):
    need = draw(st.sampled_from([("time", "angle"), ("time", "angle"), ("time",), ("angle",)]))
    f = draw(gen.field(need=need, naxes=(len(need), 3), psym=0.8, pcomp=0.2, ppat=0.2, axkinds=("d1", "lin"), maxfull=2500, dtypes=("real", "int", "complex")))
    names = draw(st.sampled_from([("radial",), ("radial", "tangential"), ("radial", "tangential", "axial"), ("comp_x", "comp_y"), ("tangential", "comp_z")]))
    case = {"field": f, "comps": {n: draw(gen.seeds) for n in names}}
    for k, n in (("t", "time"), ("a", "angle")):
        a = [x for x in f["axes"] if x["name"] == n]
        p, anti = periods(a[0]) if a else (1, False)
        case["per_" + k] = draw(st.sampled_from([d for d in range(1, p + 1) if p % d == 0]))
        case["anti_" + k] = draw(st.sampled_from([None, True, False] if k == "a" else [True, False, "default"]))
    return case


def run(case, note):
    f = Field(case["field"])
    with observing("building"):
        comps = {}
        for n, seed in case["comps"].items():
            s = copy.deepcopy(case["field"])
            s.update(vseed=seed, symbol=SYMBOLS[n], name=LABELS[n])
            comps[n] = field_obj(s)
        vec = VectorField(name="v", symbol="B", components=comps)
    before = freeze(vec)
    kw = {"is_aper_a_new": case["anti_a"]}
    if case["anti_t"] != "default":
        kw["is_aper_t_new"] = case["anti_t"]
    what = "change_periodicity(%d, %d, %s)" % (case["per_a"], case["per_t"], kw)
    with observing(what):
        new = vec.change_periodicity(case["per_a"], case["per_t"], **kw)
        expect(list(new.components) == list(vec.components) and (new.name, new.symbol) == ("v", "B"), "%s: %s %s", what, list(new.components), new.name)
    d = difference(before, freeze(vec))
    expect(d is None, "%s changed the field: %s", what, d)
    change = {}
    for a in case["field"]["axes"]:
        p, anti = periods(a)
        if a["name"] in ("time", "angle") and a["kind"] != "pat":
            change[a["name"]] = p // (case["per_t"] if a["name"] == "time" else case["per_a"])
    unchanged = all(v == 1 for v in change.values())
    args = ["%s" % n for n in f.names]
    for n, seed in case["comps"].items():
        s = dict(case["field"], vseed=seed)
        want = unfold(values_of(s, tuple(a.n for a in f.axes)), f.axes)
        with observing("component %s after %s" % (n, what)):
            c = new.components[n]
            ans = c.get_along(*args, is_squeeze=False)
            got = ans[SYMBOLS[n]]
            xs = [ans[k] for k in f.names]
            stored = c.get_along(*[k if ax.kind == "comp" else k + ("[smallestpattern]" if ax.kind == "pat" else "[smallestperiod]") for k, ax in zip(f.names, f.axes)], is_squeeze=False)[SYMBOLS[n]]
            vals = np.asarray(c.values)
            syms = [dict(a.symmetries) for a in c.axes]
            desc = c.name, c.symbol, c.unit, bool(c.is_real)
        expect(desc == (LABELS[n], SYMBOLS[n], "T", f.is_real), "%s: component is %s", what, desc)
        same(got, want, "%s: unfolded values of %s" % (what, n))
        for ax, x in zip(f.axes, xs):
            if ax.kind == "comp":
                expect(list(map(str, x)) == list(ax.full), "%s: names %s", what, x)
            else:
                same_coords(x, ax.full, "%s: unfolded %s" % (what, ax.name), scale=np.abs(ax.full).max() + 1e-300)
        same(vals, stored, "%s: stored values of %s" % (what, n))
        for i, ax in enumerate(f.axes):
            if ax.name not in change:
                k = ax.n
            else:
                p, anti = periods(ax.spec)
                pn = case["per_t"] if ax.name == "time" else case["per_a"]
                asked = case["anti_t"] is True if ax.name == "time" else (anti if case["anti_a"] is None else case["anti_a"])
                k = ax.N // pn
                keep = anti and (unchanged or (asked and change[ax.name] == 1))
                if keep:
                    k //= 2
                decl = {m: v for m, v in syms[i].items() if m != "delta" and v != 1}
                wsym = {"antiperiod": 2 * pn} if keep else ({"period": pn} if pn > 1 else {})
                expect(decl == wsym, "%s: %s declared with %s instead of %s", what, ax.name, decl, wsym)
            expect(vals.shape[i] == k, "%s: %d stored samples on %s instead of %d", what, vals.shape[i], ax.name, k)
    for n, k in change.items():
        note("%s/%s" % (n, "x%d" % k if k > 1 else "kept"))
    return not unchanged


SUBS = [Sub("vector-fields", cases(), run, 4000)]
