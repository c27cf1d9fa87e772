"""Decibel levels and their sums follow the acoustic definitions."""

import copy

import numpy as np
from hypothesis import strategies as st

from vlib import gen, query
from vlib.build import field_obj
from vlib.core import Sub, expect, observing, rng, same, same_coords
from vlib.model import Ax, Field, apply
from vlib.props import C09
from vlib.snapshot import difference, freeze
from SciDataTool.Functions.conversions import dB_to_dBA, to_dB, to_dBA

RULE = (
    "spectrum (or waveform) of 1-3 axes with any reference value and unit, requested in dB or dBA through any query method with any request on each "
    "axis, its levels summed over the frequency axis with the other axes kept, sliced or reduced, speed/order maps, and the conversion functions on "
    "plain arrays; non-trivial: a level above the floor is compared"
)
KINDS = ("whole", "whole", "idx", "idxs", "range", "interval", "gt", "lt", "list", "axis_data", "smallestperiod", "oneperiod")
POOL = [("freqs", "Hz"), ("angle", "rad"), ("z", "m"), ("radius", "m"), ("loadcase", ""), ("current", "A")]
UNITS = {"Pa": 20.0, "m/s2": 20.0, "N": 20.0, "T": 20.0, "W": 10.0, "mW": 10.0, "kW": 10.0}
REFS = [None, 1.0, 2e-5, 1e-12, 1e-6, 0.5, 10.0, 25.0]
THIRDS = [
    (12.5, -63.4), (16, -56.7), (20, -50.5), (25, -44.7), (31.5, -39.4), (40, -34.6), (50, -30.2), (63, -26.2), (80, -22.5), (100, -19.1), (125, -16.1),
    (160, -13.4), (200, -10.9), (250, -8.6), (315, -6.6), (400, -4.8), (500, -3.2), (630, -1.9), (800, -0.8), (1000, 0), (1250, 0.6), (1600, 1),
    (2000, 1.2), (2500, 1.3), (3150, 1.2), (4000, 1), (5000, 0.5), (6300, -0.1), (8000, -1.1), (10000, -2.5), (12500, -4.3), (16000, -6.6), (20000, -9.3),
]


def weight(f):
    """A-weighting of IEC 61672 with the constants the library documents."""
    f = np.asarray(f, dtype=float)
    out = np.full(f.shape, -100.0)
    q = f[f != 0] ** 2
    ra = 12200.0**2 * q**2 / ((q + 20.6**2) * np.sqrt((q + 107.7**2) * (q + 737.0**2)) * (q + 12200.0**2))
    out[f != 0] = 2.0 + 20 * np.log10(ra)
    return out


def level(M, unit, ref):
    """Levels of magnitudes, never below 0 dB when a reference is given."""
    ref = 1.0 if ref is None else ref
    M = np.abs(M)
    if ref != 1.0:
        M = np.maximum(M, ref)
    pos = M > 0
    L = np.zeros(M.shape)
    L[pos] = UNITS[unit] * np.log10(M[pos] / ref)
    return L


def spread(v, i, ndim):
    shp = [1] * ndim
    shp[i] = -1
    return np.asarray(v).reshape(shp)


def reference(f):
    return f["norms"]["ref"]["ref"] if f.get("norms") else None


@st.composite
def spectra(draw, **kw):
    """Field with a frequency axis."""
    name = draw(st.sampled_from(["freqs", "freqs", "freqs", "frequency"]))
    pool = [(name, "Hz")] + POOL[1:]
    case = draw(query.query(KINDS, pomit=0.1, names=pool, need=(name,), maxfull=1200, dtypes=("real", "int", "complex", "complex"), cls="DataFreq", ppat=0.05, steps=gen.STEPS, **kw))
    f = case["field"]
    f["scale"] = 1.0
    for i, a in enumerate(f["axes"]):
        if a["name"] == name:
            if a["dx"] in gen.DYADIC:
                c = draw(st.sampled_from([1.0, 16.0, 256.0]))
            else:
                c = draw(st.sampled_from([1.0, 50.0, 1000.0]))
            a["dx"] *= c
            a["x0"] *= c
            if a.get("xs"):
                a["xs"] = [c * x for x in a["xs"]]
            a["sym"] = None
            a["norms"] = {"elec_order": {"k": "ref", "ref": draw(st.sampled_from([50.0, 12.5]))}}
            case["reqs"][i] = draw(query.request(a, KINDS))
            case["main"] = i
    f["unit"] = draw(st.sampled_from(sorted(UNITS)))
    ref = draw(st.sampled_from(REFS))
    f["norms"] = {"ref": {"k": "ref", "ref": ref}} if ref is not None else {}
    case["unit"] = draw(st.sampled_from(["dB", "dBA"]))
    return case


@st.composite
def level_cases(draw):
    case = draw(spectra())
    case["how"] = draw(st.sampled_from(["magnitude", "magnitude", "along", "data"]))
    r = case["reqs"][case["main"]]
    if r["k"] in ("whole", "idx", "idxs", "range"):
        r["u"] = draw(st.sampled_from(["", "", "{kHz}", "{Hz}", "->elec_order"]))
    return case


def usable(L, M, scale, ref):
    """Levels that rounding cannot change: without a floor, the level of a
    magnitude that should vanish is arbitrary."""
    if ref is None or ref == 1.0:
        return np.abs(M) > 1e-9 * scale
    return np.ones(M.shape, dtype=bool)


def compare(got, L, ok, what):
    with observing("levels " + what):
        got = np.asarray(got, dtype=float)
    expect(got.shape == L.shape, "levels %s: shape %s instead of %s", what, got.shape, L.shape)
    same(np.where(ok, got, 0.0), np.where(ok, L, 0.0), "levels " + what, rtol=1e-8, scale=100.0)


def built(case):
    with observing("building the field"):
        return field_obj(case["field"])


def untouched(obj, before, what):
    with observing("comparing " + what):
        d = difference(before, freeze(obj))
    expect(d is None, "%s altered the field: %s", what, d)


def run_levels(case, note):
    f = Field(case["field"])
    obj = built(case)
    before = freeze(obj)
    args, data = query.arguments(case)
    out, A = query.evaluate(case, f)
    ref = reference(case["field"])
    L = level(A, f.unit, ref)
    i = case["main"]
    if case["unit"] == "dBA":
        fr = next(x for ax, r, x in out if ax is f.axes[i])
        L = L + spread(weight(fr), i, A.ndim)
    what = "%s(%s, unit=%s)" % (case["how"], ", ".join(args), case["unit"])
    kw = {"axis_data": data} if data else {}
    with observing(what):
        if case["how"] == "magnitude":
            res = obj.get_magnitude_along(*args, unit=case["unit"], **kw)
        elif case["how"] == "along":
            res = obj.get_along(*args, unit=case["unit"], **kw)
        else:
            d = obj.get_data_along(*args, unit=case["unit"], **kw)
            expect(d.unit == case["unit"], "%s: unit of the extracted field is %r", what, d.unit)
            res = {f.symbol: np.squeeze(d.values)}
    ok = usable(L, A, np.abs(f.full).max(), ref)
    compare(res[f.symbol], np.squeeze(L), np.squeeze(ok), what)
    if case["how"] != "data":
        for ax, r, x in out:
            c = {"{kHz}": 1e-3, "->elec_order": 1.0 / (ax.spec.get("norms") or {}).get("elec_order", {"ref": 1.0})["ref"]}.get(r.get("u", ""), 1.0)
            with observing("axis " + what):
                got = res[ax.name]
            s = query.axis_scale(ax)
            same_coords(got, x * c if ax.is_num else x, "axis %s %s" % (ax.name, what), scale=s * c if s else s)
    untouched(obj, before, what)
    note("%s/%s/%s" % (case["how"], case["unit"], case["reqs"][i]["k"] + case["reqs"][i].get("u", "")))
    return bool((L[ok] > 0).any())


# ------------------------------------------------------------- sums of levels


@st.composite
def sum_cases(draw):
    case = draw(spectra(naxes=(1, 3)))
    for i, a in enumerate(case["field"]["axes"]):
        if i == case["main"]:
            case["reqs"][i] = {"k": "op", "op": draw(st.sampled_from(["sum", "rss"]))}
        elif draw(st.integers(0, 3)) == 0:
            case["reqs"][i] = {"k": "op", "op": "sum"}
    return case


def run_sums(case, note):
    f = Field(case["field"])
    obj = built(case)
    before = freeze(obj)
    args, data = query.arguments(case)
    A = f.full
    out = []
    for i, (ax, r) in enumerate(zip(f.axes, case["reqs"])):
        if r is None:
            A = np.take(A, [0], axis=i)
        elif r["k"] != "op":
            x, A = apply(ax, A, i, r)
            out.append((ax, x))
    M = np.abs(A)
    for i, (ax, r) in enumerate(zip(f.axes, case["reqs"])):
        if r is not None and r["k"] == "op" and i != case["main"]:
            M = M.sum(axis=i, keepdims=True)
    ref = reference(case["field"])
    L = level(M, f.unit, ref)
    i = case["main"]
    if case["unit"] == "dBA":
        L = L + spread(weight(f.axes[i].full), i, A.ndim)
    # a magnitude that should vanish has an arbitrary level when nothing bounds it
    ok = usable(L, M, np.abs(f.full).max(), ref).all(axis=i, keepdims=True)
    S = 10 * np.log10((10 ** (L / 10)).sum(axis=i, keepdims=True))
    ok = ok & (np.abs(S - 2) > 1e-6)
    S = np.where(S < 2, 0.0, S)
    what = "get_magnitude_along(%s, unit=%s)" % (", ".join(args), case["unit"])
    with observing(what):
        res = obj.get_magnitude_along(*args, unit=case["unit"], **({"axis_data": data} if data else {}))
    compare(res[f.symbol], np.squeeze(S), np.squeeze(ok), what)
    for ax, x in out:
        with observing("axis " + what):
            got = res[ax.name]
        same_coords(got, x, "axis %s %s" % (ax.name, what), scale=query.axis_scale(ax))
    untouched(obj, before, what)
    note("%s/%s/%d axes kept" % (case["unit"], case["reqs"][i]["op"], len(out)))
    return bool((S[ok] > 0).any())


# ------------------------------------------------------------- waveforms


@st.composite
def wave_cases(draw):
    case = draw(C09.cases(both=None, maxfull=800))
    f = case["field"]
    f["scale"] = 1.0
    f["unit"] = draw(st.sampled_from(sorted(UNITS)))
    f["norms"] = {"ref": {"k": "ref", "ref": draw(st.sampled_from([r for r in REFS if r not in (None, 1.0)]))}}
    case["unit"] = "dB"
    for a, r in zip(f["axes"], case["reqs"]):
        if a["name"] == "time" and r and r.get("ft"):
            case["unit"] = draw(st.sampled_from(["dB", "dBA"]))
            if draw(st.integers(0, 2)) == 0:
                case["op"] = draw(st.sampled_from(["sum", "rss"]))
                r.clear()
                r.update(k="whole", ft=True)
            elif r["k"] in ("whole", "idx", "idxs", "range"):
                r["u"] = draw(st.sampled_from(["", "", "{kHz}"]))
    return case


def run_wave(case, note):
    f = Field(case["field"])
    obj = built(case)
    before = freeze(obj)
    out, A = C09.model(case, f)
    args, data = C09.args_of(case)
    ref = reference(case["field"])
    L = level(A, f.unit, ref)
    times = [i for i, (ax, r) in enumerate(zip(f.axes, case["reqs"])) if ax.name == "time" and r and r.get("ft")]
    if case["unit"] == "dBA":
        fr = next(x for name, ax, r, x in out if name == "freqs")
        L = L + spread(weight(fr), times[0], A.ndim)
    ok = np.ones(L.shape, dtype=bool)
    if case.get("op"):
        args = ["freqs=" + case["op"] if a == "freqs" else a for a in args]
        L = 10 * np.log10((10 ** (L / 10)).sum(axis=times[0], keepdims=True))
        ok = np.abs(L - 2) > 1e-6
        L = np.where(L < 2, 0.0, L)
    what = "get_magnitude_along(%s, unit=%s)" % (", ".join(args), case["unit"])
    with observing(what):
        res = obj.get_magnitude_along(*args, unit=case["unit"], **({"axis_data": data} if data else {}))
    compare(res[f.symbol], np.squeeze(L), np.squeeze(ok), what)
    untouched(obj, before, what)
    note("wave/%s/%s" % (case["unit"], case.get("op", "lines")))
    return bool((L > 0).any())


# ------------------------------------------------------------- speed/order maps


@st.composite
def map_cases(draw):
    ns, no = draw(st.integers(1, 6)), draw(st.integers(1, 5))
    axes = [
        {"name": "speed", "unit": "rpm", "kind": "d1", "n": ns, "x0": draw(st.sampled_from([0.0, 100.0, 600.0])), "dx": draw(st.sampled_from([100.0, 1000.0, 60.0])), "sym": None},
        {"name": "order", "unit": "", "kind": "comp", "names": ["H%d" % k for k in draw(st.lists(st.integers(0, 60), min_size=no, max_size=no, unique=True))]},
    ]
    if draw(st.booleans()):
        axes.insert(draw(st.integers(0, 2)), draw(gen.num_axis("z", "m", psym=0.3, nmax=5)))
    if draw(st.integers(0, 3)) == 0:
        axes.reverse()
    f = {"cls": "DataFreq", "axes": axes, "vseed": draw(gen.seeds), "dtype": draw(st.sampled_from(["real", "complex"])), "symbol": "X"}
    f["unit"] = draw(st.sampled_from(sorted(UNITS)))
    f["norms"] = {"ref": {"k": "ref", "ref": draw(st.sampled_from([2e-5, 1e-6, 0.5]))}}
    reqs = []
    for a in axes:
        if draw(st.integers(0, 3)) == 0 and a["name"] != "z":
            reqs.append({"k": "op", "op": draw(st.sampled_from(["sum", "rss"]))})
        else:
            reqs.append(draw(query.request(a, ("whole", "whole", "idxs", "idx", "range"))))
    return {"field": f, "reqs": reqs, "unit": draw(st.sampled_from(["dBA", "dBA", "dB"])), "how": draw(st.sampled_from(["magnitude", "along", "data"]))}


def run_map(case, note):
    f = Field(case["field"])
    obj = built(case)
    args, data = query.arguments(case)
    ops = [i for i, r in enumerate(case["reqs"]) if r["k"] == "op"]
    how = "magnitude" if ops else case["how"]
    out, A = query.evaluate(dict(case, reqs=[{"k": "whole"} if r["k"] == "op" else r for r in case["reqs"]]), f)
    L = level(A, f.unit, reference(case["field"]))
    if case["unit"] == "dBA":
        c = {ax.name: (i, x) for i, (ax, r, x) in enumerate(out)}
        F = spread(c["speed"][1], c["speed"][0], A.ndim) * spread([int(s[1:]) for s in c["order"][1]], c["order"][0], A.ndim) / 60.0
        L = L + weight(F)
    ok = np.ones(np.squeeze(L).shape, dtype=bool)
    if ops:
        L = 10 * np.log10((10 ** (L / 10)).sum(axis=tuple(ops), keepdims=True))
        ok = np.abs(np.squeeze(L) - 2) > 1e-6
        L = np.where(L < 2, 0.0, L)
    what = "%s(%s, unit=%s)" % (how, ", ".join(args), case["unit"])
    with observing(what):
        if how == "magnitude":
            got = obj.get_magnitude_along(*args, unit=case["unit"])[f.symbol]
        elif how == "along":
            got = obj.get_along(*args, unit=case["unit"])[f.symbol]
        else:
            got = np.squeeze(obj.get_data_along(*args, unit=case["unit"]).values)
    compare(got, np.squeeze(L), ok, what)
    note("map/%s/%s/%d ops" % (case["unit"], how, len(ops)))
    return bool((L > 0).any())


# ------------------------------------------------------------- given weighting


@st.composite
def weight_cases(draw):
    kinds = ("whole", "whole", "idxs", "idx", "range")
    case = draw(query.query(kinds, pomit=0.1, names=[("loadcase", ""), ("z", "m"), ("current", "A")], cls="DataFreq", psym=0, pcomp=0.3, naxes=(1, 3)))
    f = case["field"]
    f["scale"] = 1.0
    n = draw(st.integers(1, len(f["axes"])))
    shape = [Ax(a).n for a in f["axes"][:n]]
    w = (rng(draw(gen.seeds)).randint(-40, 8, size=shape) / 4.0).tolist()
    f["unit"] = draw(st.sampled_from(sorted(UNITS)))
    f["norms"] = {"ref": {"k": "ref", "ref": draw(st.sampled_from([2e-5, 1e-6, 0.5]))}, "A-weight": {"k": "vector", "vector": w}}
    return case


def run_weight(case, note):
    f = Field(case["field"])
    obj = built(case)
    args, data = query.arguments(case)
    out, A = query.evaluate(case, f)
    W = np.array(case["field"]["norms"]["A-weight"]["vector"])
    W = W.reshape(W.shape + (1,) * (A.ndim - W.ndim)) + np.zeros(f.full.shape)
    for i, (ax, r) in enumerate(zip(f.axes, case["reqs"])):
        W = apply(ax, W, i, {"k": "idx", "i": 0} if r is None else r)[1]
    L = np.squeeze(level(A, f.unit, reference(case["field"])) + W)
    what = "get_magnitude_along(%s, unit=dBA)" % ", ".join(args)
    with observing(what):
        got = obj.get_magnitude_along(*args, unit="dBA")[f.symbol]
    compare(got, L, np.ones(L.shape, dtype=bool), what)
    note("given weighting/%d axes" % A.ndim)
    return bool((L > 0).any())


# ------------------------------------------------------------- functions


@st.composite
def func_cases(draw):
    fn = draw(st.sampled_from(["to_dB", "to_dBA", "dB_to_dBA", "thirds"]))
    n = draw(st.integers(1, 12))
    return {
        "fn": fn,
        "n": n,
        "shape": draw(st.sampled_from([[n], [n], [2, n], [1, 3, n]])) if fn == "to_dB" else [n],
        "vseed": draw(gen.seeds),
        "int": draw(st.booleans()),
        "expo": draw(st.sampled_from([0, -6, 3, 9])),
        "zeros": draw(st.booleans()),
        "unit": draw(st.sampled_from(sorted(UNITS))),
        "ref": draw(st.sampled_from([r for r in REFS if r is not None])),
        "freqs": draw(st.lists(st.sampled_from([0, 1, 10, 20, 50, 100, 440, 1000, 2500, 10000, 16000, 20000, -50, 12.5, 0.1]), min_size=n, max_size=n)),
        "iarr": draw(st.booleans()),
        "bands": draw(st.lists(st.integers(0, len(THIRDS) - 1), min_size=n, max_size=n)),
    }


def run_func(case, note):
    r = rng(case["vseed"])
    v = r.randint(1, 1000, size=case["shape"])
    if case["zeros"]:
        v = v * r.randint(0, 2, size=case["shape"])
    if not case["int"]:
        v = v / 8.0 * 10.0 ** case["expo"]
    fr = np.array(case["freqs"], dtype=float)
    if case["iarr"]:
        fr = np.array([int(x) for x in case["freqs"]])
    fn = case["fn"]
    v0, f0 = v.copy(), fr.copy()
    L = level(v, case["unit"], case["ref"])
    with observing(fn):
        if fn == "to_dB":
            got = to_dB(v, case["unit"], case["ref"])
        elif fn == "to_dBA":
            L = L + weight(fr)
            got = to_dBA(v, fr, case["unit"], case["ref"])
        elif fn == "dB_to_dBA":
            L = v + weight(fr)
            got = dB_to_dBA(v, fr)
        else:
            bands = np.array([THIRDS[b][0] for b in case["bands"]])
            L = v + np.array([THIRDS[b][1] for b in case["bands"]])
            got = dB_to_dBA(v, bands, noct=3)
    same(got, L, fn, rtol=1e-9, scale=max(100.0, float(np.abs(L).max())))
    expect(np.array_equal(v, v0) and v.dtype == v0.dtype, "%s altered its input values", fn)
    expect(np.array_equal(fr, f0) and fr.dtype == f0.dtype, "%s altered its input frequencies", fn)
    note("%s/%s" % (fn, "int" if case["int"] else "float"))
    return bool((L > 0).any())


SUBS = [
    Sub("levels", level_cases(), run_levels, 3500),
    Sub("sums", sum_cases(), run_sums, 2500),
    Sub("waveforms", wave_cases(), run_wave, 2000),
    Sub("speed-order", map_cases(), run_map, 1200),
    Sub("given-weights", weight_cases(), run_weight, 800),
    Sub("functions", func_cases(), run_func, 3000),
]
