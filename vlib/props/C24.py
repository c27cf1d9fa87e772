"""Changing the rotating frame is a pure change of coordinates."""

import numpy as np
from hypothesis import strategies as st

from vlib import gen
from vlib.build import VectorField
from vlib.core import Sub, expect, observing, rng, same, same_coords
from vlib.snapshot import difference, freeze
from SciDataTool import Data1D, DataFreq, DataLinspace, DataTime

RULE = (
    "fields on (time, angle[, one more axis]) made of a few known lines, with period or antiperiod on both axes, in waveform form (real or complex) or "
    "in spectral form (any frequencies, one or both signs of wavenumber), rotated once, twice or forth and back in spectral form; arbitrary values "
    "rotated in waveform form; vector fields with different lines per component; non-trivial: non-zero speed and at least two lines"
)
SPEEDS = ((0, 1), (1, 1), (-1, 1), (1, 2), (-2, 1), (3, 1), (-3, 2), (5, 7))


# ------------------------------------------------------------- spectral form


@st.composite
def spectra(draw):
    form = draw(st.sampled_from(["time", "time", "complex", "freq", "freq", "sparse"]))
    case = {"form": form, "T": draw(st.sampled_from([1.0, 0.02, 0.5, 4.0])), "z": draw(st.sampled_from([0, 0, 1, 3]))}
    case["kind"] = draw(st.sampled_from(["lin", "d1"]))
    if form == "sparse":
        nf, nr = draw(st.integers(1, 4)), draw(st.integers(2, 5))
        case["f"] = sorted(draw(st.lists(st.sampled_from([0.0, 1.0, 2.0, 2.5, 3.0, 7.0]), min_size=nf, max_size=nf, unique=True)))
        case["r"] = sorted(draw(st.lists(st.integers(-4, 4), min_size=nr, max_size=nr, unique=True)))
        if len(set(np.diff(case["r"] + [-case["r"][0]]).tolist())) == 1:
            # looks like the axis of an even number of samples, whose lowest wavenumber stands for both signs
            case["r"].append(case["r"][-1] + 1)
        case["pt"] = case["pa"] = 1
    else:
        case["pt"], case["at"] = draw(st.sampled_from([1, 1, 2, 3])), draw(st.booleans())
        case["pa"], case["aa"] = draw(st.sampled_from([1, 1, 2, 3])), draw(st.booleans())
        # samples per stored part
        case["nt"] = draw(st.integers(2, 5)) if case["at"] else draw(st.integers(4, 9))
        case["na"] = draw(st.integers(2, 5)) if case["aa"] else draw(st.integers(4, 9))
        if form == "freq" and not case["at"]:
            case["nt"] += case["nt"] % 2
        ml = lambda n, a: [m for m in range(-(n - 1 if a else (n - 1) // 2), (n - 1 if a else (n - 1) // 2) + 1) if not a or m % 2]
        case["lines"] = draw(st.lists(st.tuples(st.sampled_from(ml(case["nt"], case["at"])), st.sampled_from(ml(case["na"], case["aa"]))), min_size=1, max_size=4, unique=True))
        case["lines"] = [list(l) for l in case["lines"]]
    # lines that only exist in some of the slices
    case["holes"] = case["z"] > 1 and draw(st.booleans())
    case["seed"] = draw(gen.seeds)
    case["speed"] = draw(st.sampled_from(SPEEDS))
    case["second"] = draw(st.sampled_from([None, "back", "more"]))
    case["atol"] = draw(st.sampled_from([None, 0]))
    return case


def lines_of(case, part=0):
    """{(frequency, wavenumber): two-sided complex amplitude per slice}; x = sum A exp(j(2 pi f t + r angle))."""
    g = rng(case["seed"] + part)
    ns = max(case["z"], 1)
    out = {}

    def add(f, r, z):
        out[(f, r)] = out.get((f, r), 0) + z

    def amp():
        z = g.uniform(0.5, 2, ns) * np.exp(1j * g.uniform(0, 6, ns))
        return z * (np.arange(ns) == g.randint(ns)) if case["holes"] else z

    if case["form"] == "sparse":
        for f in case["f"]:
            for r in case["r"]:
                add(f / case["T"], r, amp())
        return out
    for m, n in case["lines"] if part == 0 else case["lines2"]:
        f, r = m * case["pt"] / case["T"], n * case["pa"]
        z = amp()
        if case["form"] == "complex":
            add(f, r, z)
        else:
            add(f, r, z / 2)
            add(-f, -r, np.conj(z) / 2)
    return out


def axis(case, name):
    n, p, anti, L = (case["nt"], case["pt"], case["at"], case["T"]) if name == "time" else (case["na"], case["pa"], case["aa"], 2 * np.pi)
    sym = {}
    if anti:
        sym = {"antiperiod": 2 * p}
        L = L / (2 * p)
    else:
        if p > 1:
            sym = {"period": p}
        L = L / p
    unit = "s" if name == "time" else "rad"
    x = np.arange(n) * (L / n)
    if case["kind"] == "lin":
        return DataLinspace(name=name, unit=unit, initial=0, final=L, number=n, include_endpoint=False, symmetries=sym), x
    return Data1D(name=name, unit=unit, values=x, symmetries=sym), x


def zaxis(case):
    return [Data1D(name="z", unit="m", values=np.arange(case["z"]) * 0.1)] if case["z"] else []


def build(case, part=0):
    L = lines_of(case, part)
    if case["form"] == "sparse":
        f, r = np.array(case["f"]) / case["T"], np.array(case["r"], dtype=float)
        v = np.array([[L[(a, b)] for b in case["r"]] for a in f])
        if not case["z"]:
            v = v[:, :, 0]
        return DataFreq(name="x", symbol="X", unit="T", axes=[Data1D(name="freqs", unit="Hz", values=f), Data1D(name="wavenumber", unit="dimless", values=r)] + zaxis(case), values=v)
    (ta, t), (aa, a) = axis(case, "time"), axis(case, "angle")
    v = 0
    for (f, r), z in L.items():
        v = v + np.exp(1j * (2 * np.pi * f * t[:, None] + r * a[None, :]))[:, :, None] * z
    if case["form"] != "complex":
        v = v.real
    if not case["z"]:
        v = v[:, :, 0]
    obj = DataTime(name="x", symbol="X", unit="T", axes=[ta, aa] + zaxis(case), values=v, is_real=case["form"] != "complex")
    return obj.time_to_freq() if case["form"] == "freq" else obj


def shifted(L, speed, real, sparse):
    """Lines after the change of frame; one-sided for real fields."""
    if sparse:
        # amplitudes of a one-sided real spectrum
        two = {}
        for (f, r), z in L.items():
            two[(f, r)] = two.get((f, r), 0) + z / 2
            two[(-f, -r)] = two.get((-f, -r), 0) + np.conj(z) / 2
        L = two
    out = {}
    for (f, r), z in L.items():
        g = f + r * speed / 60
        k = (round(g, 7) + 0.0, r)
        out[k] = out.get(k, 0) + z
    if real:
        out = {(f, r): z * (2 if f > 0 else 1) for (f, r), z in out.items() if f >= 0}
    return out


def check_lines(res, want, case, what):
    with observing("lines of " + what):
        ans = res.get_along("freqs", "wavenumber", *(["z"] if case["z"] else []), is_squeeze=False)
        f, r, v = np.asarray(ans["freqs"]), np.asarray(ans["wavenumber"]), np.asarray(ans["X"])
    v = v if v.ndim == 3 else v[:, :, None]
    expect(v.shape[:2] == (f.size, r.size), "%s: shape %s for %d frequencies and %d wavenumbers", what, v.shape, f.size, r.size)
    expect(np.all(np.diff(f) > 1e-6 / case["T"]), "%s: frequencies are not separate and increasing: %s", what, f)
    left = dict(want)
    scale = max(np.abs(z).max() for z in want.values()) if want else 1.0
    for i, fi in enumerate(f):
        for j, rj in enumerate(r):
            hit = [k for k in left if abs(k[0] - fi) < 1e-5 and abs(k[1] - rj) < 1e-6]
            e = left.pop(hit[0]) if hit else 0
            same(v[i, j], np.zeros(v.shape[2]) + e, "%s: line at frequency %.6g, wavenumber %g" % (what, fi, rj), scale=scale, rtol=1e-8)
    for k, z in left.items():
        expect(np.abs(z).max() < 1e-8 * scale, "%s: line at frequency %g, wavenumber %g is missing (amplitude %s)", what, k[0], k[1], z)


def run_spectra(case, note):
    real, sparse = case["form"] != "complex", case["form"] == "sparse"
    L = lines_of(case)
    a, b = case["speed"]
    speed = 60.0 * a / b / case["T"]
    with observing("building"):
        obj = build(case)
    before = freeze(obj)
    kw = {} if case["atol"] is None else {"atol": case["atol"]}
    what = "change_referential(%g)" % speed
    with observing(what):
        res = obj.change_referential(speed, False, **kw)[0]
    d = difference(before, freeze(obj))
    expect(d is None, "%s changed the field: %s", what, d)
    with observing(what):
        expect(type(res).__name__ == "DataFreq" and (res.symbol, res.unit, res.is_real) == ("X", "T", real), "%s: %s %s", what, type(res), (res.symbol, res.unit, res.is_real))
    check_lines(res, shifted(L, speed, real, sparse), case, what)
    if case["second"]:
        extra = -speed if case["second"] == "back" else 60.0 / case["T"]
        with observing(what + " again"):
            res2 = res.change_referential(extra, False, **kw)[0]
        check_lines(res2, shifted(L, speed + extra, real, sparse), case, "%s then %g" % (what, extra))
    note("%s%s/%s/%s" % (case["form"], "-sliced" if case["holes"] else "", case["second"], "rotating" if a else "fixed"))
    if not sparse:
        note("sym t%s%d a%s%d" % ("anti" if case["at"] else "", case["pt"], "anti" if case["aa"] else "", case["pa"]))
    return a != 0 and len(L) > 2


# ----------------------------------------------------------- vector fields


@st.composite
def vectors(draw):
    case = draw(spectra().filter(lambda c: c["form"] == "time"))
    case["lines2"] = [list(l) for l in case["lines"]]
    # the second component holds other lines
    ml = lambda n, a: [m for m in range(-(n - 1 if a else (n - 1) // 2), (n - 1 if a else (n - 1) // 2) + 1) if not a or m % 2]
    case["lines2"] = [list(l) for l in draw(st.lists(st.tuples(st.sampled_from(ml(case["nt"], case["at"])), st.sampled_from(ml(case["na"], case["aa"]))), min_size=1, max_size=4, unique=True))]
    return case


def run_vectors(case, note):
    a, b = case["speed"]
    speed = 60.0 * a / b / case["T"]
    with observing("building"):
        vec = VectorField(name="v", symbol="X", components={"radial": build(case), "tangential": build(case, 1)})
    before = freeze(vec)
    kw = {} if case["atol"] is None else {"atol": case["atol"]}
    what = "vector field change_referential(%g)" % speed
    with observing(what):
        res = vec.change_referential(speed, False, **kw)
        expect(list(res.components) == ["radial", "tangential"], "%s: components %s", what, list(res.components))
    d = difference(before, freeze(vec))
    expect(d is None, "%s changed the field: %s", what, d)
    for n, part in (("radial", 0), ("tangential", 1)):
        check_lines(res.components[n], shifted(lines_of(case, part), speed, True, False), case, "%s of %s" % (n, what))
    return a != 0 and case["lines"] != case["lines2"]


# ----------------------------------------------------------- waveform form


@st.composite
def waveforms(draw):
    case = draw(spectra().filter(lambda c: c["form"] in ("time", "complex")))
    case["symt"] = draw(st.sampled_from(["none", "period", "antiperiod"]))
    case["a0"] = draw(st.sampled_from([0.0, 0.0, 0.5])) if case["kind"] == "lin" else 0.0
    case["vec"] = draw(st.booleans())
    case["seed2"] = draw(gen.seeds)
    return case


def run_waveforms(case, note):
    (ta, t), (aa, a) = axis(case, "time"), axis(case, "angle")
    if case["a0"]:
        aa.initial, aa.final = case["a0"], aa.final + case["a0"]
        a = a + case["a0"]
    cplx = case["form"] == "complex"
    ns = max(case["z"], 1)

    def vals(seed):
        g = rng(seed)
        v = g.uniform(-2, 2, (t.size, a.size, ns))
        return v + 1j * g.uniform(-2, 2, v.shape) if cplx else v

    ka, kb = case["speed"]
    speed = 60.0 * ka / kb / case["T"]
    # one period of both axes
    nt = t.size * (2 if case["at"] else 1)
    na = a.size * (2 if case["aa"] else 1)
    T1, A1 = nt * (t[1] - t[0]), na * (a[1] - a[0])
    sym = {}
    if case["symt"] == "period":
        sym = {"period": case["pt"]}
    elif case["symt"] == "antiperiod" and nt % 2 == 0:
        sym = {"antiperiod": 2 * case["pt"]}

    def expected(v):
        if case["at"]:
            v = np.concatenate((v, -v), axis=0)
        if case["aa"]:
            v = np.concatenate((v, -v), axis=1)
        tt = np.arange(nt) * (T1 / nt)
        out = np.zeros_like(v)
        step = A1 / na
        for i in range(nt):
            pos = np.arange(na) + 2 * np.pi * speed / 60 * tt[i] / step
            k = np.floor(pos + 1e-9).astype(int)
            w = (pos - k)[:, None]
            out[i] = v[i, k % na] * (1 - w) + v[i, (k + 1) % na] * w
        if "antiperiod" in sym:
            out = out[: nt // 2]
        return out[:, : a.size]

    def field(v):
        return DataTime(name="x", symbol="X", unit="T", axes=[ta, aa] + zaxis(case), values=v if case["z"] else v[:, :, 0], is_real=not cplx)

    v1, v2 = vals(case["seed"]), vals(case["seed2"])
    what = "waveform change_referential(%g, sym_t_new=%s)" % (speed, sym)
    with observing(what):
        if case["vec"]:
            obj = VectorField(name="v", symbol="X", components={"radial": field(v1), "tangential": field(v2)})
            before = freeze(obj)
            res = obj.change_referential(speed, True, sym_t_new=sym).components
            parts = [(res["radial"], v1), (res["tangential"], v2)]
        else:
            obj = field(v1)
            before = freeze(obj)
            parts = [(obj.change_referential(speed, True, sym_t_new=sym)[0], v1)]
    d = difference(before, freeze(obj))
    expect(d is None, "%s changed the field: %s", what, d)
    for res, v in parts:
        with observing("result of " + what):
            ans = res.get_along("time[smallestperiod]", "angle[smallestperiod]", *(["z"] if case["z"] else []), is_squeeze=False)
            syms = [dict(x.symmetries) for x in res.axes[:2]]
        want = expected(v)
        got = np.asarray(ans["X"])
        same(got if got.ndim == 3 else got[:, :, None], want, what, scale=np.abs(v).max(), rtol=1e-7)
        same_coords(ans["time"], np.arange(want.shape[0]) * (T1 / nt), "time of " + what, scale=case["T"])
        same_coords(ans["angle"], a, "angle of " + what, scale=7.0)
        wa = {"antiperiod": 2 * case["pa"]} if case["aa"] else {"period": case["pa"]}
        expect(syms[0] == sym and syms[1] == wa, "%s: symmetries %s instead of %s", what, syms, [sym, wa])
    note("waveform/%s/%s/%s" % (case["kind"], case["symt"], "anti" if case["aa"] else "per"))
    return ka != 0


SUBS = [
    Sub("spectra", spectra(), run_spectra, 5000),
    Sub("vector-fields", vectors(), run_vectors, 2000),
    Sub("waveforms", waveforms(), run_waveforms, 2500),
]
