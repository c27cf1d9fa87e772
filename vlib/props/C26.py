"""Spectral leakage removal recovers the true spectrum."""

import numpy as np
from hypothesis import strategies as st

from vlib import gen
from vlib.build import VectorField
from vlib.core import Sub, expect, observing, rng, same, same_coords
from vlib.snapshot import difference, freeze
from SciDataTool import Data1D, DataLinspace, DataPattern, DataTime

RULE = (
    "signals made of 1 to 5 frequencies further apart than the resolution of the window (constant included or not), each with its own amplitude and "
    "phase per wavenumber and slice, on time alone or with an angle axis (odd or even, period or antiperiod) and a further axis, given in waveform or spectral form, real "
    "or complex, in a scalar or vector field; frequencies given in any order, some without content; non-trivial: a frequency between two lines of the window"
)


@st.composite
def cases(draw):
    form = draw(st.sampled_from(["time", "time", "complex", "freq"]))
    nt = draw(st.integers(16, 41))
    if form == "freq":
        nt += nt % 2
    case = {"form": form, "nt": nt, "T": draw(st.sampled_from([1.0, 0.04, 2.0, 10.0])), "kind": draw(st.sampled_from(["lin", "d1"])), "seed": draw(gen.seeds)}
    # frequencies in units of the resolution
    top = nt // 2 - 2
    f, x = [], 0.0
    if draw(st.booleans()):
        f.append(0.0)
    x = draw(st.sampled_from([0.75, 1.0, 1.25, 2.5, 1.1]))
    while x < top and len(f) < 5:
        f.append(x)
        if draw(st.booleans()) and len(f) > 1:
            break
        x += draw(st.sampled_from([1.25, 1.5, 2.0, 2.3, 1.37, 3.0, 5.5]))
    case["f"] = f
    case["order"] = draw(st.permutations(list(range(len(f)))))
    case["empty"] = draw(st.integers(0, len(f) - 1)) if len(f) > 1 and draw(st.booleans()) else None
    if draw(st.booleans()):
        case["na"] = draw(st.integers(3, 8))
        case["syma"] = draw(st.sampled_from([None, None, ["period", 2], ["antiperiod", 2]]))
        half = case["na"] * (2 if case["syma"] and case["syma"][0] == "antiperiod" else 1)
        # cycles over one period of the angle axis, without the highest one
        c = [k for k in range(-((half - 1) // 2), (half - 1) // 2 + 1) if not (case["syma"] and case["syma"][0] == "antiperiod") or k % 2]
        case["r"] = draw(st.lists(st.sampled_from(c), min_size=1, max_size=3, unique=True))
    case["z"] = draw(st.sampled_from([0, 0, 1, 3]))
    case["zkind"] = draw(st.sampled_from(["d1", "pat"]))
    case["vec"] = draw(st.integers(0, 2)) == 0
    return case


def lines(case, part):
    """Amplitudes (frequency, wavenumber index, slice) of one component."""
    g = rng(case["seed"] + 17 * part)
    shp = (len(case["f"]), len(case.get("r", [0])), max(case["z"], 1))
    A = g.uniform(0.2, 2, shp) * np.exp(1j * g.uniform(0, 6.2, shp))
    if case["empty"] is not None:
        A[case["empty"]] = 0
    return A


def build(case, part):
    A = lines(case, part)
    nt, T = case["nt"], case["T"]
    t = np.arange(nt) * (T / nt)
    if case["kind"] == "lin":
        axes = [DataLinspace(name="time", unit="s", initial=0, final=T, number=nt, include_endpoint=False)]
    else:
        axes = [Data1D(name="time", unit="s", values=t)]
    a = np.zeros(1)
    if "na" in case:
        s = case["syma"]
        L = 2 * np.pi / (s[1] if s else 1)
        a = np.arange(case["na"]) * (L / case["na"])
        axes.append(DataLinspace(name="angle", unit="rad", initial=0, final=L, number=case["na"], include_endpoint=False, symmetries={s[0]: s[1]} if s else {}))
    p = (case["syma"][1] if case["syma"][0] == "period" else case["syma"][1] // 2) if case.get("syma") else 1
    r = np.array(case.get("r", [0])) * p
    w = 2 * np.pi * np.array(case["f"]) / T
    ph = np.exp(1j * (w[:, None, None, None] * t[None, None, :, None] + r[None, :, None, None] * a[None, None, None, :]))
    v = np.einsum("frta,frz->taz", ph, A)
    if case["form"] != "complex":
        v = v.real
    if case["z"]:
        if case["zkind"] == "pat":
            n = case["z"]
            axes.append(DataPattern(name="z", unit="m", values=np.arange(n) * 0.1, values_whole=np.arange(n) * 0.1, rebuild_indices=list(range(n)), unique_indices=list(range(n))))
        else:
            axes.append(Data1D(name="z", unit="m", values=np.arange(case["z"]) * 0.1))
    else:
        v = v[:, :, 0]
    if "na" not in case:
        v = v[:, 0]
    obj = DataTime(name="x", symbol="X%d" % part, unit="T", axes=axes, values=v, is_real=case["form"] != "complex")
    return obj.time_to_freq() if case["form"] == "freq" else obj, r


def run(case, note):
    real = case["form"] != "complex"
    f = np.array(case["f"])
    th = (f / case["T"])[case["order"]]
    with observing("building"):
        parts = [build(case, k) for k in range(2 if case["vec"] else 1)]
        r = parts[0][1]
        obj = VectorField(name="v", symbol="X", components={"radial": parts[0][0], "tangential": parts[1][0]}) if case["vec"] else parts[0][0]
    before = freeze(obj)
    keep = th.copy()
    what = "filter_spectral_leakage(%s)" % th
    with observing(what):
        res = obj.filter_spectral_leakage(th)
        res = [res.components["radial"], res.components["tangential"]] if case["vec"] else [res]
    expect(np.array_equal(th, keep), "%s changed the given frequencies", what)
    d = difference(before, freeze(obj))
    expect(d is None, "%s changed the field: %s", what, d)
    args = ["freqs"] + (["wavenumber"] if "na" in case else []) + (["z"] if case["z"] else [])
    for k, x in enumerate(res):
        A = lines(case, k)
        with observing("answer after " + what):
            ans = x.get_along(*args, is_squeeze=False)
            got, gf = np.asarray(ans["X%d" % k]), np.asarray(ans["freqs"])
            wn = np.asarray(ans["wavenumber"]) if "na" in case else np.zeros(1)
            desc = type(x).__name__, x.symbol, x.unit, x.is_real
            expect(not case["z"] or np.allclose(ans["z"], np.arange(case["z"]) * 0.1), "%s: z is %s", what, ans.get("z"))
        expect(desc == ("DataFreq", "X%d" % k, "T", real), "%s: result is %s", what, desc)
        want_f = sorted(set((f / case["T"]).tolist()) | (set() if real else set((-f / case["T"] + 0.0).tolist())))
        same_coords(gf, np.array(want_f), "%s: frequencies" % what, scale=case["nt"] / case["T"])
        if "na" not in case:
            got = got[:, None]
        if not case["z"]:
            got = got[..., None]
        want = np.zeros((len(gf), len(wn), max(case["z"], 1)), dtype=complex)
        for i, fi in enumerate(f):
            row = int(np.argmin(np.abs(gf - fi / case["T"])))
            for j, rj in enumerate(r):
                col = np.where(np.abs(wn - rj) < 1e-6)[0]
                expect(col.size == 1, "%s: wavenumber %s is not among %s", what, rj, wn)
                if real and fi == 0:
                    # constant in time: both signs of the wavenumber
                    want[row, col[0]] += A[i, j] / 2
                    want[row, np.where(np.abs(wn + rj) < 1e-6)[0][0]] += np.conj(A[i, j]) / 2
                else:
                    want[row, col[0]] += A[i, j]
        same(got, want, "%s: amplitudes" % what, scale=2.0, rtol=1e-7)
    note("%s/%s/%s/%s" % (case["form"], "angle" + ("" if not case["syma"] else case["syma"][0]) if "na" in case else "time", case["z"], "vector" if case["vec"] else "scalar"))
    return any(abs(x - round(x)) > 0.05 for x in f)


SUBS = [Sub("signals", cases(), run, 3000)]
