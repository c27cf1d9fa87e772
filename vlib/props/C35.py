"""Octave band levels conserve the energy of the lines in each band."""

from math import ceil

import numpy as np
from hypothesis import strategies as st

from vlib import gen, query
from vlib.build import field_obj
from vlib.core import Sub, expect, observing, same, same_coords
from vlib.model import Ax, Field, apply
from vlib.props import C15
from vlib.snapshot import freeze
from SciDataTool.Functions.fft_functions import comp_nthoctave_axis

RULE = (
    "uniform spectrum (start, line spacing and length vary) with up to two more axes, requested in 1/n octave bands over any frequency interval with any request on "
    "the other axes, in the unit of the field, dB or dBA; non-trivial: at least two bands and one of them holds two lines"
)
OCTAVES = [16, 31.5, 63, 125, 250, 500, 1000, 2000, 4000, 8000, 16000]
THIRDS = [f for f, w in C15.THIRDS]
KINDS = ("whole", "idx", "idxs", "range", "interval", "list", "smallestperiod")


def centres(n, lo, hi):
    """Band centres between two frequencies: nominal frequencies of octaves and
    third octaves, otherwise 1000*2^(i/n) rounded up to half a hertz, from
    12.5 Hz."""
    if n == 1:
        t = OCTAVES
    elif n == 3:
        t = THIRDS
    else:
        t = sorted({0.5 * ceil(2000.0 * 2.0 ** (i / n)) for i in range(-8 * n, 8 * n)})
        t = [f for f in t if f >= 12.5]
    return np.array([f for f in t if lo <= f <= hi], dtype=float)


def bands(n, lo, hi):
    c = centres(n, lo, hi)
    h = 2.0 ** (0.5 / n)
    return c, (np.append(c / h, c[-1] * h) if len(c) else np.zeros(0))


def in_bands(n, fr, M, i):
    """Band levels of the magnitudes M (lines along i) and whether rounding
    cannot change them."""
    c, b = bands(n, fr[0], fr[-1])
    df = fr[1] - fr[0]
    out, ok = [], []
    for lo, hi in zip(b, b[1:]):
        sel = [k for k, f in enumerate(fr) if lo <= f < hi]
        e = (np.take(M, sel, axis=i) ** 2).sum(axis=i)
        ratio = (hi - lo) / df
        good = np.abs(fr - lo).min() > 1e-9 * lo and np.abs(fr - hi).min() > 1e-9 * hi and abs(ratio - round(ratio)) > 1e-9
        if sel and np.floor(ratio) <= len(sel):
            e = e * ratio / len(sel)
        out.append(np.sqrt(e))
        ok.append(good)
    counts = [sum(lo <= f < hi for f in fr) for lo, hi in zip(b, b[1:])]
    return c, np.stack(out, axis=i) if out else np.zeros(M.shape[:i] + (0,) + M.shape[i + 1 :]), np.array(ok, dtype=bool), counts


@st.composite
def cases(draw, naxes=(1, 1), wave=False):
    pool = [("freqs", "Hz")] + C15.POOL[1:]
    case = draw(query.query(KINDS, pomit=0.1, names=pool, need=("freqs",), maxfull=60, naxes=naxes, dtypes=("real", "int", "complex"), cls="DataFreq"))
    f = case["field"]
    f["scale"] = 1.0
    for i, a in enumerate(f["axes"]):
        if a["name"] == "freqs":
            df = draw(st.sampled_from([1.0, 2.0, 5.0, 10.0, 25.0, 3.7, 100.0]))
            n = draw(st.sampled_from([2, 5, 20, 60, 150, 300, 400]))
            a = {"name": "freqs", "unit": "Hz", "kind": draw(st.sampled_from(["d1", "lin"])), "n": n, "x0": draw(st.sampled_from([0.0, 0.0, 12.5, 20.0, 100.0, 1003.0])), "dx": df, "sym": None}
            if a["kind"] == "lin":
                a["form"] = draw(st.integers(0, 3))
            f["axes"][i] = a
            r = draw(query.request(a, ("whole", "interval", "interval", "range", "gt", "lt")))
            case["reqs"][i] = r
            case["main"] = i
    case["noct"] = draw(st.sampled_from([1, 3, 3, 2, 6, 12, 24]))
    case["reqs"][case["main"]]["u"] = "->1/%doct" % case["noct"]
    f["unit"] = draw(st.sampled_from(sorted(C15.UNITS)))
    f["norms"] = {"ref": {"k": "ref", "ref": draw(st.sampled_from([2e-5, 1e-6]))}}
    case["unit"] = draw(st.sampled_from(["SI", "dB", "dBA"]))
    return case


def run(case, note):
    f = Field(case["field"])
    i = case["main"]
    out, A = query.evaluate(case, f)
    fr = next(x for ax, r, x in out if ax is f.axes[i])
    if len(fr) < 2:
        note("one line")
        return False
    args, data = query.arguments(case)
    c, B, ok, counts = in_bands(case["noct"], fr, np.abs(A), i)
    if case["unit"] != "SI":
        B = C15.level(B, f.unit, C15.reference(case["field"]))
    if case["unit"] == "dBA":
        B = B + C15.spread(C15.weight(c), i, B.ndim)
    with observing("building the field"):
        obj = field_obj(case["field"])
    before = freeze(obj)
    what = "get_magnitude_along(%s, unit=%s)" % (", ".join(args), case["unit"])
    with observing(what):
        res = obj.get_magnitude_along(*args, unit=case["unit"])
        got, axes = res[f.symbol], {ax.name: res[ax.name] for ax, r, x in out}
    for ax, r, x in out:
        if ax is f.axes[i]:
            same_coords(axes["freqs"], c, "band centres " + what)
        else:
            same_coords(axes[ax.name], x, "axis %s %s" % (ax.name, what), scale=query.axis_scale(ax))
    ok = np.squeeze(np.broadcast_to(C15.spread(ok, i, B.ndim), B.shape))
    B = np.squeeze(B)
    with observing(what):
        got = np.asarray(got, dtype=float)
    expect(got.shape == B.shape, "%s: shape %s instead of %s", what, got.shape, B.shape)
    same(np.where(ok, got, 0.0), np.where(ok, B, 0.0), "band levels " + what, rtol=1e-9, scale=np.abs(f.full).max() if case["unit"] == "SI" else 100.0)
    C15.untouched(obj, before, what)
    note("1/%d/%s/%s" % (case["noct"], case["unit"], min(len(c), 3)))
    return len(c) > 1 and max(counts) > 1


@st.composite
def axis_cases(draw):
    lo = draw(st.sampled_from([0.0, 1.0, 12.5, 20.0, 63.0, 500.0, 999.0, 1000.0, 1001.0, 3000.0]))
    return {"noct": draw(st.integers(1, 24)), "lo": lo, "hi": lo + draw(st.sampled_from([0.0, 1.0, 10.0, 100.0, 980.0, 1000.0, 5000.0, 20000.0]))}


def run_axis(case, note):
    c = centres(case["noct"], case["lo"], case["hi"])
    with observing("comp_nthoctave_axis(%(noct)r, %(lo)r, %(hi)r)" % case):
        got = comp_nthoctave_axis(case["noct"], case["lo"], case["hi"])
        got = np.array(got, dtype=float)
    same_coords(got, c, "comp_nthoctave_axis(%(noct)r, %(lo)r, %(hi)r)" % case)
    note("centres/%d" % min(len(c), 3))
    return len(c) > 1


SUBS = [
    Sub("spectra", cases(), run, 2500),
    Sub("several-axes", cases(naxes=(2, 3)), run, 2000),
    Sub("centres", axis_cases(), run_axis, 1500),
]
