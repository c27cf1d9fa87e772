"""Sum and convolution of spectra match the time-domain sum and product."""

import numpy as np
from hypothesis import strategies as st

from vlib import gen
from vlib.build import CLASSES
from vlib.core import Sub, expect, observing, raises, rng, same
from vlib.snapshot import difference, freeze
from SciDataTool import Data1D, DataFreq, DataLinspace, Norm_ref

RULE = (
    "two real one-axis spectra with common and different non-negative frequencies (any order, list or evenly spaced axis, zero frequency or not), "
    "summed, convolved, or convolved within a band; the signal of the returned lines compared at random times; non-trivial: both operands have "
    "at least two lines and some lines (or products of lines) coincide"
)
STEPS = (1.0, 0.1, 0.25, 50 / 3, 1e3)


@st.composite
def spectrum(draw):
    kind = draw(st.sampled_from(["d1", "d1", "lin"]))
    if kind == "lin":
        n = draw(st.integers(2, 6))
        d = draw(st.integers(1, 3))
        i0 = draw(st.integers(0, 4))
        k = [i0 + d * i for i in range(n)]
    else:
        k = draw(st.lists(st.integers(0, 12), min_size=1, max_size=6, unique=True))
    return {"kind": kind, "k": k, "seed": draw(gen.seeds), "dtype": draw(st.sampled_from(["complex", "complex", "real", "complex64"])), "end": draw(st.booleans())}


@st.composite
def pairs(draw):
    op = draw(st.sampled_from(["sum", "conv", "conv", "band"]))
    case = {"a": draw(spectrum()), "b": draw(spectrum()), "step": draw(st.sampled_from(STEPS)), "op": op, "meta": draw(st.booleans()), "tseed": draw(gen.seeds)}
    if op == "band":
        # bounds on lines only where the frequencies are exact
        bounds = [0.5, 1.5, 2.5, 5.5, 9.5, 14.5, 30.5] + ([1, 2, 3, 5, 8, 12] if case["step"] in (1.0, 0.25, 1e3) else [])
        case["band"] = sorted(draw(st.lists(st.sampled_from(bounds), min_size=2, max_size=2, unique=True)))
        case["side"] = draw(st.sampled_from(["both", "low", "high"]))
    if draw(st.integers(0, 19)) == 0:
        case["bad"] = draw(st.sampled_from(["negative", "type", "axis"]))
    return case


def lines(s, step):
    r = rng(s["seed"])
    f = np.array(s["k"]) * step
    v = r.uniform(-2, 2, f.size) + 1j * r.uniform(-2, 2, f.size)
    if s["dtype"] == "real":
        v = v.real
    v[np.array(s["k"]) == 0] = v[np.array(s["k"]) == 0].real
    return f, v.astype("complex64") if s["dtype"] == "complex64" else v


def build(s, step, symbol):
    f, v = lines(s, step)
    if s["kind"] == "lin":
        d = (s["k"][1] - s["k"][0]) * step
        ax = DataLinspace(name="freqs", unit="Hz", initial=f[0], final=f[-1] if s["end"] else f[-1] + d, number=f.size, include_endpoint=s["end"])
    else:
        ax = Data1D(name="freqs", unit="Hz", values=f)
    return DataFreq(name="q " + symbol, symbol=symbol, unit="T", axes=[ax], values=v, normalizations={"ref": Norm_ref(ref=2.0)})


def signal(f, v, t):
    return np.real(np.exp(2j * np.pi * np.outer(t, f)) @ v)


def product(a, b):
    """Lines of the product, keyed by integer multiple of the step."""
    out = {}

    def add(k, z):
        out[k] = out.get(k, 0) + z

    def two_sided(s):
        f, v = lines(s, 1.0)
        d = {}
        for k, z in zip(s["k"], v):
            if k == 0:
                d[0] = complex(z)
            else:
                d[k] = z / 2
                d[-k] = np.conj(z) / 2
        return d

    for k1, z1 in two_sided(a).items():
        for k2, z2 in two_sided(b).items():
            add(k1 + k2, z1 * z2)
    return {k: z * (2 if k else 1) for k, z in out.items() if k >= 0}


def run(case, note):
    step, op = case["step"], case["op"]
    with observing("building"):
        x, y = build(case["a"], step, "X"), build(case["b"], step, "Y")
    if case.get("bad"):
        z = y
        if case["bad"] == "negative":
            z = DataFreq(name="n", symbol="Y", unit="T", axes=[Data1D(name="freqs", unit="Hz", values=np.array([-step, 0.0, step]))], values=np.ones(3))
        elif case["bad"] == "axis":
            z = DataFreq(name="n", symbol="Y", unit="T", axes=[Data1D(name="wavenumber", unit="", values=np.array([0.0, 1.0]))], values=np.ones(2))
        else:
            z = "spectrum"
        f = x.sum if op == "sum" else x.conv
        before = freeze(x)
        raises(None, lambda: f(z), "%s with wrong operand (%s)" % (op, case["bad"]))
        expect(difference(before, freeze(x)) is None, "operand changed by a refused operation")
    before = freeze(x), freeze(y)
    kw = {}
    if case["meta"]:
        kw = {"name": "result", "symbol": "Z", "unit": "A", "normalizations": {"other": Norm_ref(ref=3.0)}}
    (f1, v1), (f2, v2) = lines(case["a"], step), lines(case["b"], step)
    lo, hi = -1.0, np.inf
    if op == "band":
        if case["side"] in ("both", "low"):
            lo = case["band"][0] * step
            kw["f_min"] = lo
        if case["side"] in ("both", "high"):
            hi = case["band"][1] * step
            kw["f_max"] = hi
    p = product(case["a"], case["b"])
    if op == "band" and not any(lo <= k * step <= hi for k in p):
        return False
    what = "%s(%s)" % ("sum" if op == "sum" else "conv", kw)
    with observing(what):
        res = x.sum(y, **kw) if op == "sum" else x.conv(y, **kw)
        f, v = np.asarray(res.axes[0].get_values()), np.asarray(res.values)
        names = [a.name for a in res.axes]
        meta = res.name, res.symbol, res.unit, sorted(res.normalizations), res.axes[0].unit, res.is_real
    want = ("result", "Z", "A", ["other"], "Hz", True) if case["meta"] else ("q X", "X", "T", ["ref"], "Hz", True)
    expect(names == ["freqs"] and meta == want, "%s: axes %s and description %s instead of %s", what, names, meta, want)
    for n, b, o in (("first", before[0], x), ("second", before[1], y)):
        d = difference(b, freeze(o))
        expect(d is None, "%s changed the %s operand: %s", what, n, d)
    expect(f.shape == v.shape and f.ndim == 1, "%s: %s frequencies for %s values", what, f.shape, v.shape)
    expect(np.all(np.diff(f) > 1e-3 * step), "%s: frequencies are not separate and increasing: %s", what, f)
    rt = 1e-5 if "complex64" in (case["a"]["dtype"], case["b"]["dtype"]) else 1e-9
    t = rng(case["tseed"]).uniform(-1, 1, 7) / step
    if op == "sum":
        ref = signal(f1, v1, t) + signal(f2, v2, t)
        coincide = set(case["a"]["k"]) & set(case["b"]["k"])
    elif op == "conv":
        ref = signal(f1, v1, t) * signal(f2, v2, t)
        coincide = len(p) < 2 * f1.size * f2.size
    else:
        keep = sorted(k for k in p if lo <= k * step <= hi)
        same(f, np.array(keep) * step, "%s: frequencies" % what, scale=30 * step)
        ref = signal(np.array(keep) * step, np.array([p[k] for k in keep]), t)
        coincide = len(keep) > 1
    same(signal(f, v, t), ref, "%s of %s and %s: signal" % (what, f1, f2), scale=np.abs(v1).sum() * max(1, np.abs(v2).sum()) + np.abs(v2).sum(), rtol=rt)
    # changing the result leaves the operands as they were
    with observing("changing the result"):
        res.values[:] = 0
        res.axes[0].unit = "kHz"
        for n in res.normalizations.values():
            n.ref = 7.0
    for n, b, o in (("first", before[0], x), ("second", before[1], y)):
        d = difference(b, freeze(o))
        expect(d is None, "changing the result of %s changed the %s operand: %s", what, n, d)
    note("%s/%s+%s/%s%s" % (op, case["a"]["kind"], case["b"]["kind"], "dc" if 0 in case["a"]["k"] else "ac", "dc" if 0 in case["b"]["k"] else "ac"))
    return f1.size > 1 and f2.size > 1 and bool(coincide)


SUBS = [Sub("pairs", pairs(), run, 6000)]
