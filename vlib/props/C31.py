"""Sparse reconstruction reproduces signals sampled at random points."""

import warnings
from math import floor

import numpy as np
from hypothesis import strategies as st

from SciDataTool import Data1D, DataTime
from SciDataTool.Functions.omp import comp_undersampled_axe, comp_undersampling

from vlib import gen
from vlib.core import Sub, expect, observing, rng, same, same_coords

RULE = (
    "regular time grid of 6-60 samples, ratio of retained samples and seed; signals of 1-3 lines (cosines and sines of the grid, or atoms of a given dictionary), one or "
    "several of them along another axis, time axis first or second; non-trivial: some samples dropped and Tropp's exact recovery condition holds for every signal "
    "(below 0.9), so that matching pursuit has to find its lines"
)


@st.composite
def cases(draw):
    n = draw(st.integers(6, 60))
    case = {
        "n": n,
        "t0": draw(st.sampled_from([0.0, 0.0, 1.0, -0.5, 1000.0])),
        "dt": draw(st.sampled_from([1.0, 0.1, 0.01, 0.125, 1e-4, 1e-6, 1e-9])),
        "K": draw(st.sampled_from([0.5, 0.6, 0.7, 0.75, 0.8, 0.9, 0.95, 1.0, 1, 0.0])),
        "seed": draw(st.one_of(st.none(), st.integers(0, 1000))),
        "other": draw(st.sampled_from([None, "angle", "z", "phase"])),
        "targets": draw(st.integers(1, 4)),
        "first": draw(st.booleans()),
        "custom": draw(st.integers(0, 3)) == 0,
        "precompute": draw(st.sampled_from([True, True, False])),
        "lines": [],
        "default": draw(st.booleans()),
        "vseed": draw(gen.seeds),
    }
    common = draw(st.booleans())
    for k in range(case["targets"] if case["other"] else 1):
        if k and common:
            case["lines"].append(case["lines"][0])
        else:
            case["lines"].append(draw(st.lists(st.integers(0, 2 * n - 2), min_size=1, max_size=draw(st.integers(1, 3)), unique=True)))
    return case


def atoms(n, custom, r):
    """Columns: unit vectors the signals are made of."""
    j = np.arange(n)
    if custom:  # an orthonormal basis followed by the samples themselves
        Q, _ = np.linalg.qr(r.standard_normal((n, n)))
        return np.concatenate([Q, np.eye(n)[:, : n - 1]], axis=1)
    cols = [np.cos(np.pi * k * (j + 0.5) / n) * np.sqrt((1 if k == 0 else 2) / n) for k in range(n)]
    cols += [np.sin(np.pi * k * j / n) * np.sqrt(2 / n) for k in range(1, n)]
    return np.array(cols).T


def recovery(D, S):
    """Tropp's exact recovery coefficient of the support S in the dictionary D."""
    A = D[:, S]
    if np.linalg.matrix_rank(A, tol=1e-6) < len(S):
        return np.inf
    P = np.linalg.pinv(A)
    rest = [j for j in range(D.shape[1]) if j not in S]
    return float(np.abs(P @ D[:, rest]).sum(axis=0).max()) if rest else 0.0


def run(case, note):
    n = case["n"]
    t = case["t0"] + case["dt"] * np.arange(n)
    kw = {} if case["seed"] is None else {"seed": case["seed"]}
    with observing("building the grid"):
        Time = Data1D(name="time", unit="s", values=t.copy())
    what = "undersampling of %d samples, ratio %r, %r" % (n, case["K"], kw)
    drawn = np.random.get_state()
    with observing(what):
        M, under = comp_undersampling(case["K"], Time, **kw)
        M2, under2 = comp_undersampling(case["K"], Time, **kw)
        M, M2, tu, name, unit = np.array(M), np.array(M2), np.array(under.values), under.name, under.unit
    now = np.random.get_state()
    expect(now[2:] == drawn[2:] and np.array_equal(now[1], drawn[1]), "%s changed the random numbers of the caller", what)
    m = floor(case["K"] * n)
    expect(M.shape == (m,), "%s: %d samples retained, expected %d", what, M.size, m)
    expect(np.array_equal(M, M2), "%s is not reproducible: %r then %r", what, M, M2)
    expect(m == 0 or (M.min() >= 0 and M.max() < n and (np.diff(M) > 0).all()), "%s: retained samples %r", what, M)
    expect(np.array_equal(tu, t[M]) and name == "time" and unit == "s", "%s: instants %r", what, tu)
    with observing("finding the retained samples"):
        found = np.array(comp_undersampled_axe(Time, under))
    expect(np.array_equal(found, M), "retained samples found %r, expected %r", found, M)
    if m < 4:
        return False
    r = rng(case["vseed"])
    D = atoms(n, case["custom"], r)
    full = np.zeros((n, len(case["lines"])))
    worst = 0.0
    for k, S in enumerate(case["lines"]):
        if len(S) > m // 2:
            return False
        worst = max(worst, recovery(D[M], S))
        full[:, k] = D[:, S] @ (r.uniform(1, 5, size=len(S)) * r.choice([-1, 1], size=len(S)))
    if worst >= 0.9:
        note("not recoverable")
        return False
    seen = full[M]
    axes, values = [under], seen[:, 0]
    if case["other"]:
        with observing("building the other axis"):
            x = np.arange(full.shape[1]) * 0.25
            other = Data1D(name=case["other"], unit="m" if case["other"] == "z" else "rad", values=x)
        axes, values = ([under, other], seen) if case["first"] else ([other, under], seen.T)
    with observing("building the undersampled field"):
        field = DataTime(name="f", symbol="X", unit="T", axes=axes, values=values.copy())
    args = dict(n_coefs=max(len(S) for S in case["lines"]), precompute=case["precompute"])
    if case["default"] and args["n_coefs"] <= n // 10:  # fewer lines than the default number of coefficients
        del args["n_coefs"]
    if case["custom"]:
        args["dictionary"] = [D[M], D]
    what = "reconstruction of %d signals (%s) of %d samples from %d" % (full.shape[1], "time %s" % ("first" if case["first"] else "second") if case["other"] else "alone", n, m)
    with observing(what), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        rec = field.orthogonal_mp(Time, **args)
    with observing("reading the " + what):
        ask = ["time"] + ([case["other"]] if case["other"] else [])
        res = rec.get_along(*ask)
        got, tg = np.asarray(res["X"]), np.asarray(res["time"])
        sym, un = rec.symbol, rec.unit
        order = list(res)
        if case["other"]:
            xg = np.asarray(res[case["other"]])
        kept = np.asarray(field.values)
    same_coords(tg, t, "instants of the " + what, scale=float(np.abs(t).max()))
    want = full[:, 0]
    if case["other"]:
        same_coords(xg, x, "other axis of the " + what, scale=1.0)
        want = full if order.index("time") < order.index(case["other"]) else full.T
    same(got, np.squeeze(want), what, rtol=1e-6, scale=float(np.abs(full).max()))
    expect(sym == "X" and un == "T", "%s: symbol %r, unit %r", what, sym, un)
    expect(np.array_equal(kept, values), "%s changed the undersampled field", what)
    note("%s/%s/%d lines" % ("given dictionary" if case["custom"] else "cosines and sines", case["other"] and ("first" if case["first"] else "second"), max(len(S) for S in case["lines"])))
    return m < n


SUBS = [Sub("signals", cases(), run, 8000)]
