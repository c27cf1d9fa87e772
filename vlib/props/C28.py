"""Tolerant set operations group exactly the values within tolerance."""

import numpy as np
from hypothesis import strategies as st

from vlib import gen
from vlib.core import Sub, expect, observing, rng, same
from SciDataTool.Functions.set_routines import intersect1d_tol, union1d_tol, unique_tol

RULE = (
    "1D or 2D arrays made of clusters narrower than the tolerance and further apart than it, centres anywhere (including just at multiples of the "
    "tolerance), absolute or relative tolerance; non-trivial: at least two clusters and a cluster with two different values"
)


@st.composite
def clustered(draw, two=False):
    tol = draw(st.sampled_from([1e-6, 1e-4, 1e-3, 0.01, 0.5, 1.0]))
    n = draw(st.integers(1, 6))
    # centres in tolerances, separated by at least 4
    gaps = draw(st.lists(st.sampled_from([4, 4.5, 5, 7, 10, 33.3, 100, 1e4, 2.5e5]), min_size=n, max_size=n))
    start = draw(st.sampled_from([0.0, -0.5, 0.5, -7, 1e3, -1e5, 0.4999]))
    members = draw(st.lists(st.tuples(st.integers(0, n - 1), st.sampled_from([0.0, 0.0, 1e-6, -1e-6, 0.4, -0.4, 0.2])), min_size=1, max_size=14))
    case = {"tol": tol, "centres": [start + sum(gaps[: i + 1]) for i in range(n)], "m": [list(m) for m in members], "abs": draw(st.booleans())}
    if two:
        case["m2"] = [list(m) for m in draw(st.lists(st.tuples(st.integers(0, n - 1), st.sampled_from([0.0, 1e-6, -1e-6, 0.4, -0.4])), min_size=1, max_size=10))]
    else:
        case.update(index=draw(st.booleans()), inverse=draw(st.booleans()), counts=draw(st.booleans()), stable=draw(st.booleans()), ints=draw(st.integers(0, 9)) == 0)
    return case


def values(case, key="m"):
    lab = np.array([m[0] for m in case[key]])
    return np.array([(case["centres"][c] + d) * case["tol"] for c, d in case[key]]), lab


def options(case, *arrays):
    """Tolerance arguments; a relative tolerance is given as part of the largest value."""
    if case["abs"]:
        return {"tol": case["tol"], "is_abs_tol": True}
    big = max(np.abs(a).max() for a in arrays[:1])
    if big == 0:
        return {"tol": case["tol"], "is_abs_tol": True}
    if case["tol"] > 0.99:
        return {"tol": 0.99 * case["tol"] / big}
    return {"tol": case["tol"] / big}


def run_unique(case, note):
    a, lab = values(case)
    if case["ints"]:
        a, kw = lab.copy() * 5 - 7, {"tol": 0.5, "is_abs_tol": True}
    else:
        kw = options(case, a)
    for k, n in (("index", "return_index"), ("inverse", "return_inverse"), ("counts", "return_counts"), ("stable", "is_stable")):
        if case[k]:
            kw[n] = True
    keep = a.copy()
    with observing("unique_tol(%s)" % kw):
        res = unique_tol(a, **kw)
        res = res if isinstance(res, tuple) else (res,)
    expect(np.array_equal(a, keep), "input changed")
    order = list(dict.fromkeys(lab.tolist())) if case["stable"] else sorted(set(lab.tolist()))
    first = [int(np.where(lab == c)[0][0]) for c in order]
    want = [a[first]]
    if case["index"]:
        want.append(np.array(first))
    if case["inverse"]:
        want.append(np.array([order.index(c) for c in lab]))
    if case["counts"]:
        want.append(np.array([int((lab == c).sum()) for c in order]))
    names = ["values"] + [k for k in ("index", "inverse", "counts") if case[k]]
    expect(len(res) == len(want), "%d outputs instead of %s", len(res), names)
    for n, g, w in zip(names, res, want):
        expect(np.array_equal(np.asarray(g), w), "unique_tol(%s, %s): %s are %s instead of %s", a, kw, n, g, w)
    note("unique/%s/%s/%d%d%d" % ("abs" if case["abs"] else "rel", "stable" if case["stable"] else "sorted", case["index"], case["inverse"], case["counts"]))
    return len(order) > 1 and any(len(set(a[lab == c].tolist())) > 1 for c in order)


def run_two(case, note):
    a, la = values(case)
    b, lb = values(case, "m2")
    kw = options(case, np.concatenate((a, b)))
    with observing("union1d_tol(%s)" % kw):
        plain = union1d_tol(a.copy(), b.copy(), **kw)
        u, Ia, Ib = union1d_tol(a.copy(), b.copy(), return_indices=True, **kw)
    both = np.concatenate((la, lb))
    order = sorted(set(both.tolist()))
    cat = np.concatenate((a, b))
    want = np.array([cat[np.where(both == c)[0][0]] for c in order])
    for w, g, e in (("values", plain, want), ("values", u, want), ("first indices", Ia, [order.index(c) for c in la]), ("second indices", Ib, [order.index(c) for c in lb])):
        expect(np.array_equal(np.asarray(g), np.asarray(e)), "union of %s and %s (%s): %s are %s instead of %s", a, b, kw, w, g, e)
    kw = options(case, a, b)
    with observing("intersect1d_tol(%s)" % kw):
        plain = intersect1d_tol(a.copy(), b.copy(), **kw)
        v, Ja, Jb = intersect1d_tol(a.copy(), b.copy(), return_indices=True, **kw)
    common = sorted(set(la.tolist()) & set(lb.tolist()))
    ja = [int(np.where(la == c)[0][0]) for c in common]
    jb = [int(np.where(lb == c)[0][0]) for c in common]
    for w, g, e in (("values", plain, a[ja]), ("values", v, a[ja]), ("first indices", Ja, ja), ("second indices", Jb, jb)):
        expect(np.array_equal(np.asarray(g), np.asarray(e)), "intersection of %s and %s (%s): %s are %s instead of %s", a, b, kw, w, g, e)
    note("two/%d common" % min(len(common), 3))
    return len(order) > 1 and len(set(cat.tolist())) > len(order)


@st.composite
def tables(draw):
    n, m = draw(st.integers(1, 8)), draw(st.integers(1, 4))
    return {"tol": draw(st.sampled_from([1e-6, 0.01, 1.0])), "rows": draw(st.lists(st.lists(st.integers(-2, 2), min_size=m, max_size=m), min_size=n, max_size=n)), "seed": draw(gen.seeds), "axis": draw(st.integers(0, 1)), "stable": draw(st.booleans())}


def run_table(case, note):
    lab = np.array(case["rows"])
    tol = case["tol"]
    a = (lab * 4 + 0.5 + rng(case["seed"]).uniform(-0.45, 0.45, lab.shape)) * tol
    if case["axis"]:
        lab, a = lab.T, a.T
    with observing("unique_tol(axis=%d)" % case["axis"]):
        b, Ia, Ib, n = unique_tol(a.copy(), tol=tol, is_abs_tol=True, axis=case["axis"], return_index=True, return_inverse=True, return_counts=True, is_stable=case["stable"])
    rows = [tuple(r) for r in (lab.T if case["axis"] else lab).tolist()]
    order = list(dict.fromkeys(rows)) if case["stable"] else sorted(set(rows))
    first = [rows.index(r) for r in order]
    for w, g, e in (("values", b, np.take(a, first, axis=case["axis"])), ("index", Ia, first), ("inverse", Ib, [order.index(r) for r in rows]), ("counts", n, [rows.count(r) for r in order])):
        expect(np.array_equal(np.asarray(g), np.asarray(e)), "unique_tol of %s (axis %d): %s are %s instead of %s", a, case["axis"], w, g, e)
    note("table/axis%d" % case["axis"])
    return 1 < len(order) < len(rows)


SUBS = [
    Sub("unique", clustered(), run_unique, 6000),
    Sub("union-intersection", clustered(two=True), run_two, 5000),
    Sub("tables", tables(), run_table, 2000),
]
