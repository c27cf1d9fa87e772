"""Magnitude, phase and harmonics describe the same spectrum."""

import numpy as np
from hypothesis import strategies as st

from vlib import fourier, query
from vlib.build import field_obj
from vlib.core import Sub, expect, observing, same, same_coords
from vlib.model import Ax, Field
from vlib.props import C09

RULE = (
    "field of 1-3 axes in the original or Fourier domain, any request per axis; magnitude, phase (radians or degrees) and N largest "
    "harmonics compared with modulus and argument of the reference answer, in the field unit or another; non-trivial: at least two values, "
    "and for harmonics at least two lines"
)
KINDS = ("whole", "idx", "idxs", "range", "interval", "gt", "lt", "eq", "list", "axis_data", "smallestperiod", "oneperiod")
UNITS = {"T": 1.0, "mT": 1e3, "SI": 1.0, "MT": 1e-6}


@st.composite
def cases(draw):
    if draw(st.booleans()):
        case = draw(C09.cases(naxes=(1, 3)))
    else:
        case = draw(query.query(KINDS, naxes=(1, 3), maxfull=1500))
    case["what"] = draw(st.sampled_from(["mag", "mag", "phase"]))
    case["unit"] = draw(st.sampled_from(["SI", "SI", "T", "mT", "MT"] if case["what"] == "mag" else ["SI", "°", "T"]))
    case["norm"] = case["what"] == "mag" and case["unit"] in ("SI", "T") and draw(st.integers(0, 4)) == 0
    case["field"]["norms"] = {"ref": {"k": "ref", "ref": draw(st.sampled_from([1.0, 2.0, 0.5]))}}
    case["squeeze"] = draw(st.booleans())
    n = sum(r is not None for r in case["reqs"])
    case["perm"] = draw(st.permutations(list(range(n))))
    return case


def ask(obj, case, args, data):
    args = [args[i] for i in case["perm"]]
    kw = {"unit": case["unit"]} if case["unit"] != "SI" else {}
    if data:
        kw["axis_data"] = data
    if case["what"] == "mag":
        if case["norm"]:
            kw["is_norm"] = True
        kw["is_squeeze"] = case["squeeze"]
        return obj.get_magnitude_along(*args, **kw)
    return obj.get_phase_along(*args, **kw)


def run(case, note):
    f = Field(case["field"])
    out, A = C09.model(case, f)
    args, data = C09.args_of(case)
    what = "%s(%s, unit=%s)" % (case["what"], ", ".join(args), case["unit"])
    with observing("building the field"):
        obj = field_obj(case["field"])
    with observing(what):
        res = ask(obj, case, args, data)
        got = np.asarray(res[f.symbol])
        axes = {name: res[name] for name, ax, r, x in out}
    for name, ax, r, x in out:
        if r["k"] != "eq":
            sc = float(np.abs(fourier.fourier_axis(ax, f.is_real)[0]).max()) if r.get("ft") else query.axis_scale(ax)
            same_coords(axes[name], x, "%s axis %s" % (what, name), scale=sc)
    big = np.abs(f.full).max()
    if case["what"] == "mag":
        want = np.abs(A) * UNITS[case["unit"]]
        if case["norm"]:
            want = want / case["field"]["norms"]["ref"]["ref"]
        if case["squeeze"]:
            want = np.squeeze(want)
        same(got, want, what, scale=big * UNITS[case["unit"]] * (2 if case["norm"] else 1))
    else:
        k = 180 / np.pi if case["unit"] == "°" else 1.0
        want = np.squeeze(A)
        expect(got.shape == want.shape, "%s: shape %s, expected %s", what, got.shape, want.shape)
        with observing(what):
            p = np.asarray(got, dtype=float) / k
        expect(bool((np.abs(p) <= np.pi * (1 + 1e-9)).all()), "%s: phase outside ]-pi, pi]: %s", what, p)
        # the phase is meaningful where the modulus stands above rounding
        m = np.abs(want)
        if m.size:
            same(np.where(m > 1e-9 * big, m * np.exp(1j * p), 0), np.where(m > 1e-9 * big, want, 0), what, scale=big)
    note("%s/%s/%s" % (case["what"], case["unit"], "fourier" if any(r and r.get("ft") for r in case["reqs"]) else "original"))
    return A.size > 1


@st.composite
def harm_cases(draw):
    case = draw(C09.cases(naxes=(1, 3)))
    # axes that are not transformed are taken at a single sample
    for i, (a, r) in enumerate(zip(case["field"]["axes"], case["reqs"])):
        if not (r and r.get("ft")):
            ax = Ax(a)
            case["reqs"][i] = draw(st.sampled_from([None, {"k": "idx", "i": draw(st.integers(0, ax.N - 1))}]))
        elif r["k"] == "idxs":
            r["i"] = sorted(set(r["i"]))
    case["n"] = draw(st.sampled_from([1, 2, 3, 4, 5, 7, 50]))
    case["unit"] = draw(st.sampled_from(["SI", "SI", "T", "mT"]))
    n = sum(r is not None for r in case["reqs"])
    case["perm"] = draw(st.permutations(list(range(n))))
    return case


def run_harm(case, note):
    f = Field(case["field"])
    out, A = C09.model(case, f)
    four = [(name, x) for name, ax, r, x in out if r.get("ft")]
    if A.size < 2:
        return False
    k = UNITS[case["unit"]]
    M = np.abs(A).ravel() * k
    # coordinates of each entry, in the order of the axes of the field
    order = {}
    for i, (ax, r) in enumerate(zip(f.axes, case["reqs"])):
        if r and r.get("ft"):
            order[fourier.PARTNER[ax.name]] = i
    grid = {}
    for name, x in four:
        shp = [1] * A.ndim
        shp[order[name]] = -1
        grid[name] = np.broadcast_to(np.asarray(x).reshape(shp), A.shape).ravel()
    args, data = C09.args_of(case)
    args = [args[i] for i in case["perm"]]
    what = "get_harmonics(%d, %s, unit=%s)" % (case["n"], ", ".join(args), case["unit"])
    with observing("building the field"):
        obj = field_obj(case["field"])
    with observing(what):
        kw = {"unit": case["unit"]} if case["unit"] != "SI" else {}
        res = obj.get_harmonics(case["n"], *args, **kw)
        got = np.asarray(res[f.symbol])
        axes = {name: np.asarray(res[name]) for name in grid}
    n = min(case["n"], M.size)
    tol = 1e-9 * np.abs(f.full).max() * k
    same(got, np.sort(M)[::-1][:n], what, scale=np.abs(f.full).max() * k)
    used = set()
    for j in range(n):
        best = None
        for i in range(M.size):
            if all(abs(grid[c][i] - axes[c][j]) <= 1e-9 * (1 + np.abs(grid[c]).max()) for c in grid):
                best = i
        expect(best is not None, "%s: no line at %s", what, {c: axes[c][j] for c in grid})
        expect(best not in used, "%s: the line at %s is reported twice", what, {c: axes[c][j] for c in grid})
        used.add(best)
        expect(abs(M[best] - got[j]) <= tol, "%s: magnitude %r reported at %s where it is %r", what, got[j].item(), {c: axes[c][j].item() for c in grid}, M[best])
    note("harmonics/%s/%d" % ("+".join(sorted(grid)), case["n"]))
    return True


SUBS = [
    Sub("magnitude-phase", cases(), run, 8000),
    Sub("harmonics", harm_cases(), run_harm, 4000),
]
