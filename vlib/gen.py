"""Strategies.  Everything drawn is plain data (see model.py for the meaning)."""

from math import pi

from hypothesis import strategies as st

NAMES = [
    ("time", "s"),
    ("angle", "rad"),
    ("z", "m"),
    ("radius", "m"),
    ("speed", "rpm"),
    ("loadcase", ""),
    ("current", "A"),
    # names that contain the words of the request syntax
    ("max_sum", "m"),
    ("meantime", ""),
]
COMP_NAMES = ["phase", "slot", "component", "source", "pattern"]
STARTS = [0.0, 0.0, 0.0, 1.0, -1.0, 0.25, -2.5, 3.0, 10.0]
STEPS = [1.0, 0.5, 0.25, 0.1, 0.125, 2.0, 1e-3, pi / 8, pi / 12, 1.0 / 3]
SCALES = [1.0] * 8 + [2.0**-40, 2.0**30]
LONG = [64, 101, 257, 300]
FINE = [1e-6, 2.0**-30]  # finer than the usual absolute tolerances
SIZES = st.one_of(st.integers(2, 6), st.integers(2, 12), st.sampled_from([16, 24, 31, 32]))
seeds = st.integers(0, 10**6)


@st.composite
def sym(draw, even=True, maxrep=6):
    k = draw(st.sampled_from(["period", "antiperiod"]))
    if k == "period":
        return [k, draw(st.integers(2, maxrep))]
    q = draw(st.sampled_from([2, 2, 4, 4, 6, 8]))
    if not even and draw(st.booleans()):
        q = draw(st.sampled_from([3, 5]))
    return [k, q]


@st.composite
def num_axis(draw, name, unit, sizes=SIZES, psym=0.5, starts=None, steps=None, even=True, kinds=("d1", "lin", "irr"), maxrep=6, nmax=None):
    n = draw(sizes)
    if nmax:
        n = max(2, min(n, nmax))
    kind = draw(st.sampled_from(kinds))
    s = {"name": name, "unit": unit, "n": n}
    s["x0"] = draw(st.sampled_from(starts or STARTS))
    s["dx"] = draw(st.sampled_from(steps or (STEPS if starts else STEPS + FINE)))
    if s["dx"] in FINE and not steps:
        s["x0"] *= s["dx"]  # near zero, where coordinates keep their digits
    symm = None
    if psym and draw(st.integers(0, 99)) < 100 * psym:
        symm = draw(sym(even=even, maxrep=maxrep))
    if kind == "irr" and symm is None:
        inc = draw(st.lists(st.integers(1, 9), min_size=n - 1, max_size=n - 1))
        xs = [s["x0"]]
        for i in inc:
            xs.append(xs[-1] + i * s["dx"] / 4)
        s.update(kind="d1", xs=xs)
    elif kind == "lin":
        s.update(kind="lin", form=draw(st.integers(0, 3)))
    else:
        s.update(kind="d1")
        if draw(st.integers(0, 5)) == 0:
            s["aslist"] = True
    s["sym"] = symm
    return s


@st.composite
def comp_axis(draw, name, nmin=1, nmax=5):
    n = draw(st.integers(nmin, nmax))
    names = draw(st.lists(st.sampled_from(["a", "b", "c", "A", "B", "n1", "n2", "x 1", "slot-3", "Phase A"]), min_size=n, max_size=n, unique=True))
    return {"name": name, "unit": "", "kind": "comp", "names": names}


@st.composite
def pat_axis(draw, name, unit, is_step=None, nmax=5, starts=STARTS):
    """A pattern axis: unique samples and the whole axis they rebuild."""
    n = draw(st.integers(1, nmax))
    N = draw(st.integers(n, n + 6))
    xs = [draw(st.sampled_from(starts))]
    for i in range(n - 1):
        xs.append(xs[-1] + draw(st.integers(1, 8)) / 8)
    rebuild = [draw(st.integers(0, n - 1)) for _ in range(N)]
    # the whole axis may start elsewhere than its pattern
    whole = [draw(st.sampled_from([xs[0], xs[0], starts[-1], starts[0]]))]
    for i in range(N - 1):
        whole.append(whole[-1] + draw(st.integers(1, 8)) / 8)
    return {
        "name": name,
        "unit": unit,
        "kind": "pat",
        "xs": xs,
        "rebuild": rebuild,
        "whole": whole,
        "is_step": draw(st.booleans()) if is_step is None else is_step,
    }


def axis_len(s):
    if s["kind"] == "comp":
        return len(s["names"])
    if s["kind"] == "pat":
        return len(s["rebuild"])
    return s["n"] * (s["sym"][1] if s.get("sym") else 1)


@st.composite
def field(
    draw, naxes=(1, 3), psym=0.5, pcomp=0.15, ppat=0.0, axkinds=("d1", "lin", "irr"), dtypes=("real", "real", "int", "complex"),
    even=True, starts=None, steps=None, names=None, maxfull=3000, cls="DataTime", need=(), unit="T", sizes=SIZES,
):
    n = draw(st.integers(*naxes))
    pool = list(names or NAMES)
    chosen = [p for p in pool if p[0] in need]
    rest = [p for p in pool if p[0] not in need]
    while len(chosen) < n and rest:
        chosen.append(rest.pop(draw(st.integers(0, len(rest) - 1))))
    order = draw(st.permutations(list(range(len(chosen)))))
    chosen = [chosen[i] for i in order]
    axes = []
    total = 1
    caps = {1: 40, 2: 20, 3: 7, 4: 4}
    long = draw(st.integers(0, 19)) == 0 and len(chosen) <= 2 and sizes is SIZES
    comps = list(COMP_NAMES)
    for name, u in chosen:
        r = draw(st.integers(0, 99))
        if r < 100 * pcomp and name not in need:
            a = draw(comp_axis(comps.pop(draw(st.integers(0, len(comps) - 1)))))
        elif r < 100 * (pcomp + ppat) and name not in need:
            a = draw(pat_axis(name, u))
        else:
            some, nmax = (st.sampled_from(LONG), None) if long and total == 1 else (sizes, 5 if long else caps[len(chosen)])
            a = draw(num_axis(name, u, psym=psym, kinds=axkinds, even=even, starts=starts, steps=steps, nmax=nmax, sizes=some))
        if total * axis_len(a) > maxfull and a.get("sym"):
            a["sym"] = None
        total *= axis_len(a)
        axes.append(a)
    return {
        "cls": cls,
        "axes": axes,
        "vseed": draw(seeds),
        "dtype": draw(st.sampled_from(dtypes)),
        "scale": draw(st.sampled_from(SCALES)),
        "unit": unit,
        "symbol": draw(st.sampled_from(["X", "X", "B_r", "S1"])),
    }


# ------------------------------------------------------------- requests


@st.composite
def index_request(draw, N, kinds=("idx", "idxs", "range", "whole")):
    k = draw(st.sampled_from(kinds))
    if k == "idx":
        return {"k": k, "i": draw(st.integers(0, N - 1))}
    if k == "idxs":
        return {"k": k, "i": draw(st.lists(st.integers(0, N - 1), min_size=2, max_size=6))}
    if k == "range":
        i = draw(st.integers(0, N - 1))
        return {"k": k, "i": i, "j": draw(st.integers(i + 1, N))}
    return {"k": k}


def midpoints(x, i, f):
    """A coordinate at fraction f between samples i and i+1."""
    return x[i] + f * (x[i + 1] - x[i])


FRACS = [0.25, 0.5, 0.375, 0.75, 0.1, 0.9]


DYADIC = [1.0, 0.5, 0.25, 0.125, 2.0]


def is_exact(spec):
    """Coordinates of this axis are exactly representable, so that bounds can be
    put on samples."""
    return spec["kind"] == "pat" or spec["dx"] in DYADIC


@st.composite
def value_request(draw, x, kinds=("interval", "gt", "lt", "eq"), exact=False):
    """x: unfolded coordinates (increasing).  Bounds sit between samples or (on
    exactly representable axes) on samples; at least one sample qualifies."""
    k = draw(st.sampled_from(kinds))
    N = len(x)
    i = draw(st.integers(0, N - 1))

    def below(i):  # a bound that keeps sample i and excludes sample i-1
        step = (x[i] - x[i - 1]) if i > 0 else (x[1] - x[0] if N > 1 else 1.0)
        return draw(st.sampled_from([0.0 if exact else 0.1, 0.3, 0.6])) * step

    def above(j):
        step = (x[j + 1] - x[j]) if j < N - 1 else (x[-1] - x[-2] if N > 1 else 1.0)
        return draw(st.sampled_from([0.0 if exact else 0.1, 0.3, 0.6])) * step

    if k == "interval":
        j = draw(st.integers(i, N - 1))
        return {"k": k, "a": float(x[i] - below(i)), "b": float(x[j] + above(j)), "on": [i, j]}
    if k == "gt":
        return {"k": k, "a": float(x[i] - below(i)), "on": [i, N - 1]}
    if k == "lt":
        return {"k": k, "b": float(x[i] + above(i)), "on": [0, i]}
    f = draw(st.sampled_from([0.0, 0.0, 0.2, 0.4, -0.2, -0.4]))
    if not exact and f == 0.0 and i in (0, N - 1):
        f = 0.1  # rounding could put the coordinate outside the axis
    if i == 0:
        f = abs(f)
    if i == N - 1:
        f = -abs(f)
    if N == 1:
        f = 0.0
    step = 0.0
    if f > 0:
        step = x[i + 1] - x[i]
    elif f < 0:
        step = x[i] - x[i - 1]
    return {"k": k, "v": float(x[i] + f * step), "on": [i, i]}


@st.composite
def interp_request(draw, x, kinds=("list", "axis_data"), minlen=3, maxlen=6):
    k = draw(st.sampled_from(kinds))
    N = len(x)
    m = draw(st.integers(min(2, minlen) if k == "axis_data" else minlen, maxlen))  # two listed values are an interval
    v = []
    mode = draw(st.sampled_from(["mixed", "ongrid", "offgrid", "sorted"]))
    for _ in range(m):
        i = draw(st.integers(0, N - 1))
        f = draw(st.sampled_from([0.0] + FRACS)) if mode != "ongrid" else 0.0
        if i == N - 1:
            i, f = (N - 2, 1.0) if N > 1 else (0, 0.0)
        v.append(float(x[i] + f * (x[i + 1] - x[i])) if N > 1 and f not in (0.0, 1.0) else float(x[i] if f == 0.0 else x[i + 1]))
    if mode == "sorted":
        v = sorted(v)
    return {"k": k, "v": v}
