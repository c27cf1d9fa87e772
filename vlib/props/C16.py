"""Axis normalizations are applied, inverted and selected consistently."""

import numpy as np
from hypothesis import strategies as st

from vlib import fourier, gen, query
from vlib.build import FUNCS, axis_obj, field_obj, norm_obj
from vlib.core import Sub, expect, observing, raises, same, same_coords, scale_of
from vlib.model import Ax, Field, apply
from vlib.props import C09

RULE = (
    "field of 1-3 axes carrying a normalization of each kind (reference, affine, index, vector, function); some axes requested through "
    "one of them with whole, index, period, interval, threshold, single-value or interpolation requests expressed in normalized "
    "coordinates, in the original or Fourier domain; also direct axis queries and unknown or unusable normalizations; non-trivial: at "
    "least one axis requested through a normalization that changes its coordinates"
)
KINDS = ("whole", "whole", "idx", "idxs", "range", "interval", "gt", "lt", "eq", "list", "axis_data", "smallestperiod", "oneperiod", "all")
NAMES = ["elec_order", "tooth", "n1", "octant", "pu"]


@st.composite
def norms(draw, spec, four=False):
    ax = Ax(spec)
    out = {}
    for name in NAMES:
        k = draw(st.sampled_from(["ref", "affine", "indices", "func"] + ([] if four or spec["kind"] == "pat" else ["vector"])))
        n = {"k": k}
        if k == "ref":
            n["ref"] = draw(st.sampled_from([0.5, 2.0, 3.0, 60.0, 1e-3, -4.0]))
        elif k == "affine":
            n["slope"] = draw(st.sampled_from([1.0, 2.0, -0.5, 10.0]))
            n["offset"] = draw(st.sampled_from([0.0, 1.0, -3.0]))
        elif k == "func":
            n["f"] = draw(st.sampled_from(sorted(FUNCS)))
        elif k == "vector":
            if ax.sym or not ax.is_num:
                n["s"], n["o"] = draw(st.sampled_from([2.0, -3.0, 0.5])), draw(st.sampled_from([0.0, 5.0]))
                n["vector"] = [float(v) for v in n["s"] * ax.stored + n["o"]]
            else:
                v, step = draw(st.sampled_from([0.0, -4.0, 7.0])), draw(st.sampled_from([1, -1]))
                n["vector"] = []
                for _ in range(ax.n):
                    n["vector"].append(float(v))
                    v += step * draw(st.integers(1, 12)) / 4
        if draw(st.integers(0, 4)) == 0:
            n["unit"] = spec["unit"]
        out[name] = n
    return out


def normed(n, x):
    k = n["k"]
    if k == "ref":
        return x / n["ref"]
    if k == "affine":
        return x * n["slope"] + n["offset"]
    if k == "indices":
        return np.arange(len(x)).astype(float)
    if k == "func":
        return FUNCS[n["f"]](x)
    if "s" in n:
        return n["s"] * x + n["o"]
    return np.array(n["vector"])


@st.composite
def request(draw, spec, n, x):
    """A request in normalized coordinates x (of the whole axis)."""
    ax = Ax(spec)
    kinds = [k for k in KINDS if not (spec["kind"] == "pat" and k in ("eq", "list", "axis_data", "smallestperiod", "oneperiod")) and not (ax.N < 2 and k in ("list", "axis_data")) and k != "all"]
    k = draw(st.sampled_from(kinds))
    if k in ("idx", "idxs", "range"):
        return draw(gen.index_request(len(x), kinds=(k,)))
    s = np.sort(x)
    if k in ("interval", "gt", "lt", "eq"):
        return draw(gen.value_request(s, kinds=(k,), exact=False))
    if k in ("list", "axis_data"):
        return draw(gen.interp_request(s, kinds=(k,)))
    return {"k": k}


@st.composite
def cases(draw):
    f = draw(gen.field(naxes=(1, 3), ppat=0.1, maxfull=1500, dtypes=("real", "int", "complex")))
    reqs = []
    for a in f["axes"]:
        if a["kind"] == "comp" or draw(st.integers(0, 3)) == 0:
            reqs.append(draw(st.one_of(st.none(), query.request(a, KINDS if a["kind"] != "pat" else ("whole", "idx", "range", "interval")))))
            continue
        a["norms"] = draw(norms(a))
        name = draw(st.sampled_from(NAMES))
        r = draw(request(a, a["norms"][name], normed(a["norms"][name], Ax(a).full)))
        r["n"] = name
        reqs.append(r)
    return {"field": f, "reqs": reqs, "perm": draw(st.randoms(use_true_random=False)).random()}


def string(name, r):
    s = query.req_string(name, r)
    return s.replace(name, "%s->%s" % (name, r["n"]), 1) if r.get("n") else s


def run(case, note):
    f = Field(case["field"])
    A = f.full
    args, data, out = [], {}, []
    nt = False
    for i, (ax, r) in enumerate(zip(f.axes, case["reqs"])):
        if r is None:
            A = np.take(A, [0], axis=i)
            continue
        x = None
        if r.get("n"):
            n = ax.spec["norms"][r["n"]]
            x = normed(n, ax.full)
            if r["k"] in ("list", "axis_data", "interval", "gt", "lt", "eq") and len(x) > 1 and np.min(np.abs(np.diff(x))) < 1e-6 * (np.abs(x).max() + 1e-300):
                return False  # samples that cannot be told apart in normalized coordinates
            note("%s/%s/%s" % (n["k"], r["k"], (ax.sym or [ax.kind])[0]))
            nt = nt or not np.allclose(x, ax.full)
        x, A = apply(ax, A, i, r, coords=x)
        out.append((ax, r, x))
        args.append(string(ax.name, r))
        data.update(query.req_axis_data(ax.name, r))
    if not args:
        return False
    with observing("building the field"):
        obj = field_obj(case["field"])
    k = int(case["perm"] * len(args))
    args = args[k:] + args[:k]
    res = query.ask(obj, args, data)
    what = "(%s)" % ", ".join(args)
    with observing("reading answer" + what):
        got = res[f.symbol]
        axes = {ax.name: res[ax.name] for ax, r, x in out}
    for ax, r, x in out:
        sc = query.axis_scale(ax)
        if r.get("n"):
            sc = float(np.abs(normed(ax.spec["norms"][r["n"]], ax.full)).max())
        if r["k"] == "eq":
            full = normed(ax.spec["norms"][r["n"]], ax.full) if r.get("n") else ax.full
            near = full[int(np.argmin(np.abs(full - r["v"])))]
            with observing("axis %s %s" % (ax.name, what)):
                g = float(np.asarray(axes[ax.name]).ravel()[0])
            expect(min(abs(g - r["v"]), abs(g - near)) <= 1e-9 * (sc + 1e-12), "axis %s %s: coordinate %r reported for a request at %r", ax.name, what, g, r["v"])
        else:
            same_coords(axes[ax.name], x, "axis %s %s" % (ax.name, what), scale=sc)
    same(got, np.squeeze(A), "field %s" % what, scale=np.abs(f.full).max())
    return nt


# ------------------------------------------------------------ Fourier axes


@st.composite
def four_cases(draw):
    case = draw(C09.cases(naxes=(1, 2), maxfull=800))
    for a, r in zip(case["field"]["axes"], case["reqs"]):
        if r and r.get("ft"):
            a["norms"] = draw(norms(a, four=True))
            r.clear()
            r["ft"] = True
            r["n"] = draw(st.sampled_from(NAMES))
            n = a["norms"][r["n"]]
            if n["k"] == "func":
                n["f"] = draw(st.sampled_from(["neg", "shift"]))
            x = normed(n, fourier.fourier_axis(Ax(a), case["field"]["dtype"] != "complex")[0])
            k = draw(st.sampled_from(["whole", "idx", "idxs", "range", "interval", "gt", "lt"]))
            if k == "whole":
                q = {"k": k}
            elif k in ("idx", "idxs", "range"):
                q = draw(gen.index_request(len(x), kinds=(k,)))
            else:
                q = draw(gen.value_request(np.sort(x), kinds=(k,), exact=False))
            r.update(q)
    return case


def run_four(case, note):
    f = Field(case["field"])
    # the same query in plain coordinates: select the same lines by index
    plain = {"field": case["field"], "reqs": []}
    coords = {}
    args, data = [], {}
    for ax, r in zip(f.axes, case["reqs"]):
        if r is None:
            plain["reqs"].append(None)
            continue
        if not r.get("ft"):
            plain["reqs"].append(r)
            args.append(query.req_string(ax.name, r))
            data.update(query.req_axis_data(ax.name, r))
            continue
        name = fourier.PARTNER[ax.name]
        n = ax.spec["norms"][r["n"]]
        x = normed(n, fourier.fourier_axis(ax, f.is_real)[0])
        if r["k"] in ("interval", "gt", "lt"):
            lo = r["a"] if r["k"] != "lt" else -np.inf
            hi = r["b"] if r["k"] != "gt" else np.inf
            sel = [i for i in range(len(x)) if lo <= x[i] <= hi]
        elif r["k"] == "whole":
            sel = list(range(len(x)))
        elif r["k"] == "range":
            sel = list(range(r["i"], r["j"]))
        else:
            sel = [r["i"]] if r["k"] == "idx" else list(r["i"])
        plain["reqs"].append({"k": "idxs", "i": sel, "ft": True})
        coords[name] = (x[sel], float(np.abs(x).max()))
        args.append(string(name, r))
        note("fourier/%s/%s/%s" % (n["k"], r["k"], (ax.sym or ["plain"])[0]))
    # values of a real wavenumber-only spectrum are one-sided when all requested wavenumbers are positive
    out, A = C09.model(plain, f)
    with observing("building the field"):
        obj = field_obj(case["field"])
    res = query.ask(obj, args, data)
    what = "(%s)" % ", ".join(args)
    with observing("reading answer" + what):
        got = res[f.symbol]
        axes = {name: res[name] for name in coords}
    for name, (x, sc) in coords.items():
        same_coords(axes[name], x, "axis %s %s" % (name, what), scale=sc)
    same(got, np.squeeze(A), "spectrum %s" % what, scale=np.abs(f.full).max())
    return True


# ------------------------------------------------------- axis queries, errors


@st.composite
def axis_cases(draw):
    name, unit = draw(st.sampled_from(gen.NAMES))
    a = draw(st.one_of(gen.num_axis(name, unit), gen.num_axis(name, unit), gen.pat_axis(name, unit)))
    a["norms"] = draw(norms(a))
    a["norms"]["elsewhere"] = {"k": "ref", "ref": 2.0, "unit": draw(st.sampled_from(["kg", "Ohm"]))}
    return {"axis": a, "span": draw(st.sampled_from(["whole", "smallestperiod", "oneperiod"])), "vals": [draw(st.integers(-20, 20)) / 4 for _ in range(4)]}


def run_axis(case, note):
    a = case["axis"]
    ax = Ax(a)
    with observing("building the axis"):
        obj = axis_obj(a)
    N = {"whole": ax.N, "smallestperiod": ax.n, "oneperiod": ax.one()}[case["span"]]
    pat = a["kind"] == "pat"
    if pat and case["span"] == "oneperiod":
        kw = {"is_pattern": True}
        N = ax.n
    else:
        kw = {} if case["span"] == "whole" else {"is_" + case["span"]: True}
    for name, n in a["norms"].items():
        what = "values of the %s axis (%s) normalized by %s" % (case["span"], a["name"], n)
        if name == "elsewhere":
            raises(["NormError"], lambda: obj.get_values(normalization=name, **kw), what)
            continue
        x = normed(n, ax.stored if pat and kw else ax.full)[:N]
        for way in ("normalization", "unit"):
            with observing(what):
                got = obj.get_values(**{way: name}, **kw)
            same(got, x, "%s (%s)" % (what, way), scale=np.abs(x).max())
        v = np.array(case["vals"])
        if n["k"] != "vector":
            with observing(what):
                got = norm_obj(n).normalize(v)
            same(got, normed(n, v), "normalize with %s" % n)
        note(n["k"])
    raises(["NormError"], lambda: obj.get_values(normalization="no_such", **kw), "values with an unknown normalization")
    fs = {"axes": [a], "vseed": 1, "dtype": "real", "symbol": "X"}
    with observing("building the field"):
        fo = field_obj(fs)
    raises(None, lambda: fo.get_along(a["name"] + "->no_such"), "request of an unknown normalization")
    raises(["NormError"], lambda: fo.get_along(a["name"] + "->elsewhere"), "request of a normalization in another unit")
    raises(["NormError"], lambda: fo.get_along(a["name"], is_norm=True), "normalized field without reference value")
    return True


@st.composite
def field_cases(draw):
    case = draw(query.query(("whole", "whole", "idx", "idxs", "range", "interval", "list", "axis_data", "smallestperiod"), pomit=0.1, maxfull=600))
    kinds = ["ref", "affine"] + (["func"] if case["field"]["dtype"] != "complex" else [])
    case["field"]["norms"] = {"ref": {"k": "ref", "ref": draw(st.sampled_from([0.5, 2.0, 3.0, 2e-5]))}}
    n = {"k": draw(st.sampled_from(kinds))}
    n.update({"ref": {"ref": draw(st.sampled_from([4.0, 60.0, -8.0]))}, "affine": {"slope": draw(st.sampled_from([2.0, -0.5])), "offset": draw(st.sampled_from([1.0, -3.0]))}, "func": {"f": draw(st.sampled_from(sorted(FUNCS)))}}[n["k"]])
    case["field"]["norms"]["pu"] = n
    if n["k"] == "func":
        case["field"]["scale"] = 1.0
    case["way"] = draw(st.sampled_from(["is_norm", "ref", "pu", "pu", "no_such"]))
    case["mag"] = draw(st.booleans())
    return case


def run_field(case, note):
    """The values of the field itself through one of its normalizations."""
    f = Field(case["field"])
    coords, A = query.evaluate(case, f)
    args, data = query.arguments(case)
    with observing("building the field"):
        obj = field_obj(case["field"])
    kw = {"is_norm": True} if case["way"] == "is_norm" else {"unit": case["way"]}
    if data:
        kw["axis_data"] = data
    ask = obj.get_magnitude_along if case["mag"] else obj.get_along
    what = "%s(%s, %s)" % ("magnitude" if case["mag"] else "field", ", ".join(args), kw)
    if case["way"] == "no_such":
        raises(None, lambda: ask(*args, **kw), what)
        return False
    n = case["field"]["norms"]["ref" if case["way"] == "is_norm" else case["way"]]
    with observing(what):
        res = ask(*args, **kw)
        got = res[f.symbol]
        axes = {ax.name: res[ax.name] for ax, r, x in coords}
    if case["mag"]:
        A, size = np.abs(A), np.abs(f.full)
    else:
        size = f.full
    same(got, np.squeeze(normed(n, A)), what, rtol=1e-7, scale=scale_of(normed(n, size)))
    for ax, r, x in coords:
        if ax.is_num:
            same_coords(axes[ax.name], x, "axis %s of %s" % (ax.name, what), scale=query.axis_scale(ax))
        else:
            same_coords(axes[ax.name], x, "axis %s of %s" % (ax.name, what))
    note("field/%s/%s" % (case["way"], n["k"]))
    return True


SUBS = [
    Sub("requests", cases(), run, 7000),
    Sub("fourier", four_cases(), run_four, 3000),
    Sub("axes", axis_cases(), run_axis, 1500),
    Sub("field", field_cases(), run_field, 2500),
]
