"""Time/space form and Fourier form of a field are inverse of each other."""

import numpy as np
from hypothesis import strategies as st

from vlib import fourier, gen, query
from vlib.build import VectorField, field_obj
from vlib.core import Sub, expect, observing, rng, same, same_coords
from vlib.model import Ax, Field, apply, req_string
from vlib.snapshot import difference, freeze

RULE = (
    "real or complex field with a time and/or angle axis (starting at 0, any position and symmetry; even number of samples per period in "
    "time for real fields) and other axes; conversion to Fourier form and back, and queries of the Fourier form on time and angle; "
    "non-trivial: at least 4 samples per period on a transformed axis"
)
OTHERS = ("whole", "idx", "idxs", "range", "interval", "list", "axis_data", "smallestperiod", "oneperiod")


def size_ok(a, is_real):
    n = Ax(a).one()
    return n >= 2 and (n % 2 == 0 or a["name"] == "angle" or not is_real)


@st.composite
def fields(draw, naxes=(1, 3)):
    f = draw(fourier.fourier_field(naxes=naxes, starts=(0.0,), even=False, maxfull=1500, ppat=0.1))
    is_real = f["dtype"] != "complex"
    for a in f["axes"]:
        if a["name"] in ("time", "angle"):
            if a.get("sym") and a["sym"][0] == "antiperiod" and a["sym"][1] % 2:
                a["sym"][1] += 1
            if a["name"] == "time" and is_real and Ax(a).one() % 2:
                a["n"] += 1
            if a["name"] == "angle":
                a["dx"] = 2 * np.pi / gen.axis_len(a)
    f["norms"] = {"ref": {"k": "ref", "ref": 2.0}}
    f["name"] = draw(st.sampled_from(["field", "flux density"]))
    return f


def fourier_of(f, obj):
    with observing("time_to_freq"):
        return obj.time_to_freq()


def labels(f, obj, what):
    with observing(what):
        got = (obj.name, obj.unit, obj.symbol, obj.normalizations["ref"].ref, bool(obj.is_real))
    want = (f.spec["name"], f.unit, f.symbol, 2.0, f.is_real)
    expect(got == want, "%s: name, unit, symbol, reference, realness are %s instead of %s", what, got, want)


def whole(f, obj, names, what):
    """Compare all of obj along names with the model."""
    with observing(what):
        res = obj.get_along(*names)
        got = res[f.symbol]
        axes = [res[n] for n in names]
    for ax, n, x in zip(f.axes, names, axes):
        same_coords(x, ax.full, "%s axis %s" % (what, n), scale=query.axis_scale(ax))
    same(got, np.squeeze(f.full), what, scale=np.abs(f.full).max())


def run_trip(case, note):
    f = Field(case)
    with observing("building the field"):
        obj = field_obj(case)
    before = freeze(obj)
    F = fourier_of(f, obj)
    labels(f, F, "Fourier form")
    expect(type(F).__name__ == "DataFreq", "time_to_freq returned a %s", type(F).__name__)
    # the Fourier form holds the spectrum of the field
    A = f.full
    names = []
    has_time = "time" in f.names
    with observing("axes of the Fourier form"):
        got_names = [a.name for a in F.axes]
    for i, ax in enumerate(f.axes):
        names.append(fourier.PARTNER.get(ax.name, ax.name))
        if ax.name in fourier.PARTNER:
            vals, cyc = fourier.fourier_axis(ax, f.is_real)
            A = fourier.dft(A, i, cyc)
            if f.is_real and ax.name == "time":
                shp = [1] * A.ndim
                shp[i] = -1
                A = A * np.where(vals != 0, 2.0, 1.0).reshape(shp)
    expect(got_names == names, "axes of the Fourier form: %s instead of %s", got_names, names)
    with observing("reading the Fourier form"):
        res = F.get_along(*names)
    for ax, n in zip(f.axes, names):
        if ax.name in fourier.PARTNER:
            x = fourier.fourier_axis(ax, f.is_real)[0]
            same_coords(res[n], x, "axis %s of the Fourier form" % n, scale=np.abs(x).max())
        else:
            same_coords(res[n], ax.full, "axis %s of the Fourier form" % n, scale=query.axis_scale(ax))
    same(res[f.symbol], np.squeeze(A), "Fourier form", scale=np.abs(f.full).max())
    frozen = freeze(F)
    # and back
    with observing("freq_to_time"):
        back = F.freq_to_time()
    expect(type(back).__name__ == "DataTime", "freq_to_time returned a %s", type(back).__name__)
    labels(f, back, "field back from its Fourier form")
    whole(f, back, f.names, "field back from its Fourier form")
    # other axes are kept as they were (stored part, symmetry)
    for j, ax in enumerate(f.axes):
        if ax.name not in fourier.PARTNER:
            for o, w in ((F, "Fourier form"), (back, "field back")):
                d = difference(freeze(obj.axes[j]), freeze(o.axes[j]))
                expect(d is None, "axis %s changed in the %s: %s", ax.name, w, d)
    # the Fourier form read on time and angle
    whole(f, F, f.names, "Fourier form read on the original axes")
    for o, b, w in ((obj, before, "the original"), (F, frozen, "the Fourier form")):
        d = difference(b, freeze(o))
        expect(d is None, "conversion changed %s: %s", w, d)
    nt = False
    for ax in f.axes:
        if ax.name in fourier.PARTNER:
            nt = nt or ax.one() >= 4
            note("%s/%s/%s/%s" % (ax.name, "real" if f.is_real else "complex", (ax.sym or ["plain"])[0], "odd" if ax.one() % 2 else "even"))
    return nt


# ----------------------------------------------------------------- queries


@st.composite
def queries(draw):
    f = draw(fields())
    reqs = []
    is_real = f["dtype"] != "complex"
    for a in f["axes"]:
        ax = Ax(a)
        if a["name"] in fourier.PARTNER:
            k = draw(st.sampled_from(["whole", "whole", "idx", "idxs", "range", "interval", "gt", "lt", "oneperiod", "ft"]))
            if k in ("idx", "idxs", "range"):
                r = draw(gen.index_request(ax.N, kinds=(k,)))
            elif k in ("interval", "gt", "lt"):
                r = draw(gen.value_request(ax.full, kinds=(k,), exact=False))
            elif k == "ft":
                r = {"k": "whole", "ft": True}
            else:
                r = {"k": k}
        else:
            r = draw(query.request(a, OTHERS))
        reqs.append(r)
    return {"field": f, "reqs": reqs}


def run_query(case, note):
    from vlib.props import C09

    f = Field(case["field"])
    out, A = C09.model(case, f)
    args, data = C09.args_of(case)
    with observing("building the field"):
        obj = field_obj(case["field"])
    F = fourier_of(f, obj)
    what = "Fourier form (%s)" % ", ".join(args)
    res = query.ask(F, args, data)
    with observing(what):
        got = res[f.symbol]
        axes = {name: res[name] for name, ax, r, x in out}
    for name, ax, r, x in out:
        sc = float(np.abs(fourier.fourier_axis(ax, f.is_real)[0]).max()) if r.get("ft") else query.axis_scale(ax)
        same_coords(axes[name], x, "axis %s %s" % (name, what), scale=sc)
        if ax.name in fourier.PARTNER:
            note("%s/%s/%s" % (ax.name, "spectrum" if r.get("ft") else r["k"], (ax.sym or ["plain"])[0]))
    same(got, np.squeeze(A), what, scale=np.abs(f.full).max())
    return any(ax.name in fourier.PARTNER and ax.one() >= 4 for ax in f.axes)


# ---------------------------------------------------------- vector fields


@st.composite
def vectors(draw):
    names = draw(st.sampled_from([["radial", "tangential"], ["comp_x", "comp_y", "comp_z"], ["axial"], ["tangential", "axial"]]))
    return {"field": draw(fields()), "comps": {n: draw(gen.seeds) for n in names}}


def run_vectors(case, note):
    with observing("building the vector field"):
        comps = {n: field_obj(dict(case["field"], vseed=s, symbol="B_" + n)) for n, s in case["comps"].items()}
        vec = VectorField(name="flux density", symbol="B", components=dict(comps))
    before = freeze(vec)
    with observing("conversions of a vector field"):
        F = vec.time_to_freq()
        frozen = freeze(F)
        back = F.freq_to_time()
    for o, b, w in ((vec, before, "the original"), (F, frozen, "the Fourier form")):
        d = difference(b, freeze(o))
        expect(d is None, "conversion changed %s: %s", w, d)
    for o, form, w in ((F, "DataFreq", "Fourier form of the vector field"), (back, "DataTime", "vector field back from its Fourier form")):
        with observing(w):
            expect(type(o).__name__ == "VectorField" and (o.name, o.symbol) == ("flux density", "B"), "%s is a %s %r, %r", w, type(o).__name__, o.name, o.symbol)
            expect(list(o.components) == list(comps), "%s has components %s instead of %s", w, list(o.components), list(comps))
            expect(all(type(c).__name__ == form for c in o.components.values()), "%s is not made of %s", w, form)
    for n, c in comps.items():
        f = Field(dict(case["field"], vseed=case["comps"][n], symbol="B_" + n))
        with observing("conversion of one component"):
            d = difference(freeze(c.time_to_freq()), freeze(F.components[n]))
        expect(d is None, "component %s of the Fourier form is not the Fourier form of the component: %s", n, d)
        with observing("labels of a component"):
            labels(f, back.components[n], "component %s back from the Fourier form" % n)
        whole(f, back.components[n], f.names, "component %s back from the Fourier form" % n)
        note("vector/%s" % n)
    return len(comps) > 1


# ----------------------------------------------------------- from spectra


@st.composite
def spectra(draw):
    real = draw(st.booleans())
    n = draw(st.sampled_from([2, 3, 4, 5, 6, 8, 9, 16]))
    which = draw(st.sampled_from(["freqs", "freqs", "wavenumber"]))
    z = draw(st.one_of(st.none(), st.integers(2, 4)))
    return {
        "real": real, "which": which, "lines": n, "df": draw(st.sampled_from([1.0, 0.5, 10.0, 50.0, 1.0 / 3])), "z": z,
        "first": draw(st.booleans()), "per": draw(st.sampled_from([1, 1, 2, 3])), "vseed": draw(st.integers(0, 10**6)),
    }


def run_spectrum(case, note):
    from SciDataTool import Data1D, DataFreq, DataLinspace

    n = case["lines"]
    if case["real"]:
        k = np.arange(n)
    else:
        k = np.arange(n) - n // 2
    per = case["per"]
    x = k * (case["df"] if case["which"] == "freqs" else float(per))
    r = rng(case["vseed"])
    shape = [n] + ([case["z"]] if case["z"] else [])
    V = r.randint(-99, 100, size=shape) / 8.0 + 1j * r.randint(-99, 100, size=shape) / 8.0
    if case["real"]:
        V[0] = V[0].real
        V[-1] = V[-1].real  # a Nyquist line of a real signal is real
    sym = {"period": per} if per > 1 else {}
    with observing("building the spectrum"):
        axes = [DataLinspace(name=case["which"], unit="Hz" if case["which"] == "freqs" else "dimless", initial=float(x[0]), final=float(x[-1]), number=n, symmetries=sym)]
        if case["z"]:
            axes.append(Data1D(name="z", unit="m", values=np.arange(case["z"]) * 0.5))
        if not case["first"]:
            axes.reverse()
            V = V.T
        F = DataFreq(name="f", symbol="X", unit="T", axes=axes, values=V.copy(), is_real=case["real"])
    names = [a.name for a in axes]
    with observing("conversion of a spectrum"):
        t = F.freq_to_time()
        back = t.time_to_freq()
        res = back.get_along(*names)
        got = res["X"]
        gx = res[case["which"]]
    one_sided = case["real"] and case["which"] == "wavenumber"
    what = "spectrum of %d lines to %s and back" % (n, "time" if case["which"] == "freqs" else "angle")
    if not one_sided:  # one-sided wavenumbers come back as two-sided ones
        same_coords(gx, x, what + ", axis", scale=np.abs(x).max() + 1e-300)
        same(got, V, what, scale=np.abs(V).max())
    # the signal is the sum of the lines
    i = names.index(case["which"])
    with observing("signal of a spectrum"):
        res = t.get_along(*[{"freqs": "time", "wavenumber": "angle"}.get(m, m) for m in names])
        sig = res["X"]
        tt = np.asarray(res["time" if case["which"] == "freqs" else "angle"])
    W = V if i == 0 else V.T
    if case["real"] and not one_sided:
        W = W.copy()
        W[-1] *= 0.5  # the Nyquist line is stored with twice its amplitude
    ph = np.exp(1j * np.outer(tt, x) * (2 * np.pi if case["which"] == "freqs" else 1.0))
    want = ph @ W
    if case["real"]:
        want = want.real
    same(sig, want if i == 0 else want.T, what + ": signal", scale=np.abs(V).sum())
    note("%s/%s/%d" % (case["which"], "real" if case["real"] else "complex", per))
    return n >= 3


# ------------------------------------------------------------- operations


@st.composite
def operations(draw):
    f = draw(fields())
    reqs = []
    some = False
    for a in f["axes"]:
        ax = Ax(a)
        if a["name"] in fourier.PARTNER and (not some or draw(st.booleans())):
            some = True
            ops = ["sum", "mean", "max", "min", "rms", "rss", "integrate"]
            if not ax.aper and ax.n > 3 and ax.n % 2 == 0:
                ops += ["derivate", "antiderivate", "integrate_local"]
            reqs.append({"k": "op", "op": draw(st.sampled_from(ops))})
        else:
            reqs.append(draw(query.request(a, ("whole", "idx", "range"))))
    return {"field": f, "reqs": reqs}


def run_operation(case, note):
    f = Field(case["field"])
    args = [req_string(ax.name, r) for ax, r in zip(f.axes, case["reqs"])]
    with observing("building the field"):
        obj = field_obj(case["field"])
    if any(r["k"] == "op" and ax.n < 2 for ax, r in zip(f.axes, case["reqs"])):
        return False
    if not f.is_real and any(r.get("op") in ("max", "min") for r in case["reqs"]):
        return False
    ref = query.ask(obj, args, {})
    F = fourier_of(f, obj)
    what = "Fourier form (%s)" % ", ".join(args)
    res = query.ask(F, args, {})
    span = 1.0
    for ax, r in zip(f.axes, case["reqs"]):
        if r["k"] == "op":
            note("%s/%s/%s" % (ax.name, r["op"], (ax.sym or ["plain"])[0]))
            span *= {"integrate": ax.N * ax.spec["dx"], "sum": ax.N, "rss": ax.N, "integrate_local": ax.spec["dx"], "derivate": 4 / ax.spec["dx"], "antiderivate": ax.N * ax.spec["dx"]}.get(r["op"], 1.0)
        with observing(what):
            a, b = ref[ax.name], res[ax.name]
        if isinstance(a, str):
            expect(isinstance(b, str) and a == b, "%s: axis %s reported as %r", what, ax.name, b)
        else:
            same_coords(b, a, "%s axis %s" % (what, ax.name), scale=query.axis_scale(ax))
    same(res[f.symbol], ref[f.symbol], what, scale=np.abs(f.full).max() * max(1.0, span), rtol=1e-8)
    return True


SUBS = [
    Sub("operations", operations(), run_operation, 2500),
    Sub("roundtrip", fields(), run_trip, 3000),
    Sub("queries", queries(), run_query, 4000),
    Sub("vectors", vectors(), run_vectors, 800),
    Sub("spectra", spectra(), run_spectrum, 2500),
]
