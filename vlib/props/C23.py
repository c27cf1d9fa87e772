"""Cartesian and cylindrical views of a vector field describe the same vectors."""

import copy

import numpy as np
from hypothesis import strategies as st

from vlib import fourier, gen, query
from vlib.build import VectorField, field_obj
from vlib.core import Sub, expect, observing, rng, same, same_coords
from vlib.model import Ax, Field, unfold, values_of
from vlib.props import C09
from vlib.snapshot import difference, freeze
from SciDataTool.Functions.conversions import rphiz_to_xyz, rphiz_to_xyz_field, xyz_to_rphiz, xyz_to_rphiz_field

RULE = (
    "vector field with radial/tangential or x/y components (one may be missing) and possibly an axial one, on an angle axis in any position among "
    "other axes (symmetries, components, patterns), queried in both frames with any request on each axis, converted to the other frame and back; "
    "non-trivial: both in-plane components are present and the answer has a dimension"
)
CYL = ("radial", "tangential")
CART = ("comp_x", "comp_y")
SYMBOLS = {"radial": "B_r", "tangential": "B_t", "axial": "B_z", "comp_x": "B_x", "comp_y": "B_y", "comp_z": "B_z"}
LABELS = {
    "radial": "Radial flux density", "tangential": "Tangential flux density", "axial": "Axial flux density",
    "comp_x": "flux density along x-axis", "comp_y": "flux density along y-axis", "comp_z": "flux density along z-axis",
}
KINDS = ("whole", "whole", "idx", "idxs", "range", "interval", "gt", "lt", "list", "axis_data", "smallestperiod", "oneperiod", "sum")


@st.composite
def vectors(draw, fullset=False, angle_sym=True, **kw):
    kw.setdefault("ppat", 0.1)
    f = draw(gen.field(need=("angle",), maxfull=1000, **kw))
    for a in f["axes"]:
        if a["name"] == "angle" and not angle_sym:
            a["sym"] = None
    frame = draw(st.sampled_from(["cyl", "cart"]))
    names = list(CYL if frame == "cyl" else CART)
    if not fullset and draw(st.integers(0, 4)) == 0:
        names.pop(draw(st.integers(0, 1)))
    z = draw(st.sampled_from([None, "axial", "comp_z"]))
    if z:
        names.insert(draw(st.integers(0, len(names))), z)
        if not fullset and draw(st.integers(0, 5)) == 0:
            names = [z]
    return {"field": f, "frame": frame, "comps": {n: draw(gen.seeds) for n in names}}


def comp_spec(case, name):
    s = copy.deepcopy(case["field"])
    s.update(vseed=case["comps"][name], symbol=SYMBOLS[name], name=LABELS[name], unit=case.get("unit0", "T"))
    return s


def build(case):
    with observing("building the vector field"):
        return VectorField(name="flux density", symbol="B", components={n: field_obj(comp_spec(case, n)) for n in case["comps"]})


def rotate(full, frame, phi, i):
    """Components in both frames from those in one of them."""
    shp = [1] * next(iter(full.values())).ndim
    shp[i] = -1
    c, s = np.cos(phi).reshape(shp), np.sin(phi).reshape(shp)
    out = {}
    if frame == "cyl":
        r, t = full["radial"], full["tangential"]
        out.update(radial=r, tangential=t, comp_x=r * c - t * s, comp_y=r * s + t * c)
    else:
        x, y = full["comp_x"], full["comp_y"]
        out.update(comp_x=x, comp_y=y, radial=x * c + y * s, tangential=-x * s + y * c)
    return out


def model(case, stored=False):
    f = Field(case["field"])
    i = f.names.index("angle")
    vals = {}
    for n in case["comps"]:
        v = values_of(comp_spec(case, n), tuple(a.n for a in f.axes))
        vals[n] = v if stored else unfold(v, f.axes)
    zero = np.zeros_like(next(iter(vals.values())))
    pair = CYL if case["frame"] == "cyl" else CART
    full = {n: vals.get(n, zero) for n in pair}
    ax = f.axes[i]
    out = rotate(full, case["frame"], ax.stored if stored else ax.full, i)
    z = vals.get("axial", vals.get("comp_z", zero))
    out["axial"] = out["comp_z"] = z
    return f, out


def unchanged(before, obj, what):
    d = difference(before, freeze(obj))
    expect(d is None, "%s changed the vector field: %s", what, d)


# ------------------------------------------------------------------ queries


@st.composite
def queries(draw):
    case = draw(vectors())
    reqs = []
    for a in case["field"]["axes"]:
        if draw(st.integers(0, 9)) == 0:
            reqs.append(None)
            continue
        k = [x for x in KINDS if not (a["name"] == "angle" and x in ("smallestperiod", "oneperiod") and a.get("sym"))]
        k = [x for x in k if not (a["kind"] in ("pat", "comp") and x == "sum")]
        r = draw(st.sampled_from(k))
        reqs.append({"k": "sum"} if r == "sum" else draw(query.request(a, (r,))))
    if all(r is None for r in reqs):
        reqs[0] = {"k": "whole"}
    case.update(reqs=reqs, frame_asked=draw(st.sampled_from(["xyz", "rphiz"])), unit=draw(st.sampled_from(["SI", "SI", "mT"])), mag=draw(st.booleans()))
    case["squeeze"] = case["mag"] or draw(st.integers(0, 3)) > 0
    case["bad"] = draw(st.integers(0, 9)) == 0
    case["packed"] = draw(st.integers(0, 5)) == 0
    return case


def arguments(case):
    c = dict(case)
    c["reqs"] = [None if r is None else ({"k": "op", "op": "sum"} if r["k"] == "sum" else r) for r in case["reqs"]]
    return query.arguments(c)


def evaluate(case, f, full):
    A = full
    coords = []
    for i, (ax, r) in enumerate(zip(f.axes, case["reqs"])):
        if r is None:
            A = np.take(A, [0], axis=i)
        elif r["k"] != "sum":
            x, A = query.apply(ax, A, i, r)
            coords.append((ax, r, x))
    # sums last, magnitudes first take the modulus
    if case["mag"]:
        A = np.abs(A)
    for i, r in enumerate(case["reqs"]):
        if r is not None and r["k"] == "sum":
            A = A.sum(axis=i, keepdims=True)
    return coords, A


def run_query(case, note):
    f, comps = model(case)
    vec = build(case)
    before = freeze(vec)
    args, data = arguments(case)
    asked = case["frame_asked"]
    method = "get_%s%s_along" % ("mag_" if case["mag"] else "", asked)
    what = "%s(%s)" % (method, ", ".join(args))
    kw = {"unit": case["unit"]}
    if data:
        kw["axis_data"] = data
    if not case["squeeze"]:
        kw["is_squeeze"] = False
    if case["bad"]:
        try:
            getattr(vec, method)(*args[:-1], args[-1] + "[nonsense]", **kw)
        except Exception:
            pass
        unchanged(before, vec, "a failing query")
    with observing(what):
        res = getattr(vec, method)(*([tuple(args)] if case["packed"] else args), **kw)
    unchanged(before, vec, what)
    names = ("comp_x", "comp_y", "comp_z") if asked == "xyz" else ("radial", "tangential", "axial")
    scale = max(np.abs(v).max() for v in comps.values()) * np.prod([a.N for a, r in zip(f.axes, case["reqs"]) if r and r["k"] == "sum"])
    factor = 1000.0 if case["unit"] == "mT" else 1.0
    for n in names:
        coords, A = evaluate(case, f, comps[n])
        A = A * factor
        if case["squeeze"]:
            A = np.squeeze(A)
        with observing(what):
            got = res[n]
            axes = [res[ax.name] for ax, r, x in coords]
        same(got, A, "%s of %s" % (n, what), scale=scale * factor)
        for (ax, r, x), g in zip(coords, axes):
            same_coords(g, x, "axis %s of %s" % (ax.name, what), scale=query.axis_scale(ax))
    cross = (asked == "xyz") == (case["frame"] == "cyl")
    note("%s%s from %s" % ("magnitudes " if case["mag"] else "", asked, case["frame"]))
    for a, r in zip(case["field"]["axes"], case["reqs"]):
        if a["name"] == "angle" and cross:
            note("angle " + ("omitted" if r is None else r["k"]) + (" folded" if a.get("sym") else ""))
    return cross and len(case["comps"]) > 1 and A.ndim > 0


# -------------------------------------------------------------- conversions


def run_convert(case, note):
    f, comps = model(case, stored=True)
    fold = bool(f.ax("angle").sym)
    vec = build(case)
    before = freeze(vec)
    other, back = ("to_xyz", "to_rphiz") if case["frame"] == "cyl" else ("to_rphiz", "to_xyz")
    with observing(other):
        new = getattr(vec, other)()
        same_frame = getattr(vec, back)()
        ret = getattr(new, back)()
    unchanged(before, vec, other)
    zin = [n for n in case["comps"] if n in ("axial", "comp_z")]
    scale = max(np.abs(v).max() for v in comps.values())
    for obj, what, pair, z in (
        (new, other, CART if case["frame"] == "cyl" else CYL, "comp_z" if case["frame"] == "cyl" else "axial"),
        (ret, other + " and back", CYL if case["frame"] == "cyl" else CART, "axial" if case["frame"] == "cyl" else "comp_z"),
    ):
        with observing(what):
            want = set(pair) | ({z} if zin else set())
            expect(set(obj.components) == want, "%s has components %s instead of %s", what, list(obj.components), sorted(want))
            expect(obj.name == "flux density" and obj.symbol == "B", "%s: name and symbol are %r, %r", what, obj.name, obj.symbol)
            for n in want:
                c = obj.components[n]
                same(c.values, comps[n], "%s: %s" % (what, n), scale=scale)
                expect(c.unit == "T", "%s: unit of %s is %r", what, n, c.unit)
                ref = vec.components[next(iter(vec.components))]
                for j in range(len(f.axes)):
                    d = ref.axes[j].compare(c.axes[j])
                    expect(d == [], "%s: axis %s of %s differs: %s", what, f.names[j], n, d)
    d = difference(before, freeze(same_frame))
    expect(d is None, "%s on a field already in that frame: %s", back, d)
    if not fold:
        # the new field answers in both frames like the original
        with observing("query of the converted field"):
            a = new.get_rphiz_along(*f.names)
            b = new.get_xyz_along(*f.names)
        _, full = model(case)
        for n in ("radial", "tangential", "axial"):
            same(a[n], np.squeeze(full[n]), "%s of the converted field" % n, scale=scale)
        for n in ("comp_x", "comp_y", "comp_z"):
            same(b[n], np.squeeze(full[n]), "%s of the converted field" % n, scale=scale)
    note("%s%s%s" % (other, " with z" if zin else "", " folded" if fold else ""))
    return len(case["comps"]) > 1


# ------------------------------------------------------------------ spectra


@st.composite
def spectra(draw):
    f = draw(fourier.fourier_field(naxes=(1, 3), both=draw(st.sampled_from([("angle",), ("time", "angle")])), starts=(0.0,), maxfull=600, psym=0.3))
    frame = draw(st.sampled_from(["cyl", "cart"]))
    names = list(CYL if frame == "cyl" else CART)
    z = draw(st.sampled_from([None, None, "axial", "comp_z"]))
    k = draw(st.integers(0, 5))
    if k < 2:
        names.pop(k)
    if z:
        names = [z] if k == 2 else names + [z]
    reqs = []
    for a in f["axes"]:
        if a["name"] in fourier.PARTNER and draw(st.integers(0, 3)):
            reqs.append({"k": "whole", "ft": True})
        else:
            reqs.append({"k": "whole"})
    if not any(r.get("ft") for r in reqs):
        reqs[[a["name"] for a in f["axes"]].index("angle")]["ft"] = True
    return {"field": f, "frame": frame, "comps": {n: draw(gen.seeds) for n in names}, "reqs": reqs, "mag": draw(st.booleans()), "harm": draw(st.integers(1, 5)), "form": draw(st.sampled_from(["time", "time", "freq"])), "asked": draw(st.sampled_from(["xyz", "rphiz"])), "packed": draw(st.integers(0, 3)) == 0}


def plain(case, comp):
    """The same geometry with an unfolded angle and given values."""
    s = copy.deepcopy(case["field"])
    s.update(vseed=0, symbol=SYMBOLS[comp])
    for a in s["axes"]:
        if a["name"] == "angle":
            a["n"] = gen.axis_len(a)
            a["sym"] = None
    return s


def spectrum_of(case, f, comps, asked, n):
    """Axes and spectrum of one component, None when its axes are not those of the answer."""
    if n in ("axial", "comp_z"):
        n = ([c for c in ("axial", "comp_z") if c in case["comps"]] or [n])[0]
    s = comp_spec(case, n) if n in case["comps"] else plain(case, n)
    crossed = (asked == "xyz") == (case["frame"] == "cyl") and any(c in case["comps"] for c in CYL + CART)
    fold = bool(f.ax("angle").sym)
    g = Field(s)
    if n not in case["comps"]:
        if not crossed and fold:
            return None
        g.full = comps[n]
    elif crossed and fold:
        return None
    return C09.model({"field": s, "reqs": case["reqs"]}, g)


def run_harmonics(case, f, comps, vec, asked, args, before, scale, note):
    """The N largest harmonics of a component are those of the same component stored on its own."""
    what = "get_harm_%s_along(%d, %s)" % (asked, case["harm"], ", ".join(args))
    with observing(what):
        res = getattr(vec, "get_harm_%s_along" % asked)(case["harm"], *([tuple(args)] if case["packed"] else args))
    unchanged(before, vec, what)
    for n in ("comp_x", "comp_y", "comp_z") if asked == "xyz" else ("radial", "tangential", "axial"):
        m = spectrum_of(case, f, comps, asked, n)
        if m is None:
            continue
        mags = np.sort(np.abs(m[1]).ravel())[::-1][: case["harm"]]
        with observing(what):
            got = np.asarray(res[n]).ravel()
        same(np.sort(np.abs(got))[::-1], mags, "largest harmonics of %s in %s" % (n, what), scale=scale, rtol=1e-8)
    note("harmonics")


def run_spectra(case, note):
    f, comps = model(case)
    vec = build(case)
    fold = bool(f.ax("angle").sym)
    even = f.is_real is False or "time" not in f.names or f.ax("time").one() % 2 == 0
    form = case["form"] if even and not fold and f.ax("angle").n > 2 else "time"
    asked = case["asked"]
    with observing("building"):
        if form == "freq":
            vec = vec.time_to_freq()
    before = freeze(vec)
    args, _ = C09.args_of(case)
    method = "get_%s%s_along" % ("mag_" if case["mag"] else "", asked)
    what = "%s(%s)" % (method, ", ".join(args))
    with observing(what):
        res = getattr(vec, method)(*([tuple(args)] if case["packed"] else args))
    unchanged(before, vec, what)
    scale = max(np.abs(v).max() for v in comps.values())
    for n in ("comp_x", "comp_y", "comp_z") if asked == "xyz" else ("radial", "tangential", "axial"):
        m = spectrum_of(case, f, comps, asked, n)
        if m is None:
            continue
        out, A = m
        if case["mag"]:
            A = np.abs(A)
        with observing(what):
            got = res[n]
        same(got, np.squeeze(A), "%s of %s" % (n, what), scale=scale, rtol=1e-8)
        for name, ax, r, x in out:
            if r.get("ft"):
                same_coords(res[name], x, "axis %s of %s" % (name, what), scale=np.abs(x).max())
    if all(a.name in fourier.PARTNER and r.get("ft") for a, r in zip(f.axes, case["reqs"])) and form == "time":
        run_harmonics(case, f, comps, vec, asked, args, before, scale, note)
    note("%s %s %s" % (asked, form, "folded" if fold else "plain"))
    note(",".join(sorted(a.split("[")[0] for a in args)))
    return True


# ------------------------------------------------- component-wise operations


@st.composite
def component_ops(draw):
    case = draw(vectors())
    case["reqs"] = [draw(query.request(a, ("whole", "range", "idxs", "interval", "smallestperiod"))) for a in case["field"]["axes"]]
    return case


def run_components(case, note):
    f, comps = model(case)
    vec = build(case)
    before = freeze(vec)
    args, data = query.arguments(case)
    with observing("get_vectorfield_along(%s)" % ", ".join(args)):
        new = vec.get_vectorfield_along(*args)
        expect(set(new.components) == set(vec.components), "components %s", list(new.components))
        expect((new.name, new.symbol) == (vec.name, vec.symbol), "name and symbol %s", (new.name, new.symbol))
        for n in vec.components:
            one = vec.components[n].get_data_along(*args)
            expect(new.components[n] == one, "component %s is not what its own extraction returns", n)
        expect([a.name for a in vec.get_axes()] == f.names, "axes are %s", [a.name for a in vec.get_axes()])
        for n in f.names:
            expect([a.name for a in vec.get_axes(n)] == [n], "axis %s: %s", n, vec.get_axes(n))
    unchanged(before, vec, "extraction")
    return len(vec.components) > 1


# ------------------------------------------------------------ point functions


def run_points(case, note):
    r = rng(case["seed"])
    n = case["n"]
    p = np.column_stack((r.uniform(0.01, 5, n), r.uniform(0, 2 * np.pi, n), r.uniform(-3, 3, n)))
    v = r.uniform(-2, 2, (n, 3))
    with observing("coordinates of points"):
        x = rphiz_to_xyz(p.copy())
        back = xyz_to_rphiz(np.asarray(x).copy())
        two = rphiz_to_xyz(p[:, :2].copy())
        w = rphiz_to_xyz_field(v.copy(), p[:, 1].copy())
        u = xyz_to_rphiz_field(np.asarray(w).copy(), p[:, 1].copy())
    same(x, np.column_stack((p[:, 0] * np.cos(p[:, 1]), p[:, 0] * np.sin(p[:, 1]), p[:, 2])), "cartesian coordinates")
    same(two, np.column_stack((p[:, 0] * np.cos(p[:, 1]), p[:, 0] * np.sin(p[:, 1]))), "plane cartesian coordinates")
    d = np.abs(back[:, 1] - p[:, 1])
    expect(np.all(np.minimum(d, 2 * np.pi - d) < 1e-9), "angles %s instead of %s", back[:, 1], p[:, 1])
    same(back[:, [0, 2]], p[:, [0, 2]], "radius and height")
    c, s = np.cos(p[:, 1]), np.sin(p[:, 1])
    same(w, np.column_stack((v[:, 0] * c - v[:, 1] * s, v[:, 0] * s + v[:, 1] * c, v[:, 2])), "cartesian components at points")
    same(u, v, "components back in cylindrical frame")
    return n > 1


SUBS = [
    Sub("queries", queries(), run_query, 5000),
    Sub("conversions", vectors(fullset=True), run_convert, 2500),
    Sub("spectra", spectra(), run_spectra, 2000),
    Sub("components", component_ops(), run_components, 800),
    Sub("points", st.fixed_dictionaries({"seed": gen.seeds, "n": st.integers(1, 6)}), run_points, 400),
]
