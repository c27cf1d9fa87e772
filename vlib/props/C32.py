"""Plots draw exactly the queried data."""

import copy
import warnings

import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt
import numpy as np
from hypothesis import strategies as st

from vlib import fourier, gen, shown
from vlib.build import field_obj
from vlib.core import Sub, expect, observing, same, same_coords, same_strings
from vlib.model import Ax, Field
from vlib.snapshot import difference, freeze

RULE = (
    "one to three fields of 1-3 axes drawn as curves or bars along one axis (one curve per field and per selected sample of a second axis, other "
    "axes sliced or reduced; each field may have its own samples), or one field drawn as colour map, mesh, surface, scatter or stems along two axes in either order; any unit, level, "
    "Fourier partner; non-trivial: several curves, or a map with different numbers of samples on its axes"
)


@st.composite
def curves(draw):
    case = draw(shown.cases(ndims=(1, 1), overlay=draw(st.booleans()), curves=True))
    case["others"] = []
    for s in ["Y", "Z_t"][: draw(st.sampled_from([0, 0, 0, 1, 2]))]:
        case["others"].append({"symbol": s, "vseed": draw(gen.seeds), "name": draw(st.sampled_from(["other", "reference", "A"])) + s})
    case["legend"] = draw(st.booleans()) if case["others"] else False
    has_ft = any(r and r.get("ft") for r in case["reqs"])
    case["type"] = draw(st.sampled_from([None, "bargraph"] if has_ft else [None, "curve", "curve_point", "point", "bargraph"]))
    case["labels"] = draw(st.sampled_from([None, None, None, ["my x", "my y", "my title"]]))
    main = case["shown"][0]
    # an additional curve for the whole of the other axes
    others = [i for i, a in enumerate(case["field"]["axes"]) if i != main and (a["kind"] == "comp" or a["name"] not in ("time", "angle", "z")) and (i == case["over"] or (case["reqs"][i] or {"k": "idx"})["k"] == "idx")]
    case["overall"] = []
    if others and case["over"] in [None] + others and not any(r and r["k"] == "op" for r in case["reqs"]) and case["unit"] != "dB" and case["field"]["dtype"] != "complex" and draw(st.booleans()):
        case["overall"] = draw(st.permutations([i for i in others if i == case["over"] or (case["over"] is None and i == others[0]) or draw(st.booleans())]))
        if case["unit"] == "SI" and draw(st.booleans()):
            case["field"]["unit"] = "W"
    a, r = case["field"]["axes"][main], case["reqs"][main]
    if a["kind"] in ("d1", "lin") and r["k"] in ("whole", "oneperiod", "smallestperiod") and not r.get("ft") and case["type"] != "bargraph":
        for o in case["others"]:  # other samples along the abscissa
            if draw(st.booleans()):
                o["grid"] = [draw(st.sampled_from([0.0, 1.0, -4.0, 100.0])), draw(st.sampled_from([1.0, 2.0, 0.5])), draw(st.integers(0, 2))]
    return case


def other(spec, o, main):
    """Specification of a field drawn along with the first one."""
    s = dict(copy.deepcopy(spec), **{k: v for k, v in o.items() if k != "grid"})
    if o.get("grid"):
        a = s["axes"][main]
        shift, factor, more = o["grid"]
        if a.get("xs"):
            a["xs"] = [a["xs"][0] + shift + factor * (x - a["xs"][0]) for x in a["xs"]]
        else:
            a["n"] += more
        a["x0"] += shift
        a["dx"] *= factor
    return s


def figure(d3=False):
    fig = plt.figure(figsize=(3, 2))
    return fig, fig.add_subplot(111, projection="3d" if d3 else None)


def unit_in(label, unit, what):
    expect("[%s]" % unit in label.replace("$", ""), "%s: label %r does not give the unit %s", what, label, unit)


def name_in(label, dim, what):
    word = {"freqs": "frequency", "z": "axial direction"}.get(dim.name, dim.name)
    expect(label.lower().startswith(word.lower()), "%s: label %r does not name %s", what, label, dim.name)
    if dim.is_num and dim.unit:
        unit_in(label, dim.unit, what)


def value_label(label, label_unit, case, f, what):
    expect(f.symbol in label, "%s: label %r does not name %s", what, label, f.symbol)
    if label_unit == "dB":
        expect("[dB re. %s %s]" % (case["field"]["norms"]["ref"]["ref"], f.unit) in label.replace("$", ""), "%s: label %r", what, label)
    else:
        unit_in(label, label_unit, what)


def run_curves(case, note):
    main, over = case["shown"][0], case["over"]
    specs = [case["field"]] + [other(case["field"], o, main) for o in case["others"]]
    fields = [Field(s) for s in specs]
    want = []
    for f in fields:
        dims, A, label, scale = shown.expected(case, f, positive=True)
        if shown.vanishing(case, A, f):
            note("vanishing level")
            return False
        if len(dims[main].x) < 2:
            note("one sample")
            return False
        if over is not None and len(dims[over].x) > 1:
            V = np.squeeze(np.moveaxis(A, [over, main], [0, 1])).reshape(len(dims[over].x), len(dims[main].x))
        else:
            over = None
            V = A.reshape(1, -1)
        if label == "dB":
            if (np.abs(V) < 1e-9).any():
                note("level zero")
                return False
            V = np.where(V <= 0, np.nan, V)
            if np.isnan(V).all():
                note("no level")
                return False
        dx = dims[main]
        x = dx.x if dx.is_num else np.arange(len(dx.x), dtype=float)
        want += [(f, j, V[j], scale, x, dx.scale if dx.is_num else float(len(x))) for j in range(len(V))]
    if case["overall"]:
        along = tuple(case["overall"])
        c = dict(case, reqs=[{"k": "whole"} if k in along else r for k, r in enumerate(case["reqs"])])
        A, u, scale = shown.expected(c, fields[0], positive=True)[1:]
        A = A.sum(axis=along) if fields[0].unit == "W" else np.sqrt((np.abs(A) ** 2).sum(axis=along))
        want.insert(0, (fields[0], None, A.reshape(-1), scale * np.prod([fields[0].axes[i].N for i in along])) + want[0][4:])
        label = "W" if fields[0].unit == "W" else label
    args, data = shown.arguments(case)
    with observing("building the fields"):
        objs = [field_obj(s) for s in specs]
        before = [freeze(o) for o in objs]
    legend = ["entry %d" % i for i in range(len(objs))] if case["legend"] else None
    kw = {}
    if data:
        kw["axis_data"] = data
    if case["type"]:
        kw["type_plot"] = case["type"]
    if legend:
        kw["legend_list"] = legend
    if case["overall"]:
        kw["overall_axes"] = [fields[0].names[i] for i in case["overall"]]
    if case["labels"]:
        kw.update(xlabel=case["labels"][0], ylabel=case["labels"][1], title=case["labels"][2])
    what = "plot_2D_Data(%s)" % ", ".join(args + ["overall " + n for n in kw.get("overall_axes", [])])
    fig, ax = figure()
    try:
        with observing(what):
            objs[0].plot_2D_Data(*args, data_list=objs[1:], unit=case["unit"], fig=fig, ax=ax, is_show_fig=False, **kw)
        d = dims[main]
        bars = d.req.get("ft") or case["type"] == "bargraph"
        drawn = []
        if bars:
            expect(len(ax.containers) == len(want), "%s: %d bar groups for %d curves", what, len(ax.containers), len(want))
            for c in ax.containers:
                drawn.append((c.get_label(), np.array([p.get_x() + p.get_width() / 2 for p in c]), np.array([p.get_height() for p in c])))
        else:
            lines = list(ax.get_lines())
            if case["type"] == "curve_point":  # line, then markers
                expect(len(lines) == 2 * len(want), "%s: %d lines for %d curves", what, len(lines), len(want))
                lines = lines[0::2] + lines[1::2]
            for ln in lines:
                drawn.append((ln.get_label(), np.array(ln.get_xdata(), dtype=float), np.array(ln.get_ydata())))
            if case["type"] == "curve_point":
                want = want + want
            expect(len(drawn) == len(want), "%s: %d lines for %d curves", what, len(drawn), len(want))
        with observing("labels of " + what):
            xlabel, ylabel, title = ax.get_xlabel(), ax.get_ylabel(), ax.get_title()
            ticks = [t.get_text() for t in ax.get_xticklabels()]
            places = list(ax.get_xticks())
    finally:
        plt.close(fig)
    n = len(want) // (2 if case["type"] == "curve_point" else 1)
    for k, ((lab, gx, gy), (f, j, V, scale, x, sc)) in enumerate(zip(drawn, want)):
        w = "%s, curve %d" % (what, k)
        if not bars or n == 1:
            same_coords(gx, x, w + " abscissa", scale=sc)
        else:
            # bars of the curves stand side by side, in the same order everywhere
            expect(len(gx) == len(x), "%s: %d bars for %d samples", w, len(gx), len(x))
            same(np.diff(gx), np.diff(x), w + " spacing of the bars", rtol=1e-7, scale=sc)
        same(np.nan_to_num(np.asarray(gy, dtype=float), nan=-999.0), np.nan_to_num(V, nan=-999.0), w, rtol=1e-9, scale=scale)
        if j is None:
            expect(lab == "Overall" or k >= n or case["type"] == "point", "%s: legend %r instead of Overall", w, lab)
        elif k < n and n > 1 and case["type"] != "point":
            if case["others"]:
                i = fields.index(f)
                name = legend[i] if legend else specs[i].get("name", "field")
                expect(lab.startswith(name), "%s: legend %r instead of %r", w, lab, name)
            if over is not None:
                expect(dims[over].name + "=" in lab, "%s: legend %r does not give %s", w, lab, dims[over].name)
                text = lab.split("=")[1].strip()
                v = dims[over].x[j]
                if dims[over].is_num:
                    with observing("legend " + lab):
                        g = float(text.split(" ")[0])
                    expect(abs(g - v) <= 6e-3 * abs(v) + 1e-9, "%s: legend %r for %s=%r", w, lab, dims[over].name, v)
                else:
                    expect(text.startswith(str(v)), "%s: legend %r for %s=%r", w, lab, dims[over].name, v)
    if case["labels"]:
        expect([xlabel, ylabel, title] == case["labels"], "%s: labels %r instead of %r", what, [xlabel, ylabel, title], case["labels"])
    else:
        name_in(xlabel, d, what)
        value_label(ylabel, label, case, fields[0], what)
    if not d.is_num and over is None and not bars:
        same_strings(ticks, d.x, what + " tick labels")
        same(places, x, what + " ticks", rtol=1e-9)
    for o, b in zip(objs, before):
        diff = difference(b, freeze(o))
        expect(diff is None, "%s changed a field: %s", what, diff)
    if case["overall"]:
        note("overall")
    note("%s/%d fields/%d curves/%s" % (case["type"] or ("bars" if bars else "lines"), len(fields), min(n, 4), case["unit"]))
    return n > 1


@st.composite
def maps(draw):
    case = draw(shown.cases(ndims=(2, 2), naxes=(2, 3), both=draw(st.integers(0, 3)) == 0))
    f = case["field"]
    has_ft = any(r and r.get("ft") for r in case["reqs"])
    case["type"] = draw(st.sampled_from([None, "scatter"] if has_ft else [None, "pcolor", "pcolor", "pcolormesh", "surf"]))
    if case["type"] == "surf":
        f["scale"] = 1.0  # coincident corners are merged up to rounding
        if max(gen.axis_len(a) for a in f["axes"]) > 50:
            case["type"] = None  # surfaces are drawn coarser
    both = all(case["reqs"][i].get("ft") for i in case["shown"])
    if both and draw(st.booleans()):
        case["type"] = "stem"
        case["stems"] = draw(st.sampled_from([1, 3, 10, 100]))
    case["contour"] = draw(st.integers(0, 4)) == 0 and not has_ft
    case["switch"] = draw(st.integers(0, 3)) == 0
    case["labels"] = draw(st.sampled_from([None, None, None, ["my x", "my y", "my title"]]))
    return case


def points(case, ax, what):
    """(x, y, value) of everything drawn."""
    t = case["type"]
    if t == "stem":
        out = []
        for ln in ax.lines:
            X, Y, Z = ln.get_data_3d()
            expect(X[0] == X[1] and Y[0] == Y[1] and Z[0] == 0, "%s: stem %r %r %r", what, X, Y, Z)
            out.append((X[1], Y[1], Z[1]))
        return np.array(out, dtype=float)
    if t == "surf":
        expect(len(ax.collections) == 1, "%s: %d surfaces", what, len(ax.collections))
        v = np.asarray(ax.collections[0]._vec)[:3].T
        return np.unique(np.round(v, 13), axis=0)
    if t in (None, "pcolor") and ax.images:
        im = ax.images[0]
        X, Y, Z = np.asarray(im._Ax), np.asarray(im._Ay), np.asarray(im.get_array())
        expect(Z.shape == (len(Y), len(X)), "%s: image of %s for %d x %d", what, Z.shape, len(Y), len(X))
        expect((np.diff(X) > 0).all() and (np.diff(Y) > 0).all(), "%s: image coordinates not increasing", what)
        X, Y = np.meshgrid(X, Y)
        return np.c_[X.ravel(), Y.ravel(), Z.ravel()]
    c = ax.collections[0]
    if hasattr(c, "get_coordinates"):
        C = c.get_coordinates()
        Z = np.asarray(c.get_array())
        expect(Z.size == C.shape[0] * C.shape[1], "%s: mesh of %s for %s", what, Z.shape, C.shape)
        return np.c_[C[..., 0].ravel(), C[..., 1].ravel(), Z.ravel()]
    off = np.asarray(c.get_offsets())
    Z = np.ma.filled(np.ma.asarray(c.get_array(), dtype=float), np.nan)
    expect(len(off) == len(Z), "%s: %d points, %d values", what, len(off), len(Z))
    return np.c_[off, Z]


def run_maps(case, note):
    f = Field(case["field"])
    dims, A, label, scale = shown.expected(case, f)
    i, j = case["shown"]
    has_ft = any(r and r.get("ft") for r in case["reqs"])
    if shown.vanishing(case, A, f):
        note("vanishing level")
        return False
    if len(dims[i].x) < 2 or len(dims[j].x) < 2:
        note("one sample")
        return False
    if any(not dims[k].is_num for k in (i, j)) and case["labels"]:
        case = dict(case, labels=None)
    V = np.moveaxis(A, [i, j], [0, 1]).reshape(len(dims[i].x), len(dims[j].x))
    args, data = shown.arguments(case)
    what = "plot_3D_Data(%s)" % ", ".join(args)
    with observing("building the field"):
        obj = field_obj(case["field"])
        before = freeze(obj)
    kw = {"axis_data": data} if data else {}
    flat = case["type"] in ("stem", "surf")
    if flat:
        kw["is_2D_view"] = False
    elif case["type"]:
        kw["type_plot"] = case["type"]
    if case["type"] == "stem":
        kw["N_stem"] = case["stems"]
    if case["contour"]:
        kw["is_contour"] = True
    if case["switch"]:
        kw["is_switch_axes"] = True
    if case["labels"]:
        kw.update(xlabel=case["labels"][0], ylabel=case["labels"][1], title=case["labels"][2])
    fig, ax = figure(flat)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with observing(what):
                obj.plot_3D_Data(*args, unit=case["unit"], fig=fig, ax=ax, is_show_fig=False, **kw)
        with observing("labels of " + what):
            labels = [ax.get_xlabel(), ax.get_ylabel(), ax.get_title()]
            z = ax.get_zlabel() if flat else [a.get_title() for a in fig.axes if a is not ax][0]
        P = points(case, ax, what)
        ticks = [[t.get_text() for t in g()] for g in (ax.get_xticklabels, ax.get_yticklabels)]
    finally:
        plt.close(fig)
    if case["switch"]:
        P[:, :2] = P[:, 1::-1]
        labels[:2] = labels[1::-1]
        ticks = ticks[::-1]
    X, Y = [d.x if d.is_num else np.arange(len(d.x), dtype=float) for d in (dims[i], dims[j])]
    sx, sy = [d.scale if d.is_num else float(len(d.x)) for d in (dims[i], dims[j])]
    gx, gy = np.meshgrid(X, Y, indexing="ij")
    W = np.c_[gx.ravel(), gy.ravel(), V.ravel()]
    if case["type"] == "stem":
        top = np.sort(W[:, 2])[::-1][: case["stems"]]
        expect(len(P) == len(top), "%s: %d stems for %d harmonics", what, len(P), len(top))
        same(np.sort(P[:, 2])[::-1], top, what + " heights of the stems", rtol=1e-9, scale=scale)
    else:
        expect(len(P) == len(W), "%s: %d points drawn for %d", what, len(P), len(W))
    for p in P:  # images keep their coordinates in single precision
        hit = np.argmin(np.abs(W[:, 0] - p[0]) / sx + np.abs(W[:, 1] - p[1]) / sy)
        w = W[hit]
        expect(abs(w[0] - p[0]) <= 1e-6 * sx and abs(w[1] - p[1]) <= 1e-6 * sy, "%s: point drawn at %r, %r", what, p[0], p[1])
        expect(abs(w[2] - p[2]) <= 1e-9 * scale, "%s: %r drawn at (%r, %r) instead of %r", what, p[2], p[0], p[1], w[2])
    if case["labels"]:
        expect(labels == case["labels"], "%s: labels %r instead of %r", what, labels, case["labels"])
    else:
        name_in(labels[0], dims[i], what)
        name_in(labels[1], dims[j], what)
    value_label(z, label, case, f, what)
    for t, d in zip(ticks, (dims[i], dims[j])):
        if not d.is_num and not has_ft and case["type"] != "surf":
            same_strings(t, d.x, what + " tick labels")
    diff = difference(before, freeze(obj))
    expect(diff is None, "%s changed the field: %s", what, diff)
    note("%s/%s/%s" % (case["type"] or "default", "switched" if case["switch"] else "straight", "ft" if has_ft else "plain"))
    return len(X) != len(Y)


SUBS = [
    Sub("curves", curves(), run_curves, 2400),
    Sub("maps", maps(), run_maps, 1800),
]
