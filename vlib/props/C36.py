"""Plots of vector fields and animations show the data they name."""

import copy
import glob
import os
import shutil
import tempfile
import warnings

import matplotlib

matplotlib.use("Agg")
import imageio
import matplotlib.pyplot as plt
import numpy as np
from hypothesis import strategies as st
from PIL import Image

from vlib import gen, query, shown
from vlib.build import field_obj
from vlib.core import Sub, expect, observing, same, same_coords, same_strings
from vlib.model import Field
from vlib.props import C23
from vlib.snapshot import difference, freeze

RULE = (
    "vector field with one to three components in either frame, drawn component by component (curves, bars or maps, with other vector fields for "
    "comparison, on screen or in files), as arrows (all components or one, whole or partial angle axis, any radius and phase), and fields animated "
    "along an axis (sampled, folded or pattern) as curves or maps; non-trivial: two components, or at least two different frames"
)
plt.rcParams["figure.dpi"] = 40
FONT = "DejaVu Sans"  # looking for an absent font takes longer than drawing
plt.rcParams["figure.max_open_warning"] = 0


# --------------------------------------------------------------- arrows


@st.composite
def arrows(draw):
    case = draw(C23.vectors(ppat=0, dtypes=("real", "int", "complex")))
    axes = case["field"]["axes"]
    reqs = []
    for a in axes:
        if a["name"] == "angle":
            reqs.append(draw(query.request(a, ("whole", "whole", "idxs", "range", "interval", "gt", "lt", "list", "axis_data"))))
        elif draw(st.integers(0, 3)) == 0:
            reqs.append(None)
        elif draw(st.integers(0, 4)) == 0 and a["kind"] != "comp":
            reqs.append({"k": "sum"})
        else:
            reqs.append(draw(gen.index_request(gen.axis_len(a), kinds=("idx",))))
    folded = any(a["name"] == "angle" and a.get("sym") for a in axes)
    ones = [None, None] + [c for c in ("radial", "tangential") if c in case["comps"] or case["frame"] == "cart" and not folded and len(set(case["comps"]) & set(C23.CART)) == 2]
    case.update(
        reqs=reqs,
        one=draw(st.sampled_from(ones)),
        radius=draw(st.sampled_from([None, None, 0.25, 3.0])),
        phase=draw(st.sampled_from([0, 0, 0.5, 3.0])),
        unit=draw(st.sampled_from(["SI", "mT"])),
        mag=False,
    )
    return case


def run_arrows(case, note):
    f, comps = C23.model(case)
    vec = C23.build(case)
    before = freeze(vec)
    args, data = C23.arguments(case)
    if case["one"]:
        zero = np.zeros_like(comps["radial"])
        only = {"radial": zero, "tangential": zero, case["one"]: comps[case["one"]]}
        comps = C23.rotate(only, "cyl", f.ax("angle").full, f.names.index("angle"))
    factor = 1000.0 if case["unit"] == "mT" else 1.0
    phi, want = None, []
    for n in ("comp_x", "comp_y"):
        coords, A = C23.evaluate(case, f, comps[n])
        want.append(np.real(A.reshape(-1) * np.exp(1j * case["phase"])) * factor)
        phi = [np.asarray(x, dtype=float).reshape(-1) for ax, r, x in coords if ax.name == "angle"][0]
    angle = [r for a, r in zip(case["field"]["axes"], case["reqs"]) if a["name"] == "angle"][0]
    if case["one"] and angle["k"] in ("list", "axis_data"):
        # one part alone is interpolated before it is turned
        only = {"radial": np.zeros(len(phi)), "tangential": np.zeros(len(phi))}
        f, comps = C23.model(case)
        coords, A = C23.evaluate(case, f, comps[case["one"]])
        only[case["one"]] = np.real(A.reshape(-1) * np.exp(1j * case["phase"])) * factor
        turned = C23.rotate(only, "cyl", phi, 0)
        want = [turned["comp_x"], turned["comp_y"]]
    scale = max(np.abs(v).max() for v in comps.values()) * factor
    scale *= np.prod([a.N for a, r in zip(f.axes, case["reqs"]) if r and r["k"] == "sum"])
    r = case["radius"] or 1.0
    kw = {"unit": case["unit"], "phase": case["phase"], "font_name": FONT}
    if data:
        kw["axis_data"] = data
    if case["one"]:
        kw["component_list"] = [case["one"]]
    if case["radius"]:
        kw["radius"] = case["radius"]
    what = "plot_2D_Data(%s, type_plot='quiver')" % ", ".join(args)
    fig, ax = plt.subplots(figsize=(3, 2))
    try:
        with observing(what):
            vec.plot_2D_Data(*args, type_plot="quiver", fig=fig, ax=ax, is_show_fig=False, **kw)
            drawn = [c for c in ax.collections if hasattr(c, "U")]
            expect(len(drawn) == 1, "%s: %d sets of arrows", what, len(drawn))
            q = drawn[0]
            X, Y, U, V = [np.ma.filled(np.ma.asarray(v, dtype=float), np.nan).reshape(-1) for v in (q.X, q.Y, q.U, q.V)]
    finally:
        plt.close("all")
    sc = r * (1.0 + float(np.abs(phi).max()))
    same(X, r * np.cos(phi), what + " abscissa of the arrows", rtol=1e-9, scale=sc)
    same(Y, r * np.sin(phi), what + " ordinate of the arrows", rtol=1e-9, scale=sc)
    same(U, want[0], what + " abscissa of the vectors", rtol=1e-8, scale=scale)
    same(V, want[1], what + " ordinate of the vectors", rtol=1e-8, scale=scale)
    d = difference(before, freeze(vec))
    expect(d is None, "%s changed the vector field: %s", what, d)
    note("arrows %s from %s" % (case["one"] or "all", case["frame"]))
    return len(case["comps"]) > 1 and len(phi) > 1


# ----------------------------------------------------------- components


@st.composite
def components(draw):
    map_ = draw(st.integers(0, 2)) == 0
    case = draw(shown.cases(ndims=(2, 2) if map_ else (1, 1), naxes=(2, 3) if map_ else (1, 3), fourier_too=False, levels=False, overlay=not map_ and draw(st.booleans()), curves=not map_))
    names = list(draw(st.sampled_from([C23.CYL, C23.CART, ("radial", "tangential", "axial"), ("comp_x", "comp_y", "comp_z"), ("axial",)])))
    case["comps"] = {n: draw(gen.seeds) for n in names}
    case["list"] = draw(st.one_of(st.none(), st.permutations(names).map(list), st.sampled_from(names).map(lambda n: [n])))
    case["others"] = [] if map_ else [{n: draw(gen.seeds) for n in names} for _ in range(draw(st.sampled_from([0, 0, 1, 2])))]
    case["type"] = None if map_ else draw(st.sampled_from([None, "bargraph", "point"]))
    case["map"] = map_
    case["file"] = draw(st.sampled_from([None] * 7 + ["plot.png", "a.b.png", "sub.dir/plot.png"]))
    return case


def lines_of(ax):
    out = []
    for ln in ax.get_lines():
        out.append((np.asarray(ln.get_xdata(), dtype=float), np.asarray(ln.get_ydata(), dtype=float), ln.get_label()))
    for c in ax.containers:
        out.append((np.array([p.get_x() for p in c]), np.array([p.get_height() for p in c]), c.get_label()))
    for im in ax.images:
        out.append((np.r_[im._Ax, im._Ay], np.asarray(im.get_array(), dtype=float).ravel(), ""))
    for c in ax.collections:
        if hasattr(c, "get_coordinates"):
            out.append((c.get_coordinates().ravel(), np.asarray(c.get_array(), dtype=float).ravel(), ""))
    return out, [ax.get_xlabel(), ax.get_ylabel(), ax.get_title()]


def run_components(case, note):
    one = Field(case["field"])
    dims = shown.expected(case, one)[0]
    if any(len(dims[i].x) < 2 for i in case["shown"]) or case["over"] is not None and len(dims[case["over"]].x) < 2:
        note("one sample")
        return False
    spec = {"field": case["field"], "unit0": case["field"]["unit"]}
    vec = C23.build(dict(spec, comps=case["comps"]))
    others = [C23.build(dict(spec, comps=o)) for o in case["others"]]
    before = [freeze(v) for v in [vec] + others]
    args, data = shown.arguments(case)
    kw = {"unit": case["unit"]}
    if data:
        kw["axis_data"] = data
    if case["type"]:
        kw["type_plot"] = case["type"]
    method = "plot_3D_Data" if case["map"] else "plot_2D_Data"
    kw["is_auto_range"] = False
    kw["font_name"] = FONT
    if case["map"]:
        kw["is_2D_view"] = True
    names = case["list"] or list(case["comps"])
    what = "VectorField.%s(%s)" % (method, ", ".join(args))
    where = None
    if case["file"]:
        where = tempfile.mkdtemp(dir=os.environ["VERIF_SCRATCH"])
        os.makedirs(os.path.dirname(os.path.join(where, case["file"])), exist_ok=True)
    plt.close("all")
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            want, got = [], []
            for n in names:
                with observing("plot of the component " + n):
                    k = {} if case["map"] else {"data_list": [o.components[n] for o in others]}
                    vec.components[n].__getattribute__(method)(*args, is_show_fig=False, **k, **kw)
                    want.append(lines_of(plt.gcf().axes[0]))
                    if where:
                        plt.gcf().savefig(os.path.join(where, "want.png"))
                        want[-1] = plt.imread(os.path.join(where, "want.png"))
                plt.close("all")
            k = {} if case["map"] else {"data_list": others}
            if case["list"]:
                k["component_list"] = case["list"]
            if where:
                k["save_path"] = os.path.join(where, case["file"])
            with observing(what):
                getattr(vec, method)(*args, is_show_fig=False, **k, **kw)
            if where:
                os.remove(os.path.join(where, "want.png"))
                base, ext = os.path.splitext(case["file"])
                files = [case["file"]] if len(names) == 1 else [base + "_" + n + ext for n in names]
                there = sorted(os.path.relpath(p, where) for p in glob.glob(os.path.join(where, "**"), recursive=True) if os.path.isfile(p))
                expect(there == sorted(files), "%s: files %r instead of %r", what, there, sorted(files))
                got = [plt.imread(os.path.join(where, p)) for p in files]
            else:
                with observing(what):
                    got = [lines_of(plt.figure(n).axes[0]) for n in plt.get_fignums()]
    finally:
        plt.close("all")
        if where:
            shutil.rmtree(where)
    expect(len(got) == len(want), "%s: %d plots for %d components", what, len(got), len(want))
    for n, g, w in zip(names, got, want):
        if where:
            expect(g.shape == w.shape and (np.abs(g - w) > 0.2).mean() < 1e-3, "%s: picture of %s is not the plot of this component", what, n)
            continue
        expect(len(g[0]) == len(w[0]), "%s: %d curves instead of %d for %s", what, len(g[0]), len(w[0]), n)
        for i, (a, b) in enumerate(zip(g[0], w[0])):
            same(a[0], b[0], "%s, %s, curve %d abscissa" % (what, n, i), rtol=1e-9, scale=np.abs(b[0]).max() + 1e-12)
            same(np.nan_to_num(a[1]), np.nan_to_num(b[1]), "%s, %s, curve %d" % (what, n, i), rtol=1e-9, scale=np.abs(np.nan_to_num(b[1])).max() + 1e-12)
            expect(a[2] == b[2], "%s, %s: legend %r instead of %r", what, n, a[2], b[2])
        expect(g[1] == w[1], "%s, %s: labels %r instead of %r", what, n, g[1], w[1])
    for v, b in zip([vec] + others, before):
        d = difference(b, freeze(v))
        expect(d is None, "%s changed a vector field: %s", what, d)
    note("%s/%s/%s" % ("map" if case["map"] else "curves", "file" if where else "screen", "all" if case["list"] is None else len(names)))
    return len(names) > 1


# ----------------------------------------------------------- animations


@st.composite
def animations(draw):
    map_ = draw(st.integers(0, 3)) == 0
    n = 2 if map_ else 1
    case = draw(shown.cases(ndims=(n, n), naxes=(n + 1, 3), levels=False, curves=not map_, both=False))
    axes = case["field"]["axes"]
    free = [i for i in range(len(axes)) if i not in case["shown"] and axes[i]["kind"] != "comp" and axes[i]["unit"] and gen.axis_len(axes[i]) > 1]
    case["along"] = draw(st.sampled_from(free)) if free else None
    if free:
        a = axes[case["along"]]
        if draw(st.integers(0, 3)) == 0 and a["name"] not in ("time", "angle"):
            axes[case["along"]] = a = draw(gen.pat_axis(a["name"], a["unit"]))
        case["reqs"][case["along"]] = None
    case["named"] = draw(st.sampled_from(["own", "none", "other"]))
    case["frames"] = draw(st.integers(1, 4))
    case["period"] = draw(st.booleans())
    case["suptitle"] = draw(st.sampled_from(["", "", "Some title"]))
    case["limits"] = draw(st.booleans())
    case["fps"] = draw(st.sampled_from([10, 4]))
    case["map"] = map_
    case["vector"] = not map_ and draw(st.integers(0, 3)) == 0
    if case["vector"]:
        case["suptitle"] = ""
    return case


def run_animations(case, note):
    f = Field(case["field"])
    i = case["along"]
    if i is None:
        note("nothing to animate along")
        return False
    dims = shown.expected(case, f, positive=not case["map"])[0]
    if any(len(dims[k].x) < 2 for k in case["shown"]):
        note("one sample")
        return False
    ax = f.axes[i]
    with observing("building the field"):
        obj = field_obj(case["field"])
        before = freeze(obj)
    args, data = shown.arguments(case)
    if data:
        note("axis data")
        return False
    u = {"own": ax.unit, "other": {"s": "ms", "m": "mm", "rad": "°"}.get(ax.unit, ax.unit)}.get(case["named"])
    u = "{%s}" % u if u else ""
    along = ax.name + ("[oneperiod]" if case["period"] else "") + u
    method = "plot_3D_Data" if case["map"] else "plot_2D_Data"
    what = "%s_Animated(%r, %s)" % (method, along, ", ".join(args))
    # positions of the frames: indices on the whole axis
    x = np.asarray(ax.full, dtype=float)
    pattern = case["field"]["axes"][i]["kind"] == "pat"
    if pattern:
        frames = [[k] for k in range(len(x))]
        if len(frames) > 8:
            note("long pattern")
            return False
    else:
        part = x
        if case["period"] and ax.sym:
            part = x[: ax.n * (2 if ax.sym[0] == "antiperiod" else 1)]
        if len(part) < 2:
            note("one sample")
            return False
        frames = []
        for v in part.min() + (part.max() - part.min()) * np.arange(case["frames"]) / case["frames"]:
            d = np.abs(x - v)
            frames.append([int(k) for k in np.flatnonzero(d <= d.min() + 1e-6 * (x.max() - x.min()))])
    kw = {"unit": case["unit"], "is_disp_title": False, "font_name": FONT}
    if case["map"]:
        kw["is_2D_view"] = True
    else:
        kw["y_min"] = kw["y_max"] = None
        kw["is_auto_range"] = False
        if case["limits"]:
            kw["y_min"], kw["y_max"] = -1.5, 1.5
    has_ft = any(r and r.get("ft") for r in case["reqs"])
    where = tempfile.mkdtemp(dir=os.environ["VERIF_SCRATCH"])
    plt.close("all")
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            want = []
            opts = dict(kw)
            if not case["map"] and not case["limits"]:
                whole = ax.name + ("[oneperiod]" if case["period"] and not pattern else "")
                with observing("limits of " + what):
                    res = (obj.get_magnitude_along if has_ft else obj.get_along)(whole, *args, unit=case["unit"])
                    v = np.asarray(res[f.symbol], dtype=float)
                m = 0.05 * (v.max() - v.min())
                opts["y_min"], opts["y_max"] = v.min() - m, v.max() + m
            for f_ in frames:
                pictures = []
                for k in f_:
                    with observing("plot at one position"):
                        getattr(obj, method)(*args, "%s[%d]%s" % (ax.name, k, u), is_show_fig=False, **opts)
                        fig = plt.gcf()
                        if case["suptitle"]:
                            fig.suptitle(case["suptitle"])
                    pictures.append(picture(fig, where))
                    plt.close("all")
                want.append(pictures)
            path = os.path.join(where, "animated.png")
            with observing(what):
                if case["vector"]:
                    from SciDataTool import VectorField

                    vec = VectorField(name="field", symbol="X", components={"radial": obj})
                    vec.plot_2D_Data_Animated(along, *args, nb_frames=case["frames"], fps=case["fps"], save_path=path, **kw)
                else:
                    getattr(obj, method + "_Animated")(along, case["suptitle"], *args, nb_frames=case["frames"], fps=case["fps"], save_path=path, **kw)
            there = sorted(os.listdir(where))
            expect(there == ["animated.gif"], "%s: files %r", what, there)
            with observing("reading the file of " + what):
                got = frames_of(os.path.join(where, "animated.gif"))
    finally:
        plt.close("all")
        shutil.rmtree(where)
    expect(len(got) == len(want), "%s: %d frames instead of %d", what, len(got), len(want))
    for k, (g, w) in enumerate(zip(got, want)):
        expect(any(alike(g, p) for p in w), "%s: frame %d is not the plot at %s=%r", what, k, ax.name, x[frames[k][0]])
    d = difference(before, freeze(obj))
    expect(d is None, "%s changed the field: %s", what, d)
    note("%s/%s/%s" % ("map" if case["map"] else "curves", "pattern" if pattern else ax.sym[0] if ax.sym else "plain", "vector" if case["vector"] else "field"))
    return len(set(f_[0] for f_ in frames)) > 1


def picture(fig, where):
    """What a frame showing the figure looks like once read back from a file."""
    fig.canvas.draw()
    path = os.path.join(where, "one.gif")
    imageio.mimsave(path, [np.asarray(fig.canvas.buffer_rgba())[..., :3]], format="GIF-PIL", fps=1)
    try:
        return frames_of(path)[0]
    finally:
        os.remove(path)


def frames_of(path):
    with Image.open(path) as im:
        out = []
        for k in range(getattr(im, "n_frames", 1)):
            im.seek(k)
            out.append(np.asarray(im.convert("RGB")))
    return out


def alike(a, b):
    return a.shape == b.shape and bool((np.abs(a.astype(int) - b.astype(int)).max(axis=-1) > 64).mean() < 2e-3)


SUBS = [
    Sub("arrows", arrows(), run_arrows, 1600),
    Sub("components", components(), run_components, 320),
    Sub("animations", animations(), run_animations, 160),
]
