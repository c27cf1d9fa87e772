"""Exported text files contain exactly the queried data."""

import csv
import os
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from vlib import gen, shown
from vlib.build import field_obj
from vlib.core import Sub, expect, observing, same, same_coords
from vlib.model import Field
from vlib.snapshot import difference, freeze

RULE = (
    "field of 1-4 axes (symmetries, components, Fourier partners) exported along one, two or three axes or as several curves, the other axes "
    "sliced, reduced or left out, in any unit or level, any file name; non-trivial: at least two rows and two columns of values, or two files"
)


@st.composite
def matrices(draw):
    case = draw(shown.cases(ndims=(1, 3), naxes=(1, 4), kinds=("whole", "whole", "interval", "gt", "lt", "oneperiod", "smallestperiod", "axis_data", "idxs", "range"), curves=True, dtypes=("real", "real", "int", "complex")))
    case["perm"] = draw(st.permutations(list(range(sum(r is not None for r in case["reqs"])))))
    case["file"] = draw(st.sampled_from([None, "out", "a.b", "name with space", "x_1"]))
    case["name"] = draw(st.sampled_from(["field", "Airgap flux density", "a, b", 'quoted "x"', "été"]))
    return case


@st.composite
def curves(draw):
    case = draw(shown.cases(ndims=(1, 1), overlay=draw(st.booleans()), curves=True, levels=True))
    case["file"] = draw(st.sampled_from([None, "out", "a.b"]))
    case["name"] = draw(st.sampled_from(["field", "Airgap flux density", "a, b"]))
    return case


def number(s):
    s = str(s)
    try:
        return float(s)
    except ValueError:
        return complex(s)


def folder():
    return tempfile.mkdtemp(dir=os.environ["VERIF_SCRATCH"])


def export(case, obj, args, data, **kw):
    """Export in a directory of its own: file name -> rows."""
    d = folder()
    try:
        if case["file"] is not None:
            kw["file_name"] = case["file"]
        if data:
            kw["plot_options"] = {"axis_data": data}
        with observing("export_along(%s)" % ", ".join(args)):
            obj.export_along(*args, unit=case["unit"], save_path=d, **kw)
        out = {}
        for name in sorted(os.listdir(d)):
            with observing("reading " + name):
                with open(os.path.join(d, name), newline="", encoding=None) as h:
                    out[name] = list(csv.reader(h))
        return out
    finally:
        shutil.rmtree(d)


def head(rows, case, f, label, what):
    expect(len(rows) >= 3 and len(rows[0]) >= 3, "%s: no header", what)
    expect(rows[0][0] == f.symbol and rows[0][1] == case["name"], "%s: quantity %r %r instead of %r %r", what, rows[0][0], rows[0][1], f.symbol, case["name"])
    if label == "dB":
        ref = case["field"]["norms"]["ref"]["ref"]
        expect(rows[0][2].startswith("[dB") and "re. %s %s]" % (ref, f.unit) in rows[0][2], "%s: unit %r", what, rows[0][2])
        expect(rows[0][2].count("re.") == 1, "%s: unit %r", what, rows[0][2])
    else:
        expect(rows[0][2] == "[%s]" % label, "%s: unit %r instead of [%s]", what, rows[0][2], label)


def table(rows, x, V, dim, scale, what):
    """Rows of coordinates and values."""
    body = rows[2:]
    expect(len(body) == len(x), "%s: %d rows for %d samples", what, len(body), len(x))
    expect(all(len(r) == 1 + V.shape[1] for r in body), "%s: %s columns for %d", what, sorted(set(len(r) for r in body)), 1 + V.shape[1])
    with observing("numbers " + what):
        if dim.is_num:
            X = np.array([number(r[0]) for r in body])
        else:
            X = np.array([r[0] for r in body])
        G = np.array([[number(c) for c in r[1:]] for r in body])
    if dim.is_num:
        expect(not np.iscomplexobj(X) or (X.imag == 0).all(), "%s: complex coordinates", what)
        X = X.real
    same_coords(X, dim.x, "coordinates " + what, scale=dim.scale)
    same(G, V, "values " + what, rtol=1e-9, scale=scale)


def axis_cell(cell, dim, what):
    expect(dim.name in cell, "%s: axis %s not named in %r", what, dim.name, cell)
    if dim.is_num and dim.unit:
        expect("%s[%s]" % (dim.name, dim.unit) in cell.replace(" [", "["), "%s: %r does not give %s in %s", what, cell, dim.name, dim.unit)


def run_matrices(case, note):
    case_field = dict(case["field"], name=case["name"])
    f = Field(case_field)
    dims, A, label, scale = shown.expected(case, f)
    if shown.vanishing(case, A, f):
        note("vanishing level")
        return False
    shape = [i for i in sorted(dims) if len(dims[i].x) > 1]
    if not 1 <= len(shape) <= 3:
        note("%d dimensions" % len(shape))
        return False
    V = A.reshape([len(dims[i].x) for i in shape])
    args, data = shown.arguments(case)
    args = [args[i] for i in case["perm"]]
    with observing("building the field"):
        obj = field_obj(case_field)
        before = freeze(obj)
    files = export(case, obj, args, data, is_2D=False, is_multiple_files=len(shape) == 3)
    with observing("reading the field again"):
        d = difference(before, freeze(obj))
    expect(d is None, "export_along(%s) changed the field: %s", ", ".join(args), d)
    base = case["file"] if case["file"] is not None else f.symbol + "_Data"
    first = dims[shape[0]]
    if len(shape) < 3:
        expect(list(files) == [base + ".csv"], "files %s", sorted(files))
        parts = [(None, files[base + ".csv"], V if V.ndim == 2 else V[:, None])]
    else:
        third = dims[shape[2]]
        parts = []
        prefix = base + "_" + third.name
        left = dict(files)
        for k, v in enumerate(third.x):
            for name in sorted(files):
                expect(name.startswith(prefix) and name.endswith(".csv"), "file %r", name)
                t = name[len(prefix) : -4]
                with observing("value of the file " + name):
                    hit = abs(float(t) - v) <= 1e-9 * third.scale if third.is_num else t == v
                if hit:
                    left.pop(name, None)
                    parts.append((v, files[name], V[:, :, k]))
                    break
            else:
                expect(False, "no file for %s=%s among %s", third.name, v, sorted(files))
        expect(not left, "unexpected files %s", sorted(left))
    what = "(%s)" % ", ".join(args)
    for v, rows, W in parts:
        head(rows, case, f, label, what)
        axis_cell(rows[1][0].split("/")[0] if len(shape) > 1 else rows[1][0], first, what)
        if len(shape) > 1:
            second = dims[shape[1]]
            axis_cell(rows[1][0].split("/")[1], second, what)
            with observing("header " + what):
                H = np.array([number(c) for c in rows[1][1:]]) if second.is_num else np.array(rows[1][1:])
            same_coords(H, second.x, "second axis " + what, scale=second.scale)
        table(rows, first.x, W, first, scale, what)
    note("%d/%s/%s" % (len(shape), case["unit"], "ft" if any(r and r.get("ft") for r in case["reqs"]) else "plain"))
    return len(shape) > 1


def run_curves(case, note):
    case_field = dict(case["field"], name=case["name"])
    f = Field(case_field)
    dims, A, label, scale = shown.expected(case, f, positive=True)
    main, over = case["shown"][0], case["over"]
    if shown.vanishing(case, A, f):
        note("vanishing level")
        return False
    if len(dims[main].x) < 2:
        note("one sample")
        return False
    if over is not None and len(dims[over].x) > 1:
        V = np.squeeze(np.moveaxis(A, [main, over], [0, 1])).reshape(len(dims[main].x), len(dims[over].x))
    else:
        over = None
        V = A.reshape(-1, 1)
    if label == "dB":
        if (np.abs(V) < 1e-9).any():
            note("level zero")
            return False
        V = np.where(V <= 0, np.nan, V)
        if np.isnan(V).all():
            note("no level")
            return False
    args, data = shown.arguments(case)
    with observing("building the field"):
        obj = field_obj(case_field)
    files = export(case, obj, args, data)
    base = case["file"] if case["file"] is not None else f.symbol + "_Data"
    expect(list(files) == [base + ".csv"], "files %s", sorted(files))
    rows = files[base + ".csv"]
    what = "(%s)" % ", ".join(args)
    head(rows, case, f, label, what)
    d = dims[main]
    if d.is_num and d.unit:
        expect("[%s]" % d.unit in rows[1][0], "%s: %r does not give the unit %s", what, rows[1][0], d.unit)
    expect(len(rows[1]) == 1 + (V.shape[1] if over is not None else 0), "%s: header %r", what, rows[1])
    if over is not None:
        for cell, x in zip(rows[1][1:], dims[over].x):
            expect(dims[over].name + "=" in cell, "%s: column %r does not name %s", what, cell, dims[over].name)
            text = cell.split("=")[1].strip()
            if dims[over].is_num:
                with observing("column " + cell):
                    v = float(text.split(" ")[0])
                expect(abs(v - x) <= 6e-3 * abs(x) + 1e-9, "%s: column %r for %s=%r", what, cell, dims[over].name, x)
            else:
                expect(text.startswith(str(x)), "%s: column %r for %s=%r", what, cell, dims[over].name, x)
    if not d.is_num:
        d.x, d.is_num, d.scale = np.arange(len(d.x), dtype=float), True, 1.0
    table(rows, d.x, V, d, scale, what)
    note("curves/%d/%s/%s" % (min(V.shape[1], 3), case["unit"], "ft" if d.req.get("ft") else "plain"))
    return V.shape[1] > 1


SUBS = [
    Sub("matrices", matrices(), run_matrices, 4500),
    Sub("curves", curves(), run_curves, 3500),
]
