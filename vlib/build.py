"""Turns case descriptions into objects of the library under test."""

import numpy as np

from SciDataTool import (
    Data1D,
    DataFreq,
    DataLinspace,
    DataND,
    DataPattern,
    DataTime,
    Norm_affine,
    Norm_func,
    Norm_indices,
    Norm_ref,
    Norm_vector,
    VectorField,
)

from vlib.model import Ax, values_of


FUNCS = {"cube": lambda x: x ** 3, "neg": lambda x: -x, "shift": lambda x: 2 * x + 7, "exp": lambda x: np.exp(x / 50.0)}


def norm_obj(n):
    k = n["k"]
    if k == "ref":
        return Norm_ref(ref=n["ref"], unit=n.get("unit", "SI"))
    if k == "affine":
        return Norm_affine(slope=n["slope"], offset=n["offset"], unit=n.get("unit", "SI"))
    if k == "indices":
        return Norm_indices(unit=n.get("unit", "SI"))
    if k == "vector":
        return Norm_vector(vector=np.array(n["vector"], dtype=float), unit=n.get("unit", "SI"))
    if k == "func":
        return Norm_func(function=FUNCS[n["f"]], unit=n.get("unit", "SI"))
    raise ValueError(k)


def axis_obj(spec):
    a = Ax(spec)
    kw = dict(name=spec["name"], unit=spec.get("unit", ""))
    if spec.get("sym"):
        kw["symmetries"] = {spec["sym"][0]: spec["sym"][1]}
        if a.n == 1:
            kw["symmetries"]["delta"] = spec["dx"]
    if spec.get("norms"):
        kw["normalizations"] = {k: norm_obj(n) for k, n in spec["norms"].items()}
    k = spec["kind"]
    if k == "comp":
        return Data1D(values=list(spec["names"]), is_components=True, **kw)
    if k == "pat":
        return DataPattern(
            values=np.array(spec["xs"], dtype=float),
            values_whole=np.array(spec["whole"], dtype=float),
            rebuild_indices=list(spec["rebuild"]),
            is_step=spec.get("is_step", True),
            **kw
        )
    if k == "d1":
        v = np.array(a.stored)
        if spec.get("aslist"):
            v = [float(x) for x in v]
        return Data1D(values=v, **kw)
    x0, dx, n = spec["x0"], spec["dx"], spec["n"]
    f = spec.get("form", 0)
    if f == 0:
        return DataLinspace(initial=x0, final=x0 + dx * (n - 1), number=n, include_endpoint=True, **kw)
    if f == 1:
        return DataLinspace(initial=x0, final=x0 + dx * n, number=n, include_endpoint=False, **kw)
    if f == 2:
        return DataLinspace(initial=x0, step=dx, number=n, **kw)
    if f == 3:
        return DataLinspace(initial=x0, final=x0 + dx * (n - 1), step=dx, **kw)
    raise ValueError(f)


CLASSES = {"DataND": DataND, "DataTime": DataTime, "DataFreq": DataFreq}


def field_obj(spec, axes=None, values=None):
    if axes is None:
        axes = [axis_obj(a) for a in spec["axes"]]
    if values is None:
        values = values_of(spec, tuple(Ax(a).n for a in spec["axes"]))
    if spec.get("dtype") == "int":
        values = np.asarray(values).astype(int)
    kw = {}
    if spec.get("norms"):
        kw["normalizations"] = {k: norm_obj(n) for k, n in spec["norms"].items()}
    return CLASSES[spec.get("cls", "DataTime")](
        name=spec.get("name", "field"),
        symbol=spec.get("symbol", "X"),
        unit=spec.get("unit", "T"),
        axes=axes,
        values=values,
        is_real=spec.get("dtype", "real") != "complex",
        **kw
    )
