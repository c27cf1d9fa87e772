"""Objects of every class with arbitrary content, as plain data.

A value is described by JSON: scalars and strings as such, arrays as
{"arr": kind, "shape": [...], "v": [...]} (complex numbers as pairs), objects as
{"cls": name, "kw": {attribute: value}}, lists as {"list": [...]}, dictionaries
as {"map": [[key, value], ...]} and numpy numbers as {"np": type, "v": number}."""

import numpy as np
from hypothesis import strategies as st

import SciDataTool
from SciDataTool.Classes.DataDual import DataDual
from SciDataTool.Classes.Normalization import Normalization
from SciDataTool.Classes.RequestedAxis import RequestedAxis

CLASSES = {
    n: getattr(SciDataTool, n)
    for n in (
        "Data1D", "DataLinspace", "DataPattern", "DataND", "DataTime", "DataFreq", "VectorField",
        "Norm_ref", "Norm_affine", "Norm_func", "Norm_indices", "Norm_vector",
    )
}
CLASSES.update(DataDual=DataDual, RequestedAxis=RequestedAxis, Normalization=Normalization)


def decode(v):
    """The value described by v."""
    if isinstance(v, dict):
        if "arr" in v:
            k = v["arr"]
            if k == "complex":
                a = np.array([complex(*c) for c in v["v"]], dtype=complex)
            elif k == "str":
                a = np.array(v["v"], dtype=str) if v["v"] else np.array([], dtype="U1")
            else:
                a = np.array(v["v"], dtype={"real": float, "int": np.int64, "bool": bool, "f32": np.float32}[k])
            return a.reshape(v["shape"])
        if "cls" in v:
            return make(v)
        if "list" in v:
            return [decode(x) for x in v["list"]]
        if "map" in v:
            return {k: decode(x) for k, x in v["map"]}
        if "np" in v:
            return getattr(np, v["np"])(v["v"])
        raise ValueError(v)
    return v


def make(spec):
    return CLASSES[spec["cls"]](**{k: decode(x) for k, x in spec["kw"].items()})


def content(v):
    """Canonical content of a description: equal for equal contents."""
    if isinstance(v, dict):
        if "arr" in v:
            if v["arr"] == "complex":
                flat = [complex(*c) for c in v["v"]]
            elif v["arr"] == "str":
                return ("sarr", tuple(v["shape"]), tuple(v["v"]))
            elif v["arr"] == "f32":
                flat = [complex(float(np.float32(x))) for x in v["v"]]
            else:
                flat = [complex(float(x)) for x in v["v"]]
            return ("arr", tuple(v["shape"]), tuple((c.real + 0.0, c.imag + 0.0) for c in flat))
        if "cls" in v:
            return (v["cls"], tuple(sorted((k, content(x)) for k, x in v["kw"].items())))
        if "list" in v:
            return ("list", tuple(content(x) for x in v["list"]))
        if "map" in v:
            return ("map", tuple(sorted((k, content(x)) for k, x in v["map"])))
        if "np" in v:
            return content(getattr(np, v["np"])(v["v"]).item())
    if isinstance(v, bool) or v is None or isinstance(v, str):
        return (type(v).__name__, v)
    return ("num", float(v))


def read(x):
    """Canonical content of a real value, comparable with content()."""
    if isinstance(x, np.ndarray):
        if x.dtype.kind in "US":
            return ("sarr", tuple(x.shape), tuple(str(s) for s in x.ravel().tolist()))
        return ("arr", tuple(x.shape), tuple((complex(c).real + 0.0, complex(c).imag + 0.0) for c in x.ravel().tolist()))
    if isinstance(x, list):
        return ("list", tuple(read(i) for i in x))
    if isinstance(x, dict):
        return ("map", tuple(sorted((k, read(i)) for k, i in x.items())))
    if isinstance(x, (bool, np.bool_)):
        return ("bool", bool(x))
    if x is None or isinstance(x, str):
        return (type(x).__name__, x)
    if isinstance(x, (int, float, np.integer, np.floating)):
        return ("num", float(x))
    if type(x).__name__ in CLASSES:
        return "object"
    return ("other", type(x).__name__)


# ------------------------------------------------------------- generators

text = st.one_of(
    st.sampled_from(["", "time", "B_r", "flux density", "é µ°", "a\"b\\c\n", "x=1[2]{3}", "__class__", "lambda", "None", "-1"]),
    st.text(alphabet=st.characters(blacklist_categories=("Cs",)), max_size=6),
)
number = st.one_of(
    st.sampled_from([0.0, 1.0, -1.0, 0.1, 1e-12, 1e300, 3.5, -2.25, 5e-324, 1 / 3]),
    st.floats(allow_nan=False, allow_infinity=False),
    st.integers(-10**6, 10**6),
    st.builds(lambda v: {"np": "float64", "v": v}, st.floats(-1e6, 1e6)),
    st.builds(lambda v: {"np": "int64", "v": v}, st.integers(-1000, 1000)),
    st.builds(lambda v: {"np": "float32", "v": v}, st.integers(-1000, 1000)),
)
integer = st.one_of(st.integers(0, 12), st.integers(-10**6, 10**6), st.builds(lambda v: {"np": "int64", "v": v}, st.integers(0, 50)), st.builds(float, st.integers(0, 9)))
flag = st.booleans()


@st.composite
def arr(draw, kinds=("real", "real", "int", "complex"), shape=None, ndim=(1, 1), maxlen=5):
    if shape is None:
        shape = [draw(st.integers(0, maxlen)) for _ in range(draw(st.integers(*ndim)))]
        if 0 in shape:
            shape = [0]
    k = draw(st.sampled_from(kinds))
    n = int(np.prod(shape)) if shape else 1
    if k == "str" and not n:  # an empty array has no type in a file
        k = "real"
    f = st.floats(-1e9, 1e9) | st.sampled_from([0.0, 0.1, 1 / 3, 1e-9, 1e200])
    el = {"real": f, "int": st.integers(-9, 9) | st.integers(-2**53, 2**53), "complex": st.tuples(f, f).map(list), "str": text, "bool": flag}[k]
    v = draw(st.lists(el, min_size=n, max_size=n))
    if k == "str":  # numpy drops trailing NULs of fixed-width strings
        v = [s.rstrip("\0") for s in v]
    return {"arr": k, "shape": list(shape), "v": v}


def lst(el, maxlen=4, minlen=0):
    return st.lists(el, min_size=minlen, max_size=maxlen).map(lambda v: {"list": v})


@st.composite
def mapping(draw, keys, el, maxlen=3):
    ks = draw(st.lists(keys, max_size=maxlen, unique=True))
    return {"map": [[k, draw(el)] for k in ks]}


FUNCTIONS = ["lambda x: x", "lambda x: 2*x", "lambda x: x**2 + 1"]


@st.composite
def norm(draw, classes=("Norm_ref", "Norm_affine", "Norm_func", "Norm_indices", "Norm_vector")):
    c = draw(st.sampled_from(classes))
    return {"cls": c, "kw": draw(attributes(c))}


norms = mapping(text, norm())
symmetries = st.one_of(
    st.just({"map": []}),
    mapping(st.sampled_from(["period", "antiperiod", "delta"]), st.integers(1, 12) | st.just({"np": "int64", "v": 4}) | st.sampled_from([0.5, 2.0]), maxlen=2),
)
maybe = lambda s: st.one_of(st.none(), s)
DATA = {"symbol": text, "name": text, "unit": text, "normalizations": norms}
TABLE = {
    "Data1D": dict(
        DATA, values=arr(("real", "int", "str")), is_components=flag, symmetries=symmetries, is_overlay=flag, delimiter=maybe(text),
        sort_indices=maybe(lst(st.integers(-3, 9))), filter=maybe(mapping(text, lst(text | st.integers(0, 9)))), char_to_rm=maybe(lst(text)),
    ),
    "DataLinspace": dict(
        DATA, initial=maybe(number), final=maybe(number), step=maybe(number), number=maybe(integer), include_endpoint=flag,
        is_components=flag, symmetries=symmetries, is_overlay=flag,
    ),
    "DataPattern": dict(
        DATA, rebuild_indices=maybe(lst(st.integers(0, 9) | st.just({"np": "int64", "v": 3}))), unique_indices=maybe(lst(st.integers(0, 9))), is_step=flag,
        values=arr(("real", "int")), is_components=flag, symmetries=symmetries, values_whole=maybe(arr(("real", "int"))), is_overlay=flag,
    ),
    "Norm_ref": {"unit": text, "ref": number},
    "Norm_affine": {"unit": text, "slope": number, "offset": number},
    "Norm_func": {"unit": text, "function": maybe(st.sampled_from(FUNCTIONS))},
    "Norm_indices": {"unit": text},
    "Normalization": {"unit": text},
    "Norm_vector": {"unit": text, "vector": maybe(arr(("real", "int")))},
    "RequestedAxis": dict(
        name=text, corr_name=text, unit=text, corr_unit=text, extension=text, values=maybe(arr(("real", "str"))), indices=maybe(lst(st.integers(0, 9))),
        input_data=maybe(arr(("real", "int"))), operation=maybe(text), index=maybe(integer), transform=maybe(text), is_pattern=flag,
        rebuild_indices=maybe(arr(("int",))), is_step=flag, noct=maybe(st.integers(1, 24)), corr_values=maybe(arr(("real", "int"))), is_components=flag,
    ),
}
ND = dict(DATA, FTparameters=mapping(text, st.integers(0, 3) | text), is_real=flag)
for _c in ("DataND", "DataTime", "DataFreq"):
    TABLE[_c] = dict(ND, axes=None, values=None)
TABLE["DataDual"] = dict(ND, axes=None, values=None, axes_dt=None, values_dt=None, axes_df=None, values_df=None)
TABLE["VectorField"] = {"name": text, "symbol": text, "components": None}
FIELDS = ("DataND", "DataTime", "DataFreq", "DataDual")


@st.composite
def attributes(draw, cls):
    """Values of the attributes of a class (not axes, values or components)."""
    return {k: draw(s) for k, s in TABLE[cls].items() if s is not None}


@st.composite
def axis(draw, n=None):
    c = draw(st.sampled_from(["Data1D", "Data1D", "DataLinspace", "DataPattern"]))
    kw = draw(attributes(c))
    if n is not None:
        if c == "DataLinspace":
            kw["number"] = n
        else:
            kw["values"] = draw(arr(("real", "int", "str") if c == "Data1D" else ("real", "int"), shape=[n]))
    return {"cls": c, "kw": kw}


@st.composite
def axes_values(draw, maxaxes=3):
    shape = draw(st.lists(st.integers(1, 4), min_size=1, max_size=maxaxes))
    return {"list": [draw(axis(n)) for n in shape]}, draw(arr(("real", "int", "complex"), shape=shape))


@st.composite
def field(draw, cls=None):
    c = cls or draw(st.sampled_from(FIELDS))
    kw = draw(attributes(c))
    empty = draw(st.integers(0, 7)) == 0
    if c != "DataDual" and not empty:
        kw["axes"], kw["values"] = draw(axes_values())
    if c == "DataDual" and not empty:
        for e in ("_dt", "_df"):
            if draw(st.integers(0, 5)):
                kw["axes" + e], kw["values" + e] = draw(axes_values(2))
    return {"cls": c, "kw": kw}


@st.composite
def vector(draw):
    kw = draw(attributes("VectorField"))
    keys = draw(st.lists(st.sampled_from(["radial", "tangential", "axial", "comp_x", "comp_y", "comp_z"]), max_size=3, unique=True))
    kw["components"] = {"map": [[k, draw(field(draw(st.sampled_from(["DataTime", "DataFreq", "DataND"]))))] for k in keys]}
    return {"cls": "VectorField", "kw": kw}


@st.composite
def anything(draw):
    c = draw(st.sampled_from(["field", "field", "axis", "norm", "vector", "other"]))
    if c == "field":
        return draw(field())
    if c == "axis":
        return draw(axis())
    if c == "norm":
        return draw(norm())
    if c == "vector":
        return draw(vector())
    c = draw(st.sampled_from(["RequestedAxis", "Normalization"]))
    return {"cls": c, "kw": draw(attributes(c))}


# ------------------------------------------------------- comparing content


def check_content(spec, obj, what, expect):
    """Every attribute of obj holds what its description says."""
    expect(type(obj) is CLASSES[spec["cls"]], "%s is a %s instead of a %s", what, type(obj).__name__, spec["cls"])
    for k, v in spec["kw"].items():
        got = getattr(obj, k)
        check_value(v, got, "%s.%s" % (what, k), expect)


def check_value(v, got, what, expect):
    if isinstance(v, dict) and "cls" in v:
        check_content(v, got, what, expect)
    elif isinstance(v, dict) and "list" in v and any(isinstance(x, dict) and "cls" in x for x in v["list"]):
        expect(isinstance(got, list) and len(got) == len(v["list"]), "%s has %r", what, got)
        for i, x in enumerate(v["list"]):
            check_value(x, got[i], "%s[%d]" % (what, i), expect)
    elif isinstance(v, dict) and "map" in v and any(isinstance(x, dict) and "cls" in x for k, x in v["map"]):
        expect(isinstance(got, dict) and sorted(got) == sorted(k for k, x in v["map"]), "%s has keys %r", what, got)
        for k, x in v["map"]:
            check_value(x, got[k], "%s[%r]" % (what, k), expect)
    elif what.endswith(".function"):
        if v is None:
            expect(got is None, "%s is %r", what, got)
        else:
            f = eval(v)
            expect([got(x) for x in (0.0, 1.5, -2.0)] == [f(x) for x in (0.0, 1.5, -2.0)], "%s does not compute %s", what, v)
    else:
        c, g = content(v), read(got)
        if c[0] == "arr" and g[0] == "arr" and c[1] != g[1] and not c[2]:
            return  # empty arrays
        expect(c == g, "%s is %r instead of %r", what, got, v)
