"""Objects validate their content and never share defaults."""

import numpy as np
from hypothesis import strategies as st

from vlib import gen, objects
from vlib.core import Sub, expect, observing, raises, same
from vlib.objects import CLASSES, decode, make, read
from vlib.snapshot import difference, freeze

RULE = (
    "every class and attribute given values of every kind (numbers of Python and numpy, flags, strings, lists, tuples, arrays, dictionaries, objects) at construction, "
    "from a dictionary or by assignment; fields given values of right, squeezed, transposed or wrong shapes; histories of objects built by default and modified in place; "
    "non-trivial: a refused value, an accepted value of another numeric type or container than the usual one, or a default modified before building again"
)

S, F, I, B, L, D, A = "str", "float", "int", "bool", "list", "dict", "array"
DATA = dict(symbol=S, name=S, unit=S)
TYPES = {
    "Data1D": dict(DATA, values=A, is_components=B, symmetries=D, is_overlay=B, delimiter=S, sort_indices=L, filter=D, char_to_rm=L),
    "DataLinspace": dict(DATA, initial=F, final=F, step=F, number=I, include_endpoint=B, is_components=B, symmetries=D, is_overlay=B),
    "DataPattern": dict(DATA, rebuild_indices=L, unique_indices=L, is_step=B, values=A, is_components=B, symmetries=D, values_whole=A, is_overlay=B),
    "DataND": dict(DATA, axes="axes", FTparameters=D, is_real=B),
    "DataTime": dict(DATA, axes="axes", FTparameters=D, is_real=B),
    "DataFreq": dict(DATA, axes="axes", FTparameters=D, is_real=B),
    "DataDual": dict(DATA, FTparameters=D, is_real=B, axes_dt="axes", values_dt=A, axes_df="axes", values_df=A),
    "VectorField": dict(name=S, symbol=S, components="fields"),
    "Normalization": dict(unit=S),
    "Norm_ref": dict(unit=S, ref=F),
    "Norm_affine": dict(unit=S, slope=F, offset=F),
    "Norm_indices": dict(unit=S),
    "Norm_vector": dict(unit=S, vector=A),
    "RequestedAxis": dict(
        name=S, corr_name=S, unit=S, corr_unit=S, extension=S, values=A, indices=L, input_data=A, operation=S, index=I, transform=S, is_pattern=B,
        rebuild_indices=A, is_step=B, noct=I, corr_values=A, is_components=B,
    ),
}

NUMS = st.sampled_from([0, 1, 2, 7, -3, 100])
VALUES = {
    "none": st.just(0),
    "flag": st.booleans(),
    "int": NUMS,
    "minus one": st.just(-1),
    "whole float": NUMS.map(float),
    "float": st.sampled_from([0.5, -2.25, 1e-3, 1e9 + 0.5]),
    "int64": NUMS,
    "int32": NUMS,
    "uint8": st.sampled_from([0, 1, 200]),
    "float64": st.sampled_from([0.5, -2.25]),
    "float32": st.sampled_from([0.5, -2.25]),
    "complex": st.just(0),
    "str": objects.text,
    "list": st.lists(st.sampled_from([0, 1, 2.5, -3]), min_size=1, max_size=4),
    "tuple": st.lists(st.sampled_from([0, 1, 2.5, -3]), min_size=1, max_size=4),
    "array": st.lists(st.sampled_from([0.0, 1.0, 2.5, -3.0]), min_size=1, max_size=4),
    "dict": st.dictionaries(st.sampled_from(["period", "a", "b"]), st.integers(1, 4), min_size=1, max_size=2),
    "set": st.just(0),
    "normalization": st.just(0),
    "axis": st.just(0),
    "axes": st.integers(1, 3),
    "axes and number": st.integers(0, 2),
    "fields": st.integers(1, 2),
    "fields and axis": st.integers(0, 1),
    "function": st.just(0),
}
OK = {
    "float": {"int", "minus one", "whole float", "float", "int64", "int32", "uint8", "float64", "float32"},
    "int": {"int", "minus one", "whole float", "int64", "int32", "uint8"},
    "bool": {"flag"},
    "str": {"str"},
    "list": {"list", "minus one", "axes", "axes and number"},
    "dict": {"dict", "minus one", "fields", "fields and axis"},
    "array": {"array", "list", "minus one"},
    "axes": {"axes", "minus one"},
    "fields": {"fields", "minus one"},
}
SKIP = {"array": {"axes", "axes and number"}}  # an array of objects


def value(kind, v):
    if kind in ("flag", "int", "minus one", "whole float", "float", "str", "list", "dict"):
        return v
    if kind == "none":
        return None
    if kind in ("int64", "int32", "uint8", "float64", "float32"):
        return getattr(np, kind)(v)
    if kind == "complex":
        return 1 + 2j
    if kind == "tuple":
        return tuple(v)
    if kind == "array":
        return np.array(v)
    if kind == "set":
        return {1, 2}
    if kind == "normalization":
        return CLASSES["Norm_ref"](ref=2.0)
    if kind == "function":
        return abs
    axis = lambda k: CLASSES["Data1D"](name="a%d" % k, values=np.arange(2.0))
    fld = lambda k: CLASSES["DataTime"](name="f%d" % k, axes=[axis(0)], values=np.arange(2.0))
    if kind == "axis":
        return axis(0)
    if kind.startswith("axes"):
        out = [axis(k) for k in range(v if kind == "axes" else 2)]
        if kind != "axes":
            out.insert(v, 5)
        return out
    out = {"radial": fld(0)} if v == 1 or kind != "fields" else {"radial": fld(0), "axial": fld(1)}
    if kind != "fields":
        out = dict([("tangential", axis(0))] + list(out.items())) if v else dict(out, tangential=axis(0))
    return out


@st.composite
def typed(draw):
    cls = draw(st.sampled_from(sorted(TYPES)))
    attr = draw(st.sampled_from(sorted(TYPES[cls]) + ["nothing_of_the_kind"] * (draw(st.integers(0, 9)) == 0)))
    if draw(st.booleans()) and attr in TYPES[cls]:
        kind = draw(st.sampled_from(sorted(OK[TYPES[cls][attr]])))
    else:
        kind = draw(st.sampled_from(sorted(VALUES)))
    base = {"cls": cls, "kw": draw(objects.attributes(cls))} if cls in objects.TABLE else {"cls": cls, "kw": {}}
    if cls in ("DataND", "DataTime", "DataFreq", "VectorField"):
        base = draw(objects.vector() if cls == "VectorField" else objects.field(cls))
    return {"base": base, "attr": attr, "kind": kind, "v": draw(VALUES[kind]), "how": draw(st.sampled_from(["assign", "assign", "build", "dict"]))}


def run_typed(case, note):
    cls, attr, kind = case["base"]["cls"], case["attr"], case["kind"]
    t = TYPES[cls].get(attr)
    if kind in SKIP.get(t, ()):
        return False
    with observing("building the value"):
        v = value(kind, case["v"])
        sent = freeze(v)
        kw = {k: decode(x) for k, x in case["base"]["kw"].items()}
    what = "%s.%s = %s (%s)" % (cls, attr, kind, case["how"])
    how = case["how"]
    if attr == "axes":  # values must then be given too: see the shapes
        how = "assign"
    ok = t is not None and (kind == "none" or kind in OK[t])

    def act():
        if how == "assign":
            setattr(obj, attr, v)
            return obj
        if how == "build":
            return CLASSES[cls](**dict(kw, **{attr: v}))
        return CLASSES[cls](init_dict=dict(kw, **{attr: v}))

    note("%s/%s/%s" % (t, kind, how))
    if t is None and how != "assign":
        if how == "dict":
            return False  # unknown keys of dictionaries are skipped (files of later versions)
        raises(("TypeError",), act, what)
        return True
    obj = before = None
    if how == "assign":
        with observing("building a %s" % cls):
            obj = CLASSES[cls](**kw)
        before = dict((k, freeze(x)) for k, x in vars(obj).items() if k != "parent")
    if not ok:
        raises(("FrozenError",) if t is None else None, act, what)
    else:
        with observing(what):
            obj = act()
            got = getattr(obj, attr)
        if kind == "minus one" and t in ("list", "dict", "array", "axes", "fields"):
            right = got is not None and not isinstance(got, (int, float)) and len(got) == 0
        elif kind == "none":
            right = got is None
        elif t == "array":
            right = isinstance(got, np.ndarray) and np.array_equal(got, np.array(v))
        elif t in ("axes", "fields"):
            right = len(got) == len(v) and all(x is y for x, y in zip(*([got, v] if t == "axes" else [got.values(), v.values()])))
        elif t in ("list", "dict"):
            right = freeze(got) == sent
        elif t == "bool":
            right = got is v
        else:
            right = got == v
        expect(right, "%s: reads %r, given %r", what, got, v)
    if how == "assign":
        after = dict((k, freeze(x)) for k, x in vars(obj).items() if k != "parent")
        for k in sorted(set(before) | set(after)):
            if ok and k == "_" + attr:
                continue
            expect(before.get(k) == after.get(k), "%s changed %s: %s", what, k.lstrip("_"), difference(before.get(k), after.get(k)) if before.get(k) != after.get(k) else "")
    expect(freeze(v) == sent, "%s changed the given value: %s", what, difference(sent, freeze(v)) if freeze(v) != sent else "")
    return not ok or kind in ("int64", "int32", "uint8", "float64", "float32", "whole float", "list", "minus one")


# ------------------------------------------------------------------ shapes


@st.composite
def shaped(draw):
    lens = draw(st.lists(st.integers(1, 4), min_size=1, max_size=4))
    axes = []
    names = list(gen.NAMES)
    for n in lens:
        name, u = names.pop(0)
        kind = draw(st.sampled_from(["d1", "lin", "lin", "pat"]))
        if kind == "pat":
            axes.append({"name": name, "unit": u, "kind": "pat", "xs": [float(i) for i in range(n)], "rebuild": [i % n for i in range(n + 2)], "whole": [float(i) for i in range(n + 2)], "is_step": True})
        else:
            form = draw(st.integers(0, 3))
            if n == 1 and form == 0:
                form = 2
            axes.append({"name": name, "unit": u, "kind": kind, "n": n, "x0": draw(st.sampled_from([0.0, 1.0, -0.5, 0.3])), "dx": draw(st.sampled_from([1.0, 0.1, 0.25, 1e-3])), "sym": None, "form": form})
    shape = list(lens)
    how = draw(st.sampled_from(["same", "squeezed", "ones", "permuted", "longer", "shorter", "flat", "missing", "more"]))
    if how == "squeezed":
        shape = [n for n in shape if n > 1]
    elif how == "ones":
        for _ in range(draw(st.integers(1, 2))):
            shape.insert(draw(st.integers(0, len(shape))), 1)
    elif how == "permuted":
        shape = list(draw(st.permutations(shape)))
    elif how == "longer":
        shape[draw(st.integers(0, len(shape) - 1))] += draw(st.integers(1, 3))
    elif how == "shorter":
        k = draw(st.integers(0, len(shape) - 1))
        shape[k] = max(1, shape[k] - 1)
    elif how == "flat":
        shape = [int(np.prod(shape))]
    elif how == "missing":
        shape = shape[:-1] or [1]
    elif how == "more":
        shape.append(draw(st.integers(1, 3)))
    return {"cls": draw(st.sampled_from(["DataND", "DataTime", "DataFreq"])), "axes": axes, "lens": lens, "shape": shape, "how": how, "aslist": draw(st.booleans()), "dtype": draw(st.sampled_from(["real", "int", "complex"])), "assign": draw(st.booleans()), "vseed": draw(gen.seeds)}


def run_shaped(case, note):
    from vlib.build import axis_obj
    from vlib.model import values_of

    lens, shape = case["lens"], case["shape"]
    vals = np.array(values_of({"vseed": case["vseed"], "dtype": case["dtype"]}, tuple(shape)))
    given = vals.tolist() if case["aslist"] and shape else vals.copy()
    ok = [n for n in shape if n > 1] == [n for n in lens if n > 1]
    what = "values of shape %r on axes of lengths %r (%s)" % (shape, lens, "assigned" if case["assign"] else "built")
    with observing("building the axes"):
        axes = [axis_obj(a) for a in case["axes"]]
    obj = None
    if case["assign"]:
        with observing("building the field"):
            obj = CLASSES[case["cls"]](symbol="X", axes=axes, values=np.zeros(lens))
    before = freeze(obj)

    def act():
        if case["assign"]:
            obj.values = given
            return obj
        return CLASSES[case["cls"]](symbol="X", axes=axes, values=given)

    note("%s/%s/%s" % (case["how"], "fits" if ok else "refused", "list" if case["aslist"] else "array"))
    if ok:
        with observing(what):
            obj = act()
            got = np.asarray(obj.values)
        expect(got.shape == tuple(lens), "%s: stored with shape %r", what, got.shape)
        same(got, vals.reshape(lens), what)
        return list(shape) != list(lens)
    raises(None, act, what)
    expect(freeze(obj) == before, "%s changed the field: %s", what, difference(before, freeze(obj)) if freeze(obj) != before else "")
    return True


# ---------------------------------------------------------------- defaults

FRESH = {c: freeze(CLASSES[c]()) for c in CLASSES if c != "Norm_func"}


@st.composite
def histories(draw):
    n = draw(st.integers(2, 6))
    return {
        "steps": [
            {"cls": draw(st.sampled_from(sorted(FRESH))), "how": draw(st.sampled_from(["default", "named", "dict"])), "pick": draw(st.integers(0, 5)), "deep": draw(st.booleans())}
            for _ in range(n)
        ]
    }


def run_histories(case, note):
    touched, nt, log = set(), False, []
    for s in case["steps"]:
        c = s["cls"]
        with observing("building a default %s after %s" % (c, log)):
            obj = CLASSES[c]() if s["how"] == "default" else CLASSES[c](init_dict={}) if s["how"] == "dict" else CLASSES[c](**({"unit": ""} if c in TYPES and "unit" in TYPES[c] and c[:5] != "Norm_" and c != "RequestedAxis" and c != "Normalization" else {}))
            now = freeze(obj)
        expect(now == FRESH[c], "default %s after %s: %s", c, log, difference(FRESH[c], now) if now != FRESH[c] else "")
        nt = nt or c in touched
        spots = sorted(k for k, x in vars(obj).items() if isinstance(x, (dict, list)))
        if spots:
            k = spots[s["pick"] % len(spots)]
            with observing("modifying %s.%s" % (c, k)):
                x = getattr(obj, k)
                if isinstance(x, dict):
                    x["added"] = 3
                else:
                    x.append(3)
            touched.add(c)
            log.append("%s.%s changed" % (c, k.lstrip("_")))
    note("%d steps" % len(case["steps"]))
    return nt


SUBS = [
    Sub("types", typed(), run_typed, 7000),
    Sub("shapes", shaped(), run_shaped, 4000),
    Sub("defaults", histories(), run_histories, 1500),
]
