"""What a field answers is independent of the field."""

import os

import numpy as np
from hypothesis import strategies as st

from vlib.build import axis_obj, field_obj
from vlib.core import Sub, expect, observing
from vlib.props import C04, C08, C23, C24, C25, C26, C27
from vlib.snapshot import difference, freeze

RULE = (
    "a query, extraction, conversion or comparison of a field of 1-3 axes (or of its spectrum, or of a vector field) whose returned arrays "
    "are then changed in place, and conversely the field (or the coordinates passed) changed after the answer; non-trivial: the query succeeds and returns an array"
)
ASKED = ("get_along", "get_magnitude_along", "get_phase_along", "get_harmonics", "get_data_along", "compare_along")


def arrays(x, path="", depth=0):
    """Arrays of an answer, with their place (normalizations are not copied)."""
    if isinstance(x, np.ndarray):
        yield path, x
    elif isinstance(x, dict):
        for k, v in x.items():
            yield from arrays(v, path + "." + str(k), depth + 1)
    elif isinstance(x, (list, tuple)):
        for i, v in enumerate(x):
            yield from arrays(v, path + "[%d]" % i, depth + 1)
    elif hasattr(x, "__dict__") and depth < 8:
        for k, v in vars(x).items():
            if k.strip("_") not in ("parent", "normalizations"):
                yield from arrays(v, path + "." + k, depth + 1)


def containers(x, depth=0):
    """Lists and dictionaries held by the objects of an answer."""
    if isinstance(x, (list, tuple)):
        for v in x:
            yield from containers(v, depth + 1)
    elif isinstance(x, dict):
        for v in x.values():
            yield from containers(v, depth + 1)
    elif hasattr(x, "__dict__") and depth < 8:
        for k, v in vars(x).items():
            if k.strip("_") == "parent":
                continue
            if isinstance(v, (list, dict)):
                yield v
            if k.strip("_") != "normalizations":
                yield from containers(v, depth + 1)


def scribble(a):
    """Change every element in place; False if that is not possible."""
    if not a.size or not a.flags.writeable:
        return False
    if a.dtype.kind in "US":
        a[...] = ["z" if str(v)[:1] != "z" else "y" for v in a.ravel()] if a.ndim == 1 else "z"
    elif a.dtype.kind == "b":
        a[...] = ~a
    elif a.dtype.kind in "iufc":
        a[...] = np.nan_to_num(a) * 2 + 1
    else:
        return False
    return True


@st.composite
def cases(draw):
    case = draw(C08.cases())
    q = case["queries"][0]
    if q["m"] not in ASKED:
        q["m"] = draw(st.sampled_from(ASKED))
        if q["m"] not in ("get_along", "get_magnitude_along"):
            q["kw"].pop("is_squeeze", None)
    how = draw(st.sampled_from(["query"] * 6 + ["spectrum", "spectrum", "time_to_freq", "freq_to_time", "copy", "as_dict"]))
    return {"field": case["field"], "query": q, "how": how}


def ask(obj, case, data=None):
    if case["how"] in ("time_to_freq", "freq_to_time", "copy"):
        return getattr(obj, case["how"])()
    if case["how"] == "as_dict":
        return obj.as_dict(type_handle_ndarray=1)
    return C08.ask(obj, case["query"], os.environ["VERIF_SCRATCH"], data)


def build(case):
    obj = field_obj(case["field"])
    if case["how"] in ("spectrum", "freq_to_time"):
        try:
            obj = obj.time_to_freq()
        except Exception:
            pass
    return obj


def check(make, ask, what, given):
    """None if the query fails, else whether an array was returned"""
    with observing("building the object"):
        obj = make()
        before = freeze(obj)
    data = {k: np.array(v) for k, v in given.items()}
    held = freeze(data)
    try:
        res = ask(obj, data)
    except (KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except Exception:
        res = None
    expect(held == freeze(data), "%s changed the coordinates passed to it: %s", what, data)
    if res is None:
        return None
    with observing("answer of " + what):
        first = freeze(res)
        found = [(p, a) for p, a in arrays(res)]
        held_by = list(containers(res))
        changed = sum([scribble(a) for p, a in found])
        for d in held_by:
            d.update(period=977) if isinstance(d, dict) else d.append(977)
    with observing("state after " + what):
        d = difference(before, freeze(obj))
    expect(d is None, "changing the answer of %s changed the object: %s", what, d)
    expect(held == freeze(data), "changing the answer of %s changed the coordinates passed to it: %s", what, data)
    with observing("asking again " + what):
        again = freeze(ask(obj, data))
    expect(again == first, "after changing its first answer, %s answers differently: %s", what, difference(first, again) if again != first else None)
    # the other way round
    with observing("building the object"):
        obj = make()
        res = ask(obj, data)
        first = freeze(res)
        for p, a in arrays([obj, data]):
            scribble(a)
        d = difference(first, freeze(res))
    expect(d is None, "changing the object after %s changed the answer: %s", what, d)
    return changed > 0


def run(case, note):
    q = case["query"]
    what = "%s(%s, %s)" % (q["m"], ", ".join(q["args"]), q["kw"]) if case["how"] in ("query", "spectrum") else case["how"]
    r = check(lambda: build(case), lambda o, data: ask(o, case, data), what, q["data"])
    note("%s/%s" % (q["m"] if case["how"] == "query" else case["how"], "failing" if r is None else "arrays" if r else "no array"))
    return bool(r)


VECTORS = ("time_to_freq", "get_xyz_along", "get_rphiz_along", "get_mag_xyz_along", "get_mag_rphiz_along", "get_vectorfield_along", "to_xyz", "to_rphiz", "copy")


@st.composite
def vectors(draw):
    case = draw(C23.queries())
    case["how"] = draw(st.sampled_from(VECTORS))
    case["bad"] = case["packed"] = False
    return case


def ask_vector(obj, case, data):
    if case["how"] in ("to_xyz", "to_rphiz", "copy", "time_to_freq"):
        return getattr(obj, case["how"])()
    args = C23.arguments(case)[0]
    res = getattr(obj, case["how"])(*args, axis_data=data, **({} if case["how"] == "get_vectorfield_along" else {"unit": case["unit"]}))
    return C08.plain(res)


def run_vector(case, note):
    args, given = C23.arguments(case)
    what = "%s(%s)" % (case["how"], ", ".join(args))
    r = check(lambda: C23.build(case), lambda o, data: ask_vector(o, case, data), what, given or {})
    note("%s/%s" % (case["how"], "failing" if r is None else "arrays" if r else "no array"))
    return bool(r)


def run_frame(case, note):
    a, b = case["speed"]
    speed = 60.0 * a / b / case["T"]
    kw = {} if case["atol"] is None else {"atol": case["atol"]}
    what = "change_referential(%g)" % speed
    r = check(lambda: C24.build(case), lambda o, data: o.change_referential(speed, False, **kw)[0], what, {})
    note("change_referential/%s/%s" % ("fixed" if not a else "rotating", "failing" if r is None else "arrays"))
    return bool(r)


def transforms():
    kinds = [("leakage", C26.cases()), ("combine", C27.pairs()), ("periodicity", C25.cases()), ("fold", C04.fold_cases()), ("linear", C04.linear_cases())]
    return st.one_of([st.tuples(st.just(k), c).map(list) for k, c in kinds])


def run_transform(case, note):
    kind, c = case
    if kind == "leakage":
        th = (np.array(c["f"]) / c["T"])[c["order"]]
        r = check(lambda: C26.build(c, 0)[0], lambda o, d: o.filter_spectral_leakage(d["f"]), "filter_spectral_leakage", {"f": th})
    elif kind == "combine":
        op = "sum" if c["op"] == "sum" else "conv"
        make = lambda: [C27.build(c[k], c["step"], k) for k in "ab"]
        r = check(make, lambda o, d: getattr(o[0], op)(o[1]), op, {})
    elif kind == "periodicity":
        make = lambda: C23.VectorField(name="v", symbol="B", components={n: field_obj(dict(c["field"], vseed=v)) for n, v in c["comps"].items()})
        r = check(make, lambda o, d: o.change_periodicity(c["per_a"], c["per_t"], is_aper_a_new=c["anti_a"]), "change_periodicity", {})
    elif kind == "fold":
        r = check(lambda: axis_obj(c["axis"]), lambda o, d: o.get_axis_periodic(c["per"], is_aper=c["aper"]), "get_axis_periodic", {})
    else:
        r = check(lambda: axis_obj(c["axis"]), lambda o, d: o.to_linspace(), "to_linspace", {})
    note("%s/%s" % (kind, "failing" if r is None else "arrays" if r else "no array"))
    return r is not None


SUBS = [Sub("fields", cases(), run, 4500), Sub("vectors", vectors(), run_vector, 2500), Sub("frames", C24.spectra(), run_frame, 600), Sub("transforms", transforms(), run_transform, 1500)]
