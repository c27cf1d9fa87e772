"""Equality and difference reports."""

import copy

import numpy as np
from hypothesis import strategies as st

from vlib import objects
from vlib.core import Sub, expect, observing

RULE = (
    "pairs of objects of any class: same content, content differing in one place at any depth, unrelated contents, and values that are not "
    "objects at all; non-trivial: the two sides are of the same class"
)


def places(spec, path=()):
    """Every (path, class, attribute) of the description."""
    out = []
    for k, v in spec["kw"].items():
        out.append((path, spec["cls"], k))
        for i, sub in children(v):
            out += places(sub, path + ((k, i),))
    return out


def children(v):
    if isinstance(v, dict):
        if "list" in v:
            return [(i, x) for i, x in enumerate(v["list"]) if isinstance(x, dict) and "cls" in x]
        if "map" in v:
            return [(i, kx[1]) for i, kx in enumerate(v["map"]) if isinstance(kx[1], dict) and "cls" in kx[1]]
    return []


def at(spec, path):
    for k, i in path:
        v = spec["kw"][k]
        spec = v["list"][i] if "list" in v else v["map"][i][1]
    return spec


@st.composite
def altered(draw):
    """A description and the same with one place changed."""
    a = draw(objects.anything())
    deep = draw(st.booleans())
    cand = [p for p in places(a) if not deep or p[0]] or places(a)
    path, cls, attr = cand[draw(st.integers(0, len(cand) - 1))]
    b = copy.deepcopy(a)
    node = at(b, path)
    old = node["kw"][attr]
    in_field = bool(path) and path[-1][0].startswith("axes")
    s = objects.TABLE[cls].get(attr)
    if attr == "number" and in_field:
        attr, s = "name", objects.text
        old = node["kw"][attr]
    if isinstance(old, dict) and "arr" in old and (in_field or s is None):
        s = objects.arr((old["arr"],), shape=old["shape"])
    elif attr.startswith("axes"):
        # another kind of axis in one place
        i = draw(st.integers(0, len(old["list"]) - 1))
        node["kw"][attr]["list"][i] = draw(objects.axis(len_of(old["list"][i])))
        return {"a": a, "b": b, "attr": attr}
    elif attr in ("components", "normalizations") and old["map"]:
        how = draw(st.sampled_from(["key", "drop", "add", "obj"]))
        m = node["kw"][attr]["map"]
        if how == "key":
            m[0][0] += "x"
        elif how == "drop":
            m.pop()
        elif how == "add" or attr == "components":
            m.append(["another", copy.deepcopy(m[0][1])])
        else:
            m[0][1] = draw(objects.norm())
        return {"a": a, "b": b, "attr": attr}
    if s is None:
        return {"a": a, "b": b, "attr": attr}
    node["kw"][attr] = draw(s)
    return {"a": a, "b": b, "attr": attr}


def len_of(axis):
    v = axis["kw"].get("values")
    return v["shape"][0] if v else axis["kw"]["number"]


def unique_keys(spec):
    if isinstance(spec, dict):
        if "map" in spec:
            k = [x[0] for x in spec["map"]]
            return len(set(k)) == len(k) and all(unique_keys(x[1]) for x in spec["map"])
        if "list" in spec:
            return all(unique_keys(x) for x in spec["list"])
        if "cls" in spec:
            return all(unique_keys(x) for x in spec["kw"].values())
    return True


def verdict(x, y, equal, what):
    with observing(what):
        r = [x == y, y == x, not (x != y), not (y != x)]
        expect(all(bool(v) is equal for v in r), "%s: == and != say %s for %s contents", what, r, "equal" if equal else "different")
        d, e = x.compare(y), y.compare(x)
        expect(isinstance(d, list) and all(isinstance(s, str) for s in d), "%s: difference report is %r", what, d)
        expect((d == []) is equal and (e == []) is equal, "%s: reports %s and %s for %s contents", what, d, e, "equal" if equal else "different")
    return d


def run_pair(case, note):
    if not (unique_keys(case["a"]) and unique_keys(case["b"])):
        return False
    with observing("building"):
        x, y = objects.make(case["a"]), objects.make(case["b"])
    equal = objects.content(case["a"]) == objects.content(case["b"])
    what = "%s and %s" % (case["a"]["cls"], case["b"]["cls"])
    d = verdict(x, y, equal, what)
    with observing(what):
        if not equal:
            attr = case.get("attr")
            if attr is not None:
                expect(any(attr in s for s in d), "%s: a changed %s is reported as %s", what, attr, d)
                note("changed " + attr)
            # reports under another name, with values, and with known differences left out
            named = x.compare(y, name="thing")
            expect(len(named) == len(d) and all("thing" in s for s in named), "%s: report under another name: %s for %s", what, named, d)
            full = x.compare(y, is_add_value=True)
            expect(len(full) == len(d) and all(f.startswith(s) for f, s in zip(full, d)), "%s: report with values: %s for %s", what, full, d)
            if type(x) is not type(y):
                return False
            rest = x.compare(y, ignore_list=list(d))
            expect(rest == [], "%s: ignoring %s leaves %s", what, d, rest)
            if len(d) > 1:
                rest = x.compare(y, ignore_list=d[:1])
                expect(rest == [s for s in d if s != d[0]], "%s: ignoring %s of %s leaves %s", what, d[:1], d, rest)
    note(case["a"]["cls"])
    note("equal" if equal else "different")
    return case["a"]["cls"] == case["b"]["cls"]


@st.composite
def pairs(draw):
    return {"a": draw(objects.anything()), "b": draw(objects.anything())}


@st.composite
def twins(draw):
    a = draw(objects.anything())
    return {"a": a, "b": a}


STRANGERS = {
    "none": lambda: None, "int": lambda: 3, "text": lambda: "x", "array": lambda: np.arange(3.0), "array2": lambda: np.zeros((2, 2)),
    "dict": lambda: {}, "list": lambda: [1], "object": object, "type": lambda: int, "nan": lambda: float("nan"),
}


def run_stranger(case, note):
    with observing("comparing with a %s" % case["other"]):
        x = objects.make(case["obj"])
        y = STRANGERS[case["other"]]()
        r = x == y
        expect(np.ndim(r) == 0 and not r, "equal to a %s: %r", case["other"], r)
        r = x != y
        expect(np.ndim(r) == 0 and bool(r), "not different from a %s: %r", case["other"], r)
        d = x.compare(y)
        expect(isinstance(d, list) and len(d) >= 1, "no difference with a %s reported: %r", case["other"], d)
    note(case["other"])
    return True


SUBS = [
    Sub("altered", altered(), run_pair, 8000),
    Sub("pairs", pairs(), run_pair, 1500),
    Sub("twins", twins(), run_pair, 1500),
    Sub("strangers", st.fixed_dictionaries({"obj": objects.anything(), "other": st.sampled_from(sorted(STRANGERS))}), run_stranger, 1000),
]
