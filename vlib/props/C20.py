"""Copies, dictionaries and files hold the same object."""

import copy
import json
import os
import pickle
import shutil
import tempfile

import h5py
import numpy as np
from hypothesis import strategies as st

from vlib import gen, objects
from vlib.build import field_obj
from vlib.core import Sub, expect, observing, same, same_strings
from vlib.snapshot import difference, freeze
from SciDataTool.Functions.load import load, load_dict, load_list
from SciDataTool.Functions.save import save_data

RULE = (
    "an object of any class with arbitrary text, numbers, arrays, symmetries, normalizations, filters, axes and components, sent through "
    "copying, dictionary, text file and pickle and then modified in depth; non-trivial: the object holds at least one array or sub-object"
)

WAYS = ("copy", "dict", "dict_copy", "dict_shared", "json_text", "file", "file_str", "file_dir", "pickle", "deepcopy", "pkl_file", "hdf5")


def scratch():
    return tempfile.mkdtemp(dir=os.environ["VERIF_SCRATCH"])


class NoRoom(Exception):
    """The dictionary cannot be written as groups and datasets."""


def write_hdf5(group, key, v):
    """One entry of a dictionary form, as groups (dictionaries, lists) and datasets (everything else)."""
    if isinstance(v, dict):
        g = group.create_group(key)
        for k, x in v.items():
            if not isinstance(k, str) or not k or "/" in k or "\0" in k or k in (".", ".."):
                raise NoRoom
            write_hdf5(g, k, x)
    elif isinstance(v, list):
        flat = np.asarray(v) if len({type(x) for x in v} - {int, float, complex}) == 0 else np.empty(0)
        if flat.size:
            group.create_dataset(key, data=flat).attrs["array_list"] = True
            return
        g = group.create_group(key)
        g.attrs["length_list"] = len(v)
        for i, x in enumerate(v):
            write_hdf5(g, "list_%d" % i, x)
    elif v is None or isinstance(v, str):
        if v == "NoneValue":
            raise NoRoom
        try:
            b = ("NoneValue" if v is None else v).encode("ISO-8859-2")
        except UnicodeEncodeError:
            raise NoRoom
        if b.endswith(b"\0"):
            raise NoRoom
        if b.isascii() and b"\0" not in b and len(b) % 2 or not b:
            group.create_dataset(key, data=b.decode(), dtype=h5py.string_dtype())
        else:
            group[key] = np.string_(b)
    elif isinstance(v, complex):
        raise NoRoom
    else:
        group[key] = v


def rebuild(obj, way, stem="some object"):
    cls = type(obj)
    if way == "copy":
        return obj.copy()
    if way == "dict":
        return cls(init_dict=obj.as_dict())
    if way == "dict_copy":
        return cls(init_dict=obj.as_dict(type_handle_ndarray=1))
    if way == "dict_shared":
        return cls(init_dict=obj.as_dict(type_handle_ndarray=2, keep_function=True))
    if way == "json_text":
        return cls(init_dict=json.loads(json.dumps(obj.as_dict(), default=lambda x: x.item())))
    if way == "pickle":
        return pickle.loads(pickle.dumps(obj))
    if way == "deepcopy":
        return copy.deepcopy(obj)
    d = scratch()
    try:
        cwd = os.getcwd()
        if way == "file_dir":
            obj.save(d)
            p = os.path.join(d, cls.__name__ + ".json")
        elif way == "pkl_file":
            p = os.path.join(d, stem + ".pkl")
            with open(p, "wb") as f:
                pickle.dump(obj, f)
        elif way == "hdf5":
            p = os.path.join(d, stem + (".h5" if len(stem) % 2 else ".hdf5"))
            try:
                with h5py.File(p, "w") as f:
                    for k, v in obj.as_dict().items():
                        write_hdf5(f, k, v)
            except NoRoom:
                return obj.copy()
        else:
            p = os.path.join(d, stem + ".json")
            obj.save(os.path.join(d, stem) if way == "file_str" else p)
        expect(os.path.isfile(p), "nothing was saved at %s (there is %s)", os.path.basename(p), os.listdir(d))
        r = cls(init_str=p) if way == "file_str" else load(p)
        expect(os.getcwd() == cwd, "loading changed the working directory")
        return r
    finally:
        shutil.rmtree(d)


def has_complex(x):
    if isinstance(x, np.ndarray):
        return x.dtype.kind == "c"
    if isinstance(x, (list, tuple)):
        return any(has_complex(i) for i in x)
    if isinstance(x, dict):
        return any(has_complex(i) for i in x.values())
    if hasattr(x, "__dict__"):
        return any(has_complex(i) for k, i in vars(x).items() if k != "parent")
    return False


def has_func(x):
    if isinstance(x, dict):
        return any(has_func(i) for i in x.values())
    if hasattr(x, "_function_func"):
        return x._function_func is not None
    if isinstance(x, (list, tuple)):
        return any(has_func(i) for i in x)
    if hasattr(x, "__dict__"):
        return any(has_func(i) for k, i in vars(x).items() if k != "parent")
    return False


def spoil(x, arrays=True, seen=None):
    """Change in place everything x holds."""
    seen = set() if seen is None else seen
    if id(x) in seen:
        return
    seen.add(id(x))
    if isinstance(x, np.ndarray):
        if arrays and x.size:
            if x.dtype.kind in "US":
                x[...] = "?"
            elif x.dtype.kind == "b":
                x[...] = ~x
            else:
                x[...] = x + 1 + np.abs(x)
    elif isinstance(x, list):
        for i in x:
            spoil(i, arrays, seen)
        x.append("spoiled")
    elif isinstance(x, dict):
        for i in list(x.values()):
            spoil(i, arrays, seen)
        x["spoiled"] = 1
    elif hasattr(x, "__dict__") and type(x).__name__ in objects.CLASSES:
        for k, v in list(vars(x).items()):
            if k != "parent":
                spoil(v, arrays, seen)
        for k in ("name", "unit", "symbol"):
            if hasattr(x, k):
                setattr(x, k, "spoiled")


def run_object(case, note):
    spec, way = case["obj"], case["way"]
    what = "%s through %s" % (spec["cls"], way)
    with observing("building a %s" % spec["cls"]):
        obj = objects.make(spec)
        objects.check_content(spec, obj, spec["cls"], expect)
        if way == "json_text" and has_complex(obj):
            way = "file"
        if way in ("pickle", "deepcopy", "pkl_file") and has_func(obj):
            way = "copy"
        what = "%s through %s" % (spec["cls"], way)
    before = freeze(obj)
    with observing(what):
        new = rebuild(obj, way, case["stem"])
        objects.check_content(spec, new, what, expect)
        expect(obj == new and new == obj, "%s: the rebuilt object is not equal to the original", what)
        expect(not (obj != new), "%s: != is true for an equal object", what)
        d = obj.compare(new)
        expect(d == [], "%s: differences reported: %s", what, d)
    d = difference(before, freeze(obj))
    expect(d is None, "%s changed the original: %s", what, d)
    with observing(what):
        spoil(new, arrays=way != "dict_shared")
    d = difference(before, freeze(obj))
    expect(d is None, "%s: changing the rebuilt object changed the original: %s", what, d)
    note(way)
    note(spec["cls"])
    return any(isinstance(v, dict) and ("arr" in v or "list" in v or "map" in v) for v in spec["kw"].values())


# a dictionary can be used again
def run_dict(case, note):
    spec = case["obj"]
    with observing("building from a dictionary"):
        obj = objects.make(spec)
        d = obj.as_dict()
        before = freeze(d)
        a = type(obj)(init_dict=d)
        diff = difference(before, freeze(d))
        expect(diff is None, "building from a dictionary changed it: %s", diff)
        spoil(a)
        # each level only: the objects inside (axes, components) are rebuilt
        b = type(obj)(init_dict=obj.as_dict())
        expect(b == obj, "second object is not equal")
        before = freeze(obj)
        spoil(d)
        diff = difference(before, freeze(obj))
        expect(diff is None, "changing the dictionary changed the object: %s", diff)
    note(spec["cls"])
    return spec["cls"] in objects.FIELDS + ("VectorField",)


# collections of objects in a file
@st.composite
def collections(draw):
    objs = draw(st.lists(objects.anything(), min_size=1, max_size=3))
    return {"objs": objs, "kind": draw(st.sampled_from(["list", "dict"])), "extra": draw(st.lists(st.sampled_from([1, 2.5, "s", True]), max_size=2))}


def run_collection(case, note):
    with observing("building"):
        objs = [objects.make(s) for s in case["objs"]]
        extra = case["extra"]
        if case["kind"] == "list":
            data = objs + list(extra) + [list(objs[:1])]
        else:
            data = {"k%d" % i: o for i, o in enumerate(objs)}
            data.update(("e%d" % i, e) for i, e in enumerate(extra))
            data["nested"] = {"o": objs[0]}
    d = scratch()
    try:
        p = os.path.join(d, "collection.json")
        with observing("saving and loading a %s of objects" % case["kind"]):
            save_data(data, p)
            back = (load_list if case["kind"] == "list" else load_dict)(p)
            expect(back == data, "loaded %s differs from the saved one", case["kind"])
            flat = back if case["kind"] == "list" else [back["k%d" % i] for i in range(len(objs))]
            for s, o in zip(case["objs"], flat):
                objects.check_content(s, o, "object of a %s" % case["kind"], expect)
    finally:
        shutil.rmtree(d)
    note(case["kind"])
    return True


# files that do not hold what is asked
@st.composite
def wrong_files(draw):
    kind = draw(st.sampled_from(["text", "empty", "list", "number", "no class", "class", "attribute", "attribute", "inner", "absent", "extension", "good"]))
    return {"obj": draw(objects.anything()), "kind": kind, "way": draw(st.sampled_from(["load", "load", "init_str", "list", "dict"])), "sub": draw(st.booleans()), "relative": draw(st.booleans())}


def spoiled(d, kind):
    """Dictionary of an object where something cannot be accepted."""
    d = copy.deepcopy(d)
    if kind == "class":
        d["__class__"] = "Nothing"
    elif kind == "no class":
        del d["__class__"]
    elif kind == "attribute":
        for k in ("axes", "components", "number", "is_components", "ref", "slope", "vector", "name"):
            if k in d:
                d[k] = 3 if k in ("axes", "components", "name", "is_components") else "some text"
                return d
        return None
    elif kind == "inner":
        for k in ("axes", "axes_dt", "components"):
            if d.get(k):
                inner = d[k][0] if isinstance(d[k], list) else next(iter(d[k].values()))
                inner["name"] = 3
                return d
        return None
    return d


def run_wrong(case, note):
    with observing("building"):
        obj = objects.make(case["obj"])
        form = obj.as_dict()
    kind, way = case["kind"], case["way"]
    d = scratch()
    home = os.getcwd()
    try:
        os.chdir(d)
        where = os.path.join(d, "some folder") if case["sub"] else d
        os.makedirs(where, exist_ok=True)
        p = os.path.join(where, "some object." + ("csv" if kind == "extension" else "json"))
        data = {"list": [form], "number": 3}.get(kind) or spoiled(form, kind)
        if data is None:
            return False
        if way == "init_str" and kind in ("class", "no class"):
            return False  # the class is known
        if way in ("list", "dict"):
            data = {"list": [data], "dict": {"one": data}}[way]
            if kind in ("list", "number"):
                data = {"list": {"one": form}, "dict": [form]}[way]
            if kind in ("no class", "extension"):
                return False  # entries without class are plain dictionaries, the extension is completed
        if kind != "absent":
            with open(p, "w") as f:
                f.write({"text": "{some text", "empty": ""}[kind] if kind in ("text", "empty") else json.dumps(data, default=objects_text))
        if case["relative"]:
            p = os.path.relpath(p, d)
        what = "%s of a file (%s)" % (way, kind)
        err, new = None, None
        try:
            if way == "load":
                new = load(p)
            elif way == "init_str":
                new = type(obj)(init_str=p)
            else:
                new = (load_list if way == "list" else load_dict)(p)
        except Exception as e:
            err = e
        expect(os.getcwd() == d, "%s changed the working directory", what)
        if kind == "good":
            if err is not None:
                with observing(what):
                    raise err
            with observing(what):
                new = new[0] if way == "list" else new["one"] if way == "dict" else new
                expect(new == obj, "%s: the object differs", what)
        else:
            expect(err is not None, "%s is accepted and gives %s", what, type(new).__name__)
            names = {"absent": "LoadMissingFileError", "list": "LoadWrongTypeError", "number": "LoadWrongTypeError", "no class": "LoadWrongDictClassError", "class": "InitUnKnowClassError"}
            n = "LoadWrongTypeError" if kind in ("list", "number") else names.get(kind)
            expect(n is None or way == "init_str" or type(err).__name__ == n, "%s: %s instead of %s", what, type(err).__name__, n)
    finally:
        os.chdir(home)
        shutil.rmtree(d)
    note("wrong file %s/%s" % (kind, way))
    return kind != "good"


def objects_text(x):
    x = x.item() if hasattr(x, "item") else x
    return str(x) if isinstance(x, complex) else x


# queries
@st.composite
def queried(draw):
    f = draw(gen.field(ppat=0.15, maxfull=400))
    for a in f["axes"]:
        if a["kind"] != "comp" and draw(st.booleans()):
            a["norms"] = {"n": draw(st.sampled_from([{"k": "ref", "ref": 3.0}, {"k": "affine", "slope": 2.0, "offset": 1.0}, {"k": "indices"}]))}
    f["name"] = "field"
    return {"field": f, "ways": draw(st.lists(st.sampled_from(WAYS), min_size=1, max_size=3))}


def answers(obj, case):
    f = case["field"]
    out = []
    names = [a["name"] for a in f["axes"]]
    for args in (names, [n + "[0]" for n in names], [n + "[smallestperiod]" for n in names], [names[0] + "[0]"] + names[1:]):
        out.append(obj.get_along(*args))
    norm = [n + "->n" if a.get("norms") else n for n, a in zip(names, f["axes"])]
    out.append(obj.get_along(*norm))
    return out


def run_query(case, note):
    with observing("building the field"):
        obj = field_obj(case["field"])
    with observing("query of the original"):
        want = answers(obj, case)
    cur = obj
    for way in case["ways"]:
        if way == "json_text" and has_complex(cur):
            way = "file"
        with observing("rebuilding through %s" % way):
            cur = rebuild(cur, way)
            got = answers(cur, case)
        for g, w in zip(got, want):
            expect(list(g) == list(w), "through %s: answers %s instead of %s", way, list(g), list(w))
            for k in w:
                if k in ("axes_list", "axes_dict_other"):
                    continue
                if isinstance(w[k], str) or np.asarray(w[k]).dtype.kind in "US":
                    expect(np.array_equal(g[k], w[k]), "through %s: %s is %r instead of %r", way, k, g[k], w[k])
                else:
                    same(g[k], w[k], "through %s: %s" % (way, k), rtol=0)
        note(way)
    return len(case["ways"]) > 1


SUBS = [
    Sub("objects", st.fixed_dictionaries({"obj": objects.anything(), "way": st.sampled_from(WAYS), "stem": st.sampled_from(["some object", "a.b", "é", "x.json.old", "0"])}), run_object, 6000),
    Sub("dictionaries", st.fixed_dictionaries({"obj": objects.anything()}), run_dict, 2000),
    Sub("collections", collections(), run_collection, 1000),
    Sub("wrong-files", wrong_files(), run_wrong, 1200),
    Sub("queries", queried(), run_query, 1500),
]
