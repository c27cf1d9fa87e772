"""Queries never alter the object and never depend on earlier queries."""

import os

import numpy as np
from hypothesis import strategies as st

from vlib import fourier, gen, query
from vlib.build import field_obj
from vlib.core import Sub, expect, fail, observing
from vlib.model import Ax
from vlib.props import C09
from vlib.snapshot import difference, freeze

RULE = (
    "field of 1-3 axes with normalizations and symmetries, sequence of 2-8 queries (plain, magnitude, phase, harmonics, extraction, "
    "Fourier conversion, lengths, values, comparison, copy, dictionary, export; with units, normalizations, operations) of which some must "
    "fail; non-trivial: at least two queries succeed"
)
KINDS = ("whole", "idx", "idxs", "range", "interval", "gt", "lt", "eq", "list", "axis_data", "smallestperiod", "oneperiod", "antiperiod", "all")
AXU = {"s": "ms", "m": "mm", "rad": "°", "A": "kA", "rpm": "rad/s", "": "", "Hz": "kHz"}


@st.composite
def one_query(draw, f):
    """[method, requests, axis data, keywords] ; some requests cannot be answered"""
    args, data = [], {}
    four = False
    plainly = draw(st.integers(0, 4)) == 0  # the whole field, whose stored values may be handed on
    for a in f["axes"]:
        d = 12 if plainly else draw(st.integers(0, 11))
        name = a["name"]
        if plainly:
            args.append(name + draw(st.sampled_from(["", "", "[smallestperiod]", "[oneperiod]"])))
            continue
        if d == 0:
            continue
        if d == 1 and name in ("time", "angle"):
            args.append(fourier.PARTNER[name])
            four = True
        elif d == 2:
            args.append("%s=%s" % (name, draw(st.sampled_from(["sum", "max", "min", "mean", "rms", "rss", "integrate", "derivate", "antiderivate", "integrate_local"]))))
        elif d == 3 and a["kind"] != "comp":
            args.append(
                "%s->%s%s"
                % (
                    name,
                    draw(st.sampled_from(["n1", "n2", "n3", "n3", "n4", "n5", "nope"])),
                    draw(st.sampled_from(["", "", "[oneperiod]", "[smallestperiod]", "[antiperiod]", "[0]", "[0,1]", "=[0.5,3.5]", "=1.5", "=[1.0,1.5,2.5]"])),
                )
            )
        elif d == 4:
            args.append("%s{%s}" % (name, draw(st.sampled_from([AXU[a["unit"]] or "m", "kg", "foo"]))))
        elif d == 5:
            args.append(draw(st.sampled_from(["%s[999]", "%s=axis_data", "%s=[1e9,2e9]", "%s=[1e9,2e9,3e9]", "%s[pattern]", "%s[antiperiod]", "%s=1e9", "%s[3largest]"])) % name)
        else:
            r = draw(query.request(a, KINDS))
            args.append(query.req_string(name, r))
            data.update(query.req_axis_data(name, r))
    m = draw(st.sampled_from(["get_along", "get_along", "get_along", "get_magnitude_along", "get_phase_along", "get_data_along", "get_harmonics", "time_to_freq", "misc", "export_along", "compare_along"]))
    kw = {}
    u = draw(st.integers(0, 9))
    if u < 4:
        kw["unit"] = ["mT", "A", "dB", "dBA"][u]
    elif u == 4:
        kw["is_norm"] = True
    elif u == 5 and m in ("get_along", "get_magnitude_along"):
        kw["is_squeeze"] = False
    return {"m": m, "args": list(draw(st.permutations(args))), "data": {k: [float(x) for x in v] for k, v in data.items()}, "kw": kw, "n": draw(st.integers(1, 5))}


@st.composite
def cases(draw):
    f = draw(gen.field(naxes=(1, 3), maxfull=600, ppat=0.12, dtypes=("real", "int", "complex"), starts=[0.0, 0.0, 1.0, -1.0]))
    if draw(st.booleans()):
        for a in f["axes"]:
            if a["name"] == "angle" and a["kind"] in ("d1", "lin"):
                a["xs"] = None
                a["dx"] = 2 * np.pi / gen.axis_len(a)
                a["x0"] = 0.0
            if a["name"] == "time" and a["kind"] in ("d1", "lin"):
                a["xs"] = None
    f["norms"] = {"ref": {"k": "ref", "ref": draw(st.sampled_from([2e-5, 2.0]))}}
    for a in f["axes"]:
        if a["kind"] != "comp":
            n = Ax(a).n
            a["norms"] = {
                "n1": {"k": "ref", "ref": 0.5},
                "n2": {"k": "affine", "slope": 2.0, "offset": 1.0},
                "n3": {"k": "vector", "vector": [float(3 * i + 1) for i in range(n)]},
                "n4": {"k": "indices"},
                "n5": {"k": "vector", "vector": [float(2 * i + 1) for i in range(n)], "unit": "kg"},
            }
    return {"field": f, "queries": draw(st.lists(one_query(f), min_size=2, max_size=8)), "fresh": draw(st.integers(0, 10**6))}


def plain(x):
    """Answer as plain data."""
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items() if k != "axes_list"}
    return x


def ask(obj, q, where, data=None):
    if data is None:
        data = {k: np.array(v) for k, v in q["data"].items()}
    args = list(q["args"])
    m = q["m"]
    kw = dict(q["kw"])
    if m == "get_harmonics":
        kw.pop("is_squeeze", None)
        return plain(obj.get_harmonics(q["n"], *args, axis_data=data, **kw))
    if m == "time_to_freq":
        return obj.time_to_freq()
    if m == "export_along":
        d = os.path.join(where, "export")
        os.makedirs(d, exist_ok=True)
        for n in os.listdir(d):
            os.remove(os.path.join(d, n))
        obj.export_along(*args, is_2D=q["n"] < 3, unit=kw.get("unit", "SI"), save_path=d, file_name="q")
        return [(n, open(os.path.join(d, n), encoding="utf-8").read()) for n in sorted(os.listdir(d))]
    if m == "compare_along":
        kw.pop("is_squeeze", None)
        return plain(obj.compare_along(*args, data_list=[obj], **kw))
    if m == "misc":
        k = q["n"]
        if k == 1:
            return obj.as_dict()
        if k == 2:
            return obj.copy()
        if k == 3:
            return [[a.get_length(), a.get_length(is_smallestperiod=True), a.get_values(), a.has_period(), a.get_values(is_smallestperiod=True), a.get_values(is_oneperiod=True)] for a in obj.axes]
        if k == 4:
            return [obj == obj.copy(), obj.compare(obj.copy()), obj.has_period()]
        out = []
        for a in obj.axes:
            for n in sorted(a.normalizations) + ["nope"]:
                for key in ("is_oneperiod", "is_smallestperiod", "is_antiperiod", "is_real"):
                    try:
                        out.append(a.get_values(normalization=n, **{key: True}))
                    except Exception as e:
                        out.append(type(e).__name__)
        return out
    kw.setdefault("axis_data", data)
    return plain(getattr(obj, m)(*args, **kw))


def outcome(obj, q, where):
    try:
        return ("ok", freeze(ask(obj, q, where)))
    except (KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except Exception as e:
        return ("error", type(e).__name__, str(e)[:120])


def run(case, note):
    where = os.environ["VERIF_SCRATCH"]
    with observing("building the field"):
        obj = field_obj(case["field"])
        before = freeze(obj)
    okays = 0
    for i, q in enumerate(case["queries"]):
        what = "%s(%s, %s)" % (q["m"], ", ".join(q["args"]), q["kw"])
        if q["m"] == "misc":
            what = "misc %d" % q["n"]
        got = outcome(obj, q, where)
        after = freeze(obj)
        d = difference(before, after)
        expect(d is None, "%s (%s) altered the field: %s", what, got[0], d)
        with observing("building the field"):
            new = field_obj(case["field"])
        want = outcome(new, q, where)
        if got != want:
            fail("after %d queries, %s answers differently from a new object: %s", i, what, difference(want, got))
        okays += got[0] == "ok"
        note("%s/%s" % (q["m"], got[0] if got[0] == "ok" else got[1]))
    return okays >= 2


SUBS = [Sub("sequences", cases(), run, 3000)]
