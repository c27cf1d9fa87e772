"""Filters and rankings of an axis select the right entries."""

from itertools import permutations

import numpy as np
from hypothesis import strategies as st

from SciDataTool import Data1D, DataTime

from vlib import gen, query
from vlib.build import field_obj
from vlib.core import Sub, expect, observing, raises, same, same_coords
from vlib.model import Ax, Field, apply, req_axis_data, req_string, values_of

RULE = (
    "field asked for the N largest entries of an axis of names, of numbers or of numbered components (with a declared ranking, complete or partial, or with the ranking of "
    "its coordinates), also after extraction of a part of the axis; filters on combined names (items shared by several keys, keys in any order, unknown items, wrong keys); "
    "non-trivial: a proper part of the axis in an order other than the stored one, or a filter with at least two keys keeping some entries and dropping others"
)
OTHERS = ("whole", "idx", "idxs", "range", "interval")


@st.composite
def ranked(draw):
    f = draw(gen.field(naxes=(1, 3), psym=0.3, pcomp=0.4, maxfull=600))
    i = draw(st.integers(0, len(f["axes"]) - 1))
    a = f["axes"][i]
    N = gen.axis_len(a)
    rank = None
    if a["kind"] != "lin" and (a["kind"] == "comp" or draw(st.booleans())):
        rank = list(draw(st.permutations(list(range(N)))))
        if draw(st.integers(0, 3)) == 0:
            rank = rank[: draw(st.integers(1, N))]
    a["rank"] = rank
    if a["kind"] == "d1" and not a.get("sym") and draw(st.booleans()):
        a["numbered"] = True
    reqs = [draw(st.one_of(st.none(), query.request(b, OTHERS), query.request(b, OTHERS))) for b in f["axes"]]
    reqs[i] = {"k": "largest", "n": draw(st.integers(1, N + 1))}
    case = {"field": f, "reqs": reqs, "i": i, "first": None}
    if rank is not None and not a.get("sym") and draw(st.integers(0, 2)) == 0:
        case["first"] = draw(st.one_of(st.just({"k": "whole"}), gen.index_request(N, kinds=("range", "range", "idxs"))))
        if case["first"]["k"] == "idxs":
            case["first"]["i"] = sorted(set(case["first"]["i"]))
            if len(case["first"]["i"]) < 2:
                case["first"] = {"k": "whole"}
    return case


def run_ranked(case, note):
    f = Field(case["field"])
    i = case["i"]
    ax, r = f.axes[i], case["reqs"][i]
    A, out, args, data = f.full, [], [], {}
    keep = list(range(ax.N))
    if case["first"] and case["first"]["k"] == "idxs":
        keep = case["first"]["i"]
    elif case["first"] and case["first"]["k"] == "range":
        keep = list(range(case["first"]["i"], case["first"]["j"]))
    rank = ax.spec["rank"]
    if rank is None:
        rank = [int(k) for k in np.argsort(-ax.full, kind="stable")]
    sel = [k for k in rank if k in keep][: r["n"]]
    if not sel:
        return False
    for j, (b, q) in enumerate(zip(f.axes, case["reqs"])):
        if j == i:
            A = np.take(A, sel, axis=j)
            out.append((b, ax.full[sel]))
            args.append("%s[%dlargest]" % (b.name, r["n"]))
        elif q is None:
            A = np.take(A, [0], axis=j)
        else:
            x, A = apply(b, A, j, q)
            out.append((b, x))
            args.append(req_string(b.name, q))
            data.update(req_axis_data(b.name, q))
    with observing("building the field"):
        obj = field_obj(case["field"])
        if ax.spec["rank"] is not None:
            obj.axes[i].sort_indices = list(ax.spec["rank"])
        if ax.spec.get("numbered"):
            obj.axes[i].is_components = True
    what = "(%s)" % ", ".join(args)
    if case["first"]:
        first = [req_string(b.name, case["first"] if j == i else {"k": "whole"}) for j, b in enumerate(f.axes)]
        what += " after extraction of (%s)" % ", ".join(first)
        with observing("get_data_along(%s)" % ", ".join(first)):
            obj = obj.get_data_along(*first)
    with observing("get_along" + what):
        res = obj.get_along(*args, **({"axis_data": data} if data else {}))
        got = res[f.symbol]
        axes = {b.name: res[b.name] for b, x in out}
    for b, x in out:
        same_coords(axes[b.name], x, "axis %s %s" % (b.name, what), scale=query.axis_scale(b))
    same(got, np.squeeze(A), "values %s" % what)
    note("%s/%s/%s" % (ax.kind, "declared" if ax.spec["rank"] is not None else "coordinates", "extracted" if case["first"] else "direct"))
    return len(sel) < ax.N and sel != sorted(sel)


ITEMS = ["a", "b", "c", "X", "Y", "Z", "rad", "tan", "1", "2", "slot 1", "slot", "A", "circ"]


@st.composite
def filtered(draw):
    K = draw(st.integers(1, 3))
    delim = draw(st.sampled_from([", ", "-", "/", "_", " | ", ","]))
    pool = ITEMS if draw(st.booleans()) else ITEMS[:5]
    keys = ["key%d" % k for k in range(K)]
    known = {k: draw(st.lists(st.sampled_from(pool), min_size=1, max_size=5, unique=True)) for k in keys}
    order = list(draw(st.permutations(keys)))  # order of the keys inside the names
    combos = [[]]
    for k in order:
        combos = [c + [x] for c in combos for x in known[k]]
    names = draw(st.lists(st.sampled_from([delim.join(c) for c in combos]), min_size=1, max_size=8, unique=True))
    asked = {}
    for k in draw(st.permutations(keys)):
        asked[k] = draw(st.lists(st.sampled_from(known[k] + ["nothing"]), max_size=5, unique=True))
        if draw(st.integers(0, 2)) == 0:
            asked[k] = list(known[k])
    case = {"delim": delim, "known": known, "names": names, "asked": asked, "wrong": None, "n": draw(st.integers(1, 3)), "vseed": draw(gen.seeds)}
    if draw(st.integers(0, 4)) == 0:
        case["wrong"] = draw(st.sampled_from(["item", "count", "key missing", "key unknown"]))
        case["where"] = draw(st.integers(0, len(names) - 1))
    return case


def run_filtered(case, note):
    names = list(case["names"])
    asked = dict(case["asked"])
    keys = list(case["known"])
    wrong = case["wrong"]
    if wrong == "item":
        names[case["where"]] = case["delim"].join(["unheard"] + names[case["where"]].split(case["delim"])[1:])
    elif wrong == "count":
        names[case["where"]] += case["delim"] + case["known"][keys[0]][0]
    elif wrong == "key missing":
        del asked[keys[-1]]
    elif wrong == "key unknown":
        asked = {("other" if k == keys[0] else k): v for k, v in asked.items()}
    items = [n.split(case["delim"]) for n in names]
    with observing("building the axis"):
        axis = Data1D(
            name="force", unit="", values=np.array(names), is_components=True, delimiter=case["delim"],
            filter={k: list(v) for k, v in case["known"].items()},
        )
    what = "filter %r of names %r with items %r" % (asked, names, case["known"])
    note("%d keys/%s" % (len(keys), wrong or "right"))
    if wrong:
        raises(("AxisError",), lambda: axis.get_filter(asked), what)
        return True
    answers = []
    for perm in permutations(keys):
        if all(it in case["known"][k] for row in items for it, k in zip(row, perm)):
            answers.append([i for i, row in enumerate(items) if all(it in asked[k] for it, k in zip(row, perm))])
    if any(a != answers[0] for a in answers):
        return False  # which item belongs to which key cannot be told from the names
    want = answers[0]
    with observing(what):
        got = axis.get_filter(asked)
    expect(list(got) == want, "%s: entries %r, expected %r", what, got, want)
    if want:
        spec = {"vseed": case["vseed"], "dtype": "real"}
        vals = values_of(spec, (case["n"], len(names)))
        with observing("building the field"):
            obj = DataTime(name="f", symbol="X", unit="T", axes=[Data1D(name="time", unit="s", values=np.arange(case["n"]) * 0.5), axis], values=vals)
        req = "force[%s]" % ",".join(str(i) for i in got)
        with observing("get_along(time, %s)" % req):
            res = obj.get_along("time", req)
            v, x = np.asarray(res["X"]), [str(s) for s in np.atleast_1d(res["force"])]
        expect(x == [names[i] for i in want], "names of (time, %s): %r", req, x)
        same(v, np.squeeze(vals[:, want]), "values of (time, %s)" % req)
    return len(keys) > 1 and 0 < len(want) < len(names)


SUBS = [
    Sub("largest", ranked(), run_ranked, 5000),
    Sub("filters", filtered(), run_filtered, 5000),
]
