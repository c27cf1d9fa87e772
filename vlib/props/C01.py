"""Index requests return the unfolded field at exactly those indices."""

from vlib import query
from vlib.build import field_obj
from vlib.core import Sub, observing
from vlib.model import Field

RULE = (
    "field of 1-4 axes (sampled, linear, component, periodic, antiperiodic) with an index request per axis; "
    "non-trivial: at least one axis is really indexed (not the whole axis) and the field has more than one sample"
)


def run(case, note):
    f = Field(case["field"])
    coords, A = query.evaluate(case, f)
    args, data = query.arguments(case)
    with observing("building the field"):
        obj = field_obj(case["field"])
    res = query.ask(obj, args, data)
    query.check_answer(res, f.symbol, coords, A, args)
    for ax, r, x in coords:
        note("%s/%s/%s" % (ax.kind, (ax.sym or ["plain"])[0], r["k"]))
    return f.full.size > 1 and any(r["k"] != "whole" for ax, r, x in coords)


KINDS = ("idx", "idxs", "range", "whole", "all")
SUBS = [
    Sub("one-axis", query.query(KINDS, naxes=(1, 1), pomit=0, psym=0.7), run, 2400),
    Sub("several-axes", query.query(KINDS, naxes=(2, 4), psym=0.5), run, 4000),
]
