"""A dual-domain field answers each request from the right domain."""

import numpy as np
from hypothesis import strategies as st

from SciDataTool.Classes.DataDual import DataDual

from vlib import fourier, gen, query
from vlib.build import axis_obj, field_obj
from vlib.core import Sub, expect, observing, scale_of
from vlib.model import Ax, req_axis_data, req_string
from vlib.snapshot import difference, freeze

RULE = (
    "dual field made from a time/space field and a spectrum (given or computed, one of the two possibly absent), then 1-6 queries of both domains in any order "
    "(values, magnitudes, phases, levels, harmonics, extracted fields; valid ones and failing ones) compared with the single-domain field; "
    "non-trivial: at least one query of each domain or a failing query followed by another"
)
UNITS = ("SI", "SI", "mT", "dB", "is_norm")


@st.composite
def requests(draw, axes):
    out = []
    for a in axes:
        if a["name"] not in fourier.PARTNER.values() and len(axes) > 1 and draw(st.integers(0, 9)) == 0:
            continue
        if a["name"] in fourier.PARTNER.values():
            r = draw(st.sampled_from([{"k": "whole"}, {"k": "gt", "a": -0.1}, {"k": "gt", "a": 0.1}, {"k": "idx", "i": 0}, {"k": "range", "i": 0, "j": 2}]))
        else:
            r = draw(query.request(a, ("whole", "whole", "idx", "idxs", "range", "interval", "list")))
        out.append([a["name"], r])
    if not out:
        out.append([axes[0]["name"], {"k": "whole"}])
    return list(draw(st.permutations(out)))


@st.composite
def cases(draw):
    dtype = draw(st.sampled_from(["real", "real", "complex"]))
    f = draw(fourier.fourier_field(psym=0.3, starts=(0.0,), maxfull=400, sizes=st.sampled_from([2, 4, 6, 8]), dtypes=(dtype,)))
    f["norms"] = {"ref": {"k": "ref", "ref": 2.0}, "big": {"k": "ref", "ref": 50.0}}
    way = draw(st.sampled_from(["computed", "computed", "given", "given", "back", "direct", "time only", "freq only"]))
    # a spectrum of its own, on the same kind of axes
    g = {k: v for k, v in f.items() if k != "axes"}
    g["cls"], g["dtype"], g["vseed"], g["axes"] = "DataFreq", "complex", draw(gen.seeds), []
    for a in f["axes"]:
        if a["name"] in fourier.PARTNER:
            n = 2 * draw(st.integers(1, 3))
            b = {"name": fourier.PARTNER[a["name"]], "unit": "Hz" if a["name"] == "time" else "dimless", "kind": "d1", "dx": 1.0, "sym": None}
            b["n"] = n // 2 + 1 if a["name"] == "time" and dtype == "real" else n
            b["x0"] = 0.0 if a["name"] == "time" and dtype == "real" else -float(n // 2)
            g["axes"].append(b)
        else:
            g["axes"].append(a)
    case = {"field": f, "spectrum": g, "way": way, "is_real": dtype == "real", "steps": []}
    for _ in range(draw(st.integers(1, 6))):
        dom = draw(st.sampled_from(["time", "freq"]))
        s = {"dom": dom, "reqs": draw(requests(f["axes"] if dom == "time" else g["axes"]))}
        s["how"] = draw(st.sampled_from(["along", "along", "magnitude", "magnitude", "phase", "data", "harmonics"]))
        s["unit"] = draw(st.sampled_from(UNITS))
        s["wrong"] = draw(st.sampled_from([None, None, None, None, "axis", "unit", "index"]))
        case["steps"].append(s)
    return case


def ask(obj, s):
    """Answer to a step as plain content, or the name of the exception."""
    args, data = [], {}
    for name, r in s["reqs"]:
        args.append(req_string(name, r))
        data.update(req_axis_data(name, r))
    kw = {"axis_data": data} if data else {}
    if s["unit"] == "is_norm":
        kw["is_norm"] = True
    else:
        kw["unit"] = s["unit"]
    if s["wrong"] == "axis":
        args.append("nowhere")
    elif s["wrong"] == "index":
        args[0] = "%s[0,1000]" % s["reqs"][0][0]
    elif s["wrong"] == "unit":
        kw["unit"] = "parsec"
    try:
        if s["how"] == "along":
            r = obj.get_along(*args, **kw)
        elif s["how"] == "magnitude":
            r = obj.get_magnitude_along(*args, **kw)
        elif s["how"] == "phase":
            r = obj.get_phase_along(*args, **kw)
        elif s["how"] == "harmonics":
            r = obj.get_harmonics(2, *args, **kw)
        else:
            return args, freeze(obj.get_data_along(*args, **kw))
    except Exception as e:
        return args, ("exception", type(e).__name__)
    return args, freeze({k: v for k, v in r.items() if k not in ("axes_list", "axes_dict_other")})


def run(case, note):
    way = case["way"]
    with observing("building the two forms"):
        T = field_obj(case["field"])
        F = field_obj(case["spectrum"])
        F.is_real = case["is_real"]
        if way in ("computed", "back"):
            F = T.time_to_freq()
        if way == "back":
            T = F.freq_to_time()
    what = "dual field (%s)" % way
    before = freeze(T), freeze(F)
    with observing("building the " + what):
        if way == "computed":
            D = T.to_datadual()
        elif way == "given":
            D = T.to_datadual(datafreq=F)
        elif way == "back":
            D = F.to_datadual()
        else:
            kw = dict(name=T.name, symbol=T.symbol, unit=T.unit, is_real=case["is_real"], normalizations={k: v.copy() for k, v in T.normalizations.items()})
            if way != "freq only":
                kw.update(axes_dt=[a.copy() for a in T.axes], values_dt=T.values.copy())
            if way != "time only":
                kw.update(axes_df=[a.copy() for a in F.axes], values_df=F.values.copy())
            D = DataDual(**kw)
    # (once queried, the field lists the axes of the last domain)
    with observing("axes of the " + what):
        want = (list(T.axes) if way != "freq only" else []) + (list(F.axes) if way != "time only" else [])
        got = D.get_axes()
        expect(freeze([a.name for a in got]) == freeze([a.name for a in want]), "%s: axes %s", what, [a.name for a in got])
        for n in {a.name for a in want}:
            one = D.get_axes(n)
            expect(freeze(list(one)) == freeze([a for a in want if a.name == n]), "%s: axis %s is not that of the single-domain fields", what, n)
        expect(len(D.get_axes("nowhere")) == 0, "%s: an axis for an unknown name", what)
    history = []
    doms, failed, after = set(), False, False
    for s in case["steps"]:
        ref = {"time": T, "freq": F}[s["dom"]]
        if way == "time only":
            ref = T
        elif way == "freq only":
            ref = F
        args, want = ask(ref, s)
        _, got = ask(D, s)
        history.append("%s(%s)" % (s["how"], ", ".join(args)))
        expect(
            got == want, "%s, after %s, query %s in %s with %s: differs from the single-domain field (%s)",
            what, history[:-1], history[-1], s["unit"], s["wrong"] or "nothing wrong", difference(want, got) if got != want else "",
        )
        after = after or failed
        failed = failed or want[0] == "exception"
        doms.add(s["dom"])
        note("%s/%s/%s/%s" % (way, s["dom"], s["how"], "fails" if want[0] == "exception" else "answers"))
        with observing("reading the forms of the " + what):
            forms = []
            if way != "freq only":
                forms.append((freeze(list(D.axes_dt)), freeze(list(T.axes)), "time/space axes"))
                forms.append((freeze(D.values_dt), freeze(T.values), "time/space values"))
            if way != "time only":
                forms.append((freeze(list(D.axes_df)), freeze(list(F.axes)), "Fourier axes"))
                forms.append((freeze(D.values_df), freeze(F.values), "Fourier values"))
        for g, w, name in forms:
            expect(g == w, "%s: %s changed after %s: %s", what, name, history, difference(w, g) if g != w else "")
    for b, o, name in zip(before, (T, F), ("time/space field", "spectrum")):
        now = freeze(o)
        expect(now == b, "%s changed when its dual form was queried: %s", name, difference(b, now) if now != b else "")
    return len(doms) == 2 or after


SUBS = [Sub("duals", cases(), run, 5000)]
