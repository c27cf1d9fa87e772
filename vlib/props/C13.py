"""Unit conversion is a consistent scaling between compatible units."""

import numpy as np
from hypothesis import strategies as st

from SciDataTool.Functions.conversions import convert

from vlib import units
from vlib.core import Sub, expect, observing, raises, rng, same

RULE = (
    "pairs (and triples) of units built from prefix, symbol and power, alone, multiplied and divided, equal or different in "
    "dimension, with scalars and arrays of any shape; non-trivial: the two unit strings differ"
)
PREFIXES = sorted(units.PREFIX)
COMMON = ["", "", "", "m", "k", "µ", "M", "c", "d"]
SYMBOLS = sorted(units.BASE)
# other ways to write the same dimension
SAME = [
    ([["", "N", 1]], [["", "m", 2]], [["", "Pa", 1]], []),
    ([["", "J", 1]], [["", "s", 1]], [["", "W", 1]], []),
    ([["", "Wb", 1]], [["", "m", 2]], [["", "T", 1]], []),
    ([["", "V", 1]], [["", "A", 1]], [["", "Ohm", 1]], []),
    ([["", "Wb", 1]], [["", "A", 1]], [["", "H", 1]], []),
    ([["", "C", 1]], [["", "V", 1]], [["", "F", 1]], []),
    ([["", "C", 1]], [["", "s", 1]], [["", "A", 1]], []),
    ([["", "rad", 1]], [["", "s", 1]], [["", "rpm", 1]], []),
    ([["", "W", 1]], [["", "A", 1]], [["", "V", 1]], []),
    ([["", "N", 1], ["", "m", 1]], [], [["", "J", 1]], []),
    ([["", "V", 1], ["", "s", 1]], [], [["", "Wb", 1]], []),
    ([["", "V", 1], ["", "A", 1]], [], [["", "W", 1]], []),
    ([["k", "g", 1], ["", "m", 1]], [["", "s", 2]], [["", "N", 1]], []),
    ([["", "T", 1], ["", "m", 1]], [], [["", "Wb", 1]], [["", "m", 1]]),
]


def like(sym):
    d = units.BASE[sym][1]
    return sorted(s for s in units.BASE if units.BASE[s][1] == d)


@st.composite
def tok(draw, wide):
    return [draw(st.sampled_from(PREFIXES if wide else COMMON)), draw(st.sampled_from(SYMBOLS)), draw(st.sampled_from([1, 1, 1, 1, 2, 3]))]


@st.composite
def variant(draw, t, wide):
    """The same dimension with another prefix or symbol."""
    return [draw(st.sampled_from(PREFIXES if wide else COMMON)), draw(st.sampled_from(like(t[1]))), t[2]]


@st.composite
def cases(draw):
    wide = draw(st.booleans())
    kind = draw(st.sampled_from(["same", "same", "same", "equivalent", "any"]))
    if kind == "equivalent":
        a = draw(st.sampled_from(SAME))
        U = [[a[0], a[1]], [a[2], a[3]]]
        p = draw(st.sampled_from(COMMON))
        U = [[[list(t) for t in n], [list(t) for t in d]] for n, d in U]
        U[1][0][0][0] = p
        if draw(st.booleans()):
            U.reverse()
        U.append(U[0])
    else:
        num = draw(st.lists(tok(wide), min_size=1, max_size=draw(st.sampled_from([1, 1, 1, 2]))))
        den = draw(st.lists(tok(wide), min_size=0, max_size=draw(st.sampled_from([0, 1, 1, 2]))))
        U = [[num, den]]
        for _ in range(2):
            if kind == "same":
                U.append([[draw(variant(t, wide)) for t in num], [draw(variant(t, wide)) for t in den]])
            else:
                U.append([[draw(tok(wide))], draw(st.lists(tok(wide), max_size=1))])
    case = {"units": U, "sep": draw(st.sampled_from(["*", " ", "*"])), "caret": draw(st.booleans())}
    case["shape"] = draw(st.sampled_from([None, [1], [3], [2, 2], [0], "int"]))
    case["seed"] = draw(st.integers(0, 1000))
    return case


def data(case):
    if case["shape"] is None:
        return 1.25 + case["seed"]
    if case["shape"] == "int":
        return np.arange(5) + case["seed"]
    return rng(case["seed"]).randint(-99, 100, size=case["shape"]) / 4.0


def close(got, want, what):
    with observing(what):
        g = np.asarray(got, dtype=float)
    w = np.asarray(want, dtype=float)
    expect(g.shape == w.shape, "%s: shape %s instead of %s", what, g.shape, w.shape)
    expect(bool(np.all(np.abs(g - w) <= 1e-9 * np.abs(w))), "%s: %r instead of %r", what, g.tolist(), w.tolist())


def run(case, note):
    v = data(case)
    keep = np.array(v, copy=True)
    s = [units.text(n, d, case["sep"], case["caret"]) for n, d in case["units"]]
    sd = [units.size_dims(n, d) for n, d in case["units"]]
    if any(not 1e-200 < x[0] < 1e200 for x in sd):
        return False
    ok = True
    for i, j in ((0, 1), (1, 2), (0, 2), (0, 0)):
        what = "convert from %r to %r" % (s[i], s[j])
        if sd[i][1] != sd[j][1]:
            raises(["UnitError"], lambda: convert(v, s[i], s[j]), what)
            ok = False
        else:
            with observing(what):
                r = convert(v, s[i], s[j])
            close(r, keep * (sd[i][0] / sd[j][0]), what)
            with observing(what + " and back"):
                b = convert(r, s[j], s[i])
            close(b, keep, what + " and back")
        expect(np.array_equal(np.asarray(v), keep), "%s modified its argument", what)
    note(("compatible" if ok else "incompatible") + "/%d-%d" % (len(case["units"][0][0]), len(case["units"][0][1])))
    return s[0] != s[1]


@st.composite
def other_cases(draw):
    k = draw(st.sampled_from(["bark", "dimless", "unknown"]))
    c = {"k": k, "v": draw(st.floats(0, 20000).map(lambda x: round(x, 3)))}
    if k == "unknown":
        c["u"] = draw(st.sampled_from(["foo", "xm", "qs", "Tx", "mq", "m/foo", "K2x", "parsec", "N/xyz"]))
        c["to"] = draw(st.sampled_from(["m", "s", "T", "N", "Pa"]))
    if k == "dimless":
        c["u"], c["to"] = draw(st.sampled_from([["", "dimless"], ["dimless", ""], ["", ""], ["dimless", "dimless"], ["m/m", ""], ["mm/m", ""], ["dimless", "m/mm"]]))
    return c


def run_other(case, note):
    note(case["k"])
    v = case["v"]
    if case["k"] == "bark":
        with observing("Bark"):
            z = convert(v, "Hz", "Bark")
            f = convert(z, "Bark", "Hz")
        close(z, 26.81 * v / (1960 + v) - 0.53, "Hz to Bark")
        expect(abs(f - v) <= 1e-6 * (1 + v), "Hz to Bark and back gives %r for %r", f, v)
    elif case["k"] == "unknown":
        raises(["UnitError"], lambda: convert(v, case["u"], case["to"]), "convert from %r to %r" % (case["u"], case["to"]))
        raises(["UnitError"], lambda: convert(v, case["to"], case["u"]), "convert from %r to %r" % (case["to"], case["u"]))
    else:
        with observing("convert from %r to %r" % (case["u"], case["to"])):
            r = convert(v, case["u"], case["to"])
        close(r, v * {"mm/m": 1e-3, "m/m": 1.0, "": 1.0, "dimless": 1.0}[case["u"]] / {"m/mm": 1e3}.get(case["to"], 1.0), "convert from %r to %r" % (case["u"], case["to"]))
    return True


SUBS = [Sub("units", cases(), run, 9000), Sub("special", other_cases(), run_other, 800)]
