"""Building blocks shared by the property modules."""

import contextlib
import json
import os
import sys
import traceback

import numpy as np

REPO = os.environ.get("VERIF_REPO", "/repo")


class Violation(Exception):
    """The property does not hold on the case being run."""


class Sub:
    """One generated-input search: a strategy of JSON-able cases and a decider.

    `run(case, note)` returns True when the case is non-trivial, False when it
    is trivial, and raises Violation when the property fails; `note(tag)`
    counts classes of cases for the evidence.
    """

    def __init__(self, name, strategy, run, quick, thorough=None):
        self.name = name
        self.strategy = strategy
        self.run = run
        self.quick = quick
        self.thorough = thorough if thorough is not None else 20 * quick


# whether the library has answered since the case started (see main.run_case)
ANSWERED = [False]


@contextlib.contextmanager
def observing(what=""):
    """Calls into the library and reading of what it returned go in here: an
    exception means the library did not deliver what the property promises."""
    try:
        yield
        ANSWERED[0] = True
    except Violation:
        raise
    except (KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except BaseException as e:
        tb = traceback.extract_tb(sys.exc_info()[2])
        where = ""
        for f in reversed(tb):
            if "SciDataTool" in f.filename:
                where = " at %s:%s" % (f.filename, f.lineno)
                break
        raise Violation(
            "%s: unexpected %s: %s%s" % (what, type(e).__name__, str(e)[:300], where)
        ) from None


def fail(msg, *args):
    raise Violation(msg % args if args else msg)


def expect(cond, msg, *args):
    if not cond:
        fail(msg, *args)


def short(a, n=12):
    try:
        a = np.asarray(a)
        s = np.array2string(a.ravel()[:n], precision=8, threshold=n)
        return "shape%s%s" % (a.shape, s)
    except Exception:
        return repr(a)[:200]


def scale_of(*arrays):
    s = 0.0
    for a in arrays:
        a = np.asarray(a)
        if a.size and a.dtype.kind in "fciu":
            m = np.abs(a[np.isfinite(a)]) if a.dtype.kind in "fc" else np.abs(a)
            if m.size:
                s = max(s, float(m.max()))
    return s


def same(got, want, what, rtol=1e-9, atol=None, scale=None):
    """Numerical equality with a tolerance relative to the size of the data."""
    with observing(what):
        g = np.asarray(got)
        if g.dtype.kind == "O":
            g = np.array(g.tolist())
        if g.dtype.kind not in "fciub":
            fail("%s: not numeric: %r", what, g.dtype)
    w = np.asarray(want)
    if g.shape != w.shape:
        fail("%s: shape %s, expected %s; got %s, expected %s", what, g.shape, w.shape, short(g), short(w))
    if not g.size:
        return
    s = scale if scale is not None else scale_of(w)
    tol = rtol * s + (atol if atol is not None else 1e-300)
    gn, wn = np.isnan(g), np.isnan(w)
    if (gn != wn).any():
        fail("%s: missing values differ: got %s, expected %s", what, short(g), short(w))
    fin = ~wn
    gi, wi = np.isinf(g) & fin, np.isinf(w) & fin
    if (gi != wi).any() or (g[gi] != w[wi]).any():
        fail("%s: infinities differ: got %s, expected %s", what, short(g), short(w))
    fin &= ~wi
    d = np.abs(g[fin] - w[fin])
    if d.size and d.max() > tol:
        i = int(np.argmax(d))
        fail(
            "%s: values differ by %.3g (tolerance %.3g): got %r expected %r (position %d of %s); got %s, expected %s",
            what, float(d.max()), tol, g[fin].ravel()[i].item(), w[fin].ravel()[i].item(), i, g.shape, short(g), short(w),
        )


def same_strings(got, want, what):
    with observing(what):
        g = [str(x) for x in np.asarray(got).ravel().tolist()]
    w = [str(x) for x in want]
    if g != w:
        fail("%s: got %s, expected %s", what, g[:20], w[:20])


def same_coords(got, want, what, rtol=1e-9, scale=None):
    w = np.asarray(want)
    if w.dtype.kind in "US":
        same_strings(got, w.tolist(), what)
    else:
        same(got, w, what, rtol=rtol, atol=1e-12, scale=scale)


def raises(exc_names, fn, what):
    """The call must fail with one of the named exceptions (None: any)."""
    try:
        r = fn()
    except (KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except BaseException as e:
        names = [c.__name__ for c in type(e).__mro__]
        if exc_names is not None and not any(n in names for n in exc_names):
            fail("%s: refused with %s (%s) instead of %s", what, type(e).__name__, str(e)[:200], exc_names)
        return e
    fail("%s: accepted, returned %s", what, repr(r)[:200])


def rng(seed):
    return np.random.RandomState(int(seed) % (2**32))


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))
