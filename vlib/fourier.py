"""Reference Fourier transform on unfolded fields (explicit sums)."""

from math import pi

import numpy as np
from hypothesis import strategies as st

from vlib import gen

PARTNER = {"time": "freqs", "angle": "wavenumber"}


def fourier_axis(ax, is_real):
    """Listed frequencies (Hz) or wavenumbers of a time or angle axis, with the
    corresponding number of cycles over the whole unfolded axis."""
    N1 = ax.one()
    k = np.arange(N1) - N1 // 2
    if ax.name == "time" and is_real:
        k = np.arange(N1 // 2 + 1)
    reps = ax.N // N1
    cycles = k * reps
    if ax.name == "time":
        vals = k / (N1 * ax.spec["dx"])
    else:
        vals = cycles.astype(float)
    return vals, cycles


def dft(A, axis, cycles):
    """Coefficients (1/N) sum a[n] exp(-2 i pi c n / N) along one axis."""
    N = A.shape[axis]
    E = np.exp(-2j * pi * np.outer(cycles, np.arange(N)) / N) / N
    return np.moveaxis(np.tensordot(E, A, axes=((1,), (axis,))), 0, axis)


@st.composite
def fourier_field(draw, naxes=(1, 3), sizes=None, psym=0.5, pcomp=0.1, dtypes=("real", "int", "real", "complex"), starts=(0.0, 0.0, 1.0, -1.0), both=None, even=False, axkinds=("d1", "lin"), maxfull=3000, others_sym=True, ppat=0.0):
    """A field with a uniform time axis and/or an angle axis spanning a full
    turn, anywhere among its axes."""
    need = draw(st.sampled_from([("time",), ("angle",), ("time", "angle")])) if both is None else both
    n = max(len(need), draw(st.integers(*naxes)))
    f = draw(
        gen.field(naxes=(n, n), need=need, psym=psym, pcomp=pcomp, ppat=ppat, axkinds=axkinds + (("irr",) if others_sym else ()), dtypes=dtypes, maxfull=maxfull,
                  sizes=sizes or st.one_of(st.integers(2, 9), st.sampled_from([8, 12, 16])), names=[x for x in gen.NAMES if x[0] not in ("time", "angle") or x[0] in need])
    )
    for a in f["axes"]:
        if a["name"] in ("time", "angle"):
            if a.get("xs") is not None:
                a["xs"] = None
            a["kind"] = a["kind"] if a["kind"] != "irr" else "d1"
            if even and a["n"] % 2:
                a["n"] += 1
            a["x0"] = draw(st.sampled_from(list(starts))) * (a["dx"] if a["dx"] in gen.FINE else 1.0)
            if a["name"] == "angle":
                a["dx"] = 2 * pi / gen.axis_len(a)
    return f
