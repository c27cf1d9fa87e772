"""Independent table of units: symbol -> (size in SI, dimensions).  Dimensions
are exponents of (mass, length, time, temperature, angle, current)."""

from math import pi

BASE = {
    "degC": (1.0, (0, 0, 0, 1, 0, 0)),
    "rad": (1.0, (0, 0, 0, 0, 1, 0)),
    "°": (pi / 180, (0, 0, 0, 0, 1, 0)),
    "rpm": (2 * pi / 60, (0, 0, -1, 0, 1, 0)),
    "min": (60.0, (0, 0, 1, 0, 0, 0)),
    "Ohm": (1.0, (1, 2, -3, 0, 0, -2)),
    "At": (1.0, (0, 0, 0, 0, 0, 1)),
    "Wb": (1.0, (1, 2, -2, 0, 0, -1)),
    "Mx": (1e-8, (1, 2, -2, 0, 0, -1)),
    "Hz": (1.0, (0, 0, -1, 0, 0, 0)),
    "Pa": (1.0, (1, -1, -2, 0, 0, 0)),
    "g": (1e-3, (1, 0, 0, 0, 0, 0)),
    "s": (1.0, (0, 0, 1, 0, 0, 0)),
    "h": (3600.0, (0, 0, 1, 0, 0, 0)),
    "A": (1.0, (0, 0, 0, 0, 0, 1)),
    "J": (1.0, (1, 2, -2, 0, 0, 0)),
    "W": (1.0, (1, 2, -3, 0, 0, 0)),
    "N": (1.0, (1, 1, -2, 0, 0, 0)),
    "C": (1.0, (0, 0, 1, 0, 0, 1)),
    "T": (1.0, (1, 0, -2, 0, 0, -1)),
    "G": (1e-4, (1, 0, -2, 0, 0, -1)),
    "V": (1.0, (1, 2, -3, 0, 0, -1)),
    "F": (1.0, (-1, -2, 4, 0, 0, 2)),
    "H": (1.0, (1, 2, -2, 0, 0, -2)),
    "m": (1.0, (0, 1, 0, 0, 0, 0)),
}
PREFIX = {
    "Y": 1e24, "Z": 1e21, "E": 1e18, "P": 1e15, "T": 1e12, "G": 1e9, "M": 1e6, "k": 1e3, "h": 1e2, "da": 1e1, "": 1.0,
    "d": 1e-1, "c": 1e-2, "m": 1e-3, "µ": 1e-6, "u": 1e-6, "μ": 1e-6, "n": 1e-9, "p": 1e-12, "f": 1e-15, "a": 1e-18,
    "z": 1e-21, "y": 1e-24,
}


def token(t):
    """[prefix, symbol, power] -> (size, dims)"""
    p, s, n = t
    size, dims = BASE[s]
    return (PREFIX[p] * size) ** n, tuple(n * d for d in dims)


def size_dims(num, den):
    size, dims = 1.0, (0,) * 6
    for t in num:
        a, d = token(t)
        size, dims = size * a, tuple(x + y for x, y in zip(dims, d))
    for t in den:
        a, d = token(t)
        size, dims = size / a, tuple(x - y for x, y in zip(dims, d))
    return size, dims


def text(num, den, sep="*", caret=False):
    def one(t):
        return t[0] + t[1] + (("^" if caret else "") + str(t[2]) if t[2] != 1 else "")

    s = sep.join(one(t) for t in num)
    if den:
        s += "/" + sep.join(one(t) for t in den)
    return s
