"""Reference semantics of the operations, written from their documentation.

Independent of b_asic: plain functions on numbers.
"""
import cmath
import math


def _mj(p, b):
    return b * 1j if p.get("mul_j") else b


def _sh(p, v):
    s = p.get("shift_output", 0)
    return v / 2**s if s else v


def _dft(xs):
    n = len(xs)
    if n == 4:
        a, b, c, d = xs
        return [a + b + c + d, a - 1j * b - c + 1j * d, a - b + c - d, a + 1j * b - c - 1j * d]
    return [sum(x * cmath.exp(-2j * math.pi * k * i / n) for i, x in enumerate(xs)) for k in range(n)]


def _sym2p(p, a, b):
    t = p["value"] * (b - a)
    return [b + t, a + t]


def _ser2p(p, a, b):
    # b1 = a1 - g1 (a1+a2): port 1 with coefficient value, port 2 dependent (2 - value)
    v = p["value"]
    return [a - v * (a + b), b - (2 - v) * (a + b)]


def _par2p(p, a, b):
    v = p["value"]
    s = v * a + (2 - v) * b
    return [s - a, s - b]


def _ser3p(p, a, b, c):
    v0, v1 = p["value"]
    s = a + b + c
    return [a - v0 * s, b - v1 * s, c - (2 - v0 - v1) * s]


def _rfs3p(p, a, b, c):
    v = p["value"]
    s = a + b + c
    return [a - v * s, b - s, c - (1 - v) * s]


def _rsqrt(p, a):
    if isinstance(a, (int, float)):
        return math.inf if a == 0 else float(a) ** -0.5
    z = complex(a).real if p.get("real_valued") else complex(a)
    return math.inf if z == 0 else z ** -0.5


# name: (inputs, outputs, function(params, *ins) -> list)
REF = {
    "Constant": (0, 1, lambda p: [p["value"]]),
    "Negation": (1, 1, lambda p, a: [-a]),
    "Addition": (2, 1, lambda p, a, b: [_sh(p, a + _mj(p, b))]),
    "Subtraction": (2, 1, lambda p, a, b: [_sh(p, a - _mj(p, b))]),
    "AddSub": (2, 1, lambda p, a, b: [_sh(p, a + _mj(p, b) if p["is_add"] else a - _mj(p, b))]),
    "ShiftAddSub": (2, 1, lambda p, a, b: [
        _sh(p, a + _mj(p, b / 2 ** p["shift"]) if p["is_add"] else a - _mj(p, b / 2 ** p["shift"]))]),
    "Multiplication": (2, 1, lambda p, a, b: [a * b]),
    "Division": (2, 1, lambda p, a, b: [math.inf if b == 0 else a / b]),
    "Min": (2, 1, lambda p, a, b: [min(a, b)]),
    "Max": (2, 1, lambda p, a, b: [max(a, b)]),
    "SquareRoot": (1, 1, lambda p, a: [cmath.sqrt(complex(a))]),
    "ComplexConjugate": (1, 1, lambda p, a: [complex(a).conjugate() if isinstance(a, complex) else a]),
    "Absolute": (1, 1, lambda p, a: [abs(a)]),
    "ImaginaryMultiplication": (1, 1, lambda p, a: [a * 1j]),
    "ConstantMultiplication": (1, 1, lambda p, a: [a * p["value"]]),
    "MAD": (3, 1, lambda p, a, b, c: [a * b + c if p["do_add"] else a * b]),
    "MADS": (3, 1, lambda p, a, b, c: [
        ((a if p["do_addsub"] else 0) + (b * c if p["is_add"] else -(b * c)))]),
    "Reciprocal": (1, 1, lambda p, a: [math.inf if a == 0 else 1 / a]),
    "ReciprocalSquareRoot": (1, 1, lambda p, a: [_rsqrt(p, a)]),
    "RightShift": (1, 1, lambda p, a: [a / 2 ** p["value"]]),
    "LeftShift": (1, 1, lambda p, a: [a * 2 ** p["value"]]),
    "Shift": (1, 1, lambda p, a: [a / 2 ** p["value"] if p["value"] >= 0 else a * 2 ** -p["value"]]),
    "R2Butterfly": (2, 2, lambda p, a, b: [a + b, a - b]),
    "R2DIFButterfly": (2, 2, lambda p, a, b: [a + b, p["w"] * (a - b)]),
    "R2DITButterfly": (2, 2, lambda p, a, b: [a + p["w"] * b, a - p["w"] * b]),
    "R2TFButterfly": (2, 2, lambda p, a, b: [p["w0"] * (a + b), p["w1"] * (a - b)]),
    "R4Butterfly": (4, 4, lambda p, *x: _dft(x)),
    "R3Winograd": (3, 3, lambda p, *x: _dft(x)),
    "R5Winograd": (5, 5, lambda p, *x: _dft(x)),
    "R7Winograd": (7, 7, lambda p, *x: _dft(x)),
    "SymmetricTwoportAdaptor": (2, 2, _sym2p),
    "SeriesTwoportAdaptor": (2, 2, _ser2p),
    "ParallelTwoportAdaptor": (2, 2, _par2p),
    "SeriesThreeportAdaptor": (3, 3, _ser3p),
    "ReflectionFreeSeriesThreeportAdaptor": (3, 3, _rfs3p),
}
MULTI_OUT = {k for k, v in REF.items() if v[1] > 1}
