"""Exact model of finite word length arithmetic, on rational numbers.

A value is V(re, im, frac): exact components and the number of fractional bits of the format that holds it (a cast
only quantizes when it drops fractional bits, which matters for modes such as jamming).
"""
from fractions import Fraction as F
import math


def floor(x):
    return x.numerator // x.denominator


def q_units(x, mode):
    """x in units of the last kept place, some bits dropped -> integer."""
    f = floor(x)
    r = x - f
    if mode == "TRUNCATION":
        return f
    if mode == "ROUNDING":
        return f + (r >= F(1, 2))
    if mode == "MAGNITUDE_TRUNCATION_SIGN":  # add the sign bit
        return f + (x < 0)
    if mode in ("UNBIASED_MAGNITUDE_TRUNCATION", "MAGNITUDE_TRUNCATION"):  # towards zero
        return f + (1 if x < 0 and r != 0 else 0)
    if mode == "JAMMING":
        return f | 1
    if mode == "UNBIASED_ROUNDING":
        if r == F(1, 2):
            return f + (f & 1)
        return f + (r > F(1, 2))
    if mode == "UNBIASED_JAMMING":
        return f if r == 0 else f | 1
    if mode == "AWAY":  # nearest, ties away from zero (conversion of plain numbers)
        s = -1 if x < 0 else 1
        return s * floor(abs(x) + F(1, 2))
    raise KeyError(mode)


def fit(n, bits, ov):
    lo, hi = -(1 << (bits - 1)), (1 << (bits - 1)) - 1
    if ov == "SATURATION":
        return min(max(n, lo), hi)
    return (n - lo) % (1 << bits) + lo


class V:
    __slots__ = ("re", "im", "frac")

    def __init__(self, re, im=0, frac=0):
        self.re, self.im, self.frac = F(re), F(im), frac

    def __add__(self, o):
        return V(self.re + o.re, self.im + o.im, max(self.frac, o.frac))

    def __sub__(self, o):
        return V(self.re - o.re, self.im - o.im, max(self.frac, o.frac))

    def __neg__(self):
        return V(-self.re, -self.im, self.frac)

    def __mul__(self, o):
        return V(self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re, self.frac + o.frac)

    def shr(self, s):
        k = F(1, 2**s) if s >= 0 else F(2**-s)
        return V(self.re * k, self.im * k, self.frac + s)

    def muj(self):
        return V(-self.im, self.re, self.frac)

    def __repr__(self):
        return f"({float(self.re)}{'+%gj' % float(self.im) if self.im else ''})"


class Fmt:
    def __init__(self, int_bits, frac_bits, mode="TRUNCATION", ov="WRAPPING", cplx=False):
        self.i, self.f, self.mode, self.ov, self.cplx = int_bits, frac_bits, mode, ov, cplx

    def _q(self, x, frac, mode, ov):
        n = x * F(2) ** self.f
        n = n.numerator if n.denominator == 1 and frac <= self.f and mode != "JAMMING" else q_units(n, mode)
        return F(fit(n, self.i + self.f, ov)) / F(2) ** self.f

    def cast(self, v):
        m = "MAGNITUDE_TRUNCATION_SIGN" if self.mode == "MAGNITUDE_TRUNCATION" else self.mode
        return V(self._q(v.re, v.frac, m, self.ov), self._q(v.im, v.frac, m, self.ov) if self.cplx else 0, self.f)

    def plain(self, x, extra=0):
        """Conversion of a plain number (input sample, coefficient), ``extra`` more integer bits."""
        x = complex(x)
        g = Fmt(self.i + extra, self.f)
        return V(g._q(F(x.real), 10**6, "AWAY", "WRAPPING"), g._q(F(x.imag), 10**6, "AWAY", "WRAPPING"), self.f)


def ops(fmt):
    """name -> function(params, *V) -> list of exact V (before the cast of the result)."""
    c, k = fmt.cast, fmt.plain

    def mj(p, b):
        return b.muj() if p.get("mul_j") else b

    def so(p, v):
        return v.shr(p.get("shift_output", 0)) if p.get("shift_output", 0) else v

    def shiftaddsub(p, a, b):
        b = mj(p, c(b.shr(p["shift"])))
        return [so(p, a + b if p["is_add"] else a - b)]

    def less(a, b):
        return a.re < b.re

    def bfly4(p, a, b, d, e):
        s0, s1, s2, s3 = a + d, b + e, a - d, k(1j, 1) * (e - b)
        return [s0 + s1, s2 + s3, s0 - s1, s2 - s3]

    def sym(p, a, b):
        t = k(p["value"], 1) * (b - a)
        return [b + t, a + t]

    def par(p, a, b):
        s = b - a
        y1 = b - k(p["value"], 1) * s
        return [y1 + s, y1]

    return {
        "Addition": lambda p, a, b: [so(p, a + mj(p, b))],
        "Subtraction": lambda p, a, b: [so(p, a - mj(p, b))],
        "AddSub": lambda p, a, b: [so(p, a + mj(p, b) if p["is_add"] else a - mj(p, b))],
        "ShiftAddSub": shiftaddsub,
        "Multiplication": lambda p, a, b: [a * b],
        "ConstantMultiplication": lambda p, a: [a * k(p["value"])],
        "Negation": lambda p, a: [-a],
        "Absolute": lambda p, a: [V(abs(a.re), 0, a.frac)],
        "Min": lambda p, a, b: [a if less(a, b) else b],
        "Max": lambda p, a, b: [b if less(a, b) else a],
        "ComplexConjugate": lambda p, a: [V(a.re, -a.im, a.frac)],
        "ImaginaryMultiplication": lambda p, a: [a.muj()],
        "MAD": lambda p, a, b, d: [a * b + d if p["do_add"] else a * b],
        "MADS": lambda p, a, b, d: [(a + b * d if p["is_add"] else a - b * d) if p["do_addsub"]
                                    else (b * d if p["is_add"] else -(b * d))],
        "RightShift": lambda p, a: [a.shr(p["value"])],
        "LeftShift": lambda p, a: [a.shr(-p["value"])],
        "Shift": lambda p, a: [a.shr(p["value"])],
        "R2Butterfly": lambda p, a, b: [a + b, a - b],
        "R2DIFButterfly": lambda p, a, b: [a + b, k(p["w"], 1) * (a - b)],
        "R2DITButterfly": lambda p, a, b: [a + k(p["w"]) * b, a - k(p["w"]) * b],
        "R2TFButterfly": lambda p, a, b: [k(p["w0"], 1) * (a + b), k(p["w1"], 1) * (a - b)],
        "R4Butterfly": bfly4,
        "SymmetricTwoportAdaptor": sym,
        "ParallelTwoportAdaptor": par,
    }


REAL_ONLY = {"Min", "Max", "Absolute"}
CPLX_ONLY = {"ImaginaryMultiplication", "R4Butterfly"}


class FixSim:
    """Fixed-point simulation of a Net."""

    def __init__(self, net, fmt):
        self.net, self.fmt, self.ops = net, fmt, ops(fmt)
        self.fresh = set(net.delays)
        self.state = {d: fmt.plain(net.nodes[d]["p"].get("initial_value", 0)) for d in net.delays}
        self.sub = {k: FixSim(n["p"]["net"], fmt) for k, n in net.nodes.items() if n["op"] == "SFG"}

    def step(self, xs):
        net, val = self.net, {}
        for nid, x in zip(net.inputs, xs):
            val[(nid, 0)] = x if isinstance(x, V) else self.fmt.plain(x)
        for nid in net.topo():
            n = net.nodes[nid]
            op = n["op"]
            if op in ("Input", "Output", "Sink"):
                continue
            if op == "Delay":
                val[(nid, 0)] = self.state[nid] if nid in self.fresh else self.fmt.cast(self.state[nid])
            elif op == "Constant":
                val[(nid, 0)] = self.fmt.plain(n["p"]["value"])
            elif op == "SFG":
                for k, y in enumerate(self.sub[nid].step([val[tuple(s)] for s in n["ins"]])[0]):
                    val[(nid, k)] = y
            else:
                ys = self.ops[op](n["p"], *[val[tuple(s)] for s in n["ins"]])
                for k, y in enumerate(ys):
                    val[(nid, k)] = self.fmt.cast(y)
        self.fresh.clear()
        for d in net.delays:
            self.state[d] = val[tuple(net.nodes[d]["ins"][0])]
        return [val[tuple(net.nodes[o]["ins"][0])] for o in net.outputs], val
