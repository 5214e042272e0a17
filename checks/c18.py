"""C18: finite word length data types, quantization and fixed-point simulation against exact rational arithmetic."""
import math
import sys
from fractions import Fraction as F

from vh import boot

boot.install()
import apytypes as apy  # noqa: E402
import b_asic as ba  # noqa: E402
from b_asic import Simulation  # noqa: E402
from b_asic.data_type import DataType, NumRepresentation  # noqa: E402
from b_asic.quantization import OverflowMode, QuantizationMode, quantize  # noqa: E402

from vh import fixp  # noqa: E402
from vh.core import run_check, Skip  # noqa: E402
from vh.fixp import Fmt, FixSim, V, fit, q_units  # noqa: E402
from vh.gen import random_net, _params  # noqa: E402
from vh.ops import REF  # noqa: E402
from vh.simh import unique_names  # noqa: E402

PROP = "C18"
MODES = [m.name for m in QuantizationMode]


def num(rng, i, f, wild=True):
    """A float near the grid of the format: on it, half way, just beside, or anywhere."""
    c = rng.random()
    bits = min(i + f, 40)
    n = rng.randint(-(1 << (bits - 1)), (1 << (bits - 1)) - 1)
    u = 2.0 ** -f
    if c < 0.25:
        x = n * u
    elif c < 0.5:
        x = (n + 0.5) * u
    elif c < 0.65:
        x = (n + rng.choice([0.25, 0.75, 0.125])) * u
    elif c < 0.8:
        x = math.nextafter((n + rng.choice([0, 0.5, 1])) * u, rng.choice([-math.inf, math.inf]))
    elif c < 0.9:
        x = rng.choice([0.0, -0.0, u, -u, u / 2, -u / 2, 2.0 ** (i - 1), -(2.0 ** (i - 1)), 2.0 ** (i - 1) - u, 2.0 ** (i - 1) - u / 2,
                        -(2.0 ** (i - 1)) - u / 2, math.nextafter(u / 2, 0)])
    else:
        x = rng.uniform(-1, 1) * 2.0 ** (i + (rng.choice([0, 2, 5]) if wild else -1))
    return x


def exact_quantize(x, f, i, mode, ov):
    return F(fit(q_units(F(x) * 2**f, mode), i + f, ov)) / 2**f


def case_quantize(ctx):
    rng = ctx.rng
    ctx.sig = str(ctx.index)
    for _ in range(40):
        i, f = rng.choice([(1, 7), (1, 15), (2, 6), (4, 0), (3, 3), (8, 8), (0, 6), (1, 1), (16, 16), (1, 0), (12, 20), (-1, 6)])
        if rng.random() < 0.3:
            i, f = rng.randint(1, 16), rng.randint(0, 20)
        mode, ov = rng.choice(MODES), rng.choice(["WRAPPING", "SATURATION"])
        cplx = rng.random() < 0.25
        x = num(rng, i, f)
        y = num(rng, i, f)
        a = complex(x, y) if cplx else x
        kw = dict(fractional_bits=f, integer_bits=i, quantization_mode=QuantizationMode[mode], overflow_mode=OverflowMode[ov])
        if rng.random() < 0.2 and not cplx:
            a = round(x)
            x = a
        try:
            r = quantize(a, **kw)
        except TypeError:
            ctx.check(mode == "UNBIASED_MAGNITUDE_TRUNCATION", "quantize.refused", f"{mode} refused")
            ctx.count("refused")
            continue
        ctx.count("values")
        ctx.check(r.int_bits == i and r.frac_bits == f, "quantize.format", f"{r.int_bits}.{r.frac_bits} instead of {i}.{f}")
        want = [exact_quantize(v, f, i, mode, ov) for v in ([x, y] if cplx else [x])]
        got = [F(float(r.real)), F(float(r.imag))] if cplx else [F(float(r))]
        ctx.check(got == want, "quantize." + mode, f"quantize({a!r}, {f}, {i}, {mode}, {ov}) = {[float(g) for g in got]}, expected {[float(g) for g in want]}")


def case_default(ctx):
    """Defaults of quantize and DataType."""
    rng = ctx.rng
    ctx.sig = str(ctx.index)
    f = rng.randint(0, 12)
    x = num(rng, 1, f)
    ctx.check(F(float(quantize(x, f))) == exact_quantize(x, f, 1, "TRUNCATION", "WRAPPING"), "quantize.default", f"quantize({x}, {f})")
    fl = rng.random() < 0.3
    w = rng.randint(2, 40)
    wl = w if rng.random() < 0.4 and not fl else (rng.randint(1, 12), rng.randint(1, 20))
    iw = rng.choice([None, None, rng.randint(2, 20), (3, 4)])
    ow = rng.choice([None, None, rng.randint(2, 20), (5, 4)])
    if fl:
        iw, ow = rng.choice([None, (3, 4)]), rng.choice([None, (5, 6)])
        for bad in (8, 16):
            try:
                DataType(bad, num_repr=NumRepresentation.FLOATING_POINT)
                ctx.fail("dtype.float_int", "floating point with a single word length accepted")
            except TypeError:
                ctx.count("refused")
    kw = dict(num_repr=NumRepresentation.FLOATING_POINT if fl else NumRepresentation.FIXED_POINT,
              is_signed=True, is_complex=rng.random() < 0.5,
              quantization_mode=QuantizationMode[rng.choice(MODES)], overflow_mode=OverflowMode[rng.choice(["WRAPPING", "SATURATION"])])
    dt = DataType(wl, iw, ow, **kw)

    def pair(z, d):
        return d if z is None else ((1, z - 1) if isinstance(z, int) else tuple(z))
    ew = pair(wl, None)
    s = 1 if fl else 0
    for dd in (dt, DataType.from_DataType(dt)):
        ctx.check(tuple(dd.wl) == ew and tuple(dd.input_wl) == pair(iw, ew) and tuple(dd.output_wl) == pair(ow, ew), "dtype.wl", f"{dd.__dict__}")
        ctx.check(dd.bits == sum(ew) + s and dd.input_bits == sum(pair(iw, ew)) + s and dd.output_bits == sum(pair(ow, ew)) + s, "dtype.bits", f"{dd.__dict__}")
        ctx.check(dd.high == dd.bits - 1 and dd.low == 0 and dd.input_high == dd.input_bits - 1 and dd.output_high == dd.output_bits - 1, "dtype.high", f"{dd.__dict__}")
        for k, v in kw.items():
            ctx.check(getattr(dd, k) == v, "dtype.attr", f"{k}")
        for good, bad in ((("int_bits", "frac_bits"), ("exp_bits", "man_bits")),):
            if fl:
                good, bad = bad, good
            ctx.check((getattr(dd, good[0]), getattr(dd, good[1])) == ew, "dtype.parts", f"{dd.__dict__}")
            for b in bad:
                try:
                    getattr(dd, b)
                    ctx.fail("dtype.parts", f"{b} available for {dd.num_repr}")
                except TypeError:
                    ctx.count("refused")
    ctx.sample = str(dt.__dict__)


def case_modes(ctx):
    """The modes used in simulation, applied to a value with more bits than the format."""
    rng = ctx.rng
    ctx.sig = str(ctx.index)
    for _ in range(20):
        i, f, e = rng.randint(1, 8), rng.randint(0, 10), rng.randint(0, 8)
        mode, ov = rng.choice(MODES), rng.choice(["WRAPPING", "SATURATION"])
        n = rng.randint(-(1 << (i + 2 + f + e)), 1 << (i + 2 + f + e)) if rng.random() < 0.9 else rng.choice([0, 1, -1])
        x = apy.fx(n / 2 ** (f + e), i + 4, f + e)
        r = x.cast(i, f, QuantizationMode[mode].to_apytypes(), OverflowMode[ov].to_apytypes())
        want = Fmt(i, f, mode, ov).cast(V(F(n) / 2 ** (f + e), 0, f + e)).re
        ctx.count("values")
        ctx.check(F(float(r)) == want, "mode." + mode, f"{float(x)} ({i+4},{f+e}) -> ({i},{f}) {mode} {ov}: {float(r)}, expected {float(want)}")


def random_fmt(rng, cplx):
    i, f = rng.choice([(1, 7), (2, 6), (3, 5), (4, 8), (1, 11), (3, 0), (2, 14), (5, 3), (4, 12)])
    return Fmt(i, f, rng.choice(MODES), rng.choice(["WRAPPING", "SATURATION"]), cplx)


def dtype(fmt):
    return DataType((fmt.i, fmt.f), is_complex=fmt.cplx, quantization_mode=QuantizationMode[fmt.mode], overflow_mode=OverflowMode[fmt.ov])


def same(r, v, fmt):
    """apytypes value or element against an exact value; also the format."""
    if r.int_bits != fmt.i or r.frac_bits != fmt.f:
        return False
    if hasattr(r, "imag"):
        return F(float(r.real)) == v.re and F(float(r.imag)) == v.im
    return F(float(r)) == v.re and v.im == 0


def get_class(op):
    for m in ("core_operations", "fft_operations", "wdf_operations"):
        c = getattr(__import__("b_asic." + m, fromlist=["x"]), op, None)
        if c:
            return c
    raise KeyError(op)


def sample(rng, fmt):
    x = num(rng, fmt.i, fmt.f, wild=False)
    if rng.random() < 0.9:
        x = F(fit(q_units(F(x) * 2**fmt.f, "AWAY"), fmt.i + fmt.f, "WRAPPING")) / 2**fmt.f
    return float(x)


def op_params(rng, op, fmt, cplx):
    p = _params(rng, op, False)
    lim = 2.0 ** (fmt.i - 1)
    for k in ("value", "w", "w0", "w1"):
        if k in p and op in ("ConstantMultiplication", "R2DIFButterfly", "R2DITButterfly", "R2TFButterfly"):
            v = rng.choice([rng.uniform(-lim, lim) * 0.999, rng.uniform(-1, 1) * 0.99, round(rng.uniform(-8, 8)) / 8])
            if cplx and rng.random() < 0.5:
                v = complex(v, rng.uniform(-lim, lim) * 0.999)
            p[k] = v
    if cplx and op in ("Addition", "Subtraction", "AddSub", "ShiftAddSub"):
        p["mul_j"] = rng.random() < 0.4
    return p


def case_op(ctx):
    """One operation on random operands."""
    rng = ctx.rng
    cplx = rng.random() < 0.35
    fmt = random_fmt(rng, cplx)
    table = fixp.ops(fmt)
    names = sorted(o for o in table if not (cplx and o in fixp.REAL_ONLY) and not (not cplx and o in fixp.CPLX_ONLY))
    op = names[ctx.index % len(names)]
    dt = dtype(fmt)
    p = op_params(rng, op, fmt, cplx)
    o = get_class(op)(**p)
    ctx.sig = f"{op} {p} {fmt.i}.{fmt.f} {fmt.mode} {fmt.ov} {cplx}"
    ctx.sample = ctx.sig
    for _ in range(12):
        xs, vs = [], []
        for _ in range(REF[op][0]):
            a = sample(rng, fmt)
            if cplx:
                a = complex(a, sample(rng, fmt))
            x = apy.fx(a, fmt.i, fmt.f, force_complex=cplx)
            xs.append(x)
            vs.append(fmt.plain(a))
        want = [fmt.cast(y) for y in table[op](p, *vs)]
        for k, w in enumerate(want):
            r = o.evaluate_output(k, xs, data_type=dt)
            ctx.count("values")
            ctx.check(same(r, w, fmt), "op." + op, f"{ctx.sig}: {vs} -> output {k} = {r} ({r.int_bits}.{r.frac_bits}), expected {w}")


def case_quotient(ctx):
    """Division, reciprocal and square root: within one unit of the exact quotient when it is representable."""
    rng = ctx.rng
    fmt = Fmt(rng.randint(2, 6), rng.randint(2, 10), rng.choice(MODES), rng.choice(["WRAPPING", "SATURATION"]))
    dt = dtype(fmt)
    ctx.sig = str(ctx.index)
    op = rng.choice(["Division", "Reciprocal", "SquareRoot", "ReciprocalSquareRoot"])
    for _ in range(10):
        a, b = (sample(rng, fmt) for _ in range(2))
        va, vb = fmt.plain(a).re, fmt.plain(b).re
        if vb == 0 or (op != "Division" and va == 0) or (op in ("SquareRoot", "ReciprocalSquareRoot") and va <= 0):
            continue
        want = {"Division": lambda: float(va / vb), "Reciprocal": lambda: float(1 / va), "SquareRoot": lambda: math.sqrt(va),
                "ReciprocalSquareRoot": lambda: 1 / math.sqrt(va)}[op]()
        if not -(2.0 ** (fmt.i - 1)) <= want < 2.0 ** (fmt.i - 1) - 2.0 ** -fmt.f:
            continue
        xs = [apy.fx(float(v), fmt.i, fmt.f) for v in ((va, vb) if op == "Division" else (va,))]
        r = get_class(op)().evaluate_output(0, xs, data_type=dt)
        ctx.check(r.int_bits == fmt.i and r.frac_bits == fmt.f, "quotient.format", f"{op} gives {r!r}")
        got = float(r.real) if hasattr(r, "imag") else float(r)
        ctx.count("values")
        ctx.check(abs(got - want) <= 2 * 2.0 ** -fmt.f, "quotient." + op, f"{op}({va}, {vb}) = {got}, exact {want}, unit {2.0**-fmt.f}")


def case_sim(ctx):
    """Whole graphs, bit exact at every node."""
    rng = ctx.rng
    cplx = rng.random() < 0.3
    fmt = random_fmt(rng, cplx)
    table = fixp.ops(fmt)
    ops = sorted(o for o in table if not (cplx and o in fixp.REAL_ONLY) and not (not cplx and o in fixp.CPLX_ONLY))
    nested = fmt.mode != "JAMMING" and rng.random() < 0.3
    net = random_net(rng, n_ops=rng.randint(1, 12), n_delay=rng.choice([0, 1, 2, 4]), ops=ops, cplx=False, nested=2 if nested else 0)

    def params(net):
        for n in net.nodes.values():
            if n["op"] == "SFG":
                params(n["p"]["net"])
                ctx.count("nested")
            if n["op"] in table:
                n["p"].update(op_params(rng, n["op"], fmt, cplx))
            if n["op"] == "Delay" and rng.random() < 0.5:
                n["p"]["initial_value"] = sample(rng, fmt)
    params(net)
    unique_names(net)
    n = rng.randint(3, 12)
    x = [[sample(rng, fmt) for _ in range(n)] for _ in net.inputs]
    if cplx and rng.random() < 0.8:
        x = [[complex(v, sample(rng, fmt)) for v in s] for s in x]
    ctx.sig = net.signature() + f"{fmt.i}.{fmt.f}{fmt.mode}{fmt.ov}"
    ctx.sample = {"net": net.describe(), "dt": f"{fmt.i}.{fmt.f} {fmt.mode} {fmt.ov} {'complex' if cplx else ''}"}
    ctx.nontrivial = len(net.nodes) > 4
    ref = FixSim(net, fmt)
    want = [ref.step([s[k] for s in x]) for k in range(n)]
    sfg = net.build(rng)
    sim = Simulation(sfg, x if len(x) > 1 else [x[0]], data_type=dtype(fmt))
    k = 0
    while k < n:
        m = rng.randint(1, n - k)
        ret = sim.run_for(m)
        k += m
    ctx.check(all(same(r, w, fmt) for r, w in zip(ret, want[-1][0])), "sim.return", f"{ret} expected {want[-1][0]}")
    res = sim.results
    for o, op in enumerate(sim.sfg.output_operations):
        seq = res[op.graph_id]
        ctx.check(len(seq) == n, "sim.length", "")
        for k in range(n):
            ctx.count("values")
            ctx.check(same(seq[k], want[k][0][o], fmt), "sim.output", f"output {o} at {k}: {seq[k]}, expected {want[k][0][o]}")
    for nid, nd in net.nodes.items():
        if nd["op"] in ("Output", "Sink"):
            continue
        comps = [c for c in sim.sfg.find_by_name(nd["name"]) if hasattr(c, "input_count")]
        if not comps:
            continue
        for p in range(net.n_out(nid)):
            key = comps[0].graph_id + (f".{p}" if net.n_out(nid) > 1 else "")
            for k in range(n):
                if key in res:
                    ctx.count("values")
                    ctx.check(same(res[key][k], want[k][1][(nid, p)], fmt), "sim.node." + nd["op"],
                              f"{key} ({nd['op']} {nd['p']}) at {k}: {res[key][k]}, expected {want[k][1][(nid, p)]}")


# -- floating point ------------------------------------------------------------
def fround(x, e, m):
    """Nearest-even in a binary format with e exponent and m mantissa bits; None when it overflows."""
    x = F(x)
    if x == 0:
        return F(0)
    bias = (1 << (e - 1)) - 1
    ex = 0
    a = abs(x)
    ex = a.numerator.bit_length() - a.denominator.bit_length()
    if F(2) ** ex > a:
        ex -= 1
    ex = max(ex, 1 - bias)
    u = F(2) ** (ex - m)
    q = q_units(a / u, "UNBIASED_ROUNDING") * u
    if q >= F(2) ** (bias + 1):
        return None
    return q if x > 0 else -q


def case_float(ctx):
    """Floating-point simulation: every basic operation is rounded to nearest even in the format."""
    rng = ctx.rng
    e, m = rng.choice([(5, 10), (8, 7), (4, 3), (6, 9), (8, 23), (5, 2), (7, 12)])
    dt = DataType((e, m), num_repr=NumRepresentation.FLOATING_POINT)
    net = random_net(rng, n_ops=rng.randint(1, 9), n_delay=rng.choice([0, 1, 3]),
                     ops=["Addition", "Subtraction", "Multiplication", "ConstantMultiplication", "Negation", "R2Butterfly", "Min", "Max", "Absolute"])
    for nd in net.nodes.values():
        nd["p"].pop("shift_output", None)
    unique_names(net)
    n = rng.randint(2, 8)
    x = [[rng.choice([rng.uniform(-2, 2), rng.randint(-8, 8) / 4]) for _ in range(n)] for _ in net.inputs]
    ctx.sig = net.signature() + f"{e}.{m}"
    ctx.sample = {"net": net.describe(), "e": e, "m": m}

    def rd(v):
        r = fround(v, e, m)
        if r is None:
            raise Skip("overflow")
        return r

    table = {"Addition": lambda p, a, b: [a + b], "Subtraction": lambda p, a, b: [a - b], "Multiplication": lambda p, a, b: [a * b],
             "ConstantMultiplication": lambda p, a: [a * rd(p["value"])], "Negation": lambda p, a: [-a],
             "R2Butterfly": lambda p, a, b: [a + b, a - b], "Min": lambda p, a, b: [min(a, b)], "Max": lambda p, a, b: [max(a, b)],
             "Absolute": lambda p, a: [abs(a)]}
    st = {d: rd(net.nodes[d]["p"].get("initial_value", 0)) for d in net.delays}
    want = []
    for k in range(n):
        val = {(i, 0): rd(s[k]) for i, s in zip(net.inputs, x)}
        for nid in net.topo():
            nd = net.nodes[nid]
            if nd["op"] in ("Input", "Output", "Sink"):
                continue
            if nd["op"] == "Delay":
                val[(nid, 0)] = st[nid]
            elif nd["op"] == "Constant":
                val[(nid, 0)] = rd(nd["p"]["value"])
            else:
                for j, y in enumerate(table[nd["op"]](nd["p"], *[val[tuple(s)] for s in nd["ins"]])):
                    val[(nid, j)] = rd(y)
        for d in net.delays:
            st[d] = val[tuple(net.nodes[d]["ins"][0])]
        want.append([val[tuple(net.nodes[o]["ins"][0])] for o in net.outputs])
    sim = Simulation(net.build(rng), x if len(x) > 1 else [x[0]], data_type=dt)
    sim.run_for(n)
    res = sim.results
    for o, op in enumerate(sim.sfg.output_operations):
        for k in range(n):
            v = res[op.graph_id][k]
            ctx.count("values")
            ctx.check(v.exp_bits == e and v.man_bits == m, "float.format", f"{v!r}")
            ctx.check(F(float(v)) == want[k][o], "float.value", f"({e},{m}) output {o} at {k}: {float(v)}, expected {float(want[k][o])}")


KINDS = {
    "quantize": {"fn": case_quantize, "quick": 6000, "thorough": 100000},
    "default": {"fn": case_default, "quick": 600, "thorough": 6000},
    "modes": {"fn": case_modes, "quick": 4000, "thorough": 60000},
    "op": {"fn": case_op, "quick": 15000, "thorough": 200000},
    "quotient": {"fn": case_quotient, "quick": 500, "thorough": 5000},
    "sim": {"fn": case_sim, "quick": 24000, "thorough": 250000},
    "float": {"fn": case_float, "quick": 1500, "thorough": 15000},
}

if __name__ == "__main__":
    sys.exit(run_check(
        PROP, KINDS,
        rule="random values on, between and beside grid points, single operations and whole graphs in random real and complex formats "
             "with every quantization and overflow mode, compared with exact rational arithmetic; non-trivial = distinct case "
             "(sim: more than four nodes)",
        assumptions=["plain numbers (samples, coefficients) are converted to the nearest value of the format of the operand, ties away from zero",
                     "quotients and roots are only checked to two units, since their intermediate format is defined by apytypes"],
        min_eval=200))
