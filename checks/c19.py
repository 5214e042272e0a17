"""C19: SFG generators realise the algorithm they name, for every parameter."""
import cmath
import math
import sys

import numpy as np

from vh import boot

boot.install()
from b_asic import Simulation, sfg_generators as G  # noqa: E402
from b_asic.wdf import lattice_coeffs_from_tf  # noqa: E402

from vh import sound  # noqa: E402
from vh.core import run_check  # noqa: E402

PROP = "C19"
INVERSES = {
    "ldlt": (G.ldlt_matrix_inverse, ("mult", "eqs"), 1, False), "cholesky": (G.cholesky_matrix_inverse, ("mult", "eqs"), 1, True),
    "block_ldlt": (G.block_ldlt_matrix_inverse, ("mult", "eqs"), 2, False), "block_cholesky": (G.block_cholesky_matrix_inverse, ("mult", "eqs"), 2, True),
    "tile_ldlt": (G.tile_ldlt_matrix_inverse, ("mult", "eqs"), 2, False), "analytical": (G.analytical_block_matrix_inverse, ("top", "bot", "mid"), 2, False)}


def run(sfg, x, n):
    """Outputs per iteration; x holds one sequence per input."""
    sim = Simulation(sfg, x)
    sim.run_for(n)
    return [[complex(np.asarray(sim.results[o.graph_id][t]).item()) for o in sfg.output_operations] for t in range(n)]


def same(ctx, mech, got, want, what, tol=1e-8):
    scale = 1 + max((abs(v) for row in want for v in row), default=0)
    for t, (g, w) in enumerate(zip(got, want, strict=True)):
        ctx.check(len(g) == len(w), mech + ".outputs", lambda: f"{what()}: {len(g)} outputs, expected {len(w)}")
        for k, (a, b) in enumerate(zip(g, w)):
            ctx.check(abs(a - b) <= tol * scale, mech, lambda: f"{what()}: output {k} at {t} is {a}, expected {b}")
    ctx.count("samples_compared", len(want) * len(want[0]) if want else 0)


def coefficient(rng, cplx=False, zero=True):
    v = rng.choice([rng.uniform(-2, 2), rng.choice([1, -1, 0.5, -0.25, 2, 1.0, -1.0, 3]), rng.randint(-4, 4)])
    if v == 0 and not zero:
        v = 0.5
    return complex(v, rng.choice([0, 1, -0.5, rng.uniform(-1, 1)])) if cplx else v


def container(rng, c):
    k = rng.random()
    return list(c) if k < 0.4 else tuple(c) if k < 0.6 else np.array(c) if k < 0.9 or len(c) == 1 else np.array([c])


def recursion(b, a, x):
    y = []
    for t in range(len(x)):
        y.append((sum(b[k] * x[t - k] for k in range(len(b)) if k <= t) - sum(a[k] * y[t - k] for k in range(1, len(a)) if k <= t)) / a[0])
    return y


def signal(rng, n, cplx=False):
    k = rng.random()
    if k < 0.3:
        return [1] + [0] * (n - 1)
    x = [rng.uniform(-1, 1) if k < 0.7 else rng.randint(-9, 9) for _ in range(n)]
    return [complex(v, rng.uniform(-1, 1)) for v in x] if cplx else x


def properties(rng):
    """Properties and the (latency offsets, execution time) they ask for given the operation's ports."""
    if rng.random() < 0.25:
        return None, None
    ex = rng.choice([None, 1, 2, 3])
    k = rng.random()
    if k < 0.35:
        lat = rng.randint(0, 5)
        p = {"latency": lat}
        want = lambda i: (0,) * i + (lat,)  # noqa: E731
    elif k < 0.7:
        p = {"latency_offsets": {"out0": rng.randint(3, 6)}}
        p["latency_offsets"].update({"in0": rng.randint(0, 2), "in1": rng.randint(0, 2)})
        o = dict(p["latency_offsets"])
        want = lambda i: tuple(o.get(f"in{q}", 0) for q in range(i)) + (o["out0"],)  # noqa: E731
    else:
        p, want = {}, None
    if ex is not None:
        p["execution_time"] = ex
    return p, (want, ex)


def applied(ctx, sfg, tn, want, what):
    if want is None:
        return
    off, ex = want
    for op in sfg.find_by_type(tn) if not isinstance(tn, str) else sfg.find_by_type_name(tn):
        if ex is not None:
            ctx.check(op.execution_time == ex, "properties", lambda: f"{what()}: execution time of {op.graph_id} is {op.execution_time}, requested {ex}")
        if off is not None:
            got = tuple(p.latency_offset for p in [*op.inputs, *op.outputs][:op.input_count + 1])
            ctx.check(got == off(op.input_count), "properties", lambda: f"{what()}: latency offsets of {op.graph_id} are {got}, requested {off(op.input_count)}")


def named(rng):
    return rng.choice([None, None, "My filter", "x", "a'b"])


def name_applied(ctx, sfg, name, what):
    if name is not None:
        ctx.check(sfg.name == name, "name", lambda: f"{what()}: named {sfg.name!r}, requested {name!r}")


def refused(ctx, mech, fn, what, exc=(ValueError, TypeError, IndexError, NotImplementedError)):
    try:
        fn()
    except exc:
        ctx.count("refusals")
        return
    ctx.fail(mech, f"{what} was accepted")


def case_fir(ctx):
    rng = ctx.rng
    cplx = rng.random() < 0.3
    sym, tr = rng.random() < 0.5, rng.random() < 0.5
    taps = rng.randint(1, 14)
    c = [coefficient(rng, cplx) for _ in range(taps)]
    if sym:
        c = [c[min(k, taps - 1 - k)] for k in range(taps)]
    arg = container(rng, c)
    name = named(rng)
    mp, mw = properties(rng)
    ap, aw = properties(rng)
    if mp is not None and "latency_offsets" in mp:
        mp["latency_offsets"].pop("in1")
    what = lambda: f"fir({arg!r}, symmetric={sym}, transposed={tr}, mult_properties={mp}, add_properties={ap})"  # noqa: E731
    ctx.sig, ctx.sample, ctx.nontrivial = f"{taps}{sym}{tr}{cplx}", what(), taps > 1
    ctx.note(what())
    copies = (repr(arg), repr(mp), repr(ap))
    sfg = G.fir(arg, name=name, symmetric=sym, transposed=tr, mult_properties=mp, add_properties=ap)
    ctx.check((repr(arg), repr(mp), repr(ap)) == copies, "arguments_modified", what)
    sound.audit(ctx, sfg, "fir")
    n = taps + rng.randint(1, 6)
    x = signal(rng, n, cplx)
    same(ctx, "fir", run(sfg, [x], n), [[v] for v in recursion(c, [1], x)], what)
    applied(ctx, sfg, "cmul", mw, what)
    applied(ctx, sfg, "add", aw, what)
    name_applied(ctx, sfg, name, what)
    cnt = sfg.operation_counter()
    ctx.check(cnt.get("t", 0) == taps - 1, "fir.delays", lambda: f"{what()}: {cnt.get('t', 0)} delays")
    if sym and taps > 1:
        ctx.check(cnt["cmul"] == (taps + 1) // 2, "fir.symmetric", lambda: f"{what()}: {cnt['cmul']} multiplications, a symmetric structure needs {(taps + 1) // 2}")
    if taps > 1:
        into_delay = any(s.destination is not None and s.destination.operation.type_name() == "t" for s in sfg.input_operations[0].output(0).signals)
        ctx.check(into_delay != tr, "fir.transposed", lambda: f"{what()}: the {'transposed' if tr else 'direct'} form {'delays' if into_delay else 'does not delay'} its input")
    ctx.count("fir_sym%d_tr%d" % (sym, tr))


def stable_polynomial(rng, order, cplx=False):
    roots = []
    while len(roots) < order:
        r, th = rng.uniform(0.05, 0.9), rng.uniform(0.05, math.pi - 0.05)
        if cplx or order - len(roots) < 2 or rng.random() < 0.3:
            roots.append(r * cmath.exp(1j * th) if cplx else rng.choice([-r, r, 0.0]))
        else:
            roots += [r * cmath.exp(1j * th), r * cmath.exp(-1j * th)]
    p = np.poly(roots)
    return [complex(v) for v in p] if cplx else [float(np.real(v)) for v in p]


def case_iir(ctx):
    rng = ctx.rng
    form = rng.choice([1, 2])
    fn = G.direct_form_1_iir if form == 1 else G.direct_form_2_iir
    cplx = rng.random() < 0.25
    order = rng.randint(1, 6)
    a = stable_polynomial(rng, order, cplx)
    for k in range(1, order + 1):
        if order <= 2 and rng.random() < 0.2 or rng.random() < 0.05:
            a[k] = rng.choice([0, 0, -1, 1, 0.5])
    b = [coefficient(rng, cplx) for _ in range(order + 1)]
    b = [rng.choice([1, 0, -1, 1.0]) if rng.random() < 0.25 else v for v in b]
    a[0] = rng.choice([1, 1.0])
    name = named(rng)
    mp, mw = properties(rng)
    ap, aw = properties(rng)
    if mp is not None and "latency_offsets" in mp:
        mp["latency_offsets"].pop("in1")
    ca, cb = rng.choice([list, tuple, np.array])(a), rng.choice([list, tuple, np.array])(b)
    what = lambda: f"direct_form_{form}_iir({cb!r}, {ca!r}, mult_properties={mp}, add_properties={ap})"  # noqa: E731
    ctx.sig, ctx.sample, ctx.nontrivial = f"{form}{order}{cplx}{[v == 1 for v in b]}", what(), True
    ctx.note(what())
    if rng.random() < 0.1:
        k = rng.choice(["short", "different", "a0"])
        if k == "short":
            refused(ctx, "iir.accepted", lambda: fn(b[:1], a[:1]), f"direct_form_{form}_iir({b[:1]}, {a[:1]})")
        elif k == "different":
            refused(ctx, "iir.accepted", lambda: fn([*b, 2], a), f"direct_form_{form}_iir({[*b, 2]}, {a})")
        else:
            refused(ctx, "iir.accepted", lambda: fn(b, [2, *a[1:]]), f"direct_form_{form}_iir({b}, {[2, *a[1:]]})")
    copies = (repr(ca), repr(cb), repr(mp), repr(ap))
    sfg = fn(cb, ca, name=name, mult_properties=mp, add_properties=ap)
    ctx.check((repr(ca), repr(cb), repr(mp), repr(ap)) == copies, "arguments_modified", what)
    n = order + rng.randint(4, 14)
    x = signal(rng, n, cplx)
    w = recursion(b, a, x)
    big = max(1.0, max(abs(v) for v in recursion([1], a, x)) * max(1, max(abs(v) for v in b)))
    if big > 1e5:
        big = 1e5
    same(ctx, "iir", run(sfg, [x], n), [[v] for v in w], what, tol=1e-9 * big)
    sound.audit(ctx, sfg, "iir")
    applied(ctx, sfg, "cmul", mw, what)
    applied(ctx, sfg, "add", aw, what)
    name_applied(ctx, sfg, name, what)
    nd = sfg.operation_counter().get("t", 0)
    ctx.check(nd == (2 * order if form == 1 else order), "iir.delays", lambda: f"{what()}: {nd} delays")
    ctx.count(f"iir{form}")


def case_fft(ctx):
    rng = ctx.rng
    if rng.random() < 0.15:
        k = rng.choice([0, -1, -4, 3, 5, 6, 12, 24, 7, 33, 96])
        refused(ctx, "fft.accepted", lambda: G.radix_2_dif_fft(k), f"radix_2_dif_fft({k})")
    points = 2 ** rng.choice([0, 1, 2, 3, 4, 5] + ([6, 7] if ctx.thorough or rng.random() < 0.1 else []))
    sfg = G.radix_2_dif_fft(points)
    ctx.sig, ctx.sample, ctx.nontrivial = f"{points}{rng.random()}", f"radix_2_dif_fft({points})", points > 1
    n = rng.randint(1, 3)
    x = [signal(rng, n, rng.random() < 0.8) for _ in range(points)]
    root = [cmath.exp(-2j * math.pi * k / points) for k in range(points)]
    want = [[sum(x[k][t] * root[k * q % points] for k in range(points)) for q in range(points)] for t in range(n)]
    same(ctx, "fft", run(sfg, x, n), want, lambda: f"radix_2_dif_fft({points})")
    cnt = sfg.operation_counter()
    ctx.check(cnt.get("bfly", cnt.get("r2bfly", 0)) == points // 2 * (points.bit_length() - 1), "fft.butterflies", lambda: f"radix_2_dif_fft({points}): {cnt}")
    ctx.count(f"fft{points}")


def case_matmul(ctx):
    rng = ctx.rng
    m, n, p = (rng.randint(1, 5) for _ in range(3))
    name = named(rng)
    mp, mw = properties(rng)
    what = lambda: f"matrix_multiplication({m}, {n}, {p}, mad_properties={mp})"  # noqa: E731
    ctx.sig, ctx.sample, ctx.nontrivial = what(), what(), m * n * p > 1
    if mp is not None and "latency_offsets" in mp:
        mp["latency_offsets"]["in2"] = rng.randint(0, 2)
        o = dict(mp["latency_offsets"])
        mw = (lambda i: (o["in0"], o["in1"], o["in2"], o["out0"])), mw[1]
    sfg = G.matrix_multiplication(m, n, p, name=name, mad_properties=mp)
    k = rng.randint(1, 2)
    A = [[signal(rng, k, rng.random() < 0.3) for _ in range(n)] for _ in range(m)]
    B = [[signal(rng, k, rng.random() < 0.3) for _ in range(p)] for _ in range(n)]
    want = [[sum(A[i][q][t] * B[q][j][t] for q in range(n)) for i in range(m) for j in range(p)] for t in range(k)]
    same(ctx, "matmul", run(sfg, [v for r in A for v in r] + [v for r in B for v in r], k), want, what)
    got = [o.name for o in sfg.input_operations] + [o.name for o in sfg.output_operations]
    exp = [f"{c}[{i},{j}]" for c, r, s in (("A", m, n), ("B", n, p), ("C", m, p)) for i in range(r) for j in range(s)]
    ctx.check(got == exp, "matmul.names", lambda: f"{what()}: inputs and outputs in order are named {got}")
    applied(ctx, sfg, "mad", mw, what)
    name_applied(ctx, sfg, name, what)
    ctx.count("matmul")


def matrix(rng, n, spd):
    k = rng.random()
    m = np.array([[rng.uniform(-1, 1) for _ in range(n)] for _ in range(n)])
    if k < 0.5:
        a = m @ m.T + (0.3 + rng.random()) * np.eye(n)
    elif k < 0.75:  # diagonally dominant
        a = (m + m.T) / 2
        a += np.diag(np.abs(a).sum(axis=1) + 0.5)
        if not spd:
            s = np.diag([rng.choice([-1, 1]) for _ in range(n)])
            a = s @ np.triu(a) @ np.eye(n)
            a = np.triu(a, 1) + np.triu(a, 1).T + np.diag(np.diag(a))
    elif k < 0.9:
        a = np.diag([rng.uniform(0.5, 3) for _ in range(n)])
    else:
        a = np.array([[float(min(i, j) + 1) for j in range(n)] for i in range(n)]) + np.eye(n)
    return a


def case_inverse(ctx):
    rng = ctx.rng
    kind = rng.choice(sorted(INVERSES))
    fn, modes, block, spd = INVERSES[kind]
    mode, pe = rng.choice(modes), rng.choice([None, "mads", "addsub"])
    n = block * rng.randint(1, (12 if ctx.thorough else 6) // block)
    if kind == "analytical" and rng.random() < 0.2:
        n = rng.choice([1, 3, 5, 7])
    name = named(rng)
    what = lambda: f"{fn.__name__}({n}, mode={mode!r}, pe={pe!r})"  # noqa: E731
    ctx.sig, ctx.sample, ctx.nontrivial = what(), what(), n > 1
    ctx.note(what())
    if rng.random() < 0.1 and block == 2 and kind != "analytical":
        refused(ctx, "inverse.accepted", lambda: fn(n + 1, mode=mode, pe=pe), f"{fn.__name__}({n + 1}, mode={mode!r}, pe={pe!r})")
    if rng.random() < 0.1 and block == 2:
        refused(ctx, "inverse.accepted", lambda: fn(n, mode="foo", pe=pe), f"{fn.__name__}({n}, mode='foo')")
    try:
        sfg = fn(n, name=name, mode=mode, pe=pe)
    except (ValueError, NotImplementedError):
        ctx.check(kind == "analytical" and n % 2, "inverse.refused", lambda: f"{what()} refused")
        ctx.count("odd_refused")
        return
    sound.audit(ctx, sfg, what())
    name_applied(ctx, sfg, name, what)
    tri = [(i, j) for i in range(n) for j in range(i + 1)]
    k = rng.randint(1, 2)
    mats = [matrix(rng, n, spd) for _ in range(k)]
    x = [[float(a[i, j]) for a in mats] for i, j in tri]
    inv = [np.linalg.inv(a) for a in mats]
    same(ctx, "inverse." + kind, run(sfg, x, k), [[float(a[i, j]) for i, j in tri] for a in inv], what, tol=1e-7)
    cnt = set(sfg.operation_counter())
    if pe == "mads" and n > 1:
        bad = cnt & {"add", "sub", "addsub", "mul", "cmul"}
    elif pe == "addsub":
        bad = cnt & {"add", "sub", "mads"}
    else:
        bad = ()
    ctx.check(not bad, "inverse.pe", lambda: f"{what()} uses {sorted(bad)}")
    ctx.count(kind)
    ctx.count(f"pe_{pe}")


def allpass_tf(c):
    """Numerator and denominator of the cascade (polynomials in the delay)."""
    num, den = [1.0], [1.0]
    rest = list(c)
    if len(rest) % 2:
        v = rest.pop(0)
        num, den = np.convolve(num, [-v, 1]), np.convolve(den, [1, -v])
    for v1, v2 in zip(rest[::2], rest[1::2]):
        num = np.convolve(num, [-v1, -v2 + v1 * v2, 1])
        den = np.convolve(den, [1, -v2 + v1 * v2, -v1])
    return [float(v) for v in num], [float(v) for v in den]


def adaptor(rng):
    return rng.choice([rng.uniform(-0.9, 0.9), rng.uniform(-0.9, 0.9), rng.choice([0, 0.5, -0.25, 0.0, 0.75])])


def adaptor_names_of(rng, n):
    k = rng.random()
    if k < 0.3:
        return None, [f"a{i}" for i in range(n)]
    if k < 0.6:
        p = rng.choice(["q", "adaptor", "a"])
        return p, [f"{p}{i}" for i in range(n)]
    names = [f"z{rng.randint(0, 99)}_{i}" for i in range(n)]
    return names, names


def case_wdf(ctx):
    rng = ctx.rng
    n = rng.randint(1, 9)
    c = [adaptor(rng) for _ in range(n)]
    names, expect = adaptor_names_of(rng, n)
    name = named(rng)
    lattice = rng.random() < 0.5
    arg = container(rng, c) if not lattice else rng.choice([list, tuple, np.array])(c)
    steps = n + rng.randint(4, 14)
    x = signal(rng, steps)
    if lattice:
        only = rng.random() < 0.5
        what = lambda: f"lattice_wdf({arg!r}, only_adaptors={only}, adaptor_names={names!r})"  # noqa: E731
        sfg = G.lattice_wdf(arg, name=name, only_adaptors=only, adaptor_names=names)
        first, rest = (c[:1], c[1:]) if n % 2 else ([], list(c))
        pairs = [rest[i:i + 2] for i in range(0, len(rest), 2)]
        one = first + [v for q in pairs[1 if n % 2 else 0::2] for v in q]
        two = [v for q in pairs[0 if n % 2 else 1::2] for v in q]
        ya, yb = (recursion(*allpass_tf(q), x) for q in (one, two))
        want = [(a + b) / 2 for a, b in zip(ya, yb)]
        if only:
            bad = set(sfg.operation_counter()) - {"in", "out", "t", "sym2p"}
            ctx.check(not bad, "wdf.only_adaptors", lambda: f"{what()} uses {sorted(bad)}")
        values = {**{e: v for e, v in zip(expect, c)}}
    else:
        p, w = properties(rng)
        p = dict(p or {})
        if "latency_offsets" in p:
            p["latency_offsets"] = {**p["latency_offsets"], "out1": rng.randint(3, 6)}
        what = lambda: f"wdf_allpass({arg!r}, adaptor_names={names!r}, {p})"  # noqa: E731
        sfg = G.wdf_allpass(arg, name=name, adaptor_names=names, **p)
        want = recursion(*allpass_tf(c), x)
        values = {**{e: v for e, v in zip(expect, c)}}
        applied(ctx, sfg, "sym2p", w, what)
    ctx.sig, ctx.sample, ctx.nontrivial = f"{lattice}{[v == 0 for v in c]}{steps}", what(), True
    ctx.note(what())
    same(ctx, "wdf", run(sfg, [x], steps), [[v] for v in want], what)
    sound.audit(ctx, sfg, what())
    name_applied(ctx, sfg, name, what)
    got = {o.name: o.value for o in sfg.find_by_type_name("sym2p") if o.name}
    exp = {e: v for e, v in values.items() if v}
    ctx.check(got == exp, "wdf.names", lambda: f"{what()}: adaptors {got}, expected {exp}")
    nd = sfg.operation_counter().get("t", 0)
    ctx.check(nd == n, "wdf.delays", lambda: f"{what()}: {nd} delays for order {n}")
    ctx.count("lattice" if lattice else "allpass")
    if rng.random() < 0.1:
        refused(ctx, "wdf.accepted", lambda: (G.lattice_wdf if lattice else G.wdf_allpass)([]), "an empty list of coefficients")


def branch_polynomials(c):
    first, rest = (c[:1], c[1:]) if len(c) % 2 else ([], list(c))
    pairs = [rest[i:i + 2] for i in range(0, len(rest), 2)]
    s = len(c) % 2
    return first + [v for q in pairs[s::2] for v in q], [v for q in pairs[1 - s::2] for v in q]


def case_lattice_design(ctx):
    """Adaptor coefficients from a denominator; the lattice filter of an odd-order classical filter has its magnitude response."""
    import scipy.signal as ss
    rng = ctx.rng
    if rng.random() < 0.5:
        order = rng.randint(1, 7)
        a = stable_polynomial(rng, order)
        g = rng.choice([1, 1, 2, -0.5, 3.5])
        arg = rng.choice([list, tuple, np.array])([v * g for v in a])
        c = lattice_coeffs_from_tf(arg)
        ctx.sig, ctx.sample = f"tf{order}{rng.random()}", f"lattice_coeffs_from_tf({arg!r})"
        ctx.check(len(c) == order, "design.order", lambda: f"{arg!r}: {len(c)} coefficients for order {order}: {c}")
        one, two = branch_polynomials(list(c))
        den = np.convolve(allpass_tf(one)[1], allpass_tf(two)[1])
        scale = max(abs(v) for v in a)
        ctx.check(all(abs(p - q) <= 1e-5 * scale for p, q in zip(den, a)), "design.denominator", lambda: f"coefficients {c} of {arg!r} give the denominator {list(den)}, expected {a}")
        ctx.count("denominators")
        return
    order = rng.choice([1, 3, 5, 7])
    kind = rng.choice(["butter", "cheby1", "cheby2", "ellip"])
    wc = rng.uniform(0.15, 0.85)
    high = rng.random() < 0.4
    args = {"butter": (), "cheby1": (rng.uniform(0.2, 2),), "cheby2": (rng.uniform(30, 60),), "ellip": (rng.uniform(0.2, 2), rng.uniform(30, 60))}[kind]
    b, a = getattr(ss, kind)(order, *args, wc, "high" if high else "low")
    ctx.sig, ctx.sample = f"{order}{kind}{high}{wc}", f"{kind}({order}, {args}, {wc}, high={high})"
    c = lattice_coeffs_from_tf(a)
    one, two = branch_polynomials(list(c))
    w = np.linspace(0, math.pi, 65)
    ha = ss.freqz(*allpass_tf(one), w)[1] if one else np.ones(65)
    hb = ss.freqz(*allpass_tf(two), w)[1] if two else np.ones(65)
    h = ss.freqz(b, a, w)[1]
    # sum and difference of the branches are the filter and its complement
    err = min(np.abs(np.abs(ha + hb) / 2 - np.abs(h)).max(), np.abs(np.abs(ha - hb) / 2 - np.abs(h)).max())
    ctx.check(err < 1e-3, "design.response", lambda: f"{ctx.sample}: magnitude of the lattice filter with coefficients {c} differs by {err}")
    ctx.count("filters")


KINDS = {
    "fir": {"fn": case_fir, "quick": 900, "thorough": 9000, "timeout": 60},
    "iir": {"fn": case_iir, "quick": 700, "thorough": 7000, "timeout": 60},
    "fft": {"fn": case_fft, "quick": 80, "thorough": 600, "timeout": 120},
    "matmul": {"fn": case_matmul, "quick": 150, "thorough": 1200, "timeout": 60},
    "inverse": {"fn": case_inverse, "quick": 400, "thorough": 3000, "timeout": 120},
    "wdf": {"fn": case_wdf, "quick": 700, "thorough": 7000, "timeout": 60},
    "lattice_design": {"fn": case_lattice_design, "quick": 600, "thorough": 6000, "timeout": 60},
}

if __name__ == "__main__":
    sys.exit(run_check(
        PROP, KINDS,
        rule="generated SFGs are simulated and compared with independent recursions, discrete Fourier transforms, matrix products and inverses and polynomial allpass sections; "
             "requested properties and names are read back, invalid parameters must raise; non-trivial: more than one tap, point or element",
        assumptions=["symmetric FIR filters are judged for symmetric coefficients", "well-conditioned matrices and pole radii below 0.9", "lattice filters reproduce odd-order low- and high-pass filters"],
        min_eval=300))
