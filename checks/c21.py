"""C21: operations evaluate their documented function and declare truthful attributes."""
import cmath
import math
import sys

from vh import boot

boot.install()
import b_asic as ba  # noqa: E402
import b_asic.core_operations as co  # noqa: E402
import b_asic.fft_operations as fo  # noqa: E402
import b_asic.wdf_operations as wo  # noqa: E402
from b_asic import SFG, Constant, Delay, Input, Output, Simulation  # noqa: E402

from vh.core import run_check, Skip  # noqa: E402
from vh.gen import close, random_net, _params, LINEAR_X, REALS, CPLX  # noqa: E402
from vh.ops import REF  # noqa: E402
from vh.simh import outputs_of, unique_names, simulate, usable_net  # noqa: E402

PROP = "C21"
REALONLY = {"Min", "Max"}
NAMES = sorted(REF)


def cls_of(op):
    for m in (co, fo, wo):
        if hasattr(m, op):
            return getattr(m, op)
    raise KeyError(op)


def rand_num(rng, cplx):
    c = rng.random()
    if c < 0.3:
        v = rng.randint(-9, 9)
    elif c < 0.4:
        v = rng.choice([0, 0.0, 1, -1, 1e6, -1e-3])
    else:
        v = rng.uniform(-4, 4)
    if cplx and rng.random() < 0.8:
        v = complex(v, rng.choice([rng.uniform(-4, 4), 0.0, rng.randint(-3, 3)]))
    return v


def wide_params(rng, op, cplx):
    p = _params(rng, op, rng.random() < 0.5)
    r = rng.random
    if op in ("ConstantMultiplication", "Constant"):
        p["value"] = rand_num(rng, cplx)
    if op in ("R2DIFButterfly", "R2DITButterfly"):
        p["w"] = rand_num(rng, cplx)
    if op == "R2TFButterfly":
        p["w0"], p["w1"] = rand_num(rng, cplx), rand_num(rng, cplx)
    if op in ("Addition", "Subtraction", "AddSub", "ShiftAddSub"):
        p["mul_j"] = r() < 0.25
        p["shift_output"] = rng.choice([0, 0, 1, 2, 5])
    if op == "ShiftAddSub":
        p["shift"] = rng.choice([0, 1, 2, 3, 7])
    if op in ("RightShift", "LeftShift"):
        p["value"] = rng.randint(0, 8)
    if op == "Shift":
        p["value"] = rng.randint(-8, 8)
    if op == "SymmetricTwoportAdaptor":
        p["value"] = rng.uniform(-1, 1)
    if op in ("SeriesTwoportAdaptor", "ParallelTwoportAdaptor"):
        p["value"] = rng.uniform(0, 2)
    if op == "SeriesThreeportAdaptor":
        a = rng.uniform(0, 1.2)
        p["value"] = (a, rng.uniform(0, 1.9 - a) + 0.05)
    if op == "ReflectionFreeSeriesThreeportAdaptor":
        p["value"] = rng.uniform(0, 1)
    if op == "ReciprocalSquareRoot" and r() < 0.5:
        p["real_valued"] = r() < 0.5
    return p


SERIES = "SeriesTwoportAdaptor"


def evaluations(op, o, p, xs):
    n = REF[op][1]
    r = o.evaluate(*xs)
    return [r] if n == 1 else list(r)


def case_evaluate(ctx):
    rng = ctx.rng
    op = NAMES[ctx.index % len(NAMES)]
    if op == SERIES:
        raise Skip("own kind")
    cplx = rng.random() < 0.4 and op not in REALONLY
    p = wide_params(rng, op, cplx)
    o = cls_of(op)(**p)
    ctx.sig = f"{op}{p}{cplx}"
    ctx.sample = ctx.sig
    for k, v in p.items():
        if k != "real_valued":
            ctx.check(getattr(o, k) == v, "param." + op, f"{op}.{k} = {getattr(o, k)}, given {v}")
    for _ in range(6):
        xs = [rand_num(rng, cplx) for _ in range(REF[op][0])]
        want = REF[op][2](p, *xs)
        scale = max([abs(x) for x in xs] + [abs(w) for w in want if abs(w) < math.inf] + [1])
        got = evaluations(op, o, p, xs)
        ctx.check(len(got) == len(want), "evaluate.count", f"{op}: {got}")
        for k, w in enumerate(want):
            ctx.count("values")
            ctx.check(close(got[k], w, 1e-9, scale), "evaluate." + op, f"{op} {p} on {xs}: output {k} = {got[k]}, expected {w}")
            g = o.evaluate_output(k, xs)
            ctx.check(g == got[k] or close(g, w, 1e-9, scale), "evaluate_output." + op, f"{op} {p} on {xs}: output {k} = {g}")
    # wrong use is refused
    try:
        o.evaluate_output(REF[op][1], xs)
        ctx.fail("evaluate_output.index", f"{op}: output {REF[op][1]} exists")
    except IndexError:
        ctx.count("refused")
    try:
        o.evaluate_output(0, xs + [1])
        ctx.fail("evaluate_output.count", f"{op}: too many inputs accepted")
    except ValueError:
        ctx.count("refused")


def case_series(ctx):
    """The series two-port adaptor, which does not compute the documented function."""
    rng = ctx.rng
    p = wide_params(rng, SERIES, False)
    v = p["value"]
    o = cls_of(SERIES)(**p)
    ctx.sig = repr(p)
    a, b = rand_num(rng, False), rand_num(rng, False)
    y = o.evaluate(a, b)
    sc = max(abs(a), abs(b), 1)
    if rng.random() < 0.5:
        want = REF[SERIES][2](p, a, b)
        if all(close(g, w, 1e-9, sc) for g, w in zip(y, want)):
            ctx.check(True, "series", "")
            return
        as_is = [a - v * a, -(a + b) - (a - v * a)]
        ctx.check(all(close(g, w, 1e-9, sc) for g, w in zip(y, as_is)), "series.other", f"value {v}: {(a, b)} -> {y}")
        ctx.fail("series.multiplies_only_input_0", f"value {v}: {(a, b)} -> {y}, documented {want}")
    o.swap_io()
    z = o.evaluate(b, a)
    if not (close(z[1], y[0], 1e-9, sc) and close(z[0], y[1], 1e-9, sc)):
        w = 2 - v
        as_is = [b - w * b, -(a + b) - (b - w * b)]
        ctx.check(all(close(g, x, 1e-9, sc) for g, x in zip(z, as_is)), "series.other", f"value {v}, swapped: {(b, a)} -> {z}")
        ctx.fail("series.swap", f"value {v}: {(a, b)} -> {y}, after swap_io {(b, a)} -> {z}")
    ctx.check(True, "series", "")


def wire(op, p, consts, rng):
    """The operation with inputs/constants as operands: (operation, inputs, order of operands)."""
    srcs, ins = [], []
    for i in range(REF[op][0]):
        if i in consts:
            srcs.append(consts[i])
        else:
            s = Input()
            ins.append(s)
            srcs.append(s)
    return cls_of(op)(**p, **{f"src{i}": s for i, s in enumerate(srcs)}), ins


NEEDS_CONST = {"Multiplication": ({0}, {1}), "Division": ({1},), "MAD": ({0}, {1}), "MADS": ({1}, {2})}
ALWAYS = set(LINEAR_X) | {"R4Butterfly", "R3Winograd", "R5Winograd", "R7Winograd", "ImaginaryMultiplication", SERIES}


def case_linear(ctx):
    rng = ctx.rng
    op = [n for n in NAMES if n != "Constant"][ctx.index % (len(NAMES) - 1)]
    cplx = rng.random() < 0.4 and op not in REALONLY
    p = wide_params(rng, op, cplx)
    n = REF[op][0]
    consts = {}
    for i in range(n):
        if rng.random() < 0.35:
            v = rand_num(rng, cplx) or 2
            c = Constant(v)
            consts[i] = rng.choice([c, c, co.Negation(c), co.Addition(c, Constant(1))])
    o, ins = wire(op, p, consts, rng)
    ctx.sig = f"{op}{p}{sorted(consts)}"
    ctx.sample = ctx.sig
    ctx.check(o.is_constant == (len(consts) == n), "constant." + op, f"{ctx.sig}: is_constant {o.is_constant}")
    lin = o.is_linear
    if len(consts) == n:
        return
    if op in ALWAYS:
        ctx.check(lin, "linear.missed", f"{ctx.sig}: not linear")
    elif op in NEEDS_CONST:
        must = any(s <= set(consts) for s in NEEDS_CONST[op])
        ctx.check(lin == must, "linear.conditional", f"{ctx.sig}: is_linear {lin}")
    if not lin:
        return
    if any(abs(complex(x)) == math.inf for x in p.values() if isinstance(x, (int, float, complex))):
        return
    # operands that make the operation linear keep their value, all others are variables
    fixed = next((s for s in NEEDS_CONST.get(op, ()) if s <= set(consts)), set())
    const_val = {i: rand_num(rng, cplx) or 1.5 for i in fixed}
    other = {}
    if op == "MAD" or op == "MADS" or op == "Multiplication":
        pass

    def f(xs):
        a = [const_val.get(i, xs[i]) for i in range(n)]
        return evaluations(op, o, p, a), max(abs(v) for v in a)
    x = [rand_num(rng, cplx) for _ in range(n)]
    y = [rand_num(rng, cplx) for _ in range(n)]
    al, be = rand_num(rng, cplx), rand_num(rng, cplx)
    fx, sx = f(x)
    fy, sy = f(y)
    fz, sz = f([al * u + be * v for u, v in zip(x, y)])
    for k in range(REF[op][1]):
        want = al * fx[k] + be * fy[k]
        sc = max([abs(al) * abs(v) for v in fx] + [abs(be) * abs(v) for v in fy] + [abs(v) for v in fz] + [1, sx, sy, sz])
        ctx.count("superpositions")
        ctx.check(close(fz[k], want, 1e-8, sc), "linear." + op, f"{ctx.sig}: f({al}x+{be}y) = {fz[k]}, {want} expected")


def case_graph(ctx):
    """is_constant of every operation and is_linear of the graph."""
    rng = ctx.rng
    ops = rng.choice([REALS, LINEAR_X, ["Addition", "Multiplication", "Negation", "ConstantMultiplication", "MAD", "MADS", "Division", "Absolute"]])
    net = random_net(rng, n_ops=rng.randint(1, 10), ops=ops, n_delay=rng.choice([0, 1, 3]), nested=0)
    for _ in range(rng.choice([0, 1, 3])):  # more constants
        k = rng.choice(list(net.nodes))
        ins = net.nodes[k]["ins"]
        if ins and net.nodes[k]["op"] not in ("Output", "Sink"):
            c = net.add("Constant", value=rng.choice([1, 2, -1.5]))
            ins[rng.randrange(len(ins))] = (c, 0)
    net._topo = None
    cons = net.consumers()
    for nid in list(net.nodes):
        if net.nodes[nid]["op"] in ("Output", "Sink"):
            continue
        if not any((nid, j) in cons for j in range(net.n_out(nid))):
            net.add("Output", [(nid, 0)])
    net._topo = None
    unique_names(net)
    ctx.sig = net.signature()
    ctx.sample = net.describe()
    ctx.nontrivial = len(net.nodes) > 4
    sfg = net.build(rng)
    byname = {c.name: c for c in sfg.operations}
    const, lin = set(), True
    for nid in net.topo():
        nd = net.nodes[nid]
        if nd["name"] not in byname:  # not connected to any input or output
            continue
        srcs = [s[0] for s in nd["ins"]]
        if nd["op"] == "Constant" or (srcs and nd["op"] not in ("Delay",) and all(s in const for s in srcs)):
            const.add(nid)
        if nd["op"] in NEEDS_CONST:
            lin &= any(all(srcs[i] in const for i in s) for s in NEEDS_CONST[nd["op"]])
        elif nd["op"] in ("Min", "Max", "Absolute"):
            lin &= nid in const
    for nid, nd in net.nodes.items():
        o = byname.get(nd["name"])
        if o is None:
            continue
        ctx.check(o.is_constant == (nid in const), "graph.is_constant", f"{nid}: {nd['op']} is_constant {o.is_constant}, expected {nid in const}")
    ctx.check(sfg.is_constant == all(o in const for o in net.outputs), "graph.sfg_constant", f"SFG is_constant {sfg.is_constant}")
    ctx.check(sfg.is_linear == lin, "graph.sfg_linear", f"SFG is_linear {sfg.is_linear}, expected {lin}")


def case_swap(ctx):
    """swap_io in a graph: the same function when allowed, refused and unchanged otherwise."""
    rng = ctx.rng
    cplx = rng.random() < 0.35
    # rarely used operations that the generic generator leaves out
    net, x, ys, vs = usable_net(ctx, n_iter=6, n_ops=rng.randint(1, 9), cplx=cplx)
    if cplx:
        pass
    for nd in net.nodes.values():
        if nd["op"] in ("Addition", "AddSub", "ShiftAddSub") and cplx and rng.random() < 0.4:
            nd["p"]["mul_j"] = not nd["p"].get("mul_j", False)
    unique_names(net)
    sfg = net.build(rng)
    ref = simulate(sfg, x, 6)
    swapped, refused = [], 0
    for o in list(sfg.operations):
        if o.input_count < 2 or o.input_count == 0:
            continue
        if rng.random() < 0.3:
            continue
        before = [i.signals[0].source.operation.graph_id + str(i.signals[0].source.index) for i in o.inputs]
        if o.is_swappable:
            if rng.random() < 0.5:
                sfg.swap_io_of_operation(o.graph_id)
            else:
                o.swap_io()
            for i, port in enumerate(o.inputs):
                ctx.check(port.index == i and o.input(i) is port, "swap.index", f"{o.type_name()} input {i} has index {port.index}")
            for i, port in enumerate(o.outputs):
                ctx.check(port.index == i and o.output(i) is port, "swap.index", f"{o.type_name()} output {i} has index {port.index}")
            after = [i.signals[0].source.operation.graph_id + str(i.signals[0].source.index) for i in o.inputs]
            ctx.check(sorted(before) == sorted(after), "swap.operands", f"{o.type_name()}: {before} -> {after}")
            if o.input_count == 2:
                ctx.check(after == before[::-1], "swap.order", f"{o.type_name()}: {before} -> {after}")
            swapped.append(type(o).__name__)
        else:
            try:
                o.swap_io()
                ctx.fail("swap.not_refused", f"{o.type_name()} is not swappable but was swapped")
            except TypeError:
                refused += 1
            after = [i.signals[0].source.operation.graph_id + str(i.signals[0].source.index) for i in o.inputs]
            ctx.check(before == after, "swap.refused_changed", f"{o.type_name()}")
    ctx.sig = net.signature() + str(swapped)
    ctx.nontrivial = bool(swapped)
    ctx.sample = {"net": net.describe(), "swapped": swapped}
    ctx.count("swapped", len(swapped))
    got = simulate(sfg, x, 6)
    for a, b in zip(ref, got):
        for u, v in zip(a, b):
            ctx.check(close(u, v, 1e-7, 1e3), "swap.function", f"outputs change when swapping {swapped}: {a} -> {b}")


def case_latency(ctx):
    """Latency offsets, latency and execution time, against a plain record."""
    rng = ctx.rng
    names = [n for n in NAMES if n != "Constant"]
    ops = []
    hist = []
    for _ in range(rng.randint(1, 4)):
        op = rng.choice(names)
        nin, nout = REF[op][0], REF[op][1]
        kw = {}
        off = {f"in{i}": None for i in range(nin)} | {f"out{i}": None for i in range(nout)}
        c = rng.random()
        if c < 0.6:
            lo = {k: rng.randint(0, 6) for k in off if rng.random() < 0.6}
            if rng.random() < 0.5:
                lo = {k.upper() if rng.random() < 0.2 else k: v for k, v in lo.items()}
            kw["latency_offsets"] = lo
            off.update({k.lower(): v for k, v in lo.items()})
        if rng.random() < 0.6:
            kw["latency"] = rng.randint(0, 8)
            for k, v in off.items():
                if v is None:
                    off[k] = kw["latency"] if k.startswith("out") else 0
        ex = None
        if rng.random() < 0.6:
            ex = kw["execution_time"] = rng.randint(0, 8)
        o = cls_of(op)(**_params(rng, op, True), **kw)
        ops.append([op, o, off, ex])
        hist.append(f"{op}({kw})")

    def verify():
        for op, o, off, ex in ops:
            ctx.check(dict(o.latency_offsets) == off, "latency.offsets", f"{op}: {o.latency_offsets}, expected {off}; {hist}")
            ctx.check(o.execution_time == ex, "latency.execution_time", f"{op}: {o.execution_time}, expected {ex}; {hist}")
            for kind, ports in (("in", o.inputs), ("out", o.outputs)):
                want = [off[f"{kind}{i}"] for i in range(len(ports))]
                ctx.check([q.latency_offset for q in ports] == want, "latency.port", f"{op} {kind}: {hist}")
                try:
                    got = o.input_latency_offsets if kind == "in" else o.output_latency_offsets
                    ctx.check(got == want and None not in want, "latency.list", f"{op} {kind}: {got}, expected {want}; {hist}")
                    co_ = o.get_input_coordinates() if kind == "in" else o.get_output_coordinates()
                    n = len(want)
                    ctx.check([tuple(c) for c in co_] == [(want[i], (2 * i + 1) / (2 * n)) for i in range(n)], "latency.coordinates", f"{op} {kind}: {co_}")
                except ValueError:
                    ctx.check(None in want, "latency.list", f"{op}: refused although set; {hist}")
            try:
                got = o.latency
                ctx.check(None not in off.values(), "latency.value", f"{op}: latency {got} although unset")
                want = max(off[f"out{j}"] - off[f"in{i}"] for i in range(o.input_count) for j in range(o.output_count))
                ctx.check(got == want, "latency.value", f"{op}: latency {got}, expected {want}; {hist}")
                lat, exe = o.get_plot_coordinates()
                xs = [c[0] for c in lat]
                ctx.check(lat[0] == lat[-1] and min(xs) == min(off.values()) and max(xs) == max(off.values()), "latency.polygon", f"{op}: {lat}")
                if ex is None:
                    ctx.check(len(exe) == 0, "latency.polygon", f"{op}: {exe}")
                else:
                    ctx.check(exe[0] == exe[-1] and {c[0] for c in exe} == {0, ex} and {c[1] for c in exe} == {0, 1}, "latency.polygon", f"{op}: {exe}")
            except ValueError:
                ctx.check(None in off.values(), "latency.value", f"{op}: latency refused although set; {hist}")
            ctx.count("states")

    verify()
    for _ in range(rng.randint(1, 8)):
        i = rng.randrange(len(ops))
        op, o, off, ex = ops[i]
        a = rng.choice(["set_latency", "set_offsets", "port", "exec", "bad", "copy"])
        if a == "set_latency":
            v = rng.randint(0, 9)
            o.set_latency(v)
            for k in off:
                off[k] = v if k.startswith("out") else 0
            hist.append(f"{i}.set_latency({v})")
        elif a == "set_offsets":
            lo = {k: rng.randint(0, 6) for k in off if rng.random() < 0.5}
            o.set_latency_offsets(lo)
            off.update(lo)
            hist.append(f"{i}.set_latency_offsets({lo})")
        elif a == "port":
            k = rng.choice(list(off))
            v = rng.randint(0, 9)
            q = o.input(int(k[2:])) if k.startswith("in") else o.output(int(k[3:]))
            q.latency_offset = v
            off[k] = v
            hist.append(f"{i}.{k}={v}")
        elif a == "exec":
            v = rng.choice([None, rng.randint(0, 9)])
            o.execution_time = v
            ops[i][3] = v
            hist.append(f"{i}.execution_time={v}")
        elif a == "copy":
            ops[i][1] = o.copy()
            hist.append(f"{i}.copy")
        else:
            b = rng.choice(["lat", "exec", "name", "index", "ctor"])
            try:
                if b == "lat":
                    o.set_latency(-rng.randint(1, 4))
                elif b == "exec":
                    o.execution_time = -rng.randint(1, 4)
                elif b == "name":
                    o.set_latency_offsets({rng.choice(["foo", "in", "inx", "out-1", "outa", "0"]): 1})
                elif b == "index":
                    o.set_latency_offsets({rng.choice([f"in{o.input_count}", f"out{o.output_count}"]): 1})
                else:
                    cls_of(op)(**_params(rng, op, True), latency=-1)
                ctx.fail("latency.not_refused", f"{op}: {b} accepted")
            except (ValueError, IndexError):
                ctx.count("refused")
            hist.append(f"{i}.bad {b}")
        verify()
    ctx.sig = str(hist)
    ctx.sample = hist


def case_sfg_latency(ctx):
    """Setting latencies of all operations of a type in an SFG."""
    rng = ctx.rng
    net = random_net(rng, n_ops=rng.randint(2, 10), ops=LINEAR_X + ["MAD", "Multiplication"])
    unique_names(net)
    sfg = net.build(rng)
    ctx.sig = net.signature()
    ctx.sample = net.describe()
    ctx.nontrivial = len(net.nodes) > 4
    types = sorted({type(o) for o in sfg.operations if type(o) not in (Input, Output, Delay)}, key=lambda t: t.__name__)
    types = [t for t in types if t.__name__ != "Constant"]
    rec = {o.graph_id: (dict(o.latency_offsets), o.execution_time) for o in sfg.operations}
    for _ in range(rng.randint(1, 6)):
        t = rng.choice(types) if types else None
        if t is None:
            raise Skip("no operations")
        how = rng.choice(["type", "name"])
        key = t if how == "type" else t.type_name()
        what = rng.choice(["latency", "execution_time", "latency_offsets"])
        if what == "latency_offsets":
            n = next(o for o in sfg.operations if type(o) is t)
            v = {k: rng.randint(0, 7) for k in n.latency_offsets if rng.random() < 0.6}
        else:
            v = rng.randint(0, 9)
        getattr(sfg, f"set_{what}_of_{'type' if how == 'type' else 'type_name'}")(key, v)
        for o in sfg.operations:
            if type(o) is t:
                off, ex = rec[o.graph_id]
                if what == "latency":
                    off = {k: (v if k.startswith("out") else 0) for k in off}
                elif what == "execution_time":
                    ex = v
                else:
                    off = {**off, **v}
                rec[o.graph_id] = (off, ex)
        for o in sfg.operations:
            ctx.check((dict(o.latency_offsets), o.execution_time) == rec[o.graph_id], "sfg_latency",
                      f"after set_{what}_of_{how} {t.__name__} {v}: {o.graph_id} has {o.latency_offsets} {o.execution_time}, expected {rec[o.graph_id]}")


def case_expr(ctx):
    """Expressions built with Python operators compute the expression."""
    rng = ctx.rng
    n_in = rng.randint(1, 3)
    ins = [Input() for _ in range(n_in)]
    cplx = rng.random() < 0.25
    xs = [rng.choice([rng.uniform(0.3, 3), -rng.uniform(0.3, 3), float(rng.randint(1, 5))]) for _ in range(n_in)]
    if cplx:
        xs = [complex(v, rng.uniform(-2, 2)) for v in xs]
    text = []

    def const():
        c = rng.choice([1, 2, -1, 0.5, -1.75, 3, 1 if not cplx else 1j, 0.25 if not cplx else 1 - 2j])
        return c

    def go(d):
        if d == 0 or rng.random() < 0.15:
            i = rng.randrange(n_in)
            return ins[i], xs[i], f"x{i}"
        op = rng.choice(["+", "-", "*", "/", "+c", "c+", "-c", "c-", "*c", "c*", "/c", "c/", "neg", "pos", "<<", ">>", "shared"])
        a, va, ta = go(d - 1)
        if op in "+-*/":
            b, vb, tb = go(d - 1)
            if op == "/" and abs(vb) < 1e-3:
                op = "+"
            if op == "+":
                return a + b, va + vb, f"({ta}+{tb})"
            if op == "-":
                return a - b, va - vb, f"({ta}-{tb})"
            if op == "*":
                return a * b, va * vb, f"({ta}*{tb})"
            return a / b, va / vb, f"({ta}/{tb})"
        c = const()
        if op == "+c":
            return a + c, va + c, f"({ta}+{c})"
        if op == "c+":
            return c + a, c + va, f"({c}+{ta})"
        if op == "-c":
            return a - c, va - c, f"({ta}-{c})"
        if op == "c-":
            return c - a, c - va, f"({c}-{ta})"
        if op == "*c":
            return a * c, va * c, f"({ta}*{c})"
        if op == "c*":
            return c * a, c * va, f"({c}*{ta})"
        if op == "/c":
            return a / c, va / c, f"({ta}/{c})"
        if op == "c/" and abs(va) > 1e-3:
            return c / a, c / va, f"({c}/{ta})"
        if op == "neg":
            return -a, -va, f"-{ta}"
        if op == "pos":
            return +a, va, f"+{ta}"
        if op == "shared":
            return a + a, va + va, f"(t+t={ta})"
        k = rng.randint(-4, 4)
        if op == "<<":
            return a << k, va * 2.0**k, f"({ta}<<{k})"
        return a >> k, va * 2.0**-k, f"({ta}>>{k})"

    outs = []
    for _ in range(rng.randint(1, 2)):
        o, v, t = go(rng.randint(1, 4))
        if o in ins or o in [q[0] for q in outs]:
            o, v, t = o + 0, v, t + "+0"
        outs.append((o, v, t))
    for i, inp in enumerate(ins):  # unused inputs are not allowed
        if not inp.output(0).signals:
            outs[0] = (outs[0][0] + inp, outs[0][1] + xs[i], outs[0][2] + f"+x{i}")
    ctx.sig = str([t for _, _, t in outs])
    ctx.sample = ctx.sig
    if any(not abs(v) < 1e6 for _, v, _ in outs):
        raise Skip("large")
    dk = rng.choice([0, 0, 1, 3])
    outp = []
    for o, _, _ in outs:
        q = Output()
        q.input(0).connect(o)
        if dk:
            q.input(0).delay(dk)
        outp.append(q)
    sfg = SFG(ins, outp)
    n = dk + 2
    got = simulate(sfg, [[x] * n for x in xs], n)
    for (o, v, t), seq in zip(outs, got):
        for k in range(n):
            w = v if k >= dk else 0
            ctx.count("values")
            ctx.check(close(seq[k], w, 1e-7, 100), "expr", f"{t} on {xs}: {seq[k]} at {k}, expected {w}")


RANGES = {"SymmetricTwoportAdaptor": (-1, 1), "SeriesTwoportAdaptor": (0, 2), "ParallelTwoportAdaptor": (0, 2),
          "ReflectionFreeSeriesThreeportAdaptor": (0, 1)}


def case_params(ctx):
    """Parameters set through properties take effect; values outside the documented range are refused."""
    rng = ctx.rng
    op = [n for n in NAMES if n not in (SERIES,)][ctx.index % (len(NAMES) - 1)]
    cplx = rng.random() < 0.4 and op not in REALONLY
    p0, p1 = wide_params(rng, op, cplx), wide_params(rng, op, cplx)
    p0.pop("real_valued", None)
    p1.pop("real_valued", None)
    o = cls_of(op)(**p0)
    p = dict(p0)
    for k, v in p1.items():
        if rng.random() < 0.7:
            setattr(o, k, v)
            p[k] = v
    ctx.sig = f"{op}{p}"
    ctx.sample = ctx.sig
    if rng.random() < 0.5:
        o = o.copy()
    for k, v in p.items():
        ctx.check(getattr(o, k) == v and o.param(k) == v and o.params[k] == v, "params.value", f"{op}.{k} = {getattr(o, k)}, set {v}")
    xs = [rand_num(rng, cplx) for _ in range(REF[op][0])]
    want = REF[op][2](p, *xs)
    sc = max([abs(x) for x in xs] + [abs(w) for w in want if abs(w) < math.inf] + [1])
    for g, w in zip(evaluations(op, o, p, xs), want):
        ctx.check(close(g, w, 1e-9, sc), "params.evaluate", f"{op} {p} on {xs}: {g}, expected {w}")
    if op in RANGES:
        lo, hi = RANGES[op]
        bad = rng.choice([lo - 10 ** rng.uniform(-6, 1), hi + 10 ** rng.uniform(-6, 1)])
        for how in ("ctor", "set"):
            try:
                if how == "ctor":
                    cls_of(op)(value=bad)
                else:
                    o.value = bad
                ctx.fail("params.range", f"{op} accepts value {bad}")
            except ValueError:
                ctx.count("refused")
        ctx.check(o.value == p["value"], "params.range", f"{op}: refused value kept")
        for edge in (lo, hi):
            o.value = edge
            ctx.check(o.value == edge, "params.range", f"{op}: {edge}")
    if op in ("RightShift", "LeftShift", "Shift"):
        for bad in ([2.5] + ([-1] if op != "Shift" else [])):
            try:
                o.value = bad
                ctx.fail("params.range", f"{op} accepts {bad}")
            except (TypeError, ValueError):
                ctx.count("refused")
        ctx.check(o.value == p["value"], "params.range", f"{op}: refused value kept")


KINDS = {
    "evaluate": {"fn": case_evaluate, "quick": 20000, "thorough": 200000},
    "series": {"fn": case_series, "quick": 400, "thorough": 4000},
    "linear": {"fn": case_linear, "quick": 6000, "thorough": 100000},
    "graph": {"fn": case_graph, "quick": 6000, "thorough": 30000},
    "swap": {"fn": case_swap, "quick": 6000, "thorough": 40000},
    "latency": {"fn": case_latency, "quick": 3000, "thorough": 50000},
    "sfg_latency": {"fn": case_sfg_latency, "quick": 1500, "thorough": 20000},
    "expr": {"fn": case_expr, "quick": 8000, "thorough": 50000},
    "params": {"fn": case_params, "quick": 3000, "thorough": 50000},
}

if __name__ == "__main__":
    sys.exit(run_check(
        PROP, KINDS,
        rule="every operation type with random parameters and operands against its documented formula; superposition and constancy of declared "
             "operations and graphs; swapping in random graphs; latency histories against a plain record; expressions built with Python "
             "operators; non-trivial = distinct case (graphs: more than four nodes, swaps: at least one swap)",
        assumptions=["documented formulas as restated in vh/ops.py"],
        min_eval=500))
