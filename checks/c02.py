"""C02: the native FastSimulation under AddressSanitizer and UBSan against the dataflow semantics."""
import os
import sys

from vh import boot, native

if "VH_NATIVE_DIR" in os.environ:
    _ext = native.load()
    boot.install(_ext.FastSimulation)
else:
    boot.install()
import gc  # noqa: E402
import math  # noqa: E402
import random  # noqa: E402

import numpy as np  # noqa: E402
import b_asic as ba  # noqa: E402
from b_asic.operation import AbstractOperation  # noqa: E402
from b_asic.graph_component import Name, TypeName  # noqa: E402
from b_asic import Simulation  # noqa: E402

from vh.core import run_check, Skip  # noqa: E402
from vh.gen import Net, random_net, random_inputs, close, finite, LINEAR, BASIC  # noqa: E402
from vh.ops import REF  # noqa: E402
from vh.simh import unique_names  # noqa: E402

PROP = "C02"
OPS = sorted(set(LINEAR) | set(BASIC) | {"Addition", "Subtraction", "Multiplication", "Min", "Max", "Absolute", "Negation",
             "ComplexConjugate", "ConstantMultiplication", "R2Butterfly", "AddSub", "MAD", "SymmetricTwoportAdaptor",
             "R2DIFButterfly", "R4Butterfly", "RightShift", "Division"})
OPS_CPLX = [o for o in OPS if o not in ("Min", "Max")]
OPS = [o for o in OPS if o not in ("R4Butterfly", "R3Winograd", "R5Winograd", "R7Winograd", "SquareRoot", "ImaginaryMultiplication")]


ARMED = [False]
_CUSTOM = {}


def custom_class(n_in, n_out):
    """User-defined operation: output i is k*sum((j+1)*x_j) + i; raises when armed."""
    if (n_in, n_out) not in _CUSTOM:
        class Custom(AbstractOperation):
            __slots__ = ()
            is_linear = True

            def __init__(self, name=Name("")):
                super().__init__(input_count=n_in, output_count=n_out, name=name)
                self.set_param("k", 1)

            @classmethod
            def type_name(cls):
                return TypeName("".join(["cust", str(n_in), "x", str(n_out)]))  # a new string on every call

            def evaluate(self, *x, data_type=None):
                if ARMED[0]:
                    raise ArithmeticError("armed")
                s = sum((i + 1) * v for i, v in enumerate(x)) * self.param("k")
                r = [s + i for i in range(n_out)]
                return r if len(r) > 1 else r[0]
        _CUSTOM[n_in, n_out] = Custom
    return _CUSTOM[n_in, n_out]


def wrap(v, bits):
    v = complex(v)
    if v.imag != 0:
        raise Skip("complex value quantized")
    return float(int(v.real) & ((1 << bits) - 1)) if bits < 64 else float((int(v.real) + 2**63) % 2**64 - 2**63)


class Model:
    """Reference state machine for one simulator."""

    def __init__(self, net, edge_bits=None, custom=None):
        self.net, self.bits, self.custom = net, edge_bits or {}, custom or {}
        self.state = net.fresh_state()

    def reset(self):
        self.state = self.net.fresh_state()

    def step(self, xs, quantize=True, override=None):
        val = {}
        st = {k: (dict(v) if isinstance(v, dict) else v) for k, v in self.state.items()}
        import copy
        st = copy.deepcopy(self.state)
        outs = self._run(self.net, st, xs, val, quantize, override)
        return outs, val, st

    def _run(self, net, st, xs, val, quantize, override):
        use_edges = quantize and override is None
        m = (lambda v: wrap(v, override)) if quantize and override is not None else (lambda v: v)

        def src(nid, i):
            v = val[tuple(net.nodes[nid]["ins"][i])]
            b = self.bits.get((nid, i)) if net is self.net else None
            return wrap(v, b) if b is not None and use_edges else v

        for nid, x in zip(net.inputs, xs):
            val[(nid, 0)] = m(x)
        for nid in net.topo():
            n = net.nodes[nid]
            op = n["op"]
            if op in ("Input", "Output", "Sink"):
                continue
            if op == "Delay":
                val[(nid, 0)] = m(st[nid])
                continue
            a = [src(nid, i) for i in range(len(n["ins"]))]
            if op == "SFG":
                ys = self._run(n["p"]["net"], st[nid], a, {}, quantize, override)
            elif nid in self.custom and net is self.net:
                k, n_out = self.custom[nid]
                s = sum((i + 1) * v for i, v in enumerate(a)) * k
                ys = [s + i for i in range(n_out)]
            else:
                if op == "Division" and a[1] == 0:
                    raise Skip("division by zero")
                if op in ("Min", "Max") and any(isinstance(v, complex) for v in a):
                    raise Skip("ordering complex values")
                ys = REF[op][2](n["p"], *a)
            for k, y in enumerate(ys):
                val[(nid, k)] = m(y)
        outs = [src(o, 0) for o in net.outputs]
        for d in net.delays:
            st[d] = m(src(d, 0))
        return outs


def make_net(ctx, quant=False):
    rng = ctx.rng
    cplx = rng.random() < 0.2 and not quant
    ops = OPS_CPLX if cplx else OPS
    if quant:
        ops = [o for o in ops if o not in ("R4Butterfly", "R2DIFButterfly", "Division")]
    net = random_net(rng, n_ops=rng.randint(1, 12), n_delay=rng.choice([0, 1, 2, 3, 5, 8]), ops=ops, cplx=cplx,
                     nested=0 if quant else rng.choice([0, 0, 1, 2]), sinks=rng.random() < 0.2)
    # chained delays: delays reachable only through other delays
    if rng.random() < 0.5:
        for _ in range(rng.randint(1, 4)):
            d = rng.choice(net.delays) if net.delays else None
            if d is None:
                break
            s = net.nodes[d]["ins"][0]
            k = net.add("Delay", [tuple(s)], name="", initial_value=rng.choice([0, 1, -2, 0.5]))
            net.nodes[d]["ins"] = [(k, 0)]
        net._topo = None
    unique_names(net)
    return net, cplx


def build(ctx, net, edge_bits):
    sfg = net.build(ctx.rng)
    for (nid, i), b in edge_bits.items():
        ops = [c for c in sfg.find_by_name(net.nodes[nid]["name"]) if hasattr(c, "input_count")]
        if ops:
            ops[0].input(i).signals[0].bits = b
    return sfg


def observable(net):
    """Nodes from which an output can be reached (others need not be simulated)."""
    seen, todo = set(), list(net.outputs)
    while todo:
        k = todo.pop()
        if k in seen:
            continue
        seen.add(k)
        todo += [s[0] for s in net.nodes[k]["ins"]]
    return seen


def compare_results(ctx, net, sfg, res, saved, hist):
    obs = observable(net)
    for nid, n in net.nodes.items():
        if n["op"] in ("Output", "Sink") or nid not in obs:
            continue
        comps = [c for c in sfg.find_by_name(n["name"]) if hasattr(c, "input_count")]
        if not comps:
            continue
        gid = comps[0].graph_id
        for p in range(net.n_out(nid)):
            key = f"{gid}.{p}" if net.n_out(nid) > 1 else gid
            if key not in res:
                continue
            ctx.check(len(res[key]) == len(saved), "results.length", f"{hist}: {key}")
            for k, (v, sc) in enumerate(saved):
                ctx.counters["node_values"] += 1
                if not close(res[key][k], v[(nid, p)], scale=sc):
                    ctx.fail("node." + n["op"], f"{hist}: {key} at saved iteration {k}: got {res[key][k]}, expected {v[(nid, p)]}")
        if net.n_out(nid) == 1 and not any(m["op"] == "SFG" for m in net.nodes.values()):
            ctx.check(gid in res, "results.missing", f"no result for {gid} in {sorted(res)}")


def drive(ctx, sfg, net, edge_bits=None, quant=False, custom=None):
    rng = ctx.rng
    total = 30
    cplx = any(isinstance(n["p"].get("value"), complex) or n["p"].get("mul_j") for n in net.nodes.values())
    x = random_inputs(rng, len(net.inputs), total, rng.choice(["int", "dyadic", "float"]) if not quant else rng.choice(["int", "float"]))
    if quant and rng.random() < 0.4:
        x = [[v * rng.choice([1, 100, 2.0**40, -2.0**62, 2.0**64, 1e30]) for v in s] for s in x]
    style = [rng.choice(["list", "array", "callable", "number", "none"]) for _ in x]
    prov, fn = [], []
    bomb = [None]
    for st, seq in zip(style, x):
        if st == "number":
            prov.append(seq[0]); fn.append(lambda k, s=seq: s[0])
        elif st == "none":
            prov.append(None); fn.append(lambda k: 0)
        elif st == "callable":
            def f(k, s=seq):
                if bomb[0] == k:
                    bomb[0] = None
                    raise ArithmeticError("input")
                return s[k]
            prov.append(f); fn.append(lambda k, s=seq: s[k])
        else:
            prov.append({"list": list(seq), "array": np.array(seq)}[st]); fn.append(lambda k, s=seq: s[k])
    model = Model(net, edge_bits, custom)
    if rng.random() < 0.5:
        sim = ba.FastSimulation(sfg, prov)
    else:
        sim = ba.FastSimulation(sfg)
        sim.set_inputs(prov)
    probe = sfg
    if rng.random() < 0.3 and not custom:
        probe = sfg.copy() if hasattr(sfg, "copy") else sfg
    finite_len = any(s in ("list", "array") for s in style)
    it, saved, hist, scale = 0, [], [], 1.0

    def advance(to, save, quantize, override):
        nonlocal it, scale
        last = []
        while it < to:
            last, v, st = model.step([f(it) for f in fn], quantize, override)
            if not finite([v.values()], 1e12 if not quant else 1e40):
                raise Skip("diverges")
            model.state = st
            scale = max([scale] + [abs(y) for y in v.values()])
            if save:
                saved.append((v, scale))
            it += 1
        return last

    def same(r, last, what):
        ctx.check(len(r) == len(last) and all(close(a, b, scale=scale) for a, b in zip(r, last)), "return_value",
                  f"{hist}: {what} returned {r}, expected {last}")

    for _ in range(rng.randint(3, 16)):
        act = rng.choice(["step", "run_for", "run_until", "clear_results", "clear_state", "set_input", "step", "run_for",
                          "raise", "bad_input", "noop", "gc"])
        save = rng.random() < 0.75
        kw, q, ov = {}, True, None
        if quant:
            q = rng.random() < 0.8
            ov = rng.choice([None, None, 1, 4, 8, 16, 31, 32, 33, 47, 52])
            kw = {"quantize": q, "bits_override": ov}
            if not q:
                ov = None
        if act in ("step", "run_for", "run_until") and it < total:
            k = 1 if act == "step" else rng.randint(1, min(5, total - it))
            hist.append((act, k, save, kw))
            ctx.note(hist[-1])
            t = it + k
            last = advance(t, save, q, ov)
            r = sim.step(save, **kw) if act == "step" else (sim.run_for(k, save, **kw) if act == "run_for" else sim.run_until(t, save, **kw))
            same(r, last, act)
        elif act == "noop":
            hist.append((act,))
            r = sim.run_until(max(0, it - 1))
            ctx.check(list(r) == [] and sim.iteration == it, "noop", f"{hist}: run_until a past iteration did something: {r}")
        elif act == "clear_results":
            hist.append((act,))
            sim.clear_results()
            saved.clear()
            ctx.check(len(sim.results) == 0, "clear_results", "results left")
        elif act == "clear_state":
            hist.append((act,))
            ctx.note(act)
            sim.clear_state()
            model.reset()
        elif act == "set_input":
            i = rng.randrange(len(x))
            c = rng.randint(-3, 3)
            hist.append((act, i, c))
            sim.set_input(i, c)
            fn[i] = lambda k, c=c: c
        elif act == "gc":
            gc.collect()
        elif act == "bad_input":
            for bad in (lambda: sim.set_input(len(x), 1), lambda: sim.set_inputs([0] * (len(x) + 1))):
                try:
                    bad()
                    ctx.fail("args", "bad input accepted")
                except (IndexError, ValueError):
                    ctx.count("refused")
        elif act == "raise" and it < total:
            hist.append((act,))
            model.step([f(it) for f in fn])  # skips the case if this iteration is not usable
            if custom and rng.random() < 0.7:
                ARMED[0] = True
                try:
                    sim.step()
                except ArithmeticError:
                    ctx.count("raised_iterations")
                except BaseException as e:
                    ctx.fail("raise.type", f"{type(e)} instead of the exception of the operation")
                else:
                    ctx.check(any(n["op"] == "SFG" for n in net.nodes.values()) or not any(nid in observable(net) for nid in custom), "raise.lost", f"{hist}: exception swallowed")
                    last = advance(it + 1, True, True, None)
                finally:
                    ARMED[0] = False
            elif it + 3 <= total and "callable" in style:
                bomb[0] = it
                try:
                    sim.step()
                except ArithmeticError:
                    ctx.count("raised_iterations")
                else:
                    bomb[0] = None
                    advance(it + 1, True, True, None)
        ctx.check(sim.iteration == it, "iteration", f"{hist}: iteration {sim.iteration}, expected {it}")
        ctx.count("api_calls")
    if finite_len and rng.random() < 0.5:
        hist.append(("run",))
        last = advance(total, True, True, None)
        r = sim.run()
        if last:
            same(r, last, "run")
    elif not finite_len:
        try:
            sim.run()
            ctx.fail("run.unlimited", "run() without finite inputs did not raise")
        except IndexError:
            ctx.count("refused")
    if it > 0 and rng.random() < 0.2:
        try:
            sim.run_for(2**32 - 1)
            ctx.fail("overflow", "iteration overflow accepted")
        except ValueError:
            ctx.count("refused")
    ctx.sample = {"net": net.describe(), "history": hist}
    if saved:
        res = sim.results
        compare_results(ctx, net, probe, res, saved, hist)
    else:
        ctx.check(len(sim.results) == 0, "results.unsaved", "results although nothing saved")
    return sim


def case_history(ctx):
    net, cplx = make_net(ctx)
    ctx.sig = net.signature()
    ctx.nontrivial = bool(net.delays)
    drive(ctx, build(ctx, net, {}), net)


def case_quantize(ctx):
    rng = ctx.rng
    net, _ = make_net(ctx, quant=True)
    ctx.sig = net.signature()
    edges = [(nid, i) for nid, n in net.nodes.items() for i in range(len(n["ins"])) if n["op"] != "Sink"]
    eb = {e: rng.choice([0, 1, 2, 7, 8, 16, 31, 32, 33, 48, 52]) for e in edges if rng.random() < 0.3}
    drive(ctx, build(ctx, net, eb), net, edge_bits=eb, quant=True)


def case_wide(ctx):
    """Masks of 53 to 64 bits and huge values: only the sanitizers judge, plus 64-bit wrapping."""
    rng = ctx.rng
    x = ba.Input()
    y = ba.Output(ba.Addition(x, x))
    sfg = ba.SFG([x], [y])
    b = rng.choice([53, 60, 62, 63, 64])
    ctx.sig = str(b) + str(ctx.index)
    if rng.random() < 0.5:
        sfg.find_by_id("add0").input(0).signals[0].bits = b
    v = rng.choice([1.0, -1.0, 2.0**52, 2.0**62, 2.0**63, -2.0**63, 2.0**64, -2.0**70, 1e300, -1e300])
    sim = ba.FastSimulation(sfg, [v])
    if rng.random() < 0.5:
        r = sim.step(True, b)
        want = 2 * (int(v) % 2**b) % 2**b
        got = int(complex(r[0]).real) % 2**b
        d = (got - want) % 2**b
        ctx.check(min(d, 2**b - d) <= 2.0 ** (b - 50), "wide", f"{v} in {b} bits: {r}, expected {want}")
    else:
        sim.step()
    for bad in (65, 200):
        try:
            sim.step(True, bad)
            ctx.fail("bits", f"{bad} bits accepted")
        except ValueError:
            ctx.count("refused")
    ctx.check(True, "ok")
    for v in (math.inf, -math.inf, math.nan):
        s2 = ba.FastSimulation(sfg, [v])
        try:
            s2.step(True, 8)
        except (ValueError, OverflowError):
            ctx.count("refused")


def case_custom(ctx):
    rng = ctx.rng
    net, _ = make_net(ctx)
    ctx.sig = net.signature()
    ids = [k for k, n in net.nodes.items() if n["op"] in REF and REF[n["op"]][0] >= 1]
    rng.shuffle(ids)
    custom, repl = {}, {}
    for k in ids[:rng.randint(1, 3)]:
        n = net.nodes[k]
        custom[k] = (rng.choice([0.5, -0.25, 1]), REF[n["op"]][1])
    ctx.nontrivial = bool(custom)

    sfg = build_custom(rng, net, custom)
    drive(ctx, sfg, net, custom=custom)


def build_custom(rng, net, custom):
    made = {}
    for nid in net.topo():
        n = net.nodes[nid]
        op = n["op"]
        if op == "SFG":
            o = n["p"]["net"].build(rng, name=n["name"])
        elif nid in custom:
            o = custom_class(len(n["ins"]), custom[nid][1])(name=n["name"])
            o.set_param("k", custom[nid][0])
        elif op == "Delay":
            o = ba.Delay(initial_value=n["p"].get("initial_value", 0), name=n["name"])
        else:
            cls = getattr(ba, op, None)
            for mod in ("core_operations", "fft_operations", "wdf_operations", "special_operations"):
                cls = cls or getattr(__import__("b_asic." + mod, fromlist=["x"]), op, None)
            o = cls(name=n["name"], **{k: v for k, v in n["p"].items()})
        made[nid] = o
    for nid, n in net.nodes.items():
        for i, s in enumerate(n["ins"]):
            made[nid].input(i).connect(made[s[0]].output(s[1]))
    return ba.SFG([made[k] for k in net.inputs], [made[k] for k in net.outputs])


def case_cross(ctx):
    """FastSimulation and Simulation of the same SFG."""
    rng = ctx.rng
    net, _ = make_net(ctx)
    ctx.sig = net.signature()
    sfg = net.build(rng)
    n = rng.randint(2, 12)
    x = random_inputs(rng, len(net.inputs), n, "dyadic")
    m = Model(net)
    sc = 1
    for k in range(n):
        _, v, m.state = m.step([s[k] for s in x])
        if not finite([v.values()], 1e9):
            raise Skip("diverges")
        sc = max([sc] + [abs(y) for y in v.values()])
    a, b = Simulation(sfg, x if len(x) > 1 else [x[0]]), ba.FastSimulation(sfg, x)
    a.run_for(n)
    del sfg
    gc.collect()
    b.run_for(n)
    ra, rb = a.results, b.results
    for key, seq in rb.items():
        ctx.check(key in ra or "." in key or not key, "cross.key", f"{key} not among the results of Simulation")
        if key in ra:
            ctx.count("cross_values", n)
            ctx.check(all(close(p, q, scale=sc) for p, q in zip(seq, ra[key])), "cross.value", f"{key}: native {list(seq)}, Python {list(ra[key])}")
    ctx.check(not rb or len(ra) >= 1, "ok")


def case_refuse(ctx):
    """Delay-free loops (also through nested SFGs) and wrong input counts are refused, never crash."""
    rng = ctx.rng
    n = rng.randint(1, 6)
    x = ba.Input()
    first = ba.Addition(x)
    cur = first
    for _ in range(n):
        cur = rng.choice([lambda c: ba.ConstantMultiplication(0.5, c), lambda c: ba.Addition(c, x), lambda c: ba.Absolute(c)])(cur)
    first.input(1).connect(cur)
    ctx.sig = f"loop{n}{ctx.index}"
    try:
        sfg = ba.SFG([x], [ba.Output(cur)])
        sim = ba.FastSimulation(sfg, [1])
        sim.step()
        ctx.fail("loop", "delay-free loop accepted")
    except ValueError:
        ctx.count("refused")
    ctx.check(True, "ok")
    x = ba.Input()
    sfg = ba.SFG([x], [ba.Output(ba.Absolute(x))])
    for bad in ([1, 2], []):
        try:
            ba.FastSimulation(sfg, bad)
            ctx.fail("args.count", f"{bad} accepted")
        except ValueError:
            ctx.count("refused")
    try:
        ba.FastSimulation(rng.choice([5, None, "x", object()]))
        ctx.fail("args.type", "not an SFG accepted")
    except (TypeError, AttributeError, RuntimeError, ValueError):
        ctx.count("refused")
    sim = ba.FastSimulation(sfg, [[1, 2, 3]])
    try:
        sim.set_input(0, [1, 2])
        ctx.fail("args.length", "inconsistent length accepted")
    except ValueError:
        ctx.count("refused")
    sim.run()
    try:
        sim.step()
        ctx.fail("exhausted", "read past the end of the inputs")
    except IndexError:
        ctx.count("refused")


def case_sinks(ctx):
    """Graphs without outputs, only constants, pass-through inputs, long chains."""
    rng = ctx.rng
    v = ctx.index % 4
    ctx.sig = str(ctx.index)
    if v == 0:
        x = ba.Input()
        d = ba.Delay(x)
        try:
            sfg = ba.SFG([x], [], sinks=[ba.Sink(d)]) if "sinks" in ba.SFG.__init__.__code__.co_varnames else ba.SFG([x], [])
        except (ValueError, TypeError):
            raise Skip("no such SFG")
        sim = ba.FastSimulation(sfg, [[1, 2, 3]])
        r = sim.run(True, rng.choice([None, 8]))
        ctx.check(list(r) == [], "sinks", f"{r}")
    elif v == 1:
        sfg = ba.SFG([], [ba.Output(ba.Constant(3))])
        sim = ba.FastSimulation(sfg, [])
        ctx.check(sim.run_for(rng.randint(1, 5))[0] == 3, "const", "")
    elif v == 2:
        n = rng.randint(1, 60)
        x = ba.Input()
        cur = x
        iv = [rng.randint(-5, 5) for _ in range(n)]
        for i in range(n):
            cur = ba.Delay(cur, initial_value=iv[i])
        sfg = ba.SFG([x], [ba.Output(cur)])
        seq = [rng.randint(-9, 9) for _ in range(2 * n)]
        sim = ba.FastSimulation(sfg, [seq])
        sim.run()
        want = (iv[::-1] + seq)[:2 * n]
        ctx.check([complex(q).real for q in sim.results[next(k for k in sim.results if k == sfg.output_operations[0].input(0).signals[0].source.operation.graph_id)]] == want,
                  "chain", "shift register wrong")
    else:
        n = rng.randint(100, 700)
        x = ba.Input()
        cur = x
        for _ in range(n):
            cur = ba.Addition(cur, x)
        sfg = ba.SFG([x], [ba.Output(cur)])
        ctx.check(ba.FastSimulation(sfg, [2]).step()[0] == 2 * (n + 1), "chain", "addition chain wrong")


KINDS = {
    "history": {"fn": case_history, "quick": 5000, "thorough": 60000},
    "quantize": {"fn": case_quantize, "quick": 3000, "thorough": 30000},
    "wide": {"fn": case_wide, "quick": 200, "thorough": 1000},
    "custom": {"fn": case_custom, "quick": 2500, "thorough": 25000},
    "cross": {"fn": case_cross, "quick": 2000, "thorough": 20000},
    "refuse": {"fn": case_refuse, "quick": 150, "thorough": 1000},
    "sinks": {"fn": case_sinks, "quick": 80, "thorough": 400},
}
for _v in KINDS.values():
    _v["report"] = native.crash_report

if __name__ == "__main__":
    if "VH_NATIVE_DIR" not in os.environ:
        rc = native.reexec_with_sanitizer("checks.c02")
        sys.exit(2 if rc is None else rc)
    sys.exit(run_check(
        PROP, KINDS,
        rule="random netlists (nested SFGs, delay chains, user-defined operations, quantized signals) driven by random API "
             "histories with exceptions injected, in an ASan+UBSan build of src/; non-trivial = has delays",
        assumptions=["g++ -O1 with address, undefined and float-cast-overflow sanitizers and libstdc++ assertions",
                     "the project's meson build itself is not exercised: it needs a fmt subproject that is not available offline"],
        min_eval=200))
