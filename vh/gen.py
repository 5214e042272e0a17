"""Random signal-flow graphs as plain netlists, an independent interpreter, and a builder.

A netlist is {"nodes": {nid: Node}, "inputs": [nid], "outputs": [nid], "delays": [nid]}.
Node kinds are names of vh.ops.REF plus "Input", "Output", "Delay", "SFG", "Sink".
"""
import math
import random as _random

from .ops import REF

DYADIC = [-2, -1.5, -1, -0.75, -0.5, -0.25, 0.25, 0.5, 0.75, 1, 1.5, 2]
SMALL = [-1, -0.75, -0.5, -0.25, 0.25, 0.5, 0.75, 1, 0.125, -0.625]


def _params(rng, op, small):
    c = rng.choice
    coef = c(SMALL if small else DYADIC)
    if op == "Constant":
        return {"value": c([-3, -1, 0, 1, 2, 0.5, 5])}
    if op == "ConstantMultiplication":
        return {"value": coef}
    if op == "AddSub":
        return {"is_add": rng.random() < 0.5, "shift_output": c([0, 0, 0, 1, 2])}
    if op in ("Addition", "Subtraction"):
        return {"shift_output": c([0, 0, 0, 1, 2])}
    if op == "ShiftAddSub":
        return {"is_add": rng.random() < 0.5, "shift": c([0, 1, 2, 3]), "shift_output": c([0, 0, 1])}
    if op == "MAD":
        return {"do_add": rng.random() < 0.8}
    if op == "MADS":
        return {"is_add": rng.random() < 0.5, "do_addsub": rng.random() < 0.8}
    if op in ("RightShift",):
        return {"value": c([0, 1, 2, 3])}
    if op == "LeftShift":
        return {"value": c([0, 1])}
    if op == "Shift":
        return {"value": c([-1, 0, 1, 2])}
    if op in ("SymmetricTwoportAdaptor",):
        return {"value": c([-0.75, -0.5, -0.25, 0.25, 0.5, 0.75])}
    if op in ("SeriesTwoportAdaptor", "ParallelTwoportAdaptor"):
        return {"value": c([0.25, 0.5, 0.75, 1, 1.25, 1.5])}
    if op == "SeriesThreeportAdaptor":
        v0 = c([0.25, 0.5, 0.75])
        return {"value": (v0, c([0.25, 0.5, 0.75]))}
    if op == "ReflectionFreeSeriesThreeportAdaptor":
        return {"value": c([0.25, 0.5, 0.75])}
    if op in ("R2DIFButterfly", "R2DITButterfly"):
        return {"w": c([1, -1, 0.5, -0.25])}
    if op == "R2TFButterfly":
        return {"w0": c([1, -1, 0.5]), "w1": c([1, -1, 0.5, -0.25])}
    return {}


LINEAR = ["Addition", "Subtraction", "AddSub", "ShiftAddSub", "ConstantMultiplication", "Negation",
          "RightShift", "LeftShift", "Shift", "SymmetricTwoportAdaptor", "R2Butterfly"]
LINEAR_X = LINEAR + ["ParallelTwoportAdaptor", "SeriesThreeportAdaptor",
                     "ReflectionFreeSeriesThreeportAdaptor", "R2DIFButterfly", "R2DITButterfly", "R2TFButterfly"]
REALS = LINEAR_X + ["Min", "Max", "Absolute", "MAD", "MADS", "Multiplication"]
SINGLE = [o for o in LINEAR if REF[o][1] == 1]
BASIC = ["Addition", "Subtraction", "ConstantMultiplication", "Addition", "ConstantMultiplication", "AddSub"]
CPLX = ["Addition", "Subtraction", "AddSub", "ConstantMultiplication", "Negation", "ImaginaryMultiplication",
        "ComplexConjugate", "R4Butterfly", "R3Winograd", "R2Butterfly", "R2DIFButterfly", "MAD", "Multiplication"]

WEIRD_NAMES = ["", "", "", "", "x", "x", "a b", "node", "in0", "add0", "t0", "cmul0", "1st", "å", "y_0"]


class Diverges(Exception):
    pass


class Net:
    def __init__(self):
        self.nodes = {}
        self.inputs = []
        self.outputs = []
        self.delays = []

    def add(self, op, ins=(), name="", **params):
        nid = len(self.nodes)
        self.nodes[nid] = {"op": op, "ins": list(ins), "p": params, "name": name}
        if op == "Input":
            self.inputs.append(nid)
        elif op == "Output":
            self.outputs.append(nid)
        elif op == "Delay":
            self.delays.append(nid)
        return nid

    def n_out(self, nid):
        n = self.nodes[nid]
        if n["op"] in ("Input", "Delay"):
            return 1
        if n["op"] in ("Output", "Sink"):
            return 0
        if n["op"] == "SFG":
            return len(n["p"]["net"].outputs)
        return REF[n["op"]][1]

    def consumers(self):
        c = {}
        for nid, n in self.nodes.items():
            for i, s in enumerate(n["ins"]):
                c.setdefault(tuple(s), []).append((nid, i))
        return c

    def signature(self):
        def par(p):
            return {k: (v.signature() if isinstance(v, Net) else v) for k, v in sorted(p.items())}
        return repr([(n["op"], n["ins"], par(n["p"])) for n in self.nodes.values()])

    def describe(self):
        out = []
        for nid, n in self.nodes.items():
            p = {k: (v.describe() if isinstance(v, Net) else v) for k, v in n["p"].items()}
            out.append(f"{nid}:{n['op']}{p or ''}<-{n['ins']}" + (f" '{n['name']}'" if n["name"] else ""))
        return "; ".join(out)

    # -- independent semantics ------------------------------------------------
    def fresh_state(self):
        st = {}
        for nid, n in self.nodes.items():
            if n["op"] == "Delay":
                st[nid] = n["p"].get("initial_value", 0)
            elif n["op"] == "SFG":
                st[nid] = n["p"]["net"].fresh_state()
        return st

    def step(self, state, xs, values=None, post=None):
        """One iteration. Returns outputs; ``values`` collects (nid, port) -> value."""
        val = {} if values is None else values
        for nid, x in zip(self.inputs, xs):
            val[(nid, 0)] = x
        order = self.topo()
        for nid in order:
            n = self.nodes[nid]
            op = n["op"]
            if op == "Input":
                continue
            if op == "Delay":
                val[(nid, 0)] = state[nid]
                continue
            if op in ("Output", "Sink"):
                continue
            a = [val[tuple(s)] for s in n["ins"]]
            if op == "SFG":
                ys = n["p"]["net"].step(state[nid], a, None, post)
            else:
                ys = REF[op][2](n["p"], *a)
            if post is not None and op != "SFG":
                ys = [post(nid, y, a) for y in ys]
            for k, y in enumerate(ys):
                val[(nid, k)] = y
        outs = [val[tuple(self.nodes[o]["ins"][0])] for o in self.outputs]
        for d in self.delays:
            state[d] = val[tuple(self.nodes[d]["ins"][0])]
        return outs

    def run(self, inputs, n, state=None, limit=None, post=None):
        """inputs: list (per input) of sequences; returns (outputs per iteration, node values per iteration)."""
        st = self.fresh_state() if state is None else state
        ys, vs = [], []
        for k in range(n):
            v = {}
            ys.append(self.step(st, [x[k] for x in inputs], v, post))
            if limit is not None and not finite([v.values()], limit):
                raise Diverges
            vs.append(v)
        return ys, vs

    def topo(self):
        if getattr(self, "_topo", None) and len(self._topo) == len(self.nodes):
            return self._topo
        done, order = set(), []
        for nid, n in self.nodes.items():
            if n["op"] in ("Input", "Delay", "Constant"):
                done.add(nid)
                order.append(nid)
        rest = [k for k in self.nodes if k not in done]
        while rest:
            nxt = []
            for k in rest:
                if all(s[0] in done for s in self.nodes[k]["ins"]):
                    done.add(k)
                    order.append(k)
                else:
                    nxt.append(k)
            if len(nxt) == len(rest):
                raise ValueError("delay-free loop in netlist")
            rest = nxt
        self._topo = order
        return order

    # -- building through the public API ---------------------------------------
    def build(self, rng=None, name="", lat=None, as_parts=False, sfg_kwargs=None, sig_mode=True):
        """Build a b_asic SFG. With rng, construction order and style vary.

        lat: function(op_name, node) -> dict of latency kwargs.
        """
        import b_asic as ba
        rng = rng or _random.Random(0)
        made = {}
        ids = list(self.nodes)
        mode = rng.choice(["topo", "shuffle", "topo"])
        if mode == "shuffle":
            rng.shuffle(ids)
        else:
            ids = self.topo()
        pend = []
        for nid in ids:
            n = self.nodes[nid]
            kw = {"name": n["name"]} if n["name"] else {}
            op = n["op"]
            srcs = []
            for i, s in enumerate(n["ins"]):
                if s[0] in made and rng.random() < 0.7:
                    srcs.append(made[s[0]].output(s[1]))
                else:
                    srcs.append(None)
                    pend.append((nid, i, s))
            if op == "SFG":
                o = n["p"]["net"].build(rng, name=n["name"])
                for i, s in enumerate(srcs):
                    if s is not None:
                        o.input(i).connect(s)
            elif op == "Input":
                o = ba.Input(**kw)
            elif op == "Output":
                o = ba.Output(srcs[0], **kw)
            elif op == "Sink":
                o = ba.Sink(**kw)
                if srcs[0] is not None:
                    o.input(0).connect(srcs[0])
            elif op == "Delay":
                o = ba.Delay(srcs[0], initial_value=n["p"].get("initial_value", 0), **kw)
            else:
                cls = getattr(ba, op, None)
                if cls is None:
                    import b_asic.core_operations as co
                    import b_asic.fft_operations as fo
                    import b_asic.wdf_operations as wo
                    cls = getattr(co, op, None) or getattr(fo, op, None) or getattr(wo, op)
                kw.update(n["p"])
                if lat is not None:
                    kw.update(lat(op, n) or {})
                kw.update({f"src{i}": s for i, s in enumerate(srcs) if s is not None})
                o = cls(**kw)
            made[nid] = o
        rng.shuffle(pend)
        for nid, i, s in pend:
            src = made[s[0]].output(s[1])
            if sig_mode and rng.random() < 0.3:
                ba.Signal(source=src, destination=made[nid].input(i))
            elif sig_mode and rng.random() < 0.3:
                if made[nid].input_count == 1:
                    o = made[nid]
                    o <<= src
                else:
                    p = made[nid].input(i)
                    p <<= src
            else:
                made[nid].input(i).connect(src)
        ins = [made[k] for k in self.inputs]
        outs = [made[k] for k in self.outputs]
        if as_parts:
            return ins, outs, made
        return ba.SFG(inputs=ins, outputs=outs, name=name, **(sfg_kwargs or {}))


def random_net(rng, n_ops=8, n_in=None, n_out=None, n_delay=None, ops=None, names=False, nested=0, small=True,
               sinks=False, dangling=True, delay_chain=True, cplx=False, init=True, min_in=1, const=0.06):
    ops = ops or REALS
    net = Net()
    n_in = n_in if n_in is not None else rng.choice([1, 1, 2, 3])
    n_delay = n_delay if n_delay is not None else rng.choice([0, 1, 2, 3, 4])

    def nm():
        return rng.choice(WEIRD_NAMES) if names else ""

    avail = []  # (nid, port)
    unused = []
    for _ in range(max(n_in, min_in)):
        k = net.add("Input", name=nm())
        avail.append((k, 0))
        unused.append((k, 0))
    for _ in range(n_delay):
        iv = rng.choice([0, 0, 1, -1, 0.5, 2]) if init else 0
        k = net.add("Delay", [None], name=nm(), initial_value=iv)
        avail.append((k, 0))
        unused.append((k, 0))

    def pick():
        if unused and rng.random() < 0.6:
            s = unused.pop(rng.randrange(len(unused)))
        elif rng.random() < 0.5:
            s = avail[max(0, len(avail) - 1 - int(rng.expovariate(0.4)))]
        else:
            s = rng.choice(avail)
        if s in unused:
            unused.remove(s)
        return s

    for _ in range(n_ops):
        if nested and rng.random() < 0.2:
            sub = random_net(rng, n_ops=rng.randint(1, 4), n_in=rng.choice([1, 2]), n_out=rng.choice([1, 2]),
                             n_delay=rng.choice([0, 1, 2]), ops=ops, nested=nested - 1, names=names, small=small,
                             cplx=cplx, init=init, const=const)
            k = net.add("SFG", [pick() for _ in sub.inputs], name=nm(), net=sub)
        else:
            op = rng.choice(ops) if rng.random() > const else "Constant"
            p = _params(rng, op, small)
            if cplx:
                if op == "ConstantMultiplication":
                    p["value"] = rng.choice([0.5, -0.5, 0.5j, 0.25 - 0.5j, 1 + 0.5j])
                if op in ("Addition", "Subtraction", "AddSub", "ShiftAddSub") and rng.random() < 0.3:
                    p["mul_j"] = True
            k = net.add(op, [pick() for _ in range(REF[op][0])], name=nm(), **p)
        for j in range(net.n_out(k)):
            avail.append((k, j))
            unused.append((k, j))
    # close delays: the source may be anything except (for chains) an undriven cycle of delays only
    ds = list(net.delays)
    rng.shuffle(ds)
    delay_set = set(ds)
    closed = set()
    for d in ds:
        cand = [s for s in avail if s[0] not in delay_set or (delay_chain and s[0] in closed and s[0] != d)]
        pref = [s for s in cand if s in unused]
        s = rng.choice(pref) if pref and rng.random() < 0.7 else rng.choice(cand)
        if s in unused:
            unused.remove(s)
        net.nodes[d]["ins"] = [s]
        closed.add(d)
    # outputs
    want = n_out if n_out is not None else rng.choice([1, 1, 2, 3])
    used_src = set()
    for _ in range(want):
        pref = [s for s in unused if s[0] not in delay_set and net.nodes[s[0]]["op"] != "Input"]
        if pref:
            s = rng.choice(pref[-3:])
        else:
            cand = [s for s in avail if s not in used_src and net.nodes[s[0]]["op"] not in ("Input", "Constant")] or avail
            s = rng.choice(cand)
        if s in unused:
            unused.remove(s)
        if s in used_src:
            continue
        used_src.add(s)
        net.add("Output", [s], name=nm())
    if not net.outputs:
        raise ValueError("no outputs")
    # what is still unused: inputs/delays/single outputs must be consumed
    by_op = {}
    for s in unused:
        by_op.setdefault(s[0], []).append(s)
    cons = net.consumers()
    for nid, lst in by_op.items():
        for s in lst:
            if s in cons:
                continue
            other_used = any((nid, j) in cons for j in range(net.n_out(nid)))
            if dangling and net.n_out(nid) > 1 and other_used and rng.random() < 0.4:
                continue
            if sinks and rng.random() < 0.5:
                net.add("Sink", [s])
            elif n_out is None:
                net.add("Output", [s], name=nm())
            else:
                # fold into an existing output by an addition
                o = rng.choice(net.outputs)
                old = tuple(net.nodes[o]["ins"][0])
                k = net.add("Addition" if not cplx else "Addition", [old, s])
                net.nodes[o]["ins"] = [(k, 0)]
            cons = net.consumers()
    return net


def random_inputs(rng, count, n, kind="int", cplx=False):
    def one():
        if kind == "int":
            v = rng.randint(-8, 8)
        elif kind == "dyadic":
            v = rng.randint(-64, 64) / 16
        else:
            v = rng.uniform(-1, 1)
        if cplx:
            v = complex(v, rng.randint(-4, 4) / 2)
        return v
    return [[one() for _ in range(n)] for _ in range(count)]


def finite(ys, limit=1e9):
    for row in ys:
        for y in row:
            try:
                a = abs(y)
            except OverflowError:
                return False
            if not a < limit:
                return False
    return True


def noise(rng, eps=1e-14):
    """Perturbation used to find out how strongly a graph amplifies rounding errors."""
    def post(nid, y, ins):
        m = max([abs(v) for v in ins if abs(v) < math.inf] + [abs(y)])
        return y + m * eps * rng.choice((-1, 1))
    return post


def well_conditioned(vs, ws, tol=1e-8):
    for v, w, sc in zip(vs, ws, running_scale(vs)):
        for k, y in v.items():
            if abs(y - w[k]) > tol * sc:
                return False
    return True


def running_scale(vs):
    """Largest magnitude seen anywhere up to each iteration (for cancellation-proof tolerances)."""
    out, m = [], 1.0
    for v in vs:
        for y in v.values():
            a = abs(y)
            if a > m and a < math.inf:
                m = a
        out.append(m)
    return out


def close(a, b, tol=1e-9, scale=1.0):
    try:
        a, b = complex(a), complex(b)
    except TypeError:
        return False
    if a == b:
        return True
    if math.isnan(a.real) or math.isnan(b.real):
        return math.isnan(a.real) and math.isnan(b.real)
    return abs(a - b) <= tol * max(1.0, scale, abs(a), abs(b))
