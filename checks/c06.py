"""C06: state-space, transfer-function and impulse-response analyses match behaviour."""
import cmath
import copy
import itertools
import sys

import numpy as np

from vh import boot

boot.install()
from b_asic import SFG, Delay, Input, Output  # noqa: E402
from b_asic.state_space import StateSpace  # noqa: E402
from b_asic.transfer_function import TransferFunction  # noqa: E402
from b_asic.utility_operations import DontCare, Sink  # noqa: E402

from vh.core import Skip, run_check  # noqa: E402
from vh.gen import LINEAR, LINEAR_X, BASIC, REF, random_net  # noqa: E402
from vh.simh import unique_names  # noqa: E402
from vh.sound import fingerprint  # noqa: E402

PROP = "C06"
CLIN = ["Addition", "Subtraction", "AddSub", "ConstantMultiplication", "Negation", "ImaginaryMultiplication", "R4Butterfly", "R3Winograd", "R2Butterfly", "R2DIFButterfly"]
NONLINEAR = ["Absolute", "Min", "Max", "SquareRoot", "Reciprocal", "ReciprocalSquareRoot", "Multiplication", "Division", "MAD", "MADS"]


# -- reference: the network at rest ---------------------------------------------------
def at_rest(net):
    for n in net.nodes.values():
        if n["op"] == "Delay":
            n["p"]["initial_value_ref"] = n["p"].pop("initial_value", 0)
        elif n["op"] == "SFG":
            at_rest(n["p"]["net"])


def rest_copy(net):
    net = copy.deepcopy(net)
    at_rest(net)
    return net


def states(net, prefix=""):
    """Paths of all delays, also of nested networks."""
    out = []
    for nid, n in net.nodes.items():
        if n["op"] == "Delay":
            out.append((nid,))
        elif n["op"] == "SFG":
            out += [(nid, *p) for p in states(n["p"]["net"])]
    return out


def put(st, path, v):
    for k in path[:-1]:
        st = st[k]
    st[path[-1]] = v


def get(st, path):
    for k in path:
        st = st[k]
    return st


def matrices(net):
    """A, B, C, D of the reference semantics; net is at rest."""
    ps, m, k = states(net), len(net.inputs), len(net.outputs)
    n = len(ps)
    M = np.zeros((n + k, n + m), dtype=complex)
    for col in range(n + m):
        st = net.fresh_state()
        if col < n:
            put(st, ps[col], 1)
        y = net.step(st, [1 if col == n + i else 0 for i in range(m)])
        M[:n, col] = [get(st, p) for p in ps]
        M[n:, col] = y
    return M[:n, :n], M[:n, n:], M[n:, :n], M[n:, n:]


def responses(net, n):
    """[input][time] -> {(nid, port): value}, outputs under (nid, 0)."""
    out = []
    for i in range(len(net.inputs)):
        ys, vs = net.run([[1 if k == 0 and i == j else 0 for k in range(n)] for j in range(len(net.inputs))], n)
        for y, v in zip(ys, vs):
            for o, val in zip(net.outputs, y):
                v[o, 0] = val
        out.append(vs)
    return out


def H(A, B, C, D, z):
    return D + C @ np.linalg.solve(z * np.eye(len(A)) - A, B) if len(A) else D


def linear_net(ctx, nested=True, cplx=None):
    rng = ctx.rng
    cplx = rng.random() < 0.3 if cplx is None else cplx
    ops = CLIN if cplx else rng.choice([LINEAR, LINEAR_X, BASIC])
    for _ in range(10):
        net = random_net(rng, n_ops=rng.randint(1, 10), n_delay=rng.choice([0, 1, 2, 3, 4, 5, 7]), ops=ops, cplx=cplx, const=0, nested=rng.choice([0, 0, 1, 2]) if nested else 0,
                         sinks=rng.random() < 0.2, init=rng.random() < 0.3)
        constant_factors(rng, net)
        unique_names(net)
        ref = rest_copy(net)
        A, B, C, D = matrices(ref)
        rho = max(abs(np.linalg.eigvals(A)), default=0)
        if rho > 1 and rng.random() < 0.5:
            continue
        if rho < 3 and np.all(np.abs(A) < 50):
            break
    else:
        raise Skip("spectral radius")
    ctx.sig, ctx.sample, ctx.nontrivial = net.signature(), net.describe()[:400], len(A) > 0 and len(net.nodes) > 4
    sfg = net.build(rng, name="s")
    ctx.check(sfg.is_linear, "linear", "a network of linear operations is reported as not linear")
    return net, ref, sfg, (A, B, C, D), rho


def constant_factors(rng, net, inner=False):
    """Write some multiplications by a constant with a Constant operation."""
    for nid, n in list(net.nodes.items()):
        if n["op"] == "SFG":
            constant_factors(rng, n["p"]["net"], True)
        if n["op"] == "ConstantMultiplication" and rng.random() < 0.25:
            v = n["p"]["value"]
            k = net.add("Constant", value=v)
            src = n["ins"][0]
            kind = rng.choice(["Multiplication", "Multiplication", "MAD", "Division", "MADS"])
            if kind == "Division" and (isinstance(v, complex) or v == 0 or np.log2(abs(v)) % 1):
                kind = "Multiplication"
            n["op"], n["p"] = kind, {}
            pair = [src, (k, 0)] if rng.random() < 0.5 else [(k, 0), src]
            if kind == "Multiplication":
                n["ins"] = pair
            elif kind == "MAD":
                n["ins"], n["p"] = [*pair, src], {"do_add": False}
            elif kind == "MADS":
                n["ins"], n["p"] = [src, *pair], {"is_add": True, "do_addsub": False}
            else:
                net.nodes[k]["p"]["value"] = 1 / v
                n["ins"] = [src, (k, 0)]


def near(a, b, tol, scale=1.0):
    return np.shape(a) == np.shape(b) and bool(np.all(np.abs(np.asarray(a) - np.asarray(b)) <= tol * max(scale, 1.0)))


def points(rng, rho, n=5):
    return [max(1.3, rho * 1.4) * (1 + rng.random()) * cmath.exp(2j * cmath.pi * rng.random()) for _ in range(n)]


def poly(c, z):
    """Polynomial in 1/z."""
    return sum(v * z ** -k for k, v in enumerate(c))


def check_ss(ctx, ss, ABCD, what, states_known=True):
    A, B, C, D = ABCD
    n = len(A)
    if states_known:
        ctx.check(ss.A.shape == A.shape and ss.B.shape == B.shape and ss.C.shape == C.shape and ss.D.shape == D.shape, "ss.shape",
                  lambda: f"{what}: shapes {ss.A.shape}, {ss.B.shape}, {ss.C.shape}, {ss.D.shape} for {n} delays, {B.shape[1]} inputs and {C.shape[0]} outputs")
    ctx.check(near(ss.D, D, 1e-9), "ss.D", lambda: f"{what}: D {ss.D}, simulated {D}")
    x, y = ss.B, B
    for k in range(2 * n + 2):
        ctx.check(near(ss.C @ x, C @ y, 1e-8, np.max(np.abs(y), initial=1) * 10), "ss.response", lambda: f"{what}: response at {k + 1} {ss.C @ x}, simulated {C @ y}")
        x, y = ss.A @ x, A @ y
    if not states_known:  # states that influence no output need not be there
        return
    p, q = np.poly(ss.A) if n else [1], np.poly(A) if n else [1]
    ctx.check(near(p, q, 1e-7, np.max(np.abs(q))), "ss.poles", lambda: f"{what}: characteristic polynomial {p}, simulated {q}")
    if n <= 5:
        ok = any(near(ss.A, A[np.ix_(s, s)], 1e-9) and near(ss.B, B[list(s)], 1e-9) and near(ss.C, C[:, list(s)], 1e-9) for s in itertools.permutations(range(n))) if n else True
        ctx.check(ok, "ss.states", lambda: f"{what}: matrices {ss} do not describe the delays, simulated A {A}, B {B}, C {C}")
    ctx.count("state_space_states", n)


def check_tf(ctx, tf, ABCD, rho, what, zpk=None):
    A, B, C, D = ABCD
    zs = points(ctx.rng, rho)
    n_out, n_in = D.shape
    zpk = tf.zpk() if zpk is None else zpk
    eig = np.linalg.eigvals(A) if len(A) else np.array([])
    ctx.check(len(tf.numerator) == n_in and len(zpk) == n_in, "tf.inputs", lambda: f"{what}: numerators for {list(tf.numerator)}, {n_in} inputs")
    powers = {}
    for z in zs:
        want = H(A, B, C, D, z)
        size = np.prod(1 + np.abs(eig) / abs(z)) / np.abs(np.prod(1 - eig / z)) if len(eig) else 1.0
        tol = 1e-8 * size * max(1.0, np.max(np.abs(want), initial=0), np.max(np.abs(C), initial=0) * np.max(np.abs(B), initial=0))
        for i in range(n_in):
            num, den = tf[f"in{i}"]
            rows = num if np.ndim(num) == 2 else [num]
            ctx.check(len(rows) == n_out, "tf.outputs", lambda: f"{what}: {len(rows)} numerators, {n_out} outputs")
            zeros, poles, gain = zpk[f"in{i}"]
            zeros, gain = (zeros, gain) if np.ndim(num) == 2 else ([zeros], [gain])
            for o in range(n_out):
                got = poly(rows[o], z) / poly(den, z)
                ctx.check(abs(got - want[o, i]) <= tol, "tf.value", lambda: f"{what}: H{o}{i}({z}) = {got}, simulated {want[o, i]}")
                v = gain[o] * np.prod([z - t for t in zeros[o]]) / np.prod([z - t for t in poles])
                # the numerator and denominator are polynomials in 1/z: factors of z only delay
                if not np.any(np.abs(rows[o]) > 1e-12):
                    ctx.check(abs(v) <= 1e-9 * abs(z) ** (len(zeros[o]) - len(poles)) or not np.any(rows[o]) and v == 0, "zpk.zero", lambda: f"{what}: zpk gives {v} for a zero transfer function")
                if abs(want[o, i]) < 1e4 * tol:
                    continue
                k = np.log(abs(v / want[o, i])) / np.log(abs(z)) if v else 1e9
                ctx.check(v != 0, "zpk.gain", lambda: f"{what}: gain {gain[o]} for H{o}{i}({z}) = {want[o, i]}")
                r = round(float(k))
                ctx.check(abs(v / want[o, i] / z ** r - 1) <= 1e-4 * size, "zpk.value", lambda: f"{what}: zpk ({zeros[o]}, {poles}, {gain[o]}) gives {v} for H{o}{i}({z}) = {want[o, i]}")
                if size < 100:
                    ctx.check(powers.setdefault((o, i), r) == r, "zpk.power", lambda: f"{what}: zpk differs by powers {powers[o, i]} and {r} of z")
    ctx.count("frequency_points", len(zs) * n_in * n_out)


def case_systems(ctx):
    net, ref, sfg, ABCD, rho = linear_net(ctx)
    before = fingerprint(sfg)
    ss = sfg.to_ss()
    check_ss(ctx, ss, ABCD, "to_ss", len(sfg.find_by_type(Delay)) == len(ABCD[0]))  # not nested, and all connected
    check_tf(ctx, sfg.to_tf(), ABCD, rho, "to_tf", sfg.to_zpk())
    check_tf(ctx, ctx.rng.choice([ss.to_tf, lambda: TransferFunction.from_sfg(sfg), lambda: TransferFunction.from_state_space(ss)])(), ABCD, rho, "from state space", ctx.rng.choice([None, ss.to_zpk()]))
    ctx.check(fingerprint(sfg) == before, "unchanged", "analysing changed the SFG")
    # a system given by its matrices
    A, B, C, D = ABCD
    rows = [m.tolist() if ctx.rng.random() < 0.5 else m for m in (A, B, C, D)]
    if len(A):
        own = StateSpace(*rows)
        check_ss(ctx, own, ABCD, "StateSpace")
        check_tf(ctx, own.to_tf(), ABCD, rho, "StateSpace.to_tf")


def keys(op):
    return [op.graph_id if isinstance(op, Output) else op.key(k, op.graph_id) for k in range(max(1, op.output_count))]


def node_map(net, sfg):
    """{result key: (nid, port)} of all top-level operations other than inputs."""
    out = {}
    for nid, n in net.nodes.items():
        found = [o for o in sfg.operations if o.name == n["name"]]
        if len(found) != 1 or n["op"] in ("Input", "Sink"):
            continue
        for p, k in enumerate(keys(found[0])):
            out[str(k)] = (nid, p)
    return out


def same_response(ctx, got, want, limit, mech, what, grow):
    """want: values at 0, 1, …; what follows the returned samples has to be below the threshold."""
    got = list(got)
    if not all(abs(v) < 1e9 for v in want):
        return
    scale = max([abs(v) for v in want] + [1.0, grow])  # rounding may be amplified as much as the states are
    ctx.check(len(got) <= len(want) or all(abs(v) < 1e-6 for v in got[len(want):]), mech + ".length", lambda: f"{what}: {len(got)} samples")
    for k, w in enumerate(want):
        g = got[k] if k < len(got) else 0
        ctx.check(abs(g - w) <= 1e-9 * scale + (limit if k >= len(got) else 0), mech, lambda: f"{what}: {g} at {k}, simulated {w}; {got[:6]}")


def case_responses(ctx):
    rng = ctx.rng
    net, ref, sfg, ABCD, rho = linear_net(ctx)
    before = fingerprint(sfg)
    decays = rho < 0.75
    cap = rng.randint(1, 30) if not decays or rng.random() < 0.3 else -1
    limit = rng.choice([1e-12, 1e-12, 1e-9, 1e-6])
    n = cap if cap > 0 else 120
    kw = {} if limit == 1e-12 and rng.random() < 0.5 else {"threshold": limit}
    if cap > 0:
        kw["max_iters"] = cap
    limit = kw.get("threshold", 1e-12)
    want = responses(ref, n)
    where = node_map(net, sfg)
    # a threshold test on all states and outputs bounds what can follow
    A, B, C, D = ABCD
    grow = 1.0
    if len(A):
        P = np.eye(len(A))
        for _ in range(n):
            P = A @ P
            grow = max(grow, np.max(np.abs(P), initial=0) * len(A))
    bound = limit * grow * 100 * max(1.0, np.max(np.abs(C), initial=0))
    for all_nodes in (False, True):
        got = sfg.get_impulse_responses(all_nodes=all_nodes, **kw)
        wanted = {k for k, (nid, _) in where.items() if all_nodes or net.nodes[nid]["op"] == "Output"}
        got_keys = {str(k) for k in got}
        ctx.check(wanted <= got_keys and (all_nodes or wanted == got_keys), "response.keys", lambda: f"responses for {got_keys}, nodes {wanted}")
        for k in wanted:
            ctx.check(len(got[k]) == len(net.inputs), "response.inputs", lambda: f"{k}: {len(got[k])} responses, {len(net.inputs)} inputs")
            if net.nodes[where[k][0]]["op"] == "Constant":
                continue
            for i in range(len(net.inputs)):
                same_response(ctx, got[k][i], [v[where[k]] for v in want[i]], bound, "response", f"{k} from input {i} {kw}", grow)
        l1, l2 = sfg.get_l1_norms(all_nodes=all_nodes, **kw), sfg.get_l2_norms(all_nodes=all_nodes, **kw)
        ctx.check({str(k) for k in l1} == got_keys == {str(k) for k in l2}, "norm.keys", lambda: f"{set(l1)}, {set(l2)}")
        for k in wanted:
            if net.nodes[where[k][0]]["op"] == "Constant":
                continue
            h = np.array([[v[where[k]] for v in w] for w in want])
            if not np.all(np.abs(h) < 1e6):
                continue
            a, b = np.sum(np.abs(h)), np.sqrt(np.sum(np.abs(h) ** 2))
            tol = 1e-8 * max(1, a, grow) + n * h.shape[0] * bound
            ctx.check(abs(l1[k] - a) <= tol, "norm.l1", lambda: f"{k}: L1 norm {l1[k]}, from the simulated responses {a}")
            ctx.check(abs(l2[k] - b) <= max(1e-8 * max(1, b, grow), np.sqrt(tol) if abs(b) < 1e-3 else tol), "norm.l2", lambda: f"{k}: L2 norm {l2[k]}, from the simulated responses {b}")
            ctx.count("norms", 2)
    ctx.check(fingerprint(sfg) == before, "unchanged", "analysing changed the SFG")
    noise(ctx, net, ref, sfg, n, kw, bound, grow)
    ctx.check(fingerprint(sfg) == before, "unchanged", "analysing changed the SFG")


def noise(ctx, net, ref, sfg, n, kw, bound, grow):
    """Responses from a disturbance added to the output of an operation."""
    rng = ctx.rng
    where = {k: v for k, v in node_map(net, sfg).items() if net.nodes[v[0]]["op"] not in ("Output",)}
    cons = net.consumers()
    default = rng.random() < 0.5
    if default:
        nodes = None
        chosen = {k for k, v in where.items() if net.nodes[v[0]]["op"] not in ("Delay", "Constant")}
    else:
        ids = [o.graph_id for o in sfg.operations if not isinstance(o, (Output, Sink, DontCare)) and o.name in {x["name"] for x in net.nodes.values() if x["op"] not in ("Constant", "Input")}]
        nodes = rng.sample(ids, rng.randint(0, len(ids)))
        chosen = {k for k, v in where.items() if any(sfg.find_by_id(g).name == net.nodes[v[0]]["name"] for g in nodes)}
    got = sfg.get_impulse_responses_from_nodes(nodes, **kw)
    outs = {str(o.graph_id): next(k for k in net.outputs if net.nodes[k]["name"] == o.name) for o in sfg.output_operations}
    ctx.check({str(k) for k in got} == set(outs), "noise.outputs", lambda: f"{set(got)}, outputs {set(outs)}")
    for o, onid in outs.items():
        have = {str(k) for k in got[o]}
        used = {k for k in chosen if where[k] in cons}
        ctx.check(used <= have, "noise.nodes", lambda: f"responses from {have}, nodes {used}")
        for k in used:
            nid, port = where[k]
            m = copy.deepcopy(ref)
            x = m.add("Input")
            a = m.add("Addition", [(nid, port), (x, 0)], shift_output=0)
            for d, i in cons[nid, port]:
                m.nodes[d]["ins"][i] = (a, 0)
            m._topo = None
            ys, _ = m.run([[0] * n for _ in range(len(m.inputs) - 1)] + [[1] + [0] * (n - 1)], n)
            same_response(ctx, got[o][k], [y[m.outputs.index(onid)] for y in ys], bound, "noise", f"{o} from {k} {kw}", grow)
            ctx.count("noise_responses")


def case_refused(ctx):
    """What is not linear has no such description."""
    rng = ctx.rng
    net = random_net(rng, n_ops=rng.randint(1, 6), n_delay=rng.choice([0, 1, 2]), ops=rng.choice([BASIC, LINEAR]), const=0, nested=rng.choice([0, 0, 1]))
    k = rng.choice(NONLINEAR)
    src = [s for s in net.consumers() if net.nodes[s[0]]["op"] in ("Input", "Delay")]
    ins = [rng.choice(src) for _ in range(REF[k][0])]
    p = {"do_add": True} if k == "MAD" else {"is_add": True, "do_addsub": True} if k == "MADS" else {}
    x = net.add(k, ins, **p)
    o = rng.choice(net.outputs)
    old = net.nodes[o]["ins"][0]
    a = net.add("Addition", [old, (x, 0)], shift_output=0)
    net.nodes[o]["ins"] = [(a, 0)]
    if rng.random() < 0.4:
        from vh.gen import Net
        outer = Net()
        outer.inputs = []
        i = [outer.add("Input") for _ in net.inputs]
        s = outer.add("SFG", [(j, 0) for j in i], net=net)
        for j in range(len(net.outputs)):
            outer.add("Output", [(s, j)])
        net = outer
    ctx.sig, ctx.sample, ctx.nontrivial = net.signature(), net.describe()[:300], True
    sfg = net.build(rng)
    ctx.check(not sfg.is_linear, "refused.is_linear", lambda: f"an SFG with {k} of signals is reported as linear")
    for name, f in (("to_ss", sfg.to_ss), ("to_tf", sfg.to_tf), ("to_zpk", sfg.to_zpk), ("get_impulse_responses", lambda: sfg.get_impulse_responses(max_iters=3)),
                    ("get_l1_norms", lambda: sfg.get_l1_norms(max_iters=3)), ("from_nodes", lambda: sfg.get_impulse_responses_from_nodes(max_iters=3))):
        try:
            f()
        except ValueError:
            ctx.count("refused")
            continue
        ctx.fail("refused." + name, f"{name} of an SFG with {k} of signals gave a result")


def case_polynomials(ctx):
    """TransferFunction of given coefficients."""
    rng = ctx.rng
    cplx = rng.random() < 0.3
    def c():
        v = rng.choice([0, 0.5, -1, 0.25, 2, rng.uniform(-1, 1)])
        return v + 1j * rng.choice([0, 0.5, -0.25]) if cplx else v
    den = [rng.choice([1, 1, 2, -0.5])] + [c() * 0.5 for _ in range(rng.randint(0, 4))]
    m, k = rng.choice([1, 1, 2, 3]), rng.choice([1, 1, 2])
    length = rng.randint(1, 5)
    nums = [[[c() for _ in range(length)] for _ in range(k)] for _ in range(m)]
    ctx.sig, ctx.sample, ctx.nontrivial = str((den, nums)), str((den, nums))[:300], length > 1
    shaped = [x[0] if k == 1 and rng.random() < 0.7 else x for x in nums]
    shaped = [np.array(x) if rng.random() < 0.5 else x for x in shaped]
    arg = {f"in{i}": x for i, x in enumerate(shaped)} if m > 1 or rng.random() < 0.3 else shaped[0]
    tf = TransferFunction(arg, np.array(den) if rng.random() < 0.5 else den)
    zpk = tf.zpk()
    for z in [2.5 * cmath.exp(1j * rng.uniform(0, 6)) for _ in range(3)]:
        for i in range(m):
            num, d = tf[f"in{i}"]
            num = [num] if np.ndim(num) == 1 else num
            zeros, poles, gain = zpk[f"in{i}"]
            zeros, gain = ([zeros], [gain]) if k == 1 else (zeros, gain)
            for o in range(k):
                want = poly(nums[i][o], z) / poly(den, z)
                got = poly(num[o], z) / poly(d, z)
                ctx.check(abs(got - want) < 1e-9, "tf.value", lambda: f"{got}, coefficients give {want}")
                v = gain[o] * np.prod([z - t for t in zeros[o]]) / np.prod([z - t for t in poles])
                if not any(nums[i][o]):
                    ctx.check(v == 0, "zpk.zero", f"{v} for a zero numerator")
                    continue
                if abs(want) < 1e-6:
                    continue
                lead = next(t for t, x in enumerate(nums[i][o]) if x)
                shift = len(den) - 1 - (length - 1)
                expect = want * z ** (len(nums[i][o]) - 1) / z ** (len(den) - 1)  # as polynomials in z
                ctx.check(abs(v / expect - 1) < 1e-5, "zpk.value", lambda: f"zpk gives {v} at {z}, coefficients {expect} (leading zeros {lead}, shift {shift})")
    ctx.count("polynomials", m * k)


KINDS = {
    "systems": {"fn": case_systems, "quick": 900, "thorough": 8000, "timeout": 120},
    "responses": {"fn": case_responses, "quick": 500, "thorough": 4000, "timeout": 240},
    "refused": {"fn": case_refused, "quick": 300, "thorough": 2000, "timeout": 60},
    "polynomials": {"fn": case_polynomials, "quick": 1500, "thorough": 10000, "timeout": 60},
}

if __name__ == "__main__":
    sys.exit(run_check(
        PROP, KINDS,
        rule="state-space matrices, transfer functions, zeros/poles/gain, impulse responses, norms and noise responses of random linear networks (also nested and complex) are compared "
             "with those of an independent simulation of the same network at rest; nonlinear networks have to be refused; non-trivial: delays and more than four nodes",
        assumptions=["additive constants are not generated (affine, not linear)", "zpk is judged up to a pure delay, as the numerator and denominator are polynomials in 1/z"],
        min_eval=200))
