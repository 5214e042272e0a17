"""C04: transformations that claim to preserve behaviour, against the reference interpreter."""
import sys

from vh import boot

boot.install()
import b_asic as ba  # noqa: E402
from b_asic import Input, Output  # noqa: E402

from vh import edits  # noqa: E402
from vh.core import run_check, Skip  # noqa: E402
from vh.gen import CPLX, LINEAR, Diverges, Net, random_inputs, random_net, running_scale  # noqa: E402
from vh.simh import check_same, simulate, usable_net  # noqa: E402
from vh.sound import audit  # noqa: E402

PROP = "C04"
IDENT = ["ConstantMultiplication", "Shift"]


def setup(ctx, n=8, **kw):
    rng = ctx.rng
    d = dict(n_ops=rng.randint(1, 12 if ctx.thorough else 9), n_iter=n, nested=rng.choice([0, 0, 1, 2]), names=rng.random() < 0.3)
    d.update(kw)
    net, x, ys, vs = usable_net(ctx, **d)
    ctx.sig = net.signature()
    ctx.sample = net.describe()
    return net, x, ys, vs


def same(ctx, mech, sfg, x, ys, vs, what):
    audit(ctx, sfg, what)
    ctx.check(sfg.input_count == len(x) and sfg.output_count == len(ys[0]), mech + ".ports",
              lambda: f"{what}: {sfg.input_count} inputs, {sfg.output_count} outputs, expected {len(x)}, {len(ys[0])}")
    got = simulate(sfg, x, len(ys))
    check_same(ctx, mech, got, ys, what=what, scale=running_scale(vs), tol=1e-8)


def one_edit(ctx, name, sfg, tries=4):
    for _ in range(tries):
        e = edits.KEEP[name](ctx.rng, sfg)
        if e is not None:
            return e
    return None


def family(name, chain=2, **kw):
    def fn(ctx):
        k = {a: (b(ctx) if callable(b) else b) for a, b in kw.items()}
        net, x, ys, vs = setup(ctx, **k)
        sfg = net.build(ctx.rng)
        done = 0
        for _ in range(ctx.rng.randint(1, chain)):
            e = one_edit(ctx, name, sfg)
            if e is None:
                break
            ctx.note(e[0])
            new, refused = edits.perform(e)
            if refused is not None:
                ctx.count("refused")
                break
            done += 1
            ctx.count("edits." + name)
            same(ctx, name, new, x, ys, vs, e[0])
            sfg = new
        if not done:
            raise Skip("edit not applicable")
        ctx.nontrivial = bool(net.delays) or len(net.nodes) > 5
    return fn


def case_remove(ctx):
    """Identities already present in the graph, at any position, removed one by one."""
    net, x, ys, vs = setup(ctx, n_ops=ctx.rng.randint(1, 6))
    sfg = net.build(ctx.rng)
    n = ctx.rng.randint(1, 4)
    for _ in range(n):
        e = one_edit(ctx, ctx.rng.choice(["insert_after", "insert_before"]), sfg)
        if e:
            ctx.note(e[0])
            sfg, _ = edits.perform(e)
    for _ in range(n):
        e = one_edit(ctx, "remove_identity", sfg)
        if e is None:
            break
        ctx.note(e[0])
        sfg, _ = edits.perform(e)
        ctx.count("edits.remove")
        same(ctx, "remove", sfg, x, ys, vs, e[0])
    ctx.nontrivial = True


def case_chain(ctx):
    net, x, ys, vs = setup(ctx)
    sfg = net.build(ctx.rng)
    pool = [k for k in edits.KEEP if k != "copy_copy"]
    steps = ctx.rng.randint(3, 9 if ctx.thorough else 6)
    for _ in range(steps):
        e = one_edit(ctx, ctx.rng.choice(pool), sfg, 2)
        if e is None or len(sfg.operations) > 60:
            continue
        ctx.note(e[0])
        new, refused = edits.perform(e)
        if refused is not None:
            ctx.count("refused")
            continue
        ctx.count("edits.chain")
        same(ctx, "chain", new, x, ys, vs, e[0])
        sfg = new
    ctx.nontrivial = bool(net.delays)


def case_to_sfg(ctx):
    """Each operation's own SFG decomposition."""
    rng = ctx.rng
    from vh.ops import REF
    from vh.gen import _params
    op = rng.choice([o for o in REF if o not in ("Constant", "Sink", "DontCare", "SeriesTwoportAdaptor", "Delay", "Input", "Output")])
    p = _params(rng, op, rng.random() < 0.5)
    net = Net()
    cplx = op in CPLX and rng.random() < 0.3
    if cplx and op == "ConstantMultiplication":
        p["value"] = rng.choice([0.5j, 1 - 0.5j, -2])
    if op in ("Addition", "Subtraction", "AddSub", "ShiftAddSub") and rng.random() < 0.5:
        p["mul_j"] = cplx = True
    ins = [net.add("Input") for _ in range(REF[op][0])]
    k = net.add(op, [(i, 0) for i in ins], **p)
    for j in range(REF[op][1]):
        net.add("Output", [(k, j)])
    n = 6
    x = random_inputs(rng, len(ins), n, rng.choice(["int", "dyadic"]), cplx)
    if op in ("Division", "Reciprocal", "SquareRoot", "ReciprocalSquareRoot", "MultiplicationAndDivision"):
        x = [[abs(v) + 1 for v in r] for r in x]
    try:
        ys, vs = net.run(x, n)
    except (ZeroDivisionError, ValueError, TypeError, OverflowError):
        raise Skip("undefined")
    ctx.sig = net.signature()
    ctx.sample = net.describe()
    ctx.nontrivial = True
    sfg = net.build(rng)
    o = next(c for c in sfg.operations if not isinstance(c, (Input, Output)))
    sub = o.to_sfg()
    same(ctx, "to_sfg." + op, sub, x, ys, vs, f"{op}.to_sfg()")
    # expanding keeps the function as well
    same(ctx, "expand." + op, sfg.flatten(expand=True), x, ys, vs, f"flatten(expand=True) of {op}")
    same(ctx, "original." + op, sfg, x, ys, vs, f"{op}")
    sp = list(o.split())
    ctx.check(len(sp) >= 1, "split." + op, "empty split")


def case_unfold(ctx):
    rng = ctx.rng
    J = rng.choice([1, 2, 2, 3, 4, 5])
    m = rng.randint(2, 4)
    net, x, ys, vs = setup(ctx, n=J * m, n_ops=rng.randint(1, 8), nested=rng.choice([0, 0, 0, 1]),
                           n_delay=rng.choice([0, 1, 2, 3, 5]))
    sfg = net.build(rng)
    un = sfg.unfold(J)
    ctx.note(f"unfold({J})")
    audit(ctx, un, f"unfold({J})")
    ni, no = len(net.inputs), len(net.outputs)
    ctx.check(un.input_count == J * ni and un.output_count == J * no, "unfold.ports",
              lambda: f"{un.input_count} inputs, {un.output_count} outputs for J={J}, {ni}, {no}")
    ux = [[x[i][k * J + j] for k in range(m)] for j in range(J) for i in range(ni)]
    got = simulate(un, ux, m)
    sc = running_scale(vs)
    want = [[ys[k * J + j][o] for j in range(J) for o in range(no)] for k in range(m)]
    check_same(ctx, "unfold", got, want, what=f"unfold({J})", scale=[sc[(k + 1) * J - 1] for k in range(m)], tol=1e-8)
    ctx.check(len(un.find_by_type(ba.Delay)) == len(sfg.flatten().find_by_type(ba.Delay)), "unfold.delays",
              lambda: f"{len(un.find_by_type(ba.Delay))} delays after unfolding {len(sfg.find_by_type(ba.Delay))}")
    ctx.nontrivial = J > 1 and bool(net.delays)
    ctx.count("edits.unfold")
    if J * J <= 9 and m >= 2 and rng.random() < 0.3:
        J2 = 2
        m2 = m // J2
        un2 = un.unfold(J2)
        ux2 = [[ux[i][k * J2 + j] for k in range(m2)] for j in range(J2) for i in range(J * ni)]
        got2 = simulate(un2, ux2, m2)
        want2 = [[want[k * J2 + j][o] for j in range(J2) for o in range(J * no)] for k in range(m2)]
        check_same(ctx, "unfold2", got2, want2, what=f"unfold({J}).unfold({J2})", scale=[sc[-1]] * m2, tol=1e-8)


def joinable(ctx):
    """Multiplications by j feeding operands of additions, and nested shift-and-add graphs."""
    rng = ctx.rng
    net = random_net(rng, n_ops=rng.randint(2, 7), ops=["Addition", "Subtraction", "AddSub", "ShiftAddSub", "ConstantMultiplication", "Addition"],
                     cplx=True)
    adds = [k for k, n in net.nodes.items() if n["op"] in ("Addition", "Subtraction", "AddSub", "ShiftAddSub")]
    for k in rng.sample(adds, min(len(adds), rng.randint(1, 2))):
        n = net.nodes[k]
        port = rng.choice([0, 1, 1, 1])
        if rng.random() < 0.6:
            n["ins"][port] = (net.add("ImaginaryMultiplication", [n["ins"][port]]), 0)
        else:
            sub = Net()
            a, b = sub.add("Input"), sub.add("Input")
            if rng.random() < 0.5:
                a, b = b, a
            s = sub.add("Shift", [(a, 0)], value=rng.choice([0, 1, 2]))
            ops = [(s, 0), (b, 0)]
            if rng.random() < 0.7:
                ops.reverse()
            t = rng.choice(["Addition", "Subtraction", "AddSub"])
            p = {"is_add": rng.random() < 0.5} if t == "AddSub" else {}
            if rng.random() < 0.3:
                p["mul_j"] = True
            c = sub.add(t, ops, shift_output=rng.choice([0, 0, 1]), **p)
            sub.add("Output", [(c, 0)])
            n["op"], n["p"] = "SFG", {"net": sub}
    net._topo = None
    x = random_inputs(rng, len(net.inputs), 8, "dyadic", True)
    try:
        ys, vs = net.run(x, 8, limit=1e7)
    except Diverges:
        raise Skip("diverges")
    return net, x, ys, vs


def case_join(ctx):
    net, x, ys, vs = joinable(ctx)
    rng = ctx.rng
    ctx.sig = net.signature()
    ctx.sample = net.describe()
    sfg = net.build(rng)
    for _ in range(3):
        nested = sfg.find_by_type(ba.SFG)
        if nested and rng.random() < 0.6:
            o = rng.choice(nested)
            e = (f"rewrite(ShiftAddSub, {o.graph_id})", lambda: sfg.rewrite(ba.ShiftAddSub, [o.graph_id]), True, True)
        else:
            e = edits.join(rng, sfg)
        if e is None:
            break
        ctx.note(e[0])
        new, refused = edits.perform(e)
        if refused is not None:
            ctx.count("refused")
            continue
        ctx.count("edits.join")
        same(ctx, "join", new, x, ys, vs, e[0])
        ctx.check(not nested or "rewrite" not in e[0] or len(new.find_by_type(ba.SFG)) == len(nested) - 1, "join.flat", "rewritten SFG left")
        sfg = new
        ctx.nontrivial = True


def case_refuse(ctx):
    """Requests that cannot be honoured must not silently return another function."""
    rng = ctx.rng
    net, x, ys, vs = setup(ctx, n_ops=rng.randint(2, 7), nested=0, names=False)
    sfg = net.build(rng)
    inner = [o for o in sfg.operations if not isinstance(o, (Input, Output))]
    if not inner:
        raise Skip("no operations")
    gid = rng.choice(inner).graph_id
    o = sfg.find_by_id(gid)
    bad = [("unfold(0)", lambda: sfg.unfold(0)),
           ("replace(None)", lambda: sfg.replace(None, ba.Addition())),
           ("replace(unknown)", lambda: sfg.replace("nosuch0", ba.Addition())),
           ("insert_after(unknown)", lambda: sfg.insert_operation_after("nosuch0", ba.Negation())),
           ("insert_before(unknown)", lambda: sfg.insert_operation_before("nosuch0", ba.Negation())),
           ("extract(unknown)", lambda: sfg.extract(["nosuch0"])),
           ("join(unknown)", lambda: sfg.join("nosuch0", "forward")),
           ("join(direction)", lambda: sfg.join(gid, "sideways")),
           ("rewrite(unknown)", lambda: sfg.rewrite(ba.AddSub, ["nosuch0"])),
           ("insert_after(output)", lambda: sfg.insert_operation_after(sfg.output_operations[0].graph_id, ba.Negation())),
           ("insert_before(input)", lambda: sfg.insert_operation_before(sfg.input_operations[0].graph_id, ba.Negation()))]
    if (o.input_count, o.output_count) != (3, 1):
        bad.append((f"replace({gid}) by another port count", lambda: sfg.replace(gid, ba.MAD())))
    if o.input_count != o.output_count:
        bad.append((f"remove_operation({gid})", lambda: sfg.remove_operation(gid)))
    desc, f = rng.choice(bad)
    ctx.note(desc)
    e = edits.perform((desc, f, True, True))
    ctx.check(e[1] is not None, "refuse", lambda: f"{desc} was accepted")
    same(ctx, "refuse.intact", sfg, x, ys, vs, "original after " + desc)
    ctx.nontrivial = True


K = dict(quick=500, thorough=4800)
KINDS = {
    "copy": {"fn": family("copy_copy"), "quick": 300, "thorough": 3200},
    "flatten": {"fn": family("flatten", nested=lambda c: c.rng.choice([0, 1, 2, 2])), "quick": 900, "thorough": 10000},
    "insert_after": {"fn": family("insert_after", 4), **K},
    "insert_before": {"fn": family("insert_before", 4), **K},
    "insert_wide": {"fn": family("insert_wide", 2), "quick": 300, "thorough": 3200},
    "remove": {"fn": case_remove, **K},
    "replace_by_sfg": {"fn": family("replace_by_sfg", 3, nested=0), **K},
    "replace_equivalent": {"fn": family("replace_equivalent", 4), **K},
    "extract": {"fn": family("extract", 2, n_ops=lambda c: c.rng.randint(2, 10), nested=lambda c: c.rng.choice([0, 0, 1])), "quick": 800, "thorough": 10000},
    "simplify_delays": {"fn": family("simplify_delays", 1, n_delay=lambda c: c.rng.randint(2, 8), n_ops=lambda c: c.rng.randint(1, 6)),
                        "quick": 800, "thorough": 10000},
    "rewrite": {"fn": family("rewrite", 3, ops=lambda c: c.rng.choice([LINEAR, ["Addition", "Subtraction", "AddSub", "ConstantMultiplication"]])),
                "quick": 1000, "thorough": 10000},
    "join": {"fn": case_join, "quick": 1000, "thorough": 12000},
    "swap": {"fn": family("swap", 3), "quick": 400, "thorough": 4000},
    "chain": {"fn": case_chain, "timeout": 20, "quick": 1000, "thorough": 16000},
    "to_sfg": {"fn": case_to_sfg, "quick": 750, "thorough": 6000},
    "unfold": {"fn": case_unfold, "quick": 1000, "thorough": 12000},
    "refuse": {"fn": case_refuse, "quick": 400, "thorough": 3200},
}

if __name__ == "__main__":
    sys.exit(run_check(
        PROP, KINDS,
        rule="random graphs (delays, nesting, multi-output operations, fan-out, initial values, duplicate names) edited by randomly chosen "
             "transformations, singly and in chains; after each step the result is audited for structure and simulated against the independent "
             "interpreter of the original netlist; non-trivial: has delays or more than five nodes and at least one edit was performed",
        assumptions=["reference operation semantics in vh/ops.py", "floating-point comparison with relative tolerance 1e-8"],
        min_eval=200))
