"""C01: Simulation against an independent interpreter of the graph."""
import random
import sys

from vh import boot

boot.install()
import numpy as np  # noqa: E402
from b_asic import Simulation  # noqa: E402

from vh.core import run_check, Skip  # noqa: E402
from vh.gen import close, running_scale, finite, noise, well_conditioned  # noqa: E402
from vh.simh import usable_net, unique_names, outputs_of, check_same  # noqa: E402

PROP = "C01"


def sizes(ctx):
    return ctx.rng.randint(1, 20 if ctx.thorough else 13)


def check_nodes(ctx, net, sfg, results, vs, prefix=""):
    """Every intermediate value, found by name (also inside nested SFGs)."""
    scale = running_scale(vs)
    for nid, n in net.nodes.items():
        if n["op"] in ("Output", "Sink"):
            continue
        comps = [c for c in sfg.find_by_name(n["name"]) if hasattr(c, "input_count")]
        ctx.check(len(comps) <= 1, "lookup.name", f"{len(comps)} components named {n['name']}")
        if not comps:
            continue  # not connected to any output or input of the SFG
        op = comps[0]
        gid = prefix + op.graph_id
        no = net.n_out(nid)
        for p in range(no):
            key = f"{gid}.{p}" if no > 1 else gid
            if key not in results:
                ctx.check(n["op"] in ("Input", "Constant") or bool(prefix), "results.missing",
                          f"no saved result {key} ({n['op']}) among {sorted(results)}")
                continue
            seq = results[key]
            want = [v[(nid, p)] for v in vs]
            ctx.check(len(seq) == len(want), "results.length", f"{key}: {len(seq)} values for {len(want)} iterations")
            for k in range(len(want)):
                ctx.counters["node_values"] += 1
                if not close(seq[k], want[k], scale=scale[k]):
                    ctx.fail("node." + n["op"], f"node {key} ({n['op']} {n['p']}) iteration {k}: "
                                                f"got {seq[k]!r}, expected {want[k]!r}")


def case_sim(ctx):
    n = ctx.rng.randint(3, 12)
    net, x, ys, vs = usable_net(ctx, n_iter=n, n_ops=sizes(ctx), nested=ctx.rng.choice([0, 0, 1, 2]),
                                sinks=ctx.rng.random() < 0.3)
    unique_names(net)
    ctx.sig = net.signature()
    ctx.sample = net.describe()
    ctx.nontrivial = bool(net.delays) and len(net.nodes) > 5
    sfg = net.build(ctx.rng)
    sim = Simulation(sfg, x if len(x) > 1 or ctx.rng.random() < 0.5 else x[0])
    left = n
    last = None
    while left:
        k = ctx.rng.randint(1, left)
        last = sim.run_for(k)
        left -= k
    ctx.count("iterations", n)
    ctx.check(sim.iteration == n, "iteration", f"iteration {sim.iteration} after {n}")
    check_same(ctx, "output", outputs_of(sim.results, sim.sfg), ys, what="simulation", scale=running_scale(vs))
    ctx.check(len(last) == len(ys[-1]) and all(close(a, b, scale=running_scale(vs)[-1]) for a, b in zip(last, ys[-1])), "return_value",
              lambda: f"run_for returned {last}, expected {ys[-1]}")
    check_nodes(ctx, net, sim.sfg, sim.results, vs)
    # result lookup by name
    for nid, nd in net.nodes.items():
        if nd["op"] in ("Addition", "ConstantMultiplication", "R2Butterfly") and sim.sfg.find_by_name(nd["name"]):
            p = net.n_out(nid) - 1
            keys = sim.sfg.find_result_keys_by_name(nd["name"], p)
            ctx.check(len(keys) == 1 and keys[0] in sim.results, "lookup.result_key",
                      f"find_result_keys_by_name({nd['name']}, {p}) = {keys}")
            ctx.check(close(sim.results[keys[0]][0], vs[0][(nid, p)]), "lookup.result_key", f"{keys[0]} is another value")


def case_history(ctx):
    """Random API histories against a model of the simulator."""
    rng = ctx.rng
    total = 40
    net, x, _, _ = usable_net(ctx, n_iter=total, n_ops=rng.randint(1, 8), n_delay=rng.randint(1, 4), limit=1e7)
    unique_names(net)
    ctx.sig = net.signature()
    sfg = net.build(rng)
    style = [rng.choice(["list", "tuple", "array", "callable", "number", "none"]) for _ in x]
    prov, fn = [], []
    for st, seq in zip(style, x):
        if st == "number":
            prov.append(seq[0]); fn.append(lambda k, s=seq: s[0])
        elif st == "none":
            prov.append(None); fn.append(lambda k: 0)
        else:
            prov.append({"list": seq, "tuple": tuple(seq), "array": np.array(seq),
                         "callable": (lambda k, s=seq: s[k])}[st])
            fn.append(lambda k, s=seq: s[k])
    if rng.random() < 0.5:
        sim = Simulation(sfg, prov)
    else:
        sim = Simulation(sfg)
        if rng.random() < 0.5:
            sim.set_inputs(prov)
        else:
            for i, p in enumerate(prov):
                if p is not None:
                    sim.set_input(i, p)
    finite_len = any(s in ("list", "tuple", "array") for s in style)
    it, state, saved = 0, net.fresh_state(), []
    hist = []
    last = None
    scale = [1.0]
    state2, post = [net.fresh_state()], noise(random.Random(0))

    def advance(to, save):
        nonlocal it, last
        while it < to:
            v = {}
            last = net.step(state, [f(it) for f in fn], v)
            w = {}
            net.step(state2[0], [f(it) for f in fn], w, post)
            if not well_conditioned([v], [w]):
                raise Skip("ill-conditioned")
            if not finite([v.values()], 1e7):
                raise Skip("diverges")
            scale[0] = running_scale([v, {0: scale[0]}])[-1]
            if save:
                saved.append((last, v))
            it += 1

    for _ in range(rng.randint(3, 14)):
        act = rng.choice(["step", "run_for", "run_until", "clear_results", "clear_state", "results", "set_input", "step", "run_for"])
        save = rng.random() < 0.75
        if act == "step" and it < total:
            hist.append(f"step({save})")
            advance(it + 1, save)
            r = sim.step(save_results=save)
            ctx.check(len(r) == len(last) and all(close(a, b, scale=scale[0]) for a, b in zip(r, last)), "return_value", f"{hist}: {r} expected {last}")
        elif act == "run_for" and it < total:
            k = rng.randint(1, min(5, total - it))
            hist.append(f"run_for({k},{save})")
            advance(it + k, save)
            r = sim.run_for(k, save)
            ctx.check(all(close(a, b, scale=scale[0]) for a, b in zip(r, last)), "return_value", f"{hist}: {r} expected {last}")
        elif act == "run_until" and it < total:
            k = rng.randint(it + 1, min(total, it + 6))
            hist.append(f"run_until({k},{save})")
            advance(k, save)
            r = sim.run_until(k, save)
            ctx.check(all(close(a, b, scale=scale[0]) for a, b in zip(r, last)), "return_value", f"{hist}: {r} expected {last}")
        elif act == "clear_results":
            hist.append(act)
            sim.clear_results()
            saved.clear()
            ctx.check(len(sim.results) == 0, "clear_results", "results left")
        elif act == "clear_state":
            hist.append(act)
            sim.clear_state()
            state = net.fresh_state()
            state2[0] = net.fresh_state()
        elif act == "set_input":
            i = rng.randrange(len(x))
            c = rng.randint(-3, 3)
            hist.append(f"set_input({i},{c})")
            sim.set_input(i, c)
            fn[i] = lambda k, c=c: c
        ctx.check(sim.iteration == it, "iteration", f"{hist}: iteration {sim.iteration}, expected {it}")
        ctx.count("api_calls")
    if rng.random() < 0.5 and it < total:
        hist.append("run()")
        if not finite_len:
            try:
                sim.run()
                ctx.fail("run.unlimited", "run() without finite inputs did not raise")
            except IndexError:
                ctx.count("refused")
        else:
            advance(total, True)
            sim.run()
            ctx.check(sim.iteration == total, "iteration", f"run() stopped at {sim.iteration}")
    ctx.sample = {"net": net.describe(), "history": hist}
    ctx.note(hist)
    if saved:
        check_same(ctx, "output.history", outputs_of(sim.results, sim.sfg), [s[0] for s in saved], what=str(hist), scale=[scale[0]] * len(saved))
        check_nodes(ctx, net, sim.sfg, sim.results, [s[1] for s in saved])
    else:
        ctx.check(all(len(v) == 0 for v in sim.results.values()), "results.unsaved", "results saved although not asked")


def case_args(ctx):
    """Wrong inputs are refused; the SFG given is not touched."""
    rng = ctx.rng
    net, x, ys, vs = usable_net(ctx, n_iter=6, n_ops=rng.randint(1, 6))
    unique_names(net)
    ctx.sig = net.signature()
    sfg = net.build(rng)
    n = len(x)

    def refused(exc, f, what):
        try:
            f()
        except exc:
            ctx.count("refused")
            ctx.check(True, "ok")
            return
        ctx.fail("args." + what, f"{what} accepted")

    if n > 1:
        refused(ValueError, lambda: Simulation(sfg, x + [[0] * 6]), "too_many_inputs")
        refused(ValueError, lambda: Simulation(sfg, x[:-1]), "too_few_inputs")
        refused(ValueError, lambda: Simulation(sfg, [x[0][:-1]] + x[1:]), "inconsistent_lengths")
    refused(IndexError, lambda: Simulation(sfg).set_input(n, 1), "input_index")
    refused(IndexError, lambda: Simulation(sfg).set_input(-1, 1), "input_index")
    refused(TypeError, lambda: Simulation(net), "not_an_sfg")
    # two simulators of one SFG do not interfere
    a, b = Simulation(sfg, x), Simulation(sfg, [[0] * 6 for _ in x])
    zs, _ = net.run([[0] * 6 for _ in x], 6)
    for _ in range(6):
        a.step()
        b.step()
    check_same(ctx, "interference", outputs_of(a.results, a.sfg), ys, scale=running_scale(vs), what="first of two interleaved simulations")
    check_same(ctx, "interference", outputs_of(b.results, b.sfg), zs, scale=running_scale(vs), what="second of two interleaved simulations")
    ctx.sample = net.describe()


def case_evaluate(ctx):
    """An SFG used as an operation: evaluate/evaluate_output(s)."""
    rng = ctx.rng
    net, x, ys, vs = usable_net(ctx, n_iter=3, n_ops=rng.randint(1, 10), n_delay=0)
    unique_names(net)
    ctx.sig = net.signature()
    ctx.sample = net.describe()
    sfg = net.build(rng)
    for k in range(3):
        a = [s[k] for s in x]
        r = sfg.evaluate(*a)
        r = [r] if len(ys[k]) == 1 else list(r)
        ctx.check(len(r) == len(ys[k]) and all(close(p, q, scale=running_scale(vs)[k]) for p, q in zip(r, ys[k])), "evaluate", f"{r} expected {ys[k]}")
        for o in range(len(ys[k])):
            ctx.check(close(sfg.evaluate_output(o, a), ys[k][o]), "evaluate_output", f"output {o}")
        r = sfg.evaluate_outputs(a)
        ctx.check(all(close(p, q, scale=running_scale(vs)[k]) for p, q in zip(r, ys[k])), "evaluate_outputs", f"{r} expected {ys[k]}")
    for bad in (a[:-1], a + [0]):
        try:
            sfg.evaluate_output(0, bad)
            ctx.fail("args.evaluate_count", "wrong number of values accepted")
        except ValueError:
            ctx.count("refused")
    for i in (-1, len(ys[0])):
        try:
            sfg.evaluate_output(i, a)
            ctx.fail("args.evaluate_index", "bad output index accepted")
        except IndexError:
            ctx.count("refused")


KINDS = {
    "sim": {"fn": case_sim, "quick": 20000, "thorough": 200000, "hang": True},
    "history": {"fn": case_history, "quick": 12000, "thorough": 100000, "hang": True},
    "args": {"fn": case_args, "quick": 600, "thorough": 5000},
    "evaluate": {"fn": case_evaluate, "quick": 1500, "thorough": 20000},
}

if __name__ == "__main__":
    sys.exit(run_check(
        PROP, KINDS,
        rule="random netlists over the whole operation library (feedback, multi-output, nested SFGs, initial values), "
             "built in random order through the public API, driven by random call histories; non-trivial = has delays "
             "and more than five nodes (sim) or a history with distinct graph (history)",
        assumptions=["reference semantics in vh/ops.py written from the documentation of each operation",
                     "SeriesTwoportAdaptor excluded here (see C21)"],
        min_eval=200))
