"""C07: loops, iteration period bound, critical path, resource bounds and counts."""
import sys
from collections import Counter
from fractions import Fraction

from vh import boot

boot.install()
import networkx as nx  # noqa: E402
from b_asic import Delay, Input, Output  # noqa: E402

from vh import lat  # noqa: E402
from vh.core import Skip, run_check  # noqa: E402
from vh.gen import REALS, random_net  # noqa: E402

PROP = "C07"


def make(ctx, offsets=True, **kw):
    rng = ctx.rng
    d = dict(n_ops=rng.randint(1, 22 if ctx.thorough else 14), names=rng.random() < 0.2, sinks=False, ops=REALS,
             nested=rng.choice([0, 0, 0, 1]))
    if rng.random() < 0.15:
        d.update(n_in=0, min_in=0, n_delay=rng.randint(1, 4))
    d.update(kw)
    net = random_net(rng, **d)
    ctx.sig = net.signature()
    ctx.sample = net.describe()
    ctx.nontrivial = len(net.nodes) > 5
    sfg = net.build(rng)
    lat.assign(rng, sfg, offsets=offsets, per_op=rng.random() < 0.6)
    ctx.note(str({str(o.graph_id): (o.latency_offsets, o.execution_time) for o in sfg.operations if o.input_count and o.output_count})[:1500])
    return net, sfg


def edges(sfg):
    """(source op, destination op, port-to-port latency) of every connection."""
    out = []
    for o in sfg.operations:
        for p in o.inputs:
            for s in p.signals:
                u = s.source.operation
                out.append((u, o, (0 if isinstance(u, Delay) else s.source.latency_offset) - (0 if isinstance(o, Delay) else p.latency_offset)))
    return out


def case_loops(ctx):
    _, sfg = make(ctx)
    g = nx.DiGraph()
    for u, v, _ in edges(sfg):
        g.add_edge(u, v)
    want = Counter()
    for c in nx.simple_cycles(g):
        ids = [str(o.graph_id) for o in c]
        k = ids.index(min(ids))
        want[tuple(ids[k:] + ids[:k])] += 1
    got = Counter()
    for c in sfg.loops:
        ids = [str(i) for i in c]
        ctx.check(len(ids) > 1 and ids[0] == ids[-1], "closed", lambda: f"loop {ids} does not end where it starts")
        ids = ids[:-1]
        k = ids.index(min(ids))
        got[tuple(ids[k:] + ids[:k])] += 1
    ctx.check(got == want, "loops", lambda: f"reported {sorted(got.elements())}, elementary cycles {sorted(want.elements())}")
    ctx.count("cycles", sum(want.values()))


def cpt(ctx, sfg):
    try:
        return sfg.critical_path_time()
    except ValueError:
        if all(isinstance(o, (Input, Output, Delay)) or not o.input_count for o in sfg.operations):
            raise Skip("nothing to schedule")
        raise


def positive_cycle(es, ops, ratio, strict=True):
    """Is there a cycle with latency - ratio*delays > 0 (>= 0 when not strict)? Longest-path relaxation in exact integers."""
    q, p = ratio.denominator, ratio.numerator
    n = len(ops) + 1
    # scale by n so that adding one per edge marks zero-weight cycles
    ws = [(u, v, (w * q - p * isinstance(u, Delay)) * (n + 1) + (0 if strict else 1)) for u, v, w in es]
    d = dict.fromkeys(ops, 0)
    for _ in range(n):
        ch = False
        for u, v, w in ws:
            if d[u] + w > d[v]:
                d[v] = d[u] + w
                ch = True
        if not ch:
            return False
    return True


def case_ipb(ctx):
    _, sfg = make(ctx)
    es, ops = edges(sfg), list(sfg.operations)
    g = nx.DiGraph([(u, v) for u, v, _ in es])
    b = sfg.iteration_period_bound()
    if nx.is_directed_acyclic_graph(g):
        ctx.check(b == -1, "no_loop", lambda: f"bound {b} without loops")
        ctx.count("acyclic")
        return
    ctx.check(b != -1, "loop_missed", "bound -1 for a graph with loops")
    b = Fraction(b)
    ctx.check(not positive_cycle(es, ops, b), "too_low", lambda: f"bound {b} is below the ratio of some loop")
    ctx.check(positive_cycle(es, ops, b, strict=False), "too_high", lambda: f"bound {b} is above the ratio of every loop")
    ctx.count("cyclic")


def case_ipb_schedule(ctx):
    """A periodic schedule exists for every integer period >= the bound and for none below (delay counts as iteration distance)."""
    _, sfg = make(ctx, n_delay=ctx.rng.randint(1, 4))
    es, ops = edges(sfg), list(sfg.operations)
    b = sfg.iteration_period_bound()
    for t in range(0, 12):
        feasible = not positive_cycle(es, ops, Fraction(t))
        ctx.check(feasible == (b <= t), "feasible_period", lambda: f"period {t} is {'feasible' if feasible else 'infeasible'}, bound {b}")
    ctx.count("periods", 12)


def case_critical(ctx):
    _, sfg = make(ctx)
    start = lat.asap(sfg)
    want = 0
    for o in sfg.operations:
        if isinstance(o, (Delay,)):
            continue
        want = max([want, start[o]] + [start[o] + p.latency_offset for p in o.outputs])
    got = cpt(ctx, sfg)
    ctx.check(got == want, "critical_path", lambda: f"critical path {got}, longest delay-free path {want}; starts { {str(o.graph_id): s for o, s in start.items()} }")
    ctx.count("paths")


def case_critical_paths(ctx):
    """Against explicit enumeration of paths when every operation has zero input offsets."""
    net, sfg = make(ctx, offsets=False, n_ops=ctx.rng.randint(1, 8), nested=0)
    g = nx.DiGraph()
    g.add_nodes_from(o for o in sfg.operations)
    for u, v, _ in edges(sfg):
        if not isinstance(u, Delay) and not isinstance(v, Delay):
            g.add_edge(u, v)
    lt = {o: 0 if isinstance(o, (Input, Output, Delay)) or not o.input_count else o.latency for o in g}
    best, n = 0, 0
    for s in g:
        stack = [(s, lt[s])]
        while stack:
            o, t = stack.pop()
            best = max(best, t)
            n += 1
            if n > 20000:
                raise Skip("too many paths")
            stack += [(v, t + lt[v]) for v in g.successors(o)]
    got = cpt(ctx, sfg)
    ctx.check(got == best, "critical_path_sum", lambda: f"critical path {got}, largest sum {best}")


def case_resources(ctx):
    rng = ctx.rng
    _, sfg = make(ctx)
    types = Counter(o.type_name() for o in sfg.operations)
    ctx.check(dict(sfg.operation_counter()) == dict(types), "counter", lambda: f"{dict(sfg.operation_counter())}, expected {dict(types)}")
    got = sorted(str(t) for t in sfg.get_used_type_names())
    ctx.check(got == sorted(types), "used_types", lambda: f"{got}, expected {sorted(types)}")
    ids = sorted(str(i) for i in sfg.get_used_graph_ids())
    ctx.check(ids == sorted(str(c.graph_id) for c in sfg.operations), "used_ids", lambda: f"{ids}")
    for t in types:
        ops = [o for o in sfg.operations if o.type_name() == t]
        ex = [o.execution_time for o in ops]
        T = rng.randint(1, 12)
        if None in ex:
            try:
                r = sfg.resource_lower_bound(t, T)
            except ValueError:
                ctx.count("unset_refused")
                continue
            ctx.fail("unset", f"bound {r} for {t} although execution times are missing")
        for T in (T, 1, sum(ex) or 1, 10 ** 6):
            r = sfg.resource_lower_bound(t, T)
            ctx.check(r == -(-sum(ex) // T), "bound", lambda: f"{r} units of {t} for execution times {ex} in {T}")
            ctx.check(r * T >= sum(ex) > (r - 1) * T or not sum(ex), "accommodate", lambda: f"{r} units of {t} for execution times {ex} in {T}")
        for bad in (0, -1):
            try:
                r = sfg.resource_lower_bound(t, bad)
            except ValueError:
                continue
            ctx.fail("bad_time", f"schedule time {bad} accepted: {r}")
    ctx.check(sfg.resource_lower_bound("no_such_type", 3) == 0, "unknown_type", "resources for a type not in the graph")
    # removing one latency makes the latency analyses refuse
    ordinary = [o for o in sfg.operations if o.input_count and o.output_count and not isinstance(o, Delay)]
    if ordinary and rng.random() < 0.5:
        net = random_net(rng, n_ops=4, n_delay=2, ops=REALS)
        s2 = net.build(rng)
        if any(o.input_count and o.output_count and not isinstance(o, Delay) for o in s2.operations):
            try:
                t = s2.critical_path_time()
            except ValueError:
                ctx.count("no_latency_refused")
            else:
                ctx.fail("no_latency", f"critical path {t} without latencies")


KINDS = {
    "loops": {"fn": case_loops, "quick": 900, "thorough": 20000},
    "ipb": {"fn": case_ipb, "quick": 900, "thorough": 20000},
    "ipb_schedule": {"fn": case_ipb_schedule, "quick": 500, "thorough": 10000},
    "critical": {"fn": case_critical, "quick": 900, "thorough": 20000},
    "critical_paths": {"fn": case_critical_paths, "quick": 500, "thorough": 10000},
    "resources": {"fn": case_resources, "quick": 900, "thorough": 15000},
}

if __name__ == "__main__":
    sys.exit(run_check(
        PROP, KINDS,
        rule="random graphs (with and without inputs, feedback, nesting, multi-output operations) with random per-operation latencies, input/output offsets and "
             "execution times; every analysis result compared with an independent computation on the connections and offsets; non-trivial: more than five nodes",
        assumptions=["latency of a loop or path is the port-to-port latency: source output offset minus destination input offset",
                     "the critical path starts at time 0 and delays start and end paths"],
        min_eval=300))
