"""C05: precedence lists, topological orders, required inputs and paths."""
import sys

from vh import boot

boot.install()
import b_asic as ba  # noqa: E402
import networkx as nx  # noqa: E402
from b_asic import Delay, Input, Output, SFG  # noqa: E402

from vh.core import run_check  # noqa: E402
from vh.gen import REALS, random_net  # noqa: E402

PROP = "C05"


def make(ctx, **kw):
    rng = ctx.rng
    d = dict(n_ops=rng.randint(1, 25 if ctx.thorough else 16), nested=rng.choice([0, 0, 1]), names=rng.random() < 0.3,
             sinks=rng.random() < 0.3, ops=REALS)
    d.update(kw)
    net = random_net(rng, **d)
    ctx.sig = net.signature()
    ctx.sample = net.describe()
    ctx.nontrivial = len(net.nodes) > 5
    return net, net.build(rng)


def preds(o):
    return [s.source.operation for p in o.inputs for s in p.signals]


def levels(sfg):
    """Independent earliest level of each operation (1-based)."""
    lv, rest = {}, list(sfg.operations)
    while rest:
        nxt = []
        for o in rest:
            if isinstance(o, Delay) or not o.input_count:
                lv[o] = 1
            elif all(q in lv for q in preds(o)):
                lv[o] = 1 + max(lv[q] for q in preds(o))
            else:
                nxt.append(o)
        if len(rest) == len(nxt):
            return None
        rest = nxt
    return lv


def case_precedence(ctx):
    net, sfg = make(ctx)
    for round_ in range(2):
        pl = sfg.get_precedence_list()
        lv = levels(sfg)
        ports = [p for level in pl for p in level]
        want = [p for o in sfg.operations for p in o.outputs]
        ctx.check(len(ports) == len(want) and {id(p) for p in ports} == {id(p) for p in want}, "partition",
                  lambda: f"{len(ports)} ports listed, {len(want)} exist; {names(ports)}")
        ctx.check(all(pl), "empty_level", "an empty level")
        for k, level in enumerate(pl, 1):
            for p in level:
                ctx.check(lv[p.operation] == k, "level", lambda: f"{p.operation.graph_id}.{p.index} in level {k}, earliest is {lv[p.operation]}")
        ctx.count("levels", len(pl))
        # after a local edit the list of the new graph is again exact
        inner = [o for o in sfg.operations if not isinstance(o, (Input, Output)) and o.output_count]
        if not inner or round_:
            break
        o = ctx.rng.choice(inner)
        sfg = sfg.insert_operation_after(f"{o.graph_id}.{ctx.rng.randrange(o.output_count)}", ctx.rng.choice([ba.Delay(), ba.Negation()])) \
            if not sfg.find_by_name(o.graph_id) else sfg


def names(ports):
    return [f"{p.operation.graph_id}.{p.index}" for p in ports][:40]


def case_topological(ctx):
    feed = ctx.rng.random() < 0.5
    kw = {"n_delay": ctx.rng.randint(0, 4) if feed else ctx.rng.choice([0, 0, 1])}
    if ctx.rng.random() < 0.15:
        kw = {"n_delay": ctx.rng.randint(1, 4), "n_in": 0, "min_in": 0}
        ctx.count("no_inputs")
    net, sfg = make(ctx, **kw)
    order = list(sfg.get_operations_topological_order())
    ctx.check(len(order) == len(sfg.operations) and {id(o) for o in order} == {id(o) for o in sfg.operations}, "permutation",
              lambda: f"{[str(o.graph_id) for o in order]} for {sorted(str(o.graph_id) for o in sfg.operations)}")
    g = nx.DiGraph()
    g.add_nodes_from(sfg.operations)
    for o in sfg.operations:
        for q in preds(o):
            g.add_edge(q, o)
    pos = {o: k for k, o in enumerate(order)}
    text = str(sfg)
    for o in order:
        ctx.check(f"id: {o.graph_id}" in text, "text", lambda: f"{o.graph_id} missing in the text of the graph: {text[:200]}")
    if nx.is_directed_acyclic_graph(g):
        ctx.count("acyclic")
        for q, o in g.edges:
            ctx.check(pos[q] < pos[o], "order", lambda: f"{q.graph_id} after its user {o.graph_id}")
    else:
        ctx.count("cyclic")
        # nothing may be ordered before everything it depends on is impossible: only operations in or after a loop may be early
        late = set()
        for scc in nx.strongly_connected_components(g):
            n = next(iter(scc))
            if len(scc) > 1 or g.has_edge(n, n):
                late |= scc | nx.descendants(g, n)
        for q, o in g.edges:
            if o not in late:
                ctx.check(pos[q] < pos[o], "order", lambda: f"{q.graph_id} after its user {o.graph_id} (not in or after a loop)")


def case_loop_free(ctx):
    """A delay-free loop is refused by everything that needs an order of execution."""
    rng = ctx.rng
    net = random_net(rng, n_ops=rng.randint(2, 8), nested=0, ops=REALS)
    ctx.sig = net.signature()
    ins, outs, made = net.build(rng, as_parts=True)
    # close a loop: feed an operation from one that depends on it without delay
    succ = {}
    for nid, n in net.nodes.items():
        if n["op"] != "Delay":
            for s in n["ins"]:
                succ.setdefault(s[0], []).append(nid)
    cand = []
    for nid, n in net.nodes.items():
        if n["op"] in ("Input", "Output", "Delay", "Constant", "Sink") or not n["ins"]:
            continue
        seen, todo = set(), [nid]
        while todo:
            for v in succ.get(todo.pop(), []):
                if v not in seen:
                    seen.add(v)
                    todo.append(v)
        seen.add(nid)
        cand += [(nid, v) for v in seen if net.nodes[v]["op"] not in ("Output", "Sink") and net.n_out(v)]
    if not cand:
        from vh.core import Skip
        raise Skip("no place for a loop")
    a, b = rng.choice(cand)
    i = rng.randrange(len(net.nodes[a]["ins"]))
    made[a].input(i).clear()
    made[a].input(i).connect(made[b].output(rng.randrange(net.n_out(b))))
    ctx.sample = f"{net.describe()}; loop {b} -> {a}.in{i}"
    ctx.nontrivial = True
    # only a loop that is reachable from the SFG counts
    try:
        sfg = SFG(inputs=ins, outputs=outs)
    except ValueError:
        ctx.count("refused_at_construction")
        ctx.check(True, "refused")
        return
    if levels(sfg) is not None:
        ctx.count("loop_not_in_sfg")
        return
    from b_asic import Simulation
    from b_asic.schedule import Schedule
    from b_asic.scheduler import ALAPScheduler, ASAPScheduler
    for t in sfg.get_used_type_names():
        if t not in ("in", "out", "t", "c", "sink"):
            sfg.set_latency_of_type_name(t, 1)
            sfg.set_execution_time_of_type_name(t, 1)
    what = rng.choice([("get_precedence_list", lambda: sfg.get_precedence_list()),
                       ("Simulation", lambda: Simulation(sfg, [[1, 2, 3]] * sfg.input_count).run_for(2)),
                       ("ASAPScheduler", lambda: Schedule(sfg, ASAPScheduler())),
                       ("ALAPScheduler", lambda: Schedule(sfg, ALAPScheduler())),
                       ("critical_path_time", lambda: sfg.critical_path_time())])
    ctx.note(what[0])
    try:
        r = what[1]()
    except (ValueError, RuntimeError, RecursionError):
        ctx.count("refused")
        ctx.check(True, "refused")
        return
    ctx.fail("delay_free_loop", f"{what[0]} accepted a graph with a delay-free loop: {str(r)[:100]}")


def case_required(ctx):
    net, sfg = make(ctx)
    g = nx.DiGraph()
    g.add_nodes_from(sfg.operations)
    for o in sfg.operations:
        for q in preds(o):
            g.add_edge(q, o)
    for k, out in enumerate(sfg.output_operations):
        anc = nx.ancestors(g, out)
        want = sorted(i for i, o in enumerate(sfg.input_operations) if o in anc)
        got = sorted(sfg.inputs_required_for_output(k))
        ctx.check(got == want, "required", lambda: f"output {k} requires {got}, expected {want}")
    for bad in (-1, sfg.output_count):
        try:
            sfg.inputs_required_for_output(bad)
        except IndexError:
            continue
        ctx.fail("required_range", f"output index {bad} accepted")
    # preceding and subsequent operations
    for o in sfg.operations:
        ctx.check(sorted(str(q.graph_id) for q in o.preceding_operations) == sorted(str(q.graph_id) for q in preds(o)), "preceding", lambda: f"{o.graph_id}")
        ctx.check(sorted(str(q.graph_id) for q in o.subsequent_operations) == sorted(str(q.graph_id) for q in g.successors(o) for _ in
                                                                                  range(sum(x is o for x in preds(q)))),
                  "subsequent", lambda: f"{o.graph_id}")
    # enumerated paths
    d = {str(o.graph_id): sorted({str(q.graph_id) for q in g.successors(o)}) for o in sfg.operations}
    if len(d) <= 14:
        a, b = ctx.rng.choice(sorted(d)), ctx.rng.choice(sorted(d))
        got = sfg.find_all_paths(d, a, b)
        h = nx.DiGraph([(u, v) for u in d for v in d[u]])
        h.add_nodes_from(d)
        want = [[a]] if a == b else sorted(nx.all_simple_paths(h, a, b))
        ctx.check(sorted(got) == sorted(want) and len({tuple(p) for p in got}) == len(got), "paths", lambda: f"{a} to {b}: {got}, expected {want}")


def case_op_required(ctx):
    """Inputs an operation declares as not required do not influence the output."""
    rng = ctx.rng
    from vh.gen import _params
    from vh.ops import REF
    op = rng.choice(sorted(o for o in REF if o not in ("Constant", "DontCare", "Sink", "Delay", "Input", "Output")))
    net = random_net(rng, n_ops=0, n_in=REF[op][0], n_delay=0, n_out=1) if False else None
    from vh.gen import Net, random_inputs
    net = Net()
    ins = [net.add("Input") for _ in range(REF[op][0])]
    k = net.add(op, [(i, 0) for i in ins], **_params(rng, op, True))
    for j in range(REF[op][1]):
        net.add("Output", [(k, j)])
    sfg = net.build(rng)
    o = next(c for c in sfg.operations if not isinstance(c, (Input, Output)))
    ctx.sig = net.signature()
    ctx.sample = net.describe()
    ctx.nontrivial = True
    x = [rng.randint(1, 9) for _ in ins]
    for j in range(o.output_count):
        req = set(o.inputs_required_for_output(j))
        ctx.check(req <= set(range(o.input_count)), "op_required_range", lambda: f"{op}: {req}")
        for i in range(o.input_count):
            if i in req:
                if op == "ReflectionFreeSeriesThreeportAdaptor":
                    ctx.check((i, j) != (1, 1), "op_required", lambda: f"the reflection-free output of {op} requires {sorted(req)}")
                continue
            y = list(x)
            y[i] = rng.randint(10, 20)
            a, b = o.evaluate_output(j, x), o.evaluate_output(j, y)
            ctx.check(a == b, "op_required", lambda: f"{op} output {j} depends on input {i}, which is declared not required")
            ctx.count("independent_inputs")


KINDS = {
    "precedence": {"fn": case_precedence, "quick": 2000, "thorough": 40000},
    "topological": {"fn": case_topological, "quick": 2000, "thorough": 40000},
    "loop_free": {"fn": case_loop_free, "quick": 800, "thorough": 8000},
    "required": {"fn": case_required, "quick": 1200, "thorough": 20000},
    "op_required": {"fn": case_op_required, "quick": 150, "thorough": 1000},
}

if __name__ == "__main__":
    sys.exit(run_check(
        PROP, KINDS,
        rule="random graphs with delays, nesting, constants, fan-out and dangling ports; every level, order, required-input set and path list returned is "
             "compared with an independent computation on the connections; graphs with a delay-free loop must be refused; non-trivial: more than five nodes",
        assumptions=["inputs are required for an output when there is any path to it, delays included",
                     "operations in or after feedback loops have no prescribed position in the topological order"],
        min_eval=300))
