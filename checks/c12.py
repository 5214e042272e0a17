"""C12: splitting a process collection yields conflict-free exact partitions."""
import logging
import sys
from collections import Counter
from itertools import combinations

from vh import boot

boot.install()
logging.disable(logging.CRITICAL)
from b_asic.architecture import ProcessingElement  # noqa: E402
from b_asic.process import MemoryVariable, OperatorProcess, PlainMemoryVariable, Process  # noqa: E402
from b_asic.resources import ProcessCollection  # noqa: E402

from vh.arch import accesses, chromatic, fits, overlap, shares, slots, unwrapped  # noqa: E402
from vh.core import Skip, run_check  # noqa: E402
from vh.gen import BASIC, LINEAR  # noqa: E402
from vh.job import Job, random_edit, random_schedule, solver  # noqa: E402

PROP = "C12"
COLORINGS = ["saturation_largest_first", "largest_first", "smallest_last", "independent_set", "connected_sequential_bfs", "connected_sequential_dfs", "DSATUR"]


def plain(rng, n=None, P=None, max_life=None, zero=True):
    P = P or rng.randint(1, 12)
    n = n or rng.randint(1, 10)
    out = []
    for k in range(n):
        lives = {}
        for port in range(rng.choice([1, 1, 1, 2, 3])):
            lives[port] = rng.randint(0 if zero else 1, P if max_life is None else max_life)
        out.append(PlainMemoryVariable(rng.randrange(P), rng.randint(0, 3), lives, f"v{k}"))
    rng.shuffle(out)
    return ProcessCollection(out, P, rng.random() < 0.5)


def processes(rng, n=None, P=None, zero=True, wrap=True):
    P = P or rng.randint(1, 12)
    out = []
    for k in range(n or rng.randint(1, 10)):
        a = rng.randrange(P)
        x = rng.randint(0 if zero else 1, P if rng.random() < 0.2 else max(1, P // 2))
        out.append(Process(a, x if wrap else min(x, P - a), f"p{k}"))
    return ProcessCollection(out, P, rng.random() < 0.5)


def scheduled(ctx, **kw):
    rng = ctx.rng
    j = Job(ctx, ops=rng.choice([LINEAR, BASIC]), sinks=False, **kw)
    s, kind = random_schedule(ctx, j, names=["asap", "alap", "list", "list"])
    for _ in range(rng.choice([0, 0, 3])):
        random_edit(ctx, s, j)
    if s.schedule_time < 1:
        raise Skip("zero schedule time")
    if any(o.execution_time is None for o in s.sfg.operations if o.input_count and o.output_count and o.type_name() != "t"):
        raise Skip("no execution time")
    return j, s


def note(ctx, pc):
    ctx.note(repr(pc)[:1500])
    ctx.sig = repr(pc)
    ctx.sample = repr(pc)[:400]
    ctx.nontrivial = len(pc) > 2


def partition(ctx, pc, parts, what):
    c = ctx.check
    ids = Counter(id(p) for part in parts for p in part)
    c(ids == Counter(id(p) for p in pc), "partition", lambda: f"{what}: parts {[[p.name for p in q] for q in parts]} of {[p.name for p in pc]}")
    c(all(isinstance(q, ProcessCollection) and q.schedule_time == pc.schedule_time for q in parts), "schedule_time", lambda: f"{what}: schedule times {[q.schedule_time for q in parts]}, {pc.schedule_time}")
    c(all(len(q) for q in parts), "empty_part", lambda: f"{what}: empty part in {[[p.name for p in q] for q in parts]}")
    ctx.count("parts", len(parts))


def no_overlap(ctx, parts, P, what):
    for q in parts:
        use = sum((slots(p, P) for p in q), Counter())
        ctx.check(all(v <= 1 for v in use.values()), "overlap", lambda: f"{what}: processes active in the same slot in one part: {[(p.name, p.start_time, p.execution_time) for p in q]}, period {P}")


def case_execution(ctx):
    rng = ctx.rng
    pc = rng.choice([processes, processes, plain])(rng)
    if rng.random() < 0.3:
        try:
            pc = scheduled(ctx)[1].get_operations()
        except ValueError:
            raise Skip("operation without execution time") from None
    note(ctx, pc)
    P = pc.schedule_time
    before = list(pc.collection)
    big = any(p.execution_time > P for p in pc)
    edges = [(a, b) for a, b in combinations(range(len(pc)), 2) if overlap(pc.collection[a], pc.collection[b], P)]
    for strategy in ("left_edge", "greedy_graph_color", "ilp_graph_color"):
        if strategy == "ilp_graph_color" and (len(pc) > 9 or rng.random() < 0.5):
            continue
        params = {}
        if strategy.startswith("greedy") and rng.random() < 0.7:
            params = {"coloring_strategy": rng.choice(COLORINGS)}
        if strategy.startswith("ilp"):
            params = {"solver": solver()}
        what = f"{strategy} {params.get('coloring_strategy', '')}"
        try:
            parts = pc.split_on_execution_time(strategy, params) if params or rng.random() < 0.5 else pc.split_on_execution_time(strategy=strategy)
        except ValueError as e:
            ctx.check(big, "execution_refused", lambda: f"{what} refused a collection without excessive execution times: {e}")
            continue
        ctx.check(not big, "excessive_accepted", lambda: f"{what} accepted a process longer than the schedule time")
        partition(ctx, pc, parts, what)
        no_overlap(ctx, parts, P, what)
        bound = max(sum((slots(p, P) for p in pc), Counter()).values(), default=0)
        ctx.check(len(parts) >= bound, "too_few", lambda: f"{what}: {len(parts)} parts, {bound} processes active at once")
        if strategy.startswith("ilp"):
            k = chromatic(len(pc), edges)
            ctx.check(len(parts) == k, "not_minimal", lambda: f"{what}: {len(parts)} parts, {k} suffice")
        if strategy == "left_edge" and all(0 < p.execution_time and p.start_time + p.execution_time <= P for p in pc):
            ctx.check(len(parts) == bound, "left_edge_minimal", lambda: f"left edge uses {len(parts)} parts for non-wrapping processes, at most {bound} active at once")
        ctx.count("splits." + strategy)
    ctx.check(all(a is b for a, b in zip(before, pc.collection, strict=True)), "collection_changed", "splitting changes the collection")


def port_option(rng):
    r, w = rng.choice([(1, 1), (1, 1), (1, 2), (2, 1), (2, 2), (3, 1)])
    t = rng.choice([None, r + w, max(r, w), max(r, w) + 1])
    return {"read_ports": r, "write_ports": w, "total_ports": t}


def limits(o):
    r, w, t = o["read_ports"], o["write_ports"], o["total_ports"]
    if t is None:
        return r, w, r + w
    return (t if r is None else r), (t if w is None else w), t


def case_ports(ctx):
    rng = ctx.rng
    pc = plain(rng, max_life=None if rng.random() < 0.8 else 30)
    if rng.random() < 0.3:
        pc = scheduled(ctx)[1].get_memory_variables()
        if rng.random() < 0.7:
            pc = pc.split_on_length(0)[1]
    note(ctx, pc)
    P = pc.schedule_time
    o = port_option(rng)
    if rng.random() < 0.4:
        o = {"read_ports": 1, "write_ports": 1, "total_ports": rng.choice([1, 2, None])}
    r, w, t = limits(o)
    alone = all(fits([p], P, r, w, t) for p in pc)
    before = list(pc.collection)
    for strategy in ("left_edge", "greedy_graph_color", "equitable_graph_color", "ilp_graph_color", "sequence"):
        if strategy == "ilp_graph_color" and (len(pc) > 8 or rng.random() < 0.6):
            continue
        if strategy.endswith("color") and len(pc) == 0:
            continue
        coloured = strategy.endswith("color")
        what = f"{strategy} {o}"
        try:
            if strategy == "sequence":
                seq = list(pc)
                rng.shuffle(seq)
                parts = pc.split_ports_sequentially(r, w, t, seq)
            else:
                parts = pc.split_on_ports(strategy, alg_params={"solver": solver()} if strategy.startswith("ilp") else None, **o)
        except ValueError as e:
            ctx.count("refused")
            ctx.check(not alone or (coloured and (r, w) != (1, 1)), "ports_refused", lambda: f"{what} refused although every process fits: {e}")
            continue
        partition(ctx, pc, parts, what)
        for q in parts:
            ctx.check(fits(list(q), P, r, w, t) if coloured else shares(list(q), P, r, w, t) or unwrapped(list(q), P, r, w, t), "ports", lambda: f"{what}: a part needs more ports than allowed: {[(p.name, p.start_time, p.read_times) for p in q]}, "
                                                               f"writes, reads, total per slot {[dict(x) for x in accesses(list(q), P)]}, period {P}")
        if strategy.startswith("ilp"):
            edges = [(a, b) for a, b in combinations(range(len(pc)), 2) if not fits([pc.collection[a], pc.collection[b]], P, r, w, t)]
            k = chromatic(len(pc), edges)
            ctx.check(len(parts) == k, "ports_not_minimal", lambda: f"{what}: {len(parts)} parts, {k} suffice")
        ctx.count("splits.ports_" + strategy)
    ctx.check(all(a is b for a, b in zip(before, pc.collection, strict=True)), "collection_changed", "splitting changes the collection")


def case_mux(ctx):
    """Strategies that look at the processing elements."""
    rng = ctx.rng
    j, s = scheduled(ctx, named=rng.random() < 0.5)
    try:
        ops = s.get_operations()
    except ValueError:
        raise Skip("operation without execution time") from None
    P = s.schedule_time
    if any(p.execution_time > P for p in ops):
        raise Skip("excessive execution time")
    mem = s.get_memory_variables().split_on_length(0)[1]
    if not len(mem) or any(str(v.write_port.operation.type_name()) == "dontcare" for v in mem):
        raise Skip("nothing to store")
    pes = []
    for tn, q in ops.split_on_type_name().items():
        for k, part in enumerate(q.split_on_execution_time()):
            try:
                pes.append(ProcessingElement(part, f"{tn}_{k}"))
            except ValueError:
                raise Skip("different latencies") from None
    note(ctx, mem)
    for strategy in rng.sample(["left_edge_min_pe_to_mem", "left_edge_min_mem_to_pe", "ilp_min_input_mux", "ilp_min_output_mux", "ilp_min_mux"], 3):
        ilp = strategy.startswith("ilp")
        if ilp and len(mem) > 8:
            continue
        o = {"read_ports": 1, "write_ports": 1, "total_ports": rng.choice([2, 1])} if ilp or rng.random() < 0.5 else port_option(rng)
        r, w, t = limits(o)
        alone = all(fits([p], P, r, w, t) for p in mem)
        what = f"{strategy} {o}"
        params = {"processing_elements": pes}
        if ilp:
            params["solver"] = solver()
        try:
            parts = mem.split_on_ports(strategy, alg_params=params, **o)
        except ValueError as e:
            ctx.count("refused")
            ctx.check(not alone, "mux_refused", lambda: f"{what} refused: {e}")
            continue
        partition(ctx, mem, parts, what)
        for q in parts:
            ctx.check(fits(list(q), P, r, w, t) if ilp else shares(list(q), P, r, w, t) or unwrapped(list(q), P, r, w, t), "mux_ports", lambda: f"{what}: a part needs more ports than allowed: {[(p.name, p.start_time, p.read_times) for p in q]}, period {P}")
        if strategy == "ilp_min_input_mux":
            greedy = len(mem.split_on_ports("greedy_graph_color", **o))
            best = fewest_inputs(mem, pes, P, (r, w, t), greedy)
            got = inputs_used(parts, pes)
            ctx.check(best is None or got == best, "input_mux_minimal", lambda: f"{what}: {got} connections from processing elements to memories, {best} suffice with {greedy} memories")
        ctx.count("splits." + strategy)


def source(v, pes):
    for k, pe in enumerate(pes):
        for p in pe.collection:
            if p.operation.graph_id == v.write_port.operation.graph_id:
                return k, v.write_port.index
    return None


def inputs_used(parts, pes):
    return sum(len({source(v, pes) for v in q}) for q in parts)


def fewest_inputs(mem, pes, P, lim, k):
    """Fewest (output port, memory) connections over all partitions into at most k parts; None when too large."""
    vs = list(mem)
    if len(vs) > 7:
        return None
    best = [None]

    def go(i, parts):
        if best[0] is not None and inputs_used(parts, pes) >= best[0]:
            return
        if i == len(vs):
            best[0] = inputs_used(parts, pes)
            return
        for q in parts:
            if fits([*q, vs[i]], P, *lim):
                q.append(vs[i])
                go(i + 1, parts)
                q.pop()
        if len(parts) < k:
            parts.append([vs[i]])
            go(i + 1, parts)
            parts.pop()
    go(0, [])
    return best[0]


def case_length(ctx):
    rng = ctx.rng
    mode = rng.choice(["plain", "memory", "process"])
    if mode == "memory":
        pc = scheduled(ctx)[1].get_memory_variables()
    else:
        pc = plain(rng, max_life=rng.choice([None, 20])) if mode == "plain" else processes(rng)
    note(ctx, pc)
    n = rng.randint(0, 8)
    before = [(p.name, p.start_time, p.execution_time, dict(p.reads) if mode != "process" else None) for p in pc]
    short, long = pc.split_on_length(n) if n or rng.random() < 0.5 else pc.split_on_length()
    c = ctx.check
    c(short.schedule_time == long.schedule_time == pc.schedule_time, "schedule_time", "length")
    if mode == "process":
        c([p for p in pc if p.execution_time <= n] == list(short) and [p for p in pc if p.execution_time > n] == list(long), "length", lambda: f"length {n}: {short!r} {long!r}")
    else:
        for part, keep in ((short, lambda t: t <= n), (long, lambda t: t > n)):
            want = sorted((str(p.name), p.start_time, sorted((str(getattr(k, "name", k)), id(k), t) for k, t in p.reads.items() if keep(t))) for p in pc if any(keep(t) for t in p.reads.values()))
            got = sorted((str(p.name), p.start_time, sorted((str(getattr(k, "name", k)), id(k), t) for k, t in p.reads.items())) for p in part)
            strip = [(a, b, [(x, t) if isinstance(x, str) else x for x, _, t in z]) for a, b, z in got]
            want2 = [(a, b, [(x, t) for x, _, t in z]) for a, b, z in want]
            c(strip == want2, "length", lambda: f"split at length {n}: reads {strip}, expected {want2}")
            for p in part:
                c(type(p) is (MemoryVariable if mode == "memory" else PlainMemoryVariable), "length_type", lambda: f"{p!r}")
                c(p.execution_time == max(p.reads.values()) and list(p.life_times) == list(p.reads.values()) and list(p.read_ports) == list(p.reads), "length_derived", lambda: f"{p!r}")
                o = next(q for q in pc if q.name == p.name)
                c(p.write_port is o.write_port or p.write_port == o.write_port, "length_write_port", lambda: f"{p!r}")
    c(before == [(p.name, p.start_time, p.execution_time, dict(p.reads) if mode != "process" else None) for p in pc], "length_modifies", "split_on_length changes the collection")
    ctx.count("splits.length")


def case_chains(ctx):
    rng = ctx.rng
    mode = rng.choice(["memory", "memory", "memory", "plain", "process"])
    if mode == "memory":
        j, s = scheduled(ctx, n_delay=rng.randint(1, 4))
        pc = s.get_memory_variables()
        if rng.random() < 0.4:
            pc = pc.split_on_length(0)[1]
    else:
        pc = plain(rng, max_life=30) if mode == "plain" else processes(rng)
    note(ctx, pc)
    P = pc.schedule_time
    n = rng.choice([None, P, max(1, P // 2), rng.randint(1, P)])
    T = P if n is None else n
    what = f"chains of length {n}, period {P}"
    before = {p.name: (p.start_time, dict(p.reads) if mode != "process" else p.execution_time) for p in pc}
    try:
        out = pc.split_into_chains(n) if n is not None else pc.split_into_chains()
    except TypeError:
        ctx.check(mode == "plain" and any(p.execution_time > T for p in pc), "chain_refused", what)
        return
    c = ctx.check
    c(before == {p.name: (p.start_time, dict(p.reads) if mode != "process" else p.execution_time) for p in pc}, "chain_modifies", f"{what} changes the collection")
    c(out.schedule_time == P, "schedule_time", what)
    c(mode == "process" or all(p.execution_time <= T for p in out), "chain_length", lambda: f"{what}: {[(p.name, p.execution_time) for p in out]}")
    if mode != "memory":
        c(Counter(map(id, out)) == Counter(map(id, pc)), "chain_partition", what)
        return
    c(len({p.name for p in out}) == len(out), "chain_names", lambda: f"{what}: {[p.name for p in out]}")
    # follow every value from its producer through the relays to its readers
    heads = {}
    for v in out:
        wp = v.write_port
        if not hasattr(wp, "source_variable"):
            k = (str(wp.operation.graph_id), wp.index)
            c(k not in heads, "chain_heads", lambda: f"{what}: two variables take the value of {k}")
            heads[k] = v
    seen = Counter()
    want = {(str(p.write_port.operation.graph_id), p.write_port.index): p for p in pc}
    c(set(heads) == set(want), "chain_heads", lambda: f"{what}: values of {sorted(heads)}, expected {sorted(want)}")
    inside = {id(v) for v in out}
    for k, v in heads.items():
        got, t = {}, 0
        c(v.start_time % P == want[k].start_time % P, "chain_start", lambda: f"{what}: {v!r}")
        while v is not None:
            seen[id(v)] += 1
            c(id(v) in inside, "chain_member", lambda: f"{what}: {v!r} is not in the result")
            c(v.root_write_port is want[k].write_port, "chain_root", lambda: f"{what}: root write port of {v.name}")
            c(v.start_time == (want[k].start_time + t) % P, "chain_write_time", lambda: f"{what}: {v.name} written at {v.start_time}, value handed over at {(want[k].start_time + t) % P}")
            nxt = None
            for port, life in v.reads.items():
                if hasattr(port, "destination_variable"):
                    c(nxt is None, "chain_branches", lambda: f"{what}: {v!r}")
                    nxt, step = port.destination_variable, life
                else:
                    got[str(port.operation.graph_id), port.index] = t + life
            if nxt is not None:
                c(getattr(nxt.write_port, "source_variable", None) is v, "chain_link", lambda: f"{what}: {nxt.name} is not written by {v.name}")
                t += step
            v = nxt
        reads = {(str(p.operation.graph_id), p.index): x for p, x in want[k].reads.items()}
        c(got == reads, "chain_reads", lambda: f"{what}: value of {k} reaches its readers after {got}, expected {reads}")
    c(set(seen.values()) <= {1} and len(seen) == len(out), "chain_lost", lambda: f"{what}: {len(out)} variables, {len(seen)} in chains")
    ctx.count("chains", sum(1 for v in out if hasattr(v.write_port, "source_variable")))


def case_exclusion(ctx):
    rng = ctx.rng
    pc = rng.choice([processes, plain])(rng, n=rng.randint(1, 8))
    note(ctx, pc)
    P = pc.schedule_time
    c = ctx.check
    g = pc.exclusion_graph_from_execution_time()
    c(set(g.nodes) == set(pc), "graph_nodes", lambda: f"{sorted(p.name for p in g.nodes)}")
    got = {frozenset((a.name, b.name)) for a, b in g.edges}
    want = {frozenset((a.name, b.name)) for a, b in combinations(pc, 2) if overlap(a, b, P)}
    c(got == want and len(got) == g.number_of_edges(), "graph_execution", lambda: f"execution time conflicts {sorted(map(sorted, got))}, overlapping {sorted(map(sorted, want))}; {[(p.name, p.start_time, p.execution_time) for p in pc]}, period {P}")
    for tot in (1, 2):
        alone = all(fits([p], P, 1, 1, tot) for p in pc)
        try:
            g = pc.exclusion_graph_from_ports(*rng.choice([(1, 1, tot), (1, 1, tot), (1, 1, None)]) if tot == 2 else (1, 1, 1))
        except ValueError as e:
            c(not alone, "graph_refused", lambda: f"port conflict graph refused: {e}")
            continue
        if not alone:
            continue
        got = {frozenset((a.name, b.name)) for a, b in g.edges}
        want = {frozenset((a.name, b.name)) for a, b in combinations(pc, 2) if not fits([a, b], P, 1, 1, tot)}
        c(set(g.nodes) == set(pc), "graph_nodes", "ports")
        c(got == want, "graph_ports", lambda: f"port conflicts (total {tot}) {sorted(map(sorted, got))}, expected {sorted(map(sorted, want))}; {[(p.name, p.start_time, p.read_times) for p in pc]}, period {P}")
    for bad in ((2, 1, 3), (1, 2, 3), (2, 2, 4)):
        try:
            pc.exclusion_graph_from_ports(*bad)
            ctx.fail("graph_ports_accepted", f"port conflict graph for {bad}")
        except ValueError:
            pass
    try:
        pc.split_on_ports("left_edge", rng.randint(2, 4), 1, 1)
        ctx.fail("too_few_total", "fewer total ports than read ports accepted")
    except ValueError:
        pass
    ctx.count("graphs", 3)


def case_wrap(ctx):
    """A read wrapping to the time of a write, with a single port in total."""
    P = ctx.rng.randint(3, 8)
    a = ctx.rng.randrange(1, P)
    pc = ProcessCollection([PlainMemoryVariable(0, 0, {0: a}, "v0"), PlainMemoryVariable(P - 1, 0, {0: 1}, "v1")], P, True)
    note(ctx, pc)
    ctx.nontrivial = True
    for q in pc.split_on_ports("left_edge", total_ports=1):
        ctx.check(fits(list(q), P, 1, 1, 1), "total_wrap", lambda: f"left_edge with one port in total: {[(p.name, p.start_time, p.read_times) for p in q]} in one part, period {P}")


KINDS = {
    "execution": {"fn": case_execution, "quick": 3000, "thorough": 15000, "timeout": 120},
    "ports": {"fn": case_ports, "quick": 4000, "thorough": 20000, "timeout": 120},
    "mux": {"fn": case_mux, "quick": 900, "thorough": 4000, "timeout": 200},
    "length": {"fn": case_length, "quick": 1500, "thorough": 6000, "timeout": 60},
    "chains": {"fn": case_chains, "quick": 2500, "thorough": 10000, "timeout": 60},
    "wrap": {"fn": case_wrap, "quick": 10, "thorough": 20, "timeout": 60, "optional": True},
    "exclusion": {"fn": case_exclusion, "quick": 2500, "thorough": 10000, "timeout": 60},
}

if __name__ == "__main__":
    sys.exit(run_check(
        PROP, KINDS,
        rule="random collections (memory variables of random schedules, plain memory variables, operations; wrap-around, several reads, zero and excessive life times) are split "
             "with every strategy; the parts are judged by per-slot counting, the exact strategies by exhaustive colouring; non-trivial: more than two processes",
        assumptions=["a process that needs more ports alone than allowed may be refused", "graph colouring strategies may refuse more than one read or write port",
                     "two reads of one variable at the same time are one access",
                     "a variable with zero lifetime need not be stored", "total port counts of the sequential strategies for reads after the end of the schedule are a recorded finding (kind wrap)"],
        min_eval=300))
