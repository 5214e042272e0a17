"""C15: architectures are complete, consistent and stay so under edits."""
import logging
import sys
from collections import Counter
from itertools import combinations

from vh import boot

boot.install()
logging.disable(logging.CRITICAL)
from b_asic.architecture import Architecture, Memory, ProcessingElement  # noqa: E402
from b_asic.resource_assigner import assign_processing_elements_and_memories  # noqa: E402
from b_asic.resources import ProcessCollection  # noqa: E402

from vh.arch import accesses, chromatic, slots  # noqa: E402
from vh.core import Skip, run_check  # noqa: E402
from vh.gen import BASIC, LINEAR  # noqa: E402
from vh.job import Job, random_edit, random_schedule, solver  # noqa: E402

PROP = "C15"


class Truth:
    """What the schedule asks for, from its start times and signals alone."""

    def __init__(self, s):
        self.P = P = s.schedule_time
        self.sfg = s.sfg
        self.ops = {}
        for o in s.sfg.operations:
            g = str(o.graph_id)
            if o.type_name() != "t" and g in s.start_times:
                self.ops[g] = (str(o.type_name()), s.start_times[g])


def scheduled(ctx, **kw):
    rng = ctx.rng
    j = Job(ctx, ops=rng.choice([LINEAR, BASIC]), sinks=False, **kw)
    s, kind = random_schedule(ctx, j, names=["asap", "alap", "list", "list", "list"])
    for _ in range(rng.choice([0, 0, 3])):
        random_edit(ctx, s, j)
    if s.schedule_time < 1:
        raise Skip("zero schedule time")
    try:
        ops = s.get_operations()
    except ValueError:
        raise Skip("operation without execution time") from None
    if any(p.execution_time > s.schedule_time for p in ops):
        raise Skip("excessive execution time")
    return j, s


def by_latency(pc):
    groups = {}
    for p in pc:
        groups.setdefault(p.operation.latency, []).append(p)
    return [ProcessCollection(g, pc.schedule_time) for g in groups.values()]


def manual(ctx, s):
    """Processing elements and memories through the individual steps."""
    rng = ctx.rng
    pes = []
    for tn, q in s.get_operations().split_on_type_name().items():
        for g in by_latency(q):
            for part in g.split_on_execution_time(rng.choice(["left_edge", "greedy_graph_color"])):
                pes.append(ProcessingElement(part, f"{tn}_{sum(1 for p in pes if p.entity_name.startswith(str(tn) + '_'))}", assign=rng.random() < 0.8))
    mem = s.get_memory_variables()
    direct = None
    if rng.random() < 0.85:
        direct, mem = mem.split_on_length()
    if any(p.execution_time > s.schedule_time for p in mem):
        mem = mem.split_into_chains()
    o = rng.choice([{"read_ports": 1, "write_ports": 1}, {"read_ports": 1, "write_ports": 1}, {"read_ports": 2, "write_ports": 1}, {"read_ports": 2, "write_ports": 2}])
    strategy = rng.choice(["left_edge", "greedy_graph_color"]) if o == {"read_ports": 1, "write_ports": 1} else "left_edge"
    ctx.note(f"manual {strategy} {o}")
    try:
        parts = mem.split_on_ports(strategy, **o) if len(mem) else []
    except ValueError:
        raise Skip("ports") from None
    mems = []
    for k, part in enumerate(parts):
        if not any(p.execution_time for p in part):
            direct = ProcessCollection([*(direct or []), *part], s.schedule_time, s.cyclic)
            continue
        kind = "RAM" if o != {"read_ports": 1, "write_ports": 1} or rng.random() < 0.8 else "register"
        try:
            mems.append(Memory(part, kind, f"mem{k}", assign=rng.random() < 0.7))
        except ValueError:
            if kind == "RAM":
                raise
            raise Skip("forward-backward allocation") from None
    return pes, mems, direct


def pe_content(arch):
    return {str(pe.entity_name): sorted((str(p.operation.graph_id), p.start_time, p.execution_time) for p in pe.processes) for pe in arch.processing_elements}


def mem_content(arch):
    return {str(m.entity_name): sorted((v.name, v.start_time, v.execution_time) for v in m.collection) for m in arch.memories}


def observed(arch):
    """Everything an architecture reports, by name."""
    out = {"pes": pe_content(arch), "mems": mem_content(arch), "direct": sorted((v.name, v.start_time) for v in arch.direct_interconnects or []), "T": arch.schedule_time}
    for pe in arch.processing_elements:
        i, o = arch.get_interconnects_for_pe(pe)
        out["pe", pe.entity_name] = [[{(r.entity_name, k): n for (r, k), n in d.items()} for d in side] for side in (i, o)]
    for m in arch.memories:
        i, o = arch.get_interconnects_for_memory(m)
        out["mem", m.entity_name] = [{r.entity_name: n for r, n in d.items()} for d in (i, o)]
    out["mux"] = (arch.get_multiplexer_input_count(), arch.get_multiplexer_input_count(multiplexed_only=True))
    return out


def expected(arch):
    """The interconnections that the contents of the resources imply."""
    op_in, op_pe = {}, {}
    for pe in arch.processing_elements:
        for p in pe.processes:
            op_pe[str(p.operation.graph_id)] = pe.entity_name
    holder = {}
    for m in arch.memories:
        for v in m.collection:
            holder[id(v)] = m.entity_name
    sources, sinks = {}, {}          # (gid, port) -> set of (resource, port)
    mem_in, mem_out = {}, {}
    relays = []
    for m in arch.memories:
        n = m.entity_name
        mem_in[n], mem_out[n] = Counter(), Counter()
        for v in m.collection:
            src = getattr(v.write_port, "source_variable", None)
            if src is None:
                g = (str(v.write_port.operation.graph_id), v.write_port.index)
                sinks.setdefault(g, set()).add((n, 0))
                mem_in[n][op_pe[g[0]]] += 1
            elif id(src) in holder:
                mem_in[n][holder[id(src)]] += 1
                relays.append((holder[id(src)], n))
            for r in v.read_ports:
                if not hasattr(r, "destination_variable"):
                    g = (str(r.operation.graph_id), r.index)
                    sources.setdefault(g, set()).add((n, 0))
                    mem_out[n][op_pe[g[0]]] += 1
    for v in arch.direct_interconnects or []:
        if hasattr(v.write_port, "source_variable"):
            continue
        w = (str(v.write_port.operation.graph_id), v.write_port.index)
        for r in v.read_ports:
            g = (str(r.operation.graph_id), r.index)
            sources.setdefault(g, set()).add((op_pe[w[0]], w[1]))
            sinks.setdefault(w, set()).add((op_pe[g[0]], g[1]))
    out = {}
    edges = set()
    for pe in arch.processing_elements:
        ins = [Counter() for _ in range(pe.input_count)]
        outs = [Counter() for _ in range(pe.output_count)]
        for p in pe.processes:
            g = str(p.operation.graph_id)
            for i in range(pe.input_count):
                ins[i].update(sources.get((g, i), ()))
            for i in range(pe.output_count):
                outs[i].update(sinks.get((g, i), ()))
        out["pe", pe.entity_name] = [[dict(d) for d in ins], [dict(d) for d in outs]]
        edges |= {((pe.entity_name, i), s) for i, d in enumerate(ins) for s in d}
        edges |= {(t, (pe.entity_name, i)) for i, d in enumerate(outs) for t in d}
    edges |= {((b, 0), (a, 0)) for a, b in relays}
    for m in arch.memories:
        out["mem", m.entity_name] = [dict(mem_in[m.entity_name]), dict(mem_out[m.entity_name])]
    fan = Counter(d for d, _ in edges)
    out["mux"] = (sum(fan.values()), sum(n for n in fan.values() if n > 1))
    return out


def audit(ctx, arch, s, what, ports=None, valid=True):
    """Judge an architecture against the schedule it was made for."""
    c = ctx.check
    P = s.schedule_time
    c(arch.schedule_time == P, "schedule_time", what)
    truth = Truth(s)
    placed = Counter(str(p.operation.graph_id) for pe in arch.processing_elements for p in pe.processes)
    c(placed == Counter(list(truth.ops)), "operations", lambda: f"{what}: operations in processing elements {dict(placed)}, schedule {sorted(truth.ops)}")
    for pe in arch.processing_elements:
        types = {str(p.operation.type_name()) for p in pe.processes}
        c(len(types) <= 1, "mixed_types", lambda: f"{what}: {pe.entity_name} executes {types}")
        c(len({p.operation.latency for p in pe.processes}) <= 1, "mixed_latencies", lambda: f"{what}: {pe.entity_name}")
        for p in pe.processes:
            c(p.start_time % P == truth.ops[str(p.operation.graph_id)][1] % P, "start", lambda: f"{what}: {p!r}")
        if valid:
            use = sum((slots(p, P) for p in pe.processes), Counter())
            c(all(n <= 1 for n in use.values()), "overlap", lambda: f"{what}: {pe.entity_name} busy twice: {[(p.name, p.start_time, p.execution_time) for p in pe.processes]}, period {P}")
    # every consumer gets every value from the right producer after the right time
    got = {}
    inside = {}
    for m in arch.memories:
        for v in m.collection:
            c(id(v) not in inside, "variable_twice", lambda: f"{what}: {v!r} in two memories")
            inside[id(v)] = m
    for v in [v for m in arch.memories for v in m.collection] + list(arch.direct_interconnects or []):
        if hasattr(v.write_port, "source_variable"):
            continue
        k = (str(v.write_port.operation.graph_id), v.write_port.index)
        t0, t, cur = v.start_time, 0, v
        while cur is not None:
            nxt = None
            for r, life in cur.reads.items():
                if hasattr(r, "destination_variable"):
                    nxt, step = r.destination_variable, life
                else:
                    dst = (str(r.operation.graph_id), r.index)
                    c(dst not in got, "read_twice", lambda: f"{what}: {dst} gets its value twice")
                    got[dst] = (k, (t0 + t + life) % P, t + life)
            if nxt is not None:
                c(id(nxt) in inside, "chain_cut", lambda: f"{what}: {nxt!r} is in no memory")
                t += step
            cur = nxt
    want = {}
    for v in s.get_memory_variables():
        for r, life in v.reads.items():
            want[str(r.operation.graph_id), r.index] = ((str(v.write_port.operation.graph_id), v.write_port.index), (v.start_time + life) % P, life)
    c(got == want, "variables", lambda: f"{what}: values delivered {got}, schedule {want}")
    for m in arch.memories:
        w, r, t = accesses(list(m.collection), P)
        if valid:
            rd, wr, tot = ports or (m.output_count, m.input_count, None)
            c(max(w.values(), default=0) <= wr and max(r.values(), default=0) <= rd and (tot is None or max(t.values(), default=0) <= tot), "memory_ports",
              lambda: f"{what}: {m.entity_name} needs {dict(w)} writes, {dict(r)} reads, {dict(t)} accesses, ports {rd, wr, tot}")
        if m.is_assigned and m._memory_type == "RAM":
            c(Counter(id(v) for cell in m.assignment for v in cell) == Counter(id(v) for v in m.collection), "cells", lambda: f"{what}: cells of {m.entity_name}")
            for cell in m.assignment:
                use = sum((slots(v, P) for v in cell), Counter())
                c(all(n <= 1 for n in use.values()), "cell_overlap", lambda: f"{what}: cell of {m.entity_name} holds {[(v.name, v.start_time, v.execution_time) for v in cell]}, period {P}")
    have, exp = observed(arch), expected(arch)
    for k, v in exp.items():
        c(have[k] == v, "interconnects", lambda: f"{what}: {k} reported as {have[k]}, contents imply {v}")
    for x in [*arch.processing_elements, *arch.memories]:
        c(arch.resource_from_name(x.entity_name) is x, "resource_from_name", x.entity_name)
    arch.validate_ports()
    ctx.count("audits")


def build(ctx, s):
    pes, mems, direct = manual(ctx, s)
    ctx.note(f"{[(p.entity_name, [q.name for q in p.processes]) for p in pes]} {[(m.entity_name, [v.name for v in m.collection]) for m in mems]} direct {[v.name for v in direct or []]}")
    return Architecture(iter(pes) if ctx.rng.random() < 0.2 else pes, iter(mems) if ctx.rng.random() < 0.2 else mems, entity_name="top", direct_interconnects=direct), pes, mems, direct


def case_manual(ctx):
    j, s = scheduled(ctx)
    arch = build(ctx, s)[0]
    audit(ctx, arch, s, "manual")


def case_incomplete(ctx):
    """An architecture that lacks something is refused."""
    rng = ctx.rng
    j, s = scheduled(ctx)
    pes, mems, direct = manual(ctx, s)
    kinds = ["operation", "pe", "entity", "time"] + (["variable"] if mems else []) + (["direct"] if direct is not None and len(direct) else [])
    kind = rng.choice(kinds)
    ctx.note(kind)
    try:
        if kind == "operation":
            pe = rng.choice(pes)
            p = rng.choice(pe.processes)
            io = p.operation.inputs or [q for q in p.operation.outputs if q.signals]
            if not io:
                raise Skip("unconnected operation")
            pe.remove_process(p)
        elif kind == "pe":
            pe = rng.choice(pes)
            if not any(p.operation.inputs or any(q.signals for q in p.operation.outputs) for p in pe.processes):
                raise Skip("unconnected operation")
            pes.remove(pe)
        elif kind == "variable":
            m = rng.choice(mems)
            v = rng.choice([v for v in m.collection])
            if all(hasattr(r, "destination_variable") for r in v.read_ports):
                raise Skip("relay")
            m.remove_process(v)
        elif kind == "direct":
            direct.remove_process(rng.choice(list(direct)))
        elif kind == "entity":
            if len(pes) < 2:
                raise Skip("one processing element")
            pes[0].set_entity_name(pes[1].entity_name)
        else:
            pe = rng.choice(pes)
            k = pes.index(pe)
            pes[k] = ProcessingElement(ProcessCollection(pe.processes, s.schedule_time + 1), pe.entity_name, assign=False)
            if len(pes) + len(mems) + (direct is not None) < 2:
                raise Skip("one resource")
        Architecture(pes, mems, direct_interconnects=direct)
    except ValueError:
        ctx.count("incomplete_refused." + kind)
        return
    ctx.fail("incomplete_accepted", f"architecture accepted although made incomplete ({kind})")


def case_assigner(ctx):
    rng = ctx.rng
    j, s = scheduled(ctx, per_op=rng.random() < 0.2)
    P = s.schedule_time
    small = len(s.start_times) <= 9
    strategy = rng.choice(["left_edge", "greedy_graph_color", "greedy_graph_color", "left_edge"] + (["ilp_graph_color", "ilp_graph_color", "ilp_min_mux"] if small else []))
    ops, vs = s.get_operations(), s.get_memory_variables()
    types = {str(t): list(q) for t, q in ops.split_on_type_name().items()}
    resources = None
    if rng.random() < 0.3:
        resources = {t: rng.randint(1, 4) for t in types if rng.random() < 0.7}
    read, write = rng.choice([(1, 1), (1, 1), (1, 1), (2, 1), (2, 2)]) if strategy == "left_edge" else (1, 1)
    total = rng.choice([None, None, read + write, max(read, write)])
    kw = {"memory_read_ports": read, "memory_write_ports": write, "memory_total_ports": total}
    if rng.random() < 0.15:
        kw["max_mems"] = rng.randint(1, 3)
    if rng.random() < 0.3 and read == write == 1:
        kw["memory_type"] = "register"
    if strategy == "ilp_min_mux" and rng.random() < 0.3:
        kw["max_mux_size"] = rng.randint(1, 4)
    what = f"{strategy} {resources} {kw}"
    ctx.note(what)
    if strategy.startswith("ilp"):
        kw["solver"] = solver()
    edges = {t: [(a, b) for a, b in combinations(range(len(q)), 2) if slots(q[a], P).keys() & slots(q[b], P).keys()] for t, q in types.items()}
    need = {t: chromatic(len(q), edges[t]) for t, q in types.items()}
    same = all(len({p.operation.latency for p in q}) == 1 for q in types.values())
    try:
        pes, mems, direct = assign_processing_elements_and_memories(s, strategy=strategy, resources=resources, **kw)
    except (ValueError, TypeError, KeyError) as e:
        ctx.count("assigner_refused")
        ctx.check(isinstance(e, ValueError) or resources or "max_mems" in kw, "assigner_error", lambda: f"{what}: {type(e).__name__} {e}")
        alone = all(max(x.values(), default=0) <= n for p in vs for x, n in zip(accesses([p], P), (write, read, total or read + write), strict=True))
        free = resources is None and "max_mems" not in kw and "max_mux_size" not in kw and total is None and read == write == 1 and "memory_type" not in kw
        ctx.check(not (free and same and alone and all(p.execution_time <= P for p in vs)), "assigner_refuses", lambda: f"{what} refused: {e}")
        return
    arch = Architecture(pes, mems, direct_interconnects=direct)
    audit(ctx, arch, s, what, ports=(read, write, total) if not unwrapped_only(mems, P, read, write, total) else (read, write, None))
    per = Counter(str(pe.operation_type.type_name()) for pe in pes)
    for t, n in (resources or {}).items():
        ctx.check(strategy == "left_edge" or per[t] <= n, "resource_limit", lambda: f"{what}: {per[t]} processing elements for {t}")
    if "max_mems" in kw:
        ctx.check(strategy == "left_edge" or len(mems) <= kw["max_mems"], "memory_limit", lambda: f"{what}: {len(mems)} memories")
    if strategy == "ilp_graph_color":
        ctx.check(dict(per) == need, "pes_not_minimal", lambda: f"{what}: {dict(per)} processing elements, {need} suffice")
        mv = [v for m in mems for v in m.collection]
        me = [(a, b) for a, b in combinations(range(len(mv)), 2) if any(max(x.values()) > n for x, n in zip(accesses([mv[a], mv[b]], P), (1, 1, total or 2), strict=True))]
        if len(mv) <= 12:
            k = chromatic(len(mv), me)
            ctx.check(len(mems) == k, "memories_not_minimal", lambda: f"{what}: {len(mems)} memories, {k} suffice")
    if strategy == "ilp_min_mux" and "max_mux_size" in kw:
        fan = fan_in(arch)
        ctx.check(all(n <= kw["max_mux_size"] for n in fan.values()), "mux_size", lambda: f"{what}: fan-in {fan}")
    ctx.count("assigned." + strategy)


def fan_in(arch):
    out = {}
    for pe in arch.processing_elements:
        for i, d in enumerate(arch.get_interconnects_for_pe(pe)[0]):
            out[pe.entity_name, i] = len(d)
    for m in arch.memories:
        n = {(pe.entity_name, o) for pe in arch.processing_elements for o, d in enumerate(arch.get_interconnects_for_pe(pe)[1]) for (r, _) in d if r is m}
        out[m.entity_name, 0] = len(n) + sum(1 for r in arch.get_interconnects_for_memory(m)[0] if isinstance(r, Memory))
    return out


def unwrapped_only(mems, P, rd, wr, tot):
    """Whether the total port count is exceeded only as in the recorded finding total_wrap of C12."""
    from vh.arch import unwrapped
    return tot is not None and all(unwrapped(list(m.collection), P, rd, wr, tot) for m in mems)


def case_moves(ctx):
    """Histories of moves, added and removed resources."""
    rng = ctx.rng
    j, s = scheduled(ctx)
    arch, pes, mems, direct = build(ctx, s)
    audit(ctx, arch, s, "before")
    P = s.schedule_time
    removed = []
    latency = {id(pe): pe.processes[0].operation.latency for pe in arch.processing_elements}
    for _ in range(rng.randint(2, 12)):
        kind = rng.choice(["op", "op", "op", "var", "var", "wrong", "missing", "remove", "add", "self", "assign", "duplicate", "time"])
        before = observed(arch)
        res = [*arch.processing_elements, *arch.memories]
        full = [r for r in res if len(r.collection)]
        ref = (lambda r: r.entity_name) if rng.random() < 0.5 else (lambda r: r)
        if kind in ("op", "var"):
            pool = [r for r in full if isinstance(r, ProcessingElement) == (kind == "op")]
            dest = [r for r in res if isinstance(r, ProcessingElement) == (kind == "op")]
            if not pool:
                continue
            a = rng.choice(pool)
            p = rng.choice(list(a.collection))
            if kind == "op":
                dest = [r for r in dest if r.operation_type is a.operation_type]
            b = rng.choice(dest)
            if b is a:
                continue
            do = rng.random() < 0.5
            after = [*b.collection, p]
            if kind == "op":
                ok = all(n <= 1 for n in sum((slots(q, P) for q in after), Counter()).values())
                lat = p.operation.latency == latency[id(b)]
            else:
                w, r, _ = accesses(after, P)
                ok = max(w.values()) <= b.input_count and max(r.values()) <= b.output_count
                lat = True
            ctx.note(f"move {p.name} from {a.entity_name} to {b.entity_name} assign={do}, fits {ok}")
            try:
                arch.move_process(p.name if rng.random() < 0.5 else p, ref(a), ref(b), assign=do)
            except ValueError as e:
                ctx.count("move_refused")
                rest = _fits(a, P) if p not in a else _fits_all([q for q in a.collection if q is not p], a, P)
                ctx.check(not (ok and lat and (rest or not do)), "move_refused", lambda: f"move of {p.name} from {a.entity_name} to {b.entity_name} (assign={do}) refused: {e}")
                ctx.check(observed(arch) == before, "refused_move_changes", lambda: f"refused move of {p.name} from {a.entity_name} to {b.entity_name} (assign={do}) changes the architecture: {diff(before, observed(arch))}")
                ctx.check(p in a and p not in b, "refused_move_changes", "resource content")
                continue
            ctx.count("moves." + kind)
            ctx.check(p not in a and p in b, "not_moved", lambda: f"{p.name} from {a.entity_name} to {b.entity_name}")
            ctx.check(lat, "latency_accepted", lambda: f"operation moved to a processing element with another latency: {[(q.name, q.operation.latency) for q in after]}")
            if do:
                ctx.check(ok or not b.is_assigned, "assigned_invalid", lambda: f"{b.entity_name} assigned although {p.name} does not fit")
                ctx.check(ok, "overfull_accepted", lambda: f"move with assignment accepted although {p.name} does not fit in {b.entity_name}")
                ctx.check(b.is_assigned and (a.is_assigned or not len(a.collection)), "not_assigned", f"{a.entity_name} {a.is_assigned}, {b.entity_name} {b.is_assigned}")
            else:
                ctx.check(not a.is_assigned and not b.is_assigned, "still_assigned", "resources must be assigned again after a move")
        elif kind in ("wrong", "missing", "self"):
            a = rng.choice(full)
            p = rng.choice(list(a.collection))
            if kind == "self":
                b, err = a, (ValueError,)
            elif kind == "wrong":
                others = [r for r in res if r is not a and r.operation_type is not a.operation_type]
                if not others:
                    continue
                b, err = rng.choice(others), (TypeError,)
            else:
                others = [r for r in full if r is not a]
                if not others:
                    continue
                b, err = a, (KeyError, ValueError)
                p = rng.choice(list(rng.choice(others).collection))
            ctx.note(f"{kind}: {p.name} from {a.entity_name} to {b.entity_name}")
            try:
                arch.move_process(p, ref(a), ref(b), assign=rng.random() < 0.5)
                ctx.check(kind == "self", "bad_move_accepted", f"{kind} {p.name} from {a.entity_name} to {b.entity_name}")
            except err:
                ctx.count("bad_move_refused")
            ctx.check(observed(arch) == before, "bad_move_changes", lambda: f"{kind}: {diff(before, observed(arch))}")
        elif kind == "remove":
            r = rng.choice(res)
            ctx.note(f"remove {r.entity_name}")
            try:
                arch.remove_resource(ref(r))
                ctx.check(not len(r.collection), "nonempty_removed", r.entity_name)
                removed.append(r)
                ctx.check(all(x is not r for x in [*arch.processing_elements, *arch.memories]), "not_removed", r.entity_name)
                ctx.count("removed")
            except ValueError:
                ctx.check(len(r.collection), "empty_not_removed", r.entity_name)
                ctx.check(observed(arch) == before, "refused_removal_changes", r.entity_name)
        elif kind == "add" and removed:
            r = removed.pop()
            ctx.note(f"add {r.entity_name}")
            arch.add_resource(r)
            ctx.check(any(x is r for x in [*arch.processing_elements, *arch.memories]), "not_added", r.entity_name)
            ctx.count("added")
        elif kind == "assign":
            fits = all(_fits(r, P) for r in full)
            try:
                arch.assign_resources()
                ctx.check(fits, "assign_accepted", "assignment accepted although a resource is overfull")
                ctx.check(all(r.is_assigned for r in full), "not_assigned", "assign_resources")
            except ValueError as e:
                ctx.check(not fits, "assign_refused", lambda: f"assignment refused: {e}")
        elif kind in ("duplicate", "time"):
            a = rng.choice(full)
            q = ProcessCollection(list(a.collection), P + (kind == "time"))
            name = a.entity_name if kind == "duplicate" else "extra"
            new = ProcessingElement(q, name, assign=False) if isinstance(a, ProcessingElement) else Memory(q, entity_name=name)
            for p in list(new.collection):
                new.remove_process(p)
            try:
                arch.add_resource(new)
                ctx.fail("bad_resource_accepted", f"{kind}: {name} added")
            except ValueError:
                ctx.count("bad_resource_refused")
            ctx.check(observed(arch) == before, "refused_addition_changes", name)
        audit(ctx, arch, s, f"after {kind}", valid=False)


def _fits(r, P):
    return _fits_all(list(r.collection), r, P)


def _fits_all(q, r, P):
    if isinstance(r, ProcessingElement):
        return all(n <= 1 for n in sum((slots(p, P) for p in q), Counter()).values())
    w, rd, _ = accesses(q, P)
    return max(w.values(), default=0) <= r.input_count and max(rd.values(), default=0) <= r.output_count


def diff(a, b):
    return {k: (a.get(k), b.get(k)) for k in {*a, *b} if a.get(k) != b.get(k)}


def case_single(ctx):
    """One processing element and one memory given directly, and resources that must be refused."""
    rng = ctx.rng
    j, s = scheduled(ctx)
    pes, mems, direct = manual(ctx, s)
    P = s.schedule_time
    pe = rng.choice(pes)
    other = [p for p in pes if p.operation_type is not pe.operation_type]
    for bad, err in ((lambda: ProcessingElement(ProcessCollection([], P), "x"), ValueError),
                     (lambda: Memory(ProcessCollection([], P), entity_name="x"), ValueError),
                     (lambda: ProcessingElement(ProcessCollection([*pe.processes, *other[0].processes], P), "x", assign=False), TypeError),
                     (lambda: Memory(ProcessCollection(pe.processes, P), entity_name="x"), TypeError),
                     (lambda: ProcessingElement(ProcessCollection(list(mems[0].collection), P), "x"), TypeError),
                     (lambda: Memory(ProcessCollection(list(mems[0].collection), P), "ROM", entity_name="x"), ValueError),
                     (lambda: Memory(ProcessCollection(list(mems[0].collection), P), entity_name="1x"), ValueError),
                     (lambda: Memory(ProcessCollection(list(mems[0].collection), P), entity_name="x", read_ports=max(accesses(list(mems[0].collection), P)[1].values()) - 1, write_ports=9), ValueError),
                     (lambda: Memory(ProcessCollection(list(mems[0].collection), P), entity_name="x", write_ports=max(accesses(list(mems[0].collection), P)[0].values()) - 1, read_ports=9), ValueError)):
        try:
            bad()
        except err:
            ctx.count("bad_resource")
        except IndexError:
            continue
        else:
            ctx.fail("bad_resource_built", "a resource that cannot work was accepted")
    try:
        q = [p for x in pes if x.operation_type is pe.operation_type for p in x.processes]
        big = ProcessingElement(ProcessCollection(q, P), "x")
        ctx.check(all(n <= 1 for n in sum((slots(p, P) for p in q), Counter()).values()), "overfull_built", "overlapping executions in one processing element")
        ctx.check(len({p.operation.latency for p in q}) == 1, "latencies_built", "different latencies in one processing element")
        ctx.check(len(big.assignment) == 1 and Counter(map(id, big.assignment[0])) == Counter(map(id, q)), "pe_assignment", "assignment of a processing element")
    except ValueError:
        ctx.check(any(n > 1 for n in sum((slots(p, P) for p in q), Counter()).values()) or len({p.operation.latency for p in q}) > 1, "pe_refused", "processing element without conflict refused")
    arch = Architecture(pes, mems, direct_interconnects=direct)
    audit(ctx, arch, s, "all")
    if len(mems) == 1:
        audit(ctx, Architecture(pes, mems[0], direct_interconnects=direct), s, "one memory")


KINDS = {
    "manual": {"fn": case_manual, "quick": 900, "thorough": 12000, "timeout": 120},
    "incomplete": {"fn": case_incomplete, "quick": 500, "thorough": 5000, "timeout": 120},
    "assigner": {"fn": case_assigner, "quick": 500, "thorough": 6000, "timeout": 300},
    "moves": {"fn": case_moves, "quick": 700, "thorough": 10000, "timeout": 180},
    "single": {"fn": case_single, "quick": 300, "thorough": 3000, "timeout": 120},
}

if __name__ == "__main__":
    sys.exit(run_check(
        PROP, KINDS,
        rule="architectures are built from random schedules step by step and with the resource assigner (all strategies and port options), then edited (moves with and without "
             "assignment, added and removed resources, refused edits); contents, port use, deliveries of every value through memories and relays, interconnections and multiplexer "
             "sizes are recomputed from the schedule and the contents after every step; non-trivial: more than four nodes",
        assumptions=["the total port count with accesses after the end of the schedule is a recorded finding of C12", "the left-edge strategy ignores resource bounds, which only limit the solution space"],
        min_eval=200))
