"""Structural audit and fingerprint of an SFG, through its public API."""
from collections import Counter


def fingerprint(sfg, external=True, nested=True):
    """Everything observable about an SFG, as a plain value."""
    from b_asic import SFG, Signal
    rows = []
    for c in sorted(sfg.components, key=lambda c: str(c.graph_id)):
        row = [str(c.graph_id), type(c).__name__, str(c.name), sorted((k, repr(v)) for k, v in c.params.items())]
        if isinstance(c, Signal):
            row.append((_port(c.source), _port(c.destination)))
        else:
            row += [sorted(c.latency_offsets.items()), c.execution_time,
                    [[str(s.graph_id) for s in p.signals] for p in c.inputs],
                    [[str(s.graph_id) for s in p.signals] for p in c.outputs]]
            if isinstance(c, SFG) and nested:
                row.append(fingerprint(c, False))
        rows.append(row)
    return (str(sfg.name), rows, [str(o.graph_id) for o in sfg.input_operations], [str(o.graph_id) for o in sfg.output_operations],
            sorted(sfg.latency_offsets.items(), key=str), sfg.execution_time,
            [len(p.signals) for p in sfg.inputs] + [len(p.signals) for p in sfg.outputs] if external else None)


def _port(p):
    return None if p is None else (str(p.operation.graph_id), p.index)


def parts(sfg):
    """ids of all components, nested ones included."""
    from b_asic import SFG
    out = set()
    for c in sfg.components:
        out.add(id(c))
        if isinstance(c, SFG):
            out |= parts(c)
    return out


def audit(ctx, sfg, where=""):
    from b_asic import SFG, Input, Output, Signal
    # an input that nothing uses is only listed among the inputs
    unused = [o for o in sfg.input_operations if not o.output(0).signals]
    comps = list(sfg.components)
    comps += [o for o in unused if all(o is not c for c in comps)]
    ops = list(sfg.operations)
    ops += [o for o in unused if all(o is not c for c in ops)]

    def ck(cond, mech, msg=""):
        ctx.check(cond, "audit." + mech, lambda: f"{where}: {msg}")

    ids = Counter(str(c.graph_id) for c in comps)
    ck(all(n == 1 for n in ids.values()), "ids_unique", f"{[i for i, n in ids.items() if n > 1]}")
    ck("" not in ids, "ids_empty", "a component has no graph id")
    ck(len({id(c) for c in comps}) == len(comps), "components_unique", "component listed twice")
    ck(len({id(c) for c in ops}) == len(ops), "operations_unique", f"operation listed twice: {[str(o.graph_id) for o in ops]}")
    cset = {id(c) for c in comps}
    ck({id(c) for c in comps if not isinstance(c, Signal)} == {id(o) for o in ops}, "operations",
       f"operations {sorted(str(o.graph_id) for o in ops)}, components {sorted(str(c.graph_id) for c in comps if not isinstance(c, Signal))}")
    names = {}
    for c in comps:
        names.setdefault(str(c.name), []).append(c)
        ck(sfg.find_by_id(c.graph_id) is c, "find_by_id", f"find_by_id({c.graph_id})")
    for n, cs in names.items():
        got = sfg.find_by_name(n)
        ck(len(got) == len(cs) and {id(c) for c in got} == {id(c) for c in cs}, "find_by_name",
           f"find_by_name({n!r}) gives {[str(c.graph_id) for c in got]}, expected {[str(c.graph_id) for c in cs]}")
    ck(sfg.find_by_id("nonexistent77") is None and list(sfg.find_by_name("no such name")) == [], "find_missing", "found")
    types = {type(c) for c in comps}
    for t in types:
        want = {id(c) for c in comps if isinstance(c, t)}
        got = sfg.find_by_type(t)
        ck(len({id(c) for c in got}) == len(got) and {id(c) for c in got} <= want and want <= {id(c) for c in got} | {id(c) for c in unused}, "find_by_type", f"{t.__name__}: {[str(c.graph_id) for c in got]}")
    nin = {}
    for c in comps:
        if isinstance(c, Signal):
            s, d = c.source, c.destination
            ck(s is not None and d is not None, "signal_dangling", f"{c.graph_id}: {_port(s)} -> {_port(d)}")
            ck(id(s.operation) in cset and id(d.operation) in cset, "signal_outside", f"{c.graph_id}: {_port(s)} -> {_port(d)}")
            ck(sum(x is c for x in s.signals) == 1, "signal_source_list", f"{c.graph_id} not listed by its source {_port(s)}")
            ck(list(d.signals) == [c], "signal_destination_list", f"{c.graph_id} not listed by its destination {_port(d)}")
            ck(s.operation.output(s.index) is s and d.operation.input(d.index) is d, "signal_port", f"{c.graph_id}")
            nin[id(d)] = nin.get(id(d), 0) + 1
        else:
            for kind, ps in (("in", c.inputs), ("out", c.outputs)):
                for i, p in enumerate(ps):
                    ck(p.operation is c and p.index == i, "port", f"{c.graph_id} {kind}{i}: index {p.index}, operation {p.operation.graph_id}")
                    for s in p.signals:
                        ck(id(s) in cset, "port_signal_outside", f"{c.graph_id} {kind}{i} has a signal that is not part of the SFG")
                        ck((s.destination if kind == "in" else s.source) is p, "port_signal", f"{c.graph_id} {kind}{i}")
            for i, p in enumerate(c.inputs):
                ck(len(p.signals) == 1, "input_undriven", f"{c.graph_id} in{i} has {len(p.signals)} signals")
            ck(not isinstance(c, Output) or any(c is o for o in sfg.output_operations), "stray_output", f"{c.graph_id}")
            ck(not isinstance(c, Input) or any(c is o for o in sfg.input_operations), "stray_input", f"{c.graph_id}")
            if isinstance(c, SFG):
                audit(ctx, c, where + f"/{c.graph_id}")
    for what, declared, t, n in (("inputs", sfg.input_operations, Input, sfg.input_count), ("outputs", sfg.output_operations, Output, sfg.output_count)):
        ck(len(declared) == n and len({id(o) for o in declared}) == n, what, f"{len(declared)} operations, {n} ports")
        ck(all(isinstance(o, t) and id(o) in cset for o in declared), what, f"{what} are not components of the right type")
    seen, todo = set(), [*sfg.input_operations, *sfg.output_operations]
    while todo:
        o = todo.pop()
        if id(o) in seen:
            continue
        seen.add(id(o))
        for p in o.inputs:
            todo += [s.source.operation for s in p.signals]
        for p in o.outputs:
            todo += [s.destination.operation for s in p.signals]
    ck(seen == {id(o) for o in ops}, "reachable", f"{sorted(str(o.graph_id) for o in ops if id(o) not in seen)} not reachable")
    ctx.count("audits")
