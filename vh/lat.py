"""Random latencies and execution times, set through the public API."""
FIXED = ("Input", "Output", "Delay", "Constant", "Sink", "DontCare")


def op_timing(rng, n_in, n_out, offsets=True, zero=True, exec_max=None, skew=True):
    """latency_offsets and execution_time of one operation."""
    lat = rng.choice([0, 1, 1, 2, 3, 5] if zero else [1, 1, 2, 3, 5])
    if offsets and rng.random() < 0.4:
        ins = [rng.choice([0, 0, 1, 2]) if skew else 0 for _ in range(n_in)]
        if ins:
            ins[rng.randrange(n_in)] = 0
        outs = [max(ins, default=0) + rng.randint(0 if zero else 1, 3) for _ in range(n_out)]
    else:
        ins, outs = [0] * n_in, [lat] * n_out
    return ins, outs, rng.randint(1, exec_max or max(1, lat))


def assign(rng, sfg, offsets=True, zero=True, exec_max=None, per_op=None, skew=True):
    """Set latencies and execution times of all ordinary operations; returns nothing."""
    per_op = rng.random() < 0.4 if per_op is None else per_op
    types = {}
    for o in sfg.operations:
        t = type(o).__name__
        if t in FIXED or (not o.input_count and not o.output_count):
            if t in ("Constant", "DontCare"):
                pass
            continue
        types.setdefault(o.type_name(), []).append(o)
    for tn, ops in types.items():
        groups = [[o] for o in ops] if per_op or tn == "sfg" else [ops]
        for g in groups:
            ins, outs, ex = op_timing(rng, g[0].input_count, g[0].output_count, offsets, zero, exec_max, skew)
            d = {f"in{i}": v for i, v in enumerate(ins)} | {f"out{i}": v for i, v in enumerate(outs)}
            for o in g:
                o.set_latency_offsets(d)
                o.execution_time = ex


def offsets(o):
    d = o.latency_offsets
    return [d[f"in{i}"] for i in range(o.input_count)], [d[f"out{i}"] for i in range(o.output_count)]


def asap(sfg):
    """Independent earliest start times (iteration 0, delay outputs available at 0)."""
    start, ops = {}, list(sfg.operations)
    order, done = [], set()
    from b_asic import Delay
    rest = list(ops)
    while rest:
        nxt = []
        for o in rest:
            if isinstance(o, Delay) or all(s.source.operation in done for p in o.inputs for s in p.signals):
                done.add(o)
                order.append(o)
            else:
                nxt.append(o)
        if len(nxt) == len(rest):
            raise ValueError("delay-free loop")
        rest = nxt
    for o in order:
        if isinstance(o, Delay):
            start[o] = 0
            continue
        t = 0
        for p in o.inputs:
            for s in p.signals:
                u = s.source.operation
                t = max(t, start[u] + (0 if isinstance(u, Delay) else s.source.latency_offset) - p.latency_offset)
        start[o] = t
    return start
