"""Random public editing operations on an SFG.

Every edit function takes (rng, sfg) and returns None when it does not apply, or
(description, thunk, keeps, may_refuse): thunk() performs the edit and returns the
new SFG; keeps tells whether the edit is documented to keep the function;
may_refuse that a ValueError/TypeError/... is a legitimate answer.
"""
import warnings


def _inner(sfg):
    from b_asic import Input, Output
    return [o for o in sfg.operations if not isinstance(o, (Input, Output))]


def _shared_name(sfg, c):
    return c.name == "" or len(sfg.find_by_name(c.name)) != 1 or sfg.find_by_id(c.name) is not None


def _handle(rng, sfg, c):
    """Graph id of a component, or sometimes its (unique) name."""
    gid = str(c.graph_id)
    if sfg.find_by_name(gid):
        return None
    if not _shared_name(sfg, c) and "." not in c.name and rng.random() < 0.3:
        return c.name
    return gid


def identity(rng):
    import b_asic as ba
    k = rng.randrange(5)
    nm = rng.choice(["", "", "ident"])
    if k == 0:
        return ba.ConstantMultiplication(1, name=nm)
    if k == 1:
        return ba.Shift(0, name=nm)
    if k == 2:
        return ba.RightShift(0, name=nm)
    if k == 3:
        i = ba.Input()
        a = ba.ConstantMultiplication(2, i)
        return ba.SFG([i], [ba.Output(ba.ConstantMultiplication(0.5, a))], name=nm)
    i = ba.Input()
    return ba.SFG([i], [ba.Output(ba.Negation(ba.Negation(i)))], name=nm)


def copy_call(rng, sfg):
    return "sfg()", lambda: sfg(), True, False


def copy_copy(rng, sfg):
    return "sfg.copy()", lambda: sfg.copy(), True, False


def flatten(rng, sfg):
    e = rng.random() < 0.4
    return f"flatten(expand={e})", lambda: sfg.flatten(expand=e), True, False


def flatten_only(rng, sfg):
    return "flatten()", lambda: sfg.flatten(), True, False


def insert_after(rng, sfg):
    from b_asic import Signal
    comps = [c for c in sfg.components if (isinstance(c, Signal) or c.output_count)]
    c = rng.choice(comps)
    h = _handle(rng, sfg, c)
    if h is None:
        return None
    port = None
    if not isinstance(c, Signal) and rng.random() < 0.5:
        port = rng.randrange(c.output_count)
        if rng.random() < 0.5:
            h, port = f"{h}.{port}", None
    op = identity(rng)
    return (f"insert_operation_after({h}, {type(op).__name__}, {port})", lambda: sfg.insert_operation_after(h, op, port), True, False)


def insert_before(rng, sfg):
    from b_asic import Signal
    comps = [c for c in sfg.components if (isinstance(c, Signal) or c.input_count)]
    c = rng.choice(comps)
    h = _handle(rng, sfg, c)
    if h is None:
        return None
    port = None
    if not isinstance(c, Signal) and rng.random() < 0.5:
        port = rng.randrange(c.input_count)
        if rng.random() < 0.5:
            h, port = f"{h}.{port}", None
    op = identity(rng)
    return (f"insert_operation_before({h}, {type(op).__name__}, {port})", lambda: sfg.insert_operation_before(h, op, port), True, False)


def insert_wide(rng, sfg):
    """Insert an identity with several ports after/before an operation with as many ports."""
    import b_asic as ba
    after = rng.random() < 0.5
    c = rng.choice([o for o in sfg.operations if (o.output_count if after else o.input_count) >= 2] or [None])
    if c is None:
        return None
    h = _handle(rng, sfg, c)
    if h is None:
        return None
    n = c.output_count if after else c.input_count
    ins = [ba.Input() for _ in range(n)]
    op = ba.SFG(ins, [ba.Output(ba.ConstantMultiplication(1, i)) for i in ins])
    if after:
        return f"insert_operation_after({h}, SFG{n})", lambda: sfg.insert_operation_after(h, op), True, False
    return f"insert_operation_before({h}, SFG{n})", lambda: sfg.insert_operation_before(h, op), True, False


def _is_identity(o):
    import b_asic as ba
    return isinstance(o, (ba.ConstantMultiplication,)) and o.value == 1 or isinstance(o, (ba.Shift, ba.RightShift, ba.LeftShift)) and o.value == 0


def remove_identity(rng, sfg):
    c = rng.choice([o for o in _inner(sfg) if _is_identity(o)] or [None])
    if c is None:
        return None
    gid = c.graph_id
    return f"remove_operation({gid})", lambda: sfg.remove_operation(gid), True, False


def replace_by_sfg(rng, sfg):
    c = rng.choice(_inner(sfg) or [None])
    if c is None:
        return None
    gid = c.graph_id
    from b_asic import SFG, Delay
    if isinstance(c, SFG):
        return None
    from b_asic import Sink
    if isinstance(c, (Delay, Sink)):
        return None
    return f"replace({gid}, {type(c).__name__}.to_sfg())", lambda: sfg.replace(gid, c.to_sfg()), True, False


def equivalent(rng, o):
    import b_asic as ba
    t = type(o).__name__
    if t == "Addition":
        return rng.choice([lambda: ba.AddSub(True, mul_j=o.mul_j, shift_output=o.shift_output),
                           lambda: ba.ShiftAddSub(is_add=True, shift=0, mul_j=o.mul_j, shift_output=o.shift_output)])()
    if t == "Subtraction":
        return ba.AddSub(False, mul_j=o.mul_j, shift_output=o.shift_output)
    if t == "Negation":
        return ba.ConstantMultiplication(-1)
    if t == "RightShift":
        return ba.ConstantMultiplication(2.0 ** -o.value)
    if t == "LeftShift":
        return ba.ConstantMultiplication(2 ** o.value)
    if t == "ConstantMultiplication":
        i = ba.Input()
        k = ba.Constant(o.value)
        return ba.SFG([i], [ba.Output(ba.Multiplication(i, k))])
    if t == "Delay":
        return ba.Delay(initial_value=o.initial_value)
    if t == "SFG":
        return o()
    return None


def replace_equivalent(rng, sfg):
    cand = _inner(sfg)
    rng.shuffle(cand)
    for c in cand:
        e = equivalent(rng, c)
        if e is not None:
            gid = c.graph_id
            return f"replace({gid} {type(c).__name__}, {type(e).__name__})", lambda: sfg.replace(gid, e), True, False
    return None


def extract(rng, sfg):
    """A convex set of operations: convexity keeps the nested SFG free of artificial loops."""
    ops = _inner(sfg)
    if not ops:
        return None
    from b_asic import Constant, Delay
    start = rng.choice(ops)
    chosen = {start.graph_id}
    for _ in range(rng.randint(0, 4)):
        front = []
        for g in chosen:
            o = sfg.find_by_id(g)
            for p in o.outputs:
                front += [s.destination.operation for s in p.signals]
            for p in o.inputs:
                front += [s.source.operation for s in p.signals]
        front = [f for f in front if f in ops and f.graph_id not in chosen]
        if not front:
            break
        chosen.add(rng.choice(front).graph_id)
    # convex closure over delay-free and delayed paths alike
    succ = {o.graph_id: [s.destination.operation.graph_id for p in o.outputs for s in p.signals] for o in sfg.operations}
    pred = {o.graph_id: [s.source.operation.graph_id for p in o.inputs for s in p.signals] for o in sfg.operations}

    def reach(start, nxt):
        seen, todo = set(), list(start)
        while todo:
            for v in nxt[todo.pop()]:
                if v not in seen:
                    seen.add(v)
                    todo.append(v)
        return seen

    good = {o.graph_id for o in ops}
    chosen |= (reach(chosen, succ) & reach(chosen, pred)) & good
    ids = sorted(chosen)
    rng.shuffle(ids)
    has_in = any(sfg.find_by_id(i).input_count for i in ids)
    return f"extract({ids})", lambda: sfg.extract(list(ids)), True, not has_in


def simplify_delays(rng, sfg):
    return "simplify_delay_element_placement()", lambda: sfg.simplify_delay_element_placement(), True, False


def rewrite(rng, sfg):
    import b_asic as ba
    pool = {ba.AddSub: (ba.Addition, ba.Subtraction), ba.ShiftAddSub: (ba.Addition, ba.Subtraction, ba.AddSub, ba.ConstantMultiplication),
            ba.Shift: (ba.ConstantMultiplication,)}
    src = rng.choice(list(pool))
    cand = [o for o in sfg.operations if type(o) in pool[src]
            and not (isinstance(o, ba.ConstantMultiplication) and isinstance(o.value, complex))]
    if not cand:
        return None
    t = type(rng.choice(cand))
    if rng.random() < 0.25:
        if any(o not in cand for o in sfg.operations if type(o) is t):
            return None
        return f"rewrite({src.__name__}, {t.__name__})", lambda: sfg.rewrite(src, t), True, False
    pick = [o.graph_id for o in rng.sample(cand, rng.randint(1, min(3, len(cand))))]
    if len(pick) == 1 and rng.random() < 0.5:
        pick = pick[0]
    return f"rewrite({src.__name__}, {pick})", lambda: sfg.rewrite(src, pick), True, False


def join(rng, sfg):
    import b_asic as ba
    cand = [o for o in sfg.operations if isinstance(o, ba.ImaginaryMultiplication)]
    if not cand:
        return None
    o = rng.choice(cand)
    return f"join({o.graph_id}, forward)", lambda: sfg.join(o.graph_id, "forward"), True, True


def swap(rng, sfg):
    cand = [o for o in sfg.operations if o.input_count == 2 and o.is_swappable]
    if not cand:
        return None
    c = rng.choice(cand)
    return f"swap_io_of_operation({c.graph_id})", lambda: _swap(sfg, c.graph_id), True, False


def _swap(sfg, gid):
    new = sfg()
    new.swap_io_of_operation(gid)
    return new


# -- edits that change the function -----------------------------------------------

def insert_any(rng, sfg):
    import b_asic as ba
    from b_asic import Signal
    after = rng.random() < 0.5
    c = rng.choice([c for c in sfg.components if isinstance(c, Signal) or (c.output_count if after else c.input_count)])
    h = _handle(rng, sfg, c)
    if h is None:
        return None
    op = rng.choice([lambda: ba.Delay(), lambda: ba.ConstantMultiplication(3), lambda: ba.Negation(), lambda: ba.Absolute(),
                     lambda: ba.SymmetricTwoportAdaptor(0.5), lambda: ba.Addition(), lambda: ba.R2Butterfly()])()
    f = sfg.insert_operation_after if after else sfg.insert_operation_before
    port = None
    if not isinstance(c, Signal) and rng.random() < 0.3:
        port = rng.randrange(c.output_count if after else c.input_count)
    n = (1 if isinstance(c, Signal) else (c.output_count if after else c.input_count))
    single = op.input_count == 1 and op.output_count == 1
    fits = single or (not isinstance(c, Signal) and port is None and op.input_count == op.output_count == n)
    return f"insert_{'after' if after else 'before'}({h}, {type(op).__name__}, {port})", lambda: f(h, op, port), False, not fits


def remove_any(rng, sfg):
    c = rng.choice([o for o in _inner(sfg) if o.input_count == o.output_count] or [None])
    if c is None:
        return None
    if any(not p.signals for p in c.outputs):
        return None
    if any(s.source.operation is c for p in c.inputs for s in p.signals):
        return None
    return f"remove_operation({c.graph_id})", lambda: sfg.remove_operation(c.graph_id), False, False


def replace_any(rng, sfg):
    import b_asic as ba
    c = rng.choice(_inner(sfg) or [None])
    if c is None:
        return None
    pool = {(1, 1): lambda: rng.choice([ba.Delay(), ba.Negation(), ba.ConstantMultiplication(2), ba.Absolute()]),
            (2, 1): lambda: rng.choice([ba.Addition(), ba.Subtraction(), ba.Max(), ba.AddSub(False)]),
            (2, 2): lambda: rng.choice([ba.R2Butterfly(), ba.SymmetricTwoportAdaptor(0.25)]),
            (3, 1): lambda: ba.MAD()}
    mk = pool.get((c.input_count, c.output_count))
    if mk is None:
        return None
    e = mk()
    return f"replace({c.graph_id} {type(c).__name__}, {type(e).__name__})", lambda: sfg.replace(c.graph_id, e), False, False


KEEP = {"copy_call": copy_call, "copy_copy": copy_copy, "flatten": flatten, "insert_after": insert_after, "insert_before": insert_before,
        "insert_wide": insert_wide, "remove_identity": remove_identity, "replace_by_sfg": replace_by_sfg,
        "replace_equivalent": replace_equivalent, "extract": extract, "simplify_delays": simplify_delays, "rewrite": rewrite,
        "join": join, "swap": swap}
CHANGE = {"insert_any": insert_any, "remove_any": remove_any, "replace_any": replace_any}

REFUSALS = (ValueError, TypeError, NotImplementedError, RuntimeError, IndexError, KeyError)


def perform(edit):
    """Run an edit thunk with warnings silenced; returns (new sfg, None) or (None, refusal)."""
    desc, thunk, keeps, may = edit
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            return thunk(), None
        except REFUSALS as e:
            if not may:
                raise
            return None, e
