"""C17: saving, loading, pickling and copying keep everything."""
import copy
import inspect
import os
import pickle
import random
import shutil
import sys
import tempfile

import numpy as np

from vh import boot

boot.install()
import b_asic  # noqa: E402
from b_asic import SFG, Delay, Schedule, Signal, Simulation  # noqa: E402
from b_asic.save_load_structure import python_to_sfg, schedule_to_python, sfg_to_python  # noqa: E402

from vh import edits, lat  # noqa: E402
from vh.core import Skip, run_check  # noqa: E402
from vh.gen import BASIC, CPLX, LINEAR_X, REALS, random_net  # noqa: E402
from vh.job import Job, random_edit, random_schedule  # noqa: E402
from vh.ops import REF  # noqa: E402
from vh.sound import audit  # noqa: E402

PROP = "C17"
NAMES = ["", "", "x", "a b", "node", "in0", "add0", "it's", 'say "hi"', "back\\slash", "näme", "for", "1st", "prop", "positions", "SFG", "Schedule", "Input", "sfg", "a-b", "new\nline", "x+y", "'''", '"""', "{0}", "%s", "#", "None"]


def attributes(o):
    """Everything that constructing an operation of this kind can set."""
    d = {}
    for a in inspect.signature(type(o).__init__).parameters:
        if a not in ("self", "latency", "inputs", "outputs", "input_signals", "output_signals") and hasattr(o, a):
            d[a] = value(getattr(o, a))
    return d


def value(v):
    if isinstance(v, dict):
        return {str(k): value(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [value(x) for x in v]
    if isinstance(v, str):
        return str(v)
    if v is None or isinstance(v, bool):
        return v
    return complex(v)


def dump(sfg):
    """What an SFG consists of, independent of the order in which it was built."""
    out = {"name": str(sfg.name), "inputs": [str(o.graph_id) for o in sfg.input_operations], "outputs": [str(o.graph_id) for o in sfg.output_operations],
           "offsets": value(sfg.latency_offsets), "execution_time": sfg.execution_time}
    for c in sfg.components:
        g = str(c.graph_id)
        if isinstance(c, Signal):
            out[g] = ("Signal", str(c.name), c.bits, str(c.source.operation.graph_id), c.source.index, str(c.destination.operation.graph_id), c.destination.index)
        elif isinstance(c, SFG):
            out[g] = ("SFG", dump(c))
        else:
            out[g] = (type(c).__name__, attributes(c), {k: value(v) for k, v in c.params.items()})
    return out


def difference(a, b, path=""):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted({*a, *b}, key=str):
            if a.get(k, "absent") != b.get(k, "absent"):
                return difference(a.get(k, "absent"), b.get(k, "absent"), f"{path}/{k}")
    elif isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for x, y in zip(a, b):
            if x != y:
                return difference(x, y, path)
    return f"{path}: {a!r} became {b!r}"


def same(ctx, a, b, mech, what):
    x, y = dump(a), dump(b)
    ctx.check(x == y, mech, lambda: f"{what}: {difference(x, y)}")
    audit(ctx, b, what)
    ctx.check(not {id(c) for c in a.components} & {id(c) for c in b.components}, mech + ".shared", what)


def run(sfg, x, n):
    sim = Simulation(sfg, x)
    sim.run_for(n)
    return {str(k): [complex(v) for v in vs] for k, vs in sim.results.items()}


def numpy_values(sfg):
    return any(numpy_values(o) if isinstance(o, SFG) else any(isinstance(v, np.generic) for v in o.params.values()) for o in sfg.operations)


def behaves(ctx, a, b, mech, what):
    """Both compute the same values in every node."""
    if numpy_values(a):
        # saved as Python numbers, whose complex division rounds differently
        ctx.count("behaviour_skipped_numpy")
        return
    n = 4
    rng = random.Random(ctx.rng.random())
    x = [[rng.randint(-8, 8) / 4 for _ in range(n)] for _ in a.input_operations]
    try:
        ra = run(a, x, n)
    except (OverflowError, ZeroDivisionError, TypeError, ValueError):
        return
    if any(not abs(v) < 1e100 for vs in ra.values() for v in vs):
        return
    rb = run(b, x, n)
    ctx.count("simulations")
    ctx.check(ra == rb, mech + ".behaviour", lambda: f"{what}: results {[(k, v, rb.get(k)) for k, v in ra.items() if v != rb.get(k)][:2]}")


def rename(rng, sfg, depth=0):
    for c in sfg.components:
        if rng.random() < 0.35:
            c.name = rng.choice(NAMES)
        if isinstance(c, Signal) and rng.random() < 0.2:
            c.bits = rng.choice([1, 8, 16])
        if isinstance(c, SFG):
            rename(rng, c, depth + 1)


def graph(ctx, **kw):
    rng = ctx.rng
    ops = rng.choice([REALS, LINEAR_X, BASIC, list(REF), list(REF), CPLX])
    ops = [o for o in ops if o != "Constant"]
    d = dict(n_ops=rng.randint(1, 12), nested=rng.choice([0, 0, 1, 2]), ops=ops, sinks=rng.random() < 0.3, cplx=rng.random() < 0.2)
    d.update(kw)
    net = random_net(rng, **d)
    falsy(rng, net)
    ctx.sig, ctx.sample, ctx.nontrivial = net.signature(), net.describe(), len(net.nodes) > 4
    sfg = net.build(rng, name=rng.choice(NAMES), sfg_kwargs={"id_number_offset": rng.choice([0, 0, 0, 3])} if rng.random() < 0.3 else None)
    return net, sfg


def falsy(rng, net):
    """Parameters that differ from the default in any direction."""
    for n in net.nodes.values():
        p, op = n["p"], n["op"]
        if op == "SFG":
            falsy(rng, p["net"])
        if op == "ConstantMultiplication" and rng.random() < 0.2:
            p["value"] = rng.choice([0, 0.0, 1, np.float64(0.375), np.int64(3), 1 + 2j, 1e-30, 1 / 3])
        if op in ("RightShift", "LeftShift", "Shift") and rng.random() < 0.3:
            p["value"] = 0
        if op == "ReciprocalSquareRoot" and rng.random() < 0.7:
            p["real_valued"] = rng.choice([True, False])
        if op in ("Addition", "Subtraction", "AddSub", "ShiftAddSub") and rng.random() < 0.15:
            p["mul_j"] = True
        if op == "Delay" and rng.random() < 0.2:
            p["initial_value"] = rng.choice([np.float64(1.5), 1j, -7])


def timing(rng, sfg):
    k = rng.random()
    if k < 0.25:
        return
    if k < 0.6:
        lat.assign(rng, sfg, zero=True, per_op=rng.random() < 0.6)
        return
    for o in sfg.operations:
        if rng.random() < 0.6 and (o.input_count or o.output_count):
            ports = [f"in{i}" for i in range(o.input_count)] + [f"out{i}" for i in range(o.output_count)]
            o.set_latency_offsets({p: rng.choice([0, 0, 1, 4]) + 4 * p.startswith("out") for p in ports if rng.random() < 0.7})
        if rng.random() < 0.5:
            o.execution_time = rng.choice([0, 1, 2])


class Scratch:
    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix="vh_c17_")
        return self.dir

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)


def reload_text(ctx, text, positions=None):
    with Scratch() as d:
        p = os.path.join(d, "saved.py")
        with open(p, "w", encoding="utf-8") as f:
            f.write(text)
        got, pos = python_to_sfg(p)
    if positions is not None:
        ctx.check(pos == positions, "positions", lambda: f"{pos}, saved {positions}")
    return got


def case_text(ctx):
    rng = ctx.rng
    net, sfg = graph(ctx)
    timing(rng, sfg)
    rename(rng, sfg)
    sfg = sfg()
    # the graph may have been edited since it was built
    for _ in range(rng.choice([0, 0, 2])):
        edits.random_edit(ctx, sfg) if hasattr(edits, "random_edit") else None
    before = dump(sfg)
    pos = {str(o.graph_id): (rng.randint(0, 99), 5, bool(rng.randint(0, 1))) for o in sfg.operations} if rng.random() < 0.5 else None
    text = sfg_to_python(sfg, suffix=None if pos is None else f"positions = {pos}")
    ctx.note(text)
    ctx.check(dump(sfg) == before, "saving_changes", "saving changed the SFG")
    new = reload_text(ctx, text, pos or {})
    same(ctx, sfg, new, "text", "loaded SFG")
    behaves(ctx, sfg, new, "text", "loaded SFG")
    again = reload_text(ctx, sfg_to_python(new))
    same(ctx, sfg, again, "text", "SFG saved and loaded twice")
    ctx.count("text_components", len(before))


def case_schedule_text(ctx):
    rng = ctx.rng
    j = Job(ctx, nested=rng.choice([0, 0, 1]), ops=rng.choice([LINEAR_X, BASIC]))
    s, kind = random_schedule(ctx, j, names=["asap", "alap", "list", "list"])
    for _ in range(rng.choice([0, 2, 5])):
        random_edit(ctx, s, j)
    rename(rng, s.sfg)
    s.sfg.name = rng.choice(NAMES)
    text = schedule_to_python(s)
    ctx.note(text)
    env = {}
    exec(compile(text, "saved", "exec"), env)
    got = [v for v in env.values() if isinstance(v, Schedule)]
    ctx.check(len(got) == 1, "schedule_count", f"{len(got)} schedules in the saved text")
    compare(ctx, s, got[0], "schedule_text", "loaded schedule", y=False, ids=False)
    same_future(ctx, s, got[0], j, "schedule_text", ids=False)


def state(s):
    return {"start": {str(k): v for k, v in s.start_times.items()}, "laps": {str(k): v for k, v in s.laps.items() if v}, "time": s.schedule_time, "cyclic": s.cyclic}


def shape(sfg):
    """As dump, with the chains of delays between the operations instead of single signals and delays."""
    d = dump(sfg)
    out = {k: v for k, v in d.items() if not (isinstance(v, tuple) and v[0] in ("Signal", "Delay"))}
    for o in sfg.operations:
        for p in o.inputs:
            if isinstance(o, Delay):
                continue
            chain, q = [], p.signals[0].source
            while isinstance(q.operation, Delay):
                chain.append(q.operation.initial_value)
                q = q.operation.input(0).signals[0].source
            out[str(o.graph_id), p.index] = (str(q.operation.graph_id), q.index, chain)
    return out


def compare(ctx, a, b, mech, what, y=True, ids=True):
    x, z = state(a), state(b)
    if not ids:
        for d in (x, z):
            d["laps"] = sorted(d["laps"].values())
    ctx.check(x == z, mech, lambda: f"{what}: {difference(x, z)}")
    dx, dz = (dump(a.sfg), dump(b.sfg)) if ids else (shape(a.sfg), shape(b.sfg))
    ctx.check(dx == dz, mech + ".sfg", lambda: f"{what}: {difference(dx, dz)}")
    if y:
        locs = [{g: s.get_y_location(g) for g in s.start_times} for s in (a, b)]
        ctx.check(locs[0] == locs[1], mech + ".y_locations", lambda: f"{what}: {locs}")
    for f in ("get_max_end_time", "get_max_non_io_end_time"):
        ctx.check(getattr(a, f)() == getattr(b, f)(), mech + "." + f, what)
    for g in a.start_times:
        ctx.check((a.slacks(g), a.forward_slack(g), a.backward_slack(g)) == (b.slacks(g), b.forward_slack(g), b.backward_slack(g)), mech + ".slacks", f"{what}: {g}")
    ra, rb = [sorted((p.name, p.start_time, sorted((r.name, n) for r, n in p.reads.items())) for p in s.get_memory_variables()) if s.schedule_time else None for s in (a, b)]
    ctx.check(ra == rb, mech + ".variables", lambda: f"{what}: {ra}, {rb}")
    ctx.count("schedules_compared")


def same_future(ctx, a, b, j, mech, ids=True):
    """The same edits have the same effects on both."""
    seed = ctx.rng.random()
    keep = ctx.rng
    n = ctx.rng.choice([0, 2, 5])
    for _ in range(n):
        out = []
        for s in (a, b):
            ctx.rng = random.Random(seed)
            out.append(repr(random_edit(ctx, s, j)))
        ctx.rng = keep
        seed = keep.random()
        if ids:
            ctx.check(state(a) == state(b), mech + ".edits", lambda: f"after the same edit {out}: {difference(state(a), state(b))}")
        else:
            ctx.check(a.start_times == b.start_times and a.schedule_time == b.schedule_time, mech + ".edits", lambda: f"after the same edit {out}: {difference(state(a), state(b))}")
    if not ids and n:
        ctx.check(shape(a.sfg) == shape(b.sfg), mech + ".edits", lambda: f"{difference(shape(a.sfg), shape(b.sfg))}")


def case_schedule_pickle(ctx):
    rng = ctx.rng
    j = Job(ctx, nested=rng.choice([0, 0, 1]))
    s, kind = random_schedule(ctx, j, names=["asap", "alap", "list", "list", "recursive"])
    for _ in range(rng.choice([0, 2, 5])):
        random_edit(ctx, s, j)
    rename(rng, s.sfg)
    for g in rng.sample(sorted(s.start_times), min(2, len(s.start_times))):
        s.set_y_location(g, rng.randint(0, 5))
    how = rng.choice(["pickle", "pickle", "deepcopy"])
    before = (state(s), dump(s.sfg))
    if how == "pickle":
        new = pickle.loads(pickle.dumps(s, rng.choice([None, 2, 3, 4, 5])))
    else:
        new = copy.deepcopy(s)
    ctx.note(how)
    ctx.check(before == (state(s), dump(s.sfg)), how + ".changes", "the schedule changed")
    compare(ctx, s, new, "schedule_" + how, f"{how} of a schedule")
    same_future(ctx, s, new, j, "schedule_" + how)
    before = (state(s), dump(s.sfg))
    random_edit(ctx, new, j)
    for c in new.sfg.components:
        c.name = "changed"
    ctx.check(before == (state(s), dump(s.sfg)), "schedule_shared", f"editing the {how} changed the original")


def case_sfg_copies(ctx):
    rng = ctx.rng
    net, sfg = graph(ctx)
    timing(rng, sfg)
    rename(rng, sfg)
    sfg = sfg()
    before = dump(sfg)
    for how, fn in (("pickle", lambda: pickle.loads(pickle.dumps(sfg, rng.choice([None, 2, 3, 4, 5])))), ("deepcopy", lambda: copy.deepcopy(sfg)), ("copy", lambda: sfg.copy()), ("call", lambda: sfg())):
        if rng.random() < 0.3:
            continue
        new = fn()
        ctx.note(how)
        same(ctx, sfg, new, how, f"{how} of an SFG")
        behaves(ctx, sfg, new, how, f"{how} of an SFG")
        # later edits give the same result as on the original, and leave it alone
        seed = rng.random()
        third = fn()
        for g in (new, third):
            r = random.Random(seed)
            comp = r.choice([o for o in sorted(g.operations, key=lambda o: str(o.graph_id)) if o.input_count == 1 or o.output_count == 1])
            try:
                getattr(g, r.choice(["insert_operation_before", "insert_operation_after"]))(comp.graph_id, b_asic.Negation())
            except (ValueError, TypeError):
                pass
        ctx.check(dump(new) == dump(third), how + ".edits", lambda: f"the same edit on two copies: {difference(dump(new), dump(third))}")
        ctx.check(dump(sfg) == before, how + ".reaches_original", "editing the copy changed the original")
        audit(ctx, new, how + " edited")
        ctx.count("copies." + how)


CLASSES = [c for c in vars(b_asic).values() if inspect.isclass(c) and issubclass(c, b_asic.AbstractOperation) and c not in (b_asic.AbstractOperation, SFG)]


def case_operation_copies(ctx):
    """Single operations with random attributes."""
    rng = ctx.rng
    from vh.gen import _params
    classes = sorted(CLASSES, key=lambda c: c.__name__)
    for c in rng.sample(classes, 6):
        n = c.__name__
        p = _params(rng, n, False) if n in REF else {}
        if n == "Delay":
            p = {"initial_value": rng.choice([0, 1, 2.5, 1j])}
        if n == "ReciprocalSquareRoot":
            p = {"real_valued": rng.choice([None, True, False])}
        if n in ("Addition", "Subtraction", "AddSub", "ShiftAddSub"):
            p["mul_j"] = rng.random() < 0.5
        try:
            o = c(name=rng.choice(NAMES), **p)
        except TypeError:
            continue
        if o.input_count or o.output_count:
            ports = [f"in{i}" for i in range(o.input_count)] + [f"out{i}" for i in range(o.output_count)]
            if n not in lat.FIXED and rng.random() < 0.7:
                o.set_latency_offsets({q: rng.randint(0, 3) + 3 * q.startswith("out") for q in ports if rng.random() < 0.8})
                if rng.random() < 0.8:
                    o.execution_time = rng.choice([0, 1, 2, 3])
        o.graph_id = rng.choice(["", "x7"])
        for how, fn in (("copy", o.copy), ("deepcopy", lambda o=o: copy.deepcopy(o)), ("pickle", lambda o=o: pickle.loads(pickle.dumps(o)))):
            q = fn()
            a, b = [(type(x).__name__, str(x.graph_id), attributes(x), {k: value(v) for k, v in x.params.items()}) for x in (o, q)]
            ctx.check(a == b, f"operation_{how}", lambda: f"{n}: {a} became {b}")
            if n in REF:
                x = [rng.randint(1, 9) / 2 + (1j * rng.randint(0, 2) if n in ("ReciprocalSquareRoot", "Addition", "ComplexConjugate") else 0) for _ in range(o.input_count)]
                ra, rb = [[z.evaluate_output(k, x) for k in range(z.output_count)] for z in (o, q)]
                ctx.check(ra == rb, f"operation_{how}.behaviour", lambda: f"{n} with {p}: {x} gives {ra} and {rb}")
            for k in list(q.params):
                q.set_param(k, "changed")
            q.name = "changed"
            b = (type(o).__name__, str(o.graph_id), attributes(o), {k: value(v) for k, v in o.params.items()})
            ctx.check(a == b, f"operation_{how}.shared", n)
            ctx.count("operations")
    ctx.sig = repr(ctx.rng.random())


KINDS = {
    "text": {"fn": case_text, "quick": 900, "thorough": 15000, "timeout": 120},
    "schedule_text": {"fn": case_schedule_text, "quick": 500, "thorough": 6000, "timeout": 120},
    "schedule_pickle": {"fn": case_schedule_pickle, "quick": 400, "thorough": 5000, "timeout": 120},
    "sfg_copies": {"fn": case_sfg_copies, "quick": 500, "thorough": 6000, "timeout": 120},
    "operation_copies": {"fn": case_operation_copies, "quick": 300, "thorough": 3000, "timeout": 60},
}

if __name__ == "__main__":
    sys.exit(run_check(
        PROP, KINDS,
        rule="random graphs with all operations, nesting, awkward names, partly set timing and parameters equal to and different from their defaults, and random edited schedules, are saved to "
             "text and loaded, pickled, deep-copied and copied; everything reported by the public interface, simulation results and the effects of later edits are compared; non-trivial: more than four nodes",
        assumptions=["numeric parameters are finite", "graph ids are those given by the library", "a schedule is loaded by executing its saved text"],
        min_eval=200))
