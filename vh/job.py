"""Graphs with timing to be scheduled, and random schedulers."""
import pulp
from b_asic import Delay
from b_asic import list_schedulers as LS
from b_asic import scheduler as S
from b_asic.schedule import Schedule

from . import lat, sched as vs, sound
from .core import Skip
from .gen import LINEAR, random_net
from .simh import unique_names

FIXED_LISTS = {"deadline": LS.EarliestDeadlineScheduler, "slack": LS.LeastSlackTimeScheduler, "fanout": LS.MaxFanOutScheduler, "hybrid": LS.HybridScheduler}


def solver():
    return pulp.PULP_CBC_CMD(msg=0, timeLimit=60)


class Job:
    """A graph with timing, everything the oracle needs copied before the scheduler sees it."""

    def __init__(self, ctx, zero=None, delays=True, sinks=None, dangling=True, zero_state=False, named=False, per_op=None, **kw):
        rng = ctx.rng
        d = dict(n_ops=rng.randint(1, 16 if ctx.thorough else 11), names=False, nested=0, ops=LINEAR, sinks=rng.random() < 0.25 if sinks is None else sinks, dangling=dangling)
        if not delays:
            d["n_delay"] = 0
        d.update(kw)
        self.net = net = random_net(rng, **d)
        if zero_state:
            for n in net.nodes.values():
                if n["op"] == "Constant":
                    n["p"]["value"] = 0
        if named:
            unique_names(net)
        self.sfg = sfg = net.build(rng)
        lat.assign(rng, sfg, zero=rng.random() < 0.3 if zero is None else zero, exec_max=3 if rng.random() < 0.7 else None, per_op=per_op)
        self.link0 = vs.links(sfg)
        if self.link0 is None:
            raise Skip("loop of delays only")
        if not any(o.input_count and o.output_count and not isinstance(o, Delay) for o in sfg.operations):
            raise Skip("nothing to schedule")
        self.tm = vs.Timing(sfg)
        self.asap = {str(o.graph_id): t for o, t in lat.asap(sfg).items()}
        self.cp = sfg.critical_path_time()
        if self.cp < 1:
            raise Skip("zero critical path")
        self.ipb = sfg.iteration_period_bound()
        self.types = {t for t in self.tm.tn.values() if t not in ("dontcare", "sink")}
        self.before = sound.fingerprint(sfg)
        ctx.sig = net.signature()
        ctx.sample = net.describe()
        ctx.nontrivial = len(net.nodes) > 4
        ctx.note({str(o.graph_id): (o.latency_offsets, o.execution_time) for o in sfg.operations if o.input_count and o.output_count})

    def period(self, rng, cyclic):
        if rng.random() < 0.3:
            return None
        if not cyclic:
            return self.cp + rng.choice([-1, 0, 0, 1, rng.randint(0, 8)])
        return max(1, -int(-self.ipb // 1) + rng.choice([0, 0, 1, 2, rng.randint(0, self.cp)]))

    def limits(self, rng, p=0.6):
        return {t: rng.randint(1, 3) for t in sorted(self.types) if rng.random() < p}

    def run(self, ctx, scheduler, T, cyclic, may_refuse=True, what=""):
        """The schedule, or None when the scheduler refused."""
        ctx.note(f"{what} schedule_time={T} cyclic={cyclic}")
        try:
            s = Schedule(self.sfg, scheduler, schedule_time=T, cyclic=cyclic)
        except ValueError as e:
            ctx.count("refused")
            ctx.check(may_refuse, "refuses_feasible", lambda: f"{what} with schedule time {T}, cyclic={cyclic} refused a graph that can be scheduled: {e}")
            self.unchanged(ctx, what)
            return None
        ctx.count("scheduled")
        self.unchanged(ctx, what)
        return s

    def unchanged(self, ctx, what):
        ctx.check(sound.fingerprint(self.sfg) == self.before, "input_modified", lambda: f"{what}: scheduling changed the SFG passed in")

    def audit(self, ctx, s, **kw):
        vs.audit(ctx, s, self.sfg, self.tm, self.link0, **kw)
        ctx.count("operations_placed", len(s.start_times))


def list_scheduler(rng, j, limits, **kw):
    name = rng.choice(sorted(FIXED_LISTS) + ["generic"])
    by_class = {}
    classes = {str(o.type_name()): type(o) for o in j.sfg.operations}
    for t, n in limits.items():
        by_class[classes[t] if rng.random() < 0.3 else t] = n
    if name != "generic":
        return name, FIXED_LISTS[name](max_resources=by_class or None, **kw)
    cols = rng.sample([1, 2, 3, 4], rng.randint(1, 4))
    so = tuple((c, rng.random() < 0.5) for c in cols)
    return f"list{so}", S.ListScheduler(sort_order=so, max_resources=by_class or None, **kw)


def random_schedule(ctx, j, what="", cyclic=None, names=None):
    """A schedule of the job by a random scheduler, validated by the oracle; Skip when refused."""
    rng = ctx.rng
    cyclic = rng.random() < 0.7 if cyclic is None else cyclic
    kind = rng.choice(names or ["asap", "asap", "alap", "list", "list", "list", "recursive", "ilp"])
    if kind == "ilp" and len(j.tm.kind) > 10:
        kind = "asap"
    T = None if rng.random() < 0.3 else j.cp + rng.randint(0, 6)
    if kind == "asap":
        sch = S.ASAPScheduler()
    elif kind == "alap":
        sch = S.ALAPScheduler()
    elif kind == "list":
        T = j.period(rng, cyclic)
        sch = list_scheduler(rng, j, j.limits(rng))[1]
    elif kind == "recursive":
        T = None
        sch = S.RecursiveListScheduler(sort_order=((1, True),), max_resources=j.limits(rng) or None)
    else:
        T = j.cp + rng.randint(0, 2)
        sch = S.ILPScheduler(solver=solver())
    ctx.note(f"{what} {kind} schedule_time={T} cyclic={cyclic}")
    try:
        s = Schedule(j.sfg, sch, schedule_time=T, cyclic=cyclic)
    except ValueError:
        raise Skip(f"{kind} refused") from None
    except ZeroDivisionError:
        if kind == "recursive":
            raise Skip("zero schedule time") from None
        raise
    ctx.count("schedules." + kind)
    return s, kind


def random_edit(ctx, s, j, strict=False):
    """One random edit of a schedule through its public interface (a ValueError is a refusal); returns what was done."""
    rng = ctx.rng
    ops = sorted(str(o) for o in s.start_times)
    kind = rng.choice(["move", "move", "move", "move", "asap", "alap", "rotate", "rotate", "time", "scale_up", "scale_down", "latency", "exec"])
    o = rng.choice(ops)
    try:
        if kind == "move":
            b, f = s.slacks(o)
            P = s.schedule_time
            t = rng.randint(-min(b, 2 * P), min(f, 2 * P))
            s.move_operation(o, t)
            what = f"move {o} by {t}"
        elif kind == "asap":
            what = f"move {o} asap"
            s.move_operation_asap(o)
        elif kind == "alap":
            what = f"move {o} alap"
            s.move_operation_alap(o)
        elif kind == "rotate":
            if not s.cyclic:
                return None
            what = "rotate"
            for _ in range(rng.randint(1, 3)):
                s.rotate_forward() if rng.random() < 0.5 else s.rotate_backward()
        elif kind == "time":
            t = max(1, s.get_max_end_time() + rng.randint(0, 4))
            what = f"schedule time {t}"
            s.set_schedule_time(t)
        elif kind == "scale_up":
            if s.schedule_time > 60:
                return None
            f = rng.randint(2, 3)
            what = f"resolution * {f}"
            s.increase_time_resolution(f)
        elif kind == "scale_down":
            f = rng.choice(s.get_possible_time_resolution_decrements())
            what = f"resolution / {f}"
            s.decrease_time_resolution(f)
        elif kind == "latency":
            tn, v = rng.choice(sorted(t for t in j.types if t not in ("in", "out", "c")) or ["add"]), rng.randint(0, 4)
            what = f"latency of {tn} = {v}"
            s.set_latency_of_type_name(tn, v)
        else:
            tn, v = rng.choice(sorted(t for t in j.types if t not in ("in", "out", "c")) or ["add"]), rng.randint(1, 3)
            what = f"execution time of {tn} = {v}"
            s.set_execution_time_of_type_name(tn, v)
    except ValueError as e:
        ctx.note(f"refused ({kind}): {e}")
        return None
    ctx.count("edits." + kind)
    ctx.note(what)
    return what
