"""C08: every scheduler produces a valid schedule or refuses."""
import logging
import sys

from vh import boot

boot.install()
logging.disable(logging.CRITICAL)
from b_asic import scheduler as S  # noqa: E402
from b_asic import Input, Output  # noqa: E402
from b_asic.utility_operations import DontCare, Sink  # noqa: E402

from vh.core import Skip, run_check  # noqa: E402
from vh.job import FIXED_LISTS, Job, list_scheduler, solver  # noqa: E402

PROP = "C08"
def case_asap(ctx):
    rng = ctx.rng
    j = Job(ctx)
    cyclic = rng.random() < 0.5
    T = rng.choice([None, j.cp, j.cp + rng.randint(0, 6), max(1, j.cp - 1)])
    s = j.run(ctx, S.ASAPScheduler(sort_y_location=rng.random() < 0.5), T, cyclic, may_refuse=T is not None and T < j.cp, what="ASAP")
    if s is None:
        return
    ctx.check(T is None or T >= j.cp, "too_short", lambda: f"ASAP accepted the schedule time {T} below the critical path {j.cp}")
    j.audit(ctx, s, cyclic=cyclic, T=j.cp if T is None else T, what="ASAP")
    for o, t in s.start_times.items():
        o = str(o)
        if j.tm.kind[o] in (DontCare, Sink):
            continue
        ctx.check(t == j.asap[o], "asap", lambda: f"ASAP places {o} at {t}, earliest start time is {j.asap[o]}")


def latest(sfg, P, asap):
    """Latest start times of a delay-free graph where everything reaches an output."""
    out = {}
    for o in reversed(list(order(sfg))):
        if isinstance(o, Output):
            out[o] = P
            continue
        t = min(out[s.destination.operation] + s.destination.latency_offset - p.latency_offset for p in o.outputs for s in p.signals)
        if t > P - 1:
            t = max(P - 1, asap[str(o.graph_id)])
        out[o] = t
    return {str(o.graph_id): t for o, t in out.items()}


def order(sfg):
    done, rest = [], list(sfg.operations)
    seen = set()
    while rest:
        nxt = []
        for o in rest:
            if all(s.source.operation in seen for p in o.inputs for s in p.signals):
                seen.add(o)
                done.append(o)
            else:
                nxt.append(o)
        rest = nxt
    return done


def case_alap(ctx):
    rng = ctx.rng
    j = Job(ctx)
    cyclic = rng.random() < 0.5
    T = rng.choice([None, j.cp, j.cp + rng.randint(0, 6), max(1, j.cp - 1)])
    s = j.run(ctx, S.ALAPScheduler(sort_y_location=rng.random() < 0.5), T, cyclic, may_refuse=T is not None and T < j.cp, what="ALAP")
    if s is None:
        return
    j.audit(ctx, s, T=j.cp if T is None else T, what="ALAP")
    for o, t in s.start_times.items():
        if j.tm.kind[str(o)] is Output:
            ctx.check(t == s.schedule_time, "alap_output", lambda: f"ALAP places {o} at {t}, schedule time {s.schedule_time}")


def case_alap_latest(ctx):
    rng = ctx.rng
    j = Job(ctx, zero=False, delays=False, sinks=False)
    if any(not p.signals for o in j.sfg.operations for p in o.outputs) or any(isinstance(o, DontCare) for o in j.sfg.operations):
        raise Skip("dangling outputs")
    if any(isinstance(o, Input) and not all(p.signals for p in o.outputs) for o in j.sfg.operations):
        raise Skip("dangling inputs")
    T = rng.choice([None, j.cp, j.cp + rng.randint(0, 6)])
    s = j.run(ctx, S.ALAPScheduler(), T, rng.random() < 0.5, may_refuse=False, what="ALAP")
    j.audit(ctx, s, T=j.cp if T is None else T, what="ALAP")
    want = latest(j.sfg, s.schedule_time, j.asap)
    got = {str(o): t for o, t in s.start_times.items()}
    ctx.check(got == want, "alap", lambda: f"ALAP start times {got}, latest possible {want}, schedule time {s.schedule_time}")


def case_list(ctx):
    rng = ctx.rng
    j = Job(ctx)
    cyclic = rng.random() < 0.5
    T = j.period(rng, cyclic)
    lim = j.limits(rng)
    rd = rng.choice([None, None, 1, 2, 3, 4])
    wr = rng.choice([None, None, 1, 1, 2, 3, 4])
    name, sch = list_scheduler(rng, j, lim, max_concurrent_reads=rd, max_concurrent_writes=wr)
    full = {t: lim.get(t, 1) for t in j.types}
    ctx.note(f"limits {lim} reads {rd} writes {wr}")
    for again in range(2 if rng.random() < 0.3 else 1):
        s = j.run(ctx, sch, T, cyclic, what=name)
        if s is None:
            return
        j.audit(ctx, s, cyclic=cyclic, T=T, max_resources=full, reads=rd, writes=wr, what=name + (" (second use of the scheduler)" if again else ""))


def case_ports(ctx):
    """Tight limits on reads and writes in cyclic schedules in which values wrap around."""
    rng = ctx.rng
    j = Job(ctx, n_ops=rng.randint(4, 12), n_delay=rng.choice([0, 0, 1, 2]), n_in=rng.randint(1, 2))
    lo = max(2, -int(-j.ipb // 1))
    T = min(lo + rng.randint(0, 6), max(lo, j.cp))
    lim = {t: rng.randint(2, 6) for t in sorted(j.types)}
    rd, wr = rng.choice([(None, 1), (None, 2), (1, None), (2, None), (2, 1), (2, 2), (3, 3)])
    name, sch = list_scheduler(rng, j, lim, max_concurrent_reads=rd, max_concurrent_writes=wr)
    s = j.run(ctx, sch, T, True, what=f"{name} limits {lim} reads {rd} writes {wr}")
    if s is None:
        raise Skip("refused")
    j.audit(ctx, s, cyclic=True, T=T, max_resources=lim, reads=rd, writes=wr, what=name)


def case_feasible(ctx):
    """Without limits (or with as many resources as operations) nothing may be refused."""
    rng = ctx.rng
    j = Job(ctx)
    many = {t: len(j.tm.tn) for t in j.types}
    cyclic = rng.random() < 0.5
    for name in ["asap", "alap", rng.choice(sorted(FIXED_LISTS)), "generic"]:
        T = None if name not in ("asap", "alap") or rng.random() < 0.5 else j.cp + rng.randint(0, 5)
        if name in ("asap", "alap"):
            sch = (S.ASAPScheduler if name == "asap" else S.ALAPScheduler)()
        elif name == "generic":
            sch = S.ListScheduler(sort_order=((rng.randint(1, 4), True),), max_resources=many)
        else:
            sch = FIXED_LISTS[name](max_resources=many)
        s = j.run(ctx, sch, T, cyclic, may_refuse=False, what=name)
        j.audit(ctx, s, cyclic=cyclic if name != "alap" else None, T=T, max_resources=many, what=name)
        if T is None and name not in ("asap", "alap"):
            ctx.check(s.schedule_time >= j.cp, "too_short", lambda: f"{name}: schedule time {s.schedule_time} below the critical path {j.cp}")
    one = {t: 1 for t in j.types}
    name = rng.choice(sorted(FIXED_LISTS))
    s = j.run(ctx, FIXED_LISTS[name](max_resources=one), None, cyclic, may_refuse=False, what=name + " one of each")
    j.audit(ctx, s, cyclic=cyclic, max_resources=one, what=name + " one of each")


def case_recursive(ctx):
    rng = ctx.rng
    j = Job(ctx, n_delay=rng.randint(1, 3))
    cyclic = rng.random() < 0.5
    T = j.period(rng, cyclic)
    lim = j.limits(rng)
    cols = rng.sample([1, 2, 3, 4], rng.randint(1, 3))
    sch = S.RecursiveListScheduler(sort_order=tuple((c, rng.random() < 0.5) for c in cols), max_resources=lim or None)
    ctx.note(f"limits {lim}")
    try:
        s = j.run(ctx, sch, T, cyclic, what="recursive list")
    except ZeroDivisionError:
        raise Skip("zero schedule time")
    if s is not None:
        if not j.sfg.loops:
            ctx.count("non_recursive")
        j.audit(ctx, s, max_resources={t: lim.get(t, 1) for t in j.types}, what="recursive list")


def case_ilp(ctx):
    rng = ctx.rng
    j = Job(ctx, n_ops=rng.randint(1, 7))
    cyclic = rng.random() < 0.5
    T = j.cp + rng.choice([0, 0, 1, 2]) if not cyclic or rng.random() < 0.5 else max(1, -int(-j.ipb // 1) + rng.randint(0, 3))
    kw = {}
    if cyclic and rng.random() < 0.3:
        kw["max_time"] = max(T, j.cp) + rng.randint(0, 2)
    s = j.run(ctx, S.ILPScheduler(solver=solver(), **kw), T, cyclic, what=f"ILP {kw}")
    if s is not None:
        j.audit(ctx, s, T=T, what=f"ILP {kw}")


def case_io_times(ctx):
    """Prescribed input times and relative output times."""
    rng = ctx.rng
    j = Job(ctx, zero=False, sinks=False, n_in=rng.randint(1, 3), n_out=rng.randint(1, 3))
    ins = [o for o in j.tm.kind if j.tm.kind[o] is Input]
    outs = [o for o in j.tm.kind if j.tm.kind[o] is Output]
    name = rng.choice(["asap", "alap", "list", "list", "list"])
    kw = {}
    if rng.random() < 0.7:
        kw["input_times"] = {o: rng.randint(0, 3) for o in ins}
    if rng.random() < 0.7 or not kw:
        kw["output_delta_times"] = {o: rng.randint(0, 3) for o in outs}
    cyclic = rng.random() < 0.6
    T = rng.choice([None, j.cp + rng.randint(0, 3), j.cp + rng.randint(2, 9)])
    ctx.note(f"{name} {kw}")
    full = None
    if name == "list":
        lim = {t: rng.randint(2, 4) for t in j.types}
        full = dict(lim)
        full["in"], full["out"] = lim["in"], lim["out"] = len(ins), len(outs)
        name, sch = list_scheduler(rng, j, lim, **kw)
    else:
        sch = (S.ASAPScheduler if name == "asap" else S.ALAPScheduler)(**kw)
    s = j.run(ctx, sch, T, cyclic, what=f"{name} {kw}")
    if s is None:
        return
    j.audit(ctx, s, cyclic=cyclic if name != "alap" else None, T=T, max_resources=full, what=f"{name} {kw}")
    P = s.schedule_time
    st = {str(k): v for k, v in s.start_times.items()}
    for o, t in kw.get("input_times", {}).items():
        ctx.check(st[o] == t, "input_time", lambda: f"{name}: input {o} at {st[o]}, prescribed {t}")
    d = kw.get("output_delta_times", {})
    for a in d:
        for b in d:
            ctx.check((st[a] - d[a] - st[b] + d[b]) % P == 0, "output_delta_time",
                      lambda: f"{name}: outputs at { {o: st[o] for o in d} }, prescribed relative times {d}, schedule time {P}")


def case_output_times(ctx):
    rng = ctx.rng
    j = Job(ctx, zero=False, sinks=False, n_ops=rng.randint(1, 6), n_out=rng.randint(1, 2))
    outs = [o for o in j.tm.kind if j.tm.kind[o] is Output]
    T = j.cp + rng.randint(0, 4)
    times = {o: rng.randint(max(1, T - 3), T) for o in outs}
    cyclic = rng.random() < 0.5
    ilp = rng.random() < 0.25
    sch = S.ILPScheduler(solver=solver(), output_times={o: t % T for o, t in times.items()}) if ilp else S.ALAPScheduler(output_times=times)
    s = j.run(ctx, sch, T, cyclic, what=f"{'ILP' if ilp else 'ALAP'} output_times {times}")
    if s is None:
        return
    j.audit(ctx, s, T=T, what=f"{'ILP' if ilp else 'ALAP'} output_times {times}")
    for o, t in times.items():
        ctx.check((s.start_times[o] - t) % T == 0, "output_time", lambda: f"output {o} at {s.start_times[o]}, prescribed {t}, schedule time {T}")


KINDS = {
    "asap": {"fn": case_asap, "quick": 800, "thorough": 12000, "timeout": 120},
    "alap": {"fn": case_alap, "quick": 800, "thorough": 12000, "timeout": 120},
    "alap_latest": {"fn": case_alap_latest, "quick": 600, "thorough": 8000, "timeout": 120},
    "list": {"fn": case_list, "quick": 1500, "thorough": 20000, "timeout": 120},
    "ports": {"fn": case_ports, "quick": 1500, "thorough": 20000, "timeout": 120},
    "feasible": {"fn": case_feasible, "quick": 400, "thorough": 5000, "timeout": 120},
    "recursive": {"fn": case_recursive, "quick": 600, "thorough": 8000, "timeout": 120},
    "ilp": {"fn": case_ilp, "quick": 120, "thorough": 1200, "timeout": 300},
    "io_times": {"fn": case_io_times, "quick": 800, "thorough": 10000, "timeout": 120},
    "output_times": {"fn": case_output_times, "quick": 200, "thorough": 2000, "timeout": 300},
}

if __name__ == "__main__":
    sys.exit(run_check(
        PROP, KINDS,
        rule="random graphs (feedback, multi-rate latencies, input/output latency offsets, zero latencies, sinks, fan-out) are scheduled with every scheduler, "
             "random schedule times, cyclic or not, random limits and prescribed I/O times; the start times, period and the delays of the re-derived SFG are judged "
             "by counting alone; non-trivial: more than four nodes",
        assumptions=["a ValueError is a refusal; refusals are judged only when the request is satisfiable by construction (no limits, or no requested schedule time)",
                     "resource types without a given limit have one unit in the list schedulers", "signals from DontCare operations carry no constraint",
                     "ALAP, recursive and ILP schedules may wrap around the period also when not cyclic", "the recursive list scheduler chooses its own schedule time"],
        min_eval=300))
