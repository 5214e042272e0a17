"""C09: the SFG re-derived from a schedule, and the schedule itself, compute what the original SFG computes."""
import logging
import sys

from vh import boot

boot.install()
logging.disable(logging.CRITICAL)
from b_asic import Delay, Input, Output  # noqa: E402
from b_asic import scheduler as S  # noqa: E402
from b_asic.schedule import Schedule  # noqa: E402
from b_asic.utility_operations import DontCare, Sink  # noqa: E402

from vh import sched as vs, sound  # noqa: E402
from vh.core import Skip, run_check  # noqa: E402
from vh.gen import BASIC, LINEAR, LINEAR_X, REALS, Diverges, close, finite, noise, random_inputs, running_scale, well_conditioned  # noqa: E402
from vh.job import Job, random_edit, random_schedule  # noqa: E402
from vh.ops import REF  # noqa: E402
from vh.simh import simulate  # noqa: E402

PROP = "C09"


def make(ctx, **kw):
    rng = ctx.rng
    d = dict(ops=rng.choice([LINEAR, LINEAR, LINEAR_X, REALS, BASIC]), init=False, zero_state=True, named=True)
    d.update(kw)
    j = Job(ctx, **d)
    j.nid = {str(o.graph_id): int(o.name[1:]) for o in j.sfg.operations if o.name[:1] == "n" and o.name[1:].isdigit()}
    return j


def reference(ctx, j, n):
    """Inputs and the value of every port at every iteration of the original graph."""
    rng = ctx.rng
    for _ in range(4):
        x = random_inputs(rng, len(j.net.inputs), n, rng.choice(["int", "dyadic", "float"]))
        try:
            ys, vals = j.net.run(x, n, limit=1e7)
            _, ws = j.net.run(x, n, limit=1e8, post=noise(rng))
        except Diverges:
            continue
        if well_conditioned(vals, ws):
            return x, ys, vals
    raise Skip("reference run diverges")


def aligned(ctx, j, r, n, x):
    """Inputs seen by the rescheduled system and the shift K applied to every node: y'_v(n) = y_v(n - r_v - K)."""
    K = max(0, -min(r.values()))
    ins = [str(o.graph_id) for o in j.sfg.input_operations]

    def at(seq, k):
        return seq[k] if 0 <= k < len(seq) else 0
    m = n - 1
    return K, [[at(x[i], k - r.get(g, 0) - K) for k in range(m + 1)] for i, g in enumerate(ins)]


def check_schedule(ctx, j, s, what, alignment=None):
    """The re-derived SFG and the timed execution against the original."""
    sfg2 = s.sfg
    tm = vs.Timing(sfg2)
    L, r = vs.audit(ctx, s, j.sfg, tm, j.link0, what=what)
    for o in sfg2.operations:
        if isinstance(o, Delay):
            ctx.check(o.initial_value == 0, "delay_initial_value", lambda: f"{what}: re-derived delay {o.graph_id} starts with {o.initial_value}")
    span = max(r.values()) - min(r.values())
    if span > 12:
        raise Skip("shifted very far")
    n = 6 + span + min(len([o for o in sfg2.operations if isinstance(o, Delay)]), 6)
    x, ys, vals = reference(ctx, j, n)
    K, x2 = aligned(ctx, j, r, n, x)
    scale = running_scale(vals)[-1]
    outs = [str(o.graph_id) for o in sfg2.output_operations]
    ctx.check(outs == [str(o.graph_id) for o in j.sfg.output_operations], "outputs", lambda: f"{what}: outputs {outs}")
    ctx.check([str(o.graph_id) for o in sfg2.input_operations] == [str(o.graph_id) for o in j.sfg.input_operations], "inputs", lambda: f"{what}: inputs differ")
    got = simulate(sfg2, x2, n)
    if any(r.values()):
        ctx.count("retimed")
    for k, o in enumerate(outs):
        for m in range(n):
            q = m - r[o] - K
            want = ys[q][k] if q >= 0 else 0
            ctx.check(close(got[k][m], want, 1e-8, scale), "resulting_sfg",
                      lambda: f"{what}: re-derived SFG output {o} iteration {m} is {got[k][m]!r}, original at iteration {q}: {want!r}; shifts {r}")
    ctx.count("iterations_compared", n * len(outs))
    timed(ctx, j, s, tm, what, L, r, K, x2, n, vals, scale)
    return r


def timed(ctx, j, s, tm, what, L, r, K, x2, n, vals, scale):
    """Execute at the start times; every value travels through the memory variable extracted for it."""
    P = s.schedule_time
    st = {str(k): v for k, v in s.start_times.items()}
    read = {}
    for mv in s.get_memory_variables():
        w = mv.write_port
        for port, life in mv.reads.items():
            u, v = str(w.operation.graph_id), str(port.operation.graph_id)
            key = (v, port.index)
            ctx.check(key not in read, "variable_twice", lambda: f"{what}: input {key} is read from two memory variables")
            t = st[u] + tm.outs[u][w.index]
            ctx.check(tm.kind[u] is DontCare or mv.start_time % P == t % P, "write_time",
                      lambda: f"{what}: variable of {u}.out{w.index} written at {mv.start_time}, value produced at {t} (period {P})")
            gap = t + life - st[v] - tm.ins[v][port.index]
            ctx.check(tm.kind[u] is DontCare or (gap % P == 0 and life >= 0), "read_time",
                      lambda: f"{what}: value of {u}.out{w.index} produced at {t} with lifetime {life} is not there when {v}.in{port.index} reads at "
                              f"{st[v] + tm.ins[v][port.index]} (period {P})")
            read[key] = (u, w.index, gap // P)
    ctx.check(set(read) == set(L), "variables_missing", lambda: f"{what}: no memory variable read by {sorted(set(L) - set(read))}, unknown reads {sorted(set(read) - set(L))}")
    for key, (u, i, d) in read.items():
        if tm.kind[u] is not DontCare:
            ctx.check((u, i, d) == L[key], "lap_distance", lambda: f"{what}: input {key} reads {u}.out{i} {d} iterations back, re-derived SFG says {L[key]}")
    ins = {str(o.graph_id): k for k, o in enumerate(j.sfg.input_operations)}
    kinds = {g: j.net.nodes[j.nid[g]] for g in j.nid if g in tm.kind}
    memo = {}

    def value(v, k):
        if k < 0:
            return None
        if (v, k) not in memo:
            node = kinds[v]
            if node["op"] == "Input":
                memo[v, k] = [x2[ins[v]][k]]
            else:
                a = []
                for i in range(len(tm.ins[v])):
                    u, p, d = read[v, i]
                    y = value(u, k - d)
                    a.append(0 if y is None else y[p])
                memo[v, k] = a if node["op"] in ("Output", "Sink") else REF[node["op"]][2](node["p"], *a)
        return memo[v, k]
    sys.setrecursionlimit(20000)
    events = sorted((st[v] + k * P, k, v) for v in kinds for k in range(n))
    for t, k, v in events:
        nid = j.nid[v]
        ys = value(v, k)
        q = k - r[v] - K
        if kinds[v]["op"] == "Sink":
            continue
        for p, y in enumerate(ys):
            if kinds[v]["op"] == "Output":
                src = tuple(j.net.nodes[nid]["ins"][0])
            else:
                src = (nid, p)
            want = vals[q][src] if q >= 0 else 0
            ctx.check(close(y, want, 1e-8, scale), "timed_execution",
                      lambda: f"{what}: operation {v} output {p} executed at time {t} computes {y!r}, original at iteration {q}: {want!r}")
    ctx.count("operations_executed", len(events))


def case_scheduled(ctx):
    j = make(ctx)
    s, kind = random_schedule(ctx, j)
    check_schedule(ctx, j, s, kind)


def case_straight(ctx):
    """Schedules of a graph without delays or wrap-around: no shift at all."""
    j = make(ctx, zero=False)
    rng = ctx.rng
    T = rng.choice([None, j.cp + rng.randint(1, 5)])
    s = Schedule(j.sfg, rng.choice([S.ASAPScheduler, S.ALAPScheduler])() if rng.random() < 0.8 else None, schedule_time=T, cyclic=rng.random() < 0.5)
    r = check_schedule(ctx, j, s, f"straight T={T}")
    ends = {str(o.graph_id): j.asap[str(o.graph_id)] for o in j.sfg.operations if isinstance(o, Output)}
    ctx.check(all(r[o] == 0 for o in ends if not str(o).startswith("dontcare")) or not isinstance(s._scheduler, S.ASAPScheduler), "alignment",
              lambda: f"ASAP schedule shifts outputs by {r}")


def case_edited(ctx):
    rng = ctx.rng
    j = make(ctx)
    s, kind = random_schedule(ctx, j)
    for k in range(rng.randint(1, 25 if ctx.thorough else 12)):
        w = random_edit(ctx, s, j)
        if w and rng.random() < 0.3:
            check_schedule(ctx, j, s, f"{kind} after edits, last: {w}")
    check_schedule(ctx, j, s, f"{kind} after edits")


def case_wrapped(ctx):
    """Cyclic schedules shorter than the critical path, with everything moved around."""
    rng = ctx.rng
    j = make(ctx, n_delay=rng.randint(1, 4))
    s, kind = random_schedule(ctx, j, cyclic=True, names=["list", "recursive", "asap"])
    for k in range(rng.randint(2, 12)):
        o = rng.choice(sorted(str(o) for o in s.start_times))
        b, f = s.slacks(o)
        P = s.schedule_time
        t = rng.choice([-min(b, 3 * P), min(f, 3 * P), rng.randint(-min(b, 3 * P), min(f, 3 * P))])
        try:
            s.move_operation(o, t)
            ctx.note(f"move {o} {t}")
        except ValueError as e:
            ctx.note(f"refused {o} {t} {e}")
        if rng.random() < 0.3:
            try:
                s.rotate_forward() if rng.random() < 0.5 else s.rotate_backward()
                ctx.note("rotate")
            except ValueError as e:
                ctx.note(f"rotation refused {e}")
    check_schedule(ctx, j, s, f"{kind} moved around")


def case_again(ctx):
    """The re-derived SFG is a graph of its own: schedule it again; asking twice gives the same graph."""
    rng = ctx.rng
    j = make(ctx)
    s, kind = random_schedule(ctx, j)
    for _ in range(rng.randint(0, 4)):
        random_edit(ctx, s, j)
    r1 = vs.retiming(vs.links(s.sfg), j.link0)
    if r1 is None or max(r1.values()) - min(r1.values()) > 6:
        raise Skip("far")
    st0, laps0 = dict(s.start_times), dict(s.laps)
    a, b = s.sfg, s.sfg
    ctx.check(vs.links(a) == vs.links(b), "twice", lambda: "asking for the SFG twice gives different graphs")
    ctx.check(dict(s.start_times) == st0 and {k: v for k, v in s.laps.items() if v} == {k: v for k, v in laps0.items() if v}, "query_changes_schedule",
              lambda: "asking for the SFG changes the schedule")
    fp = sound.fingerprint(a)
    try:
        s2 = Schedule(a, rng.choice([S.ASAPScheduler, S.ALAPScheduler])(), cyclic=True)
    except ValueError as e:
        ctx.check("Empty" in str(e) or "positive" in str(e), "reschedule", lambda: f"the re-derived SFG can not be scheduled: {e}")
        raise Skip("empty") from None
    except ZeroDivisionError:
        raise Skip("zero schedule time") from None
    if s2.schedule_time < 1:
        raise Skip("zero schedule time")
    ctx.check(sound.fingerprint(a) == fp, "reschedule_modifies", lambda: "scheduling the re-derived SFG modifies it")
    check_schedule(ctx, j, s2, "second schedule")


def case_initial(ctx):
    """Initial values of delays, without any shift."""
    rng = ctx.rng
    j = make(ctx, n_delay=rng.randint(1, 3), init=False, n_ops=rng.randint(2, 6), ops=LINEAR, zero=False, sinks=False)
    delays = [o for o in j.sfg.operations if isinstance(o, Delay)]
    if not delays:
        raise Skip("no delay used")
    d = rng.choice(delays)
    d.initial_value = 3
    j.net.nodes[j.nid[str(d.graph_id)]]["p"]["initial_value"] = 3
    s = Schedule(j.sfg, S.ASAPScheduler())
    n = 5
    x, ys, vals = reference(ctx, j, n)
    got = simulate(s.sfg, x, n)
    j.net.nodes[j.nid[str(d.graph_id)]]["p"]["initial_value"] = 0
    lost = j.net.run(x, n)[0]
    for k in range(len(got)):
        for m in range(n):
            sc = running_scale(vals)[-1]
            ctx.check(close(got[k][m], ys[m][k], 1e-8, sc) or close(got[k][m], lost[m][k], 1e-8, sc), "initial_value_wrong",
                      lambda: f"output {k} iteration {m} is {got[k][m]!r}, original {ys[m][k]!r}, with zero initial values {lost[m][k]!r}")
    for k in range(len(got)):
        for m in range(n):
            ctx.check(close(got[k][m], ys[m][k], 1e-8, running_scale(vals)[-1]), "initial_value_lost",
                      lambda: f"re-derived SFG starts delays at zero: output {k} iteration {m} is {got[k][m]!r}, original {ys[m][k]!r}")


KINDS = {
    "scheduled": {"fn": case_scheduled, "quick": 1200, "thorough": 15000, "timeout": 120},
    "straight": {"fn": case_straight, "quick": 600, "thorough": 6000, "timeout": 120},
    "edited": {"fn": case_edited, "quick": 900, "thorough": 15000, "timeout": 180},
    "wrapped": {"fn": case_wrapped, "quick": 900, "thorough": 15000, "timeout": 180},
    "again": {"fn": case_again, "quick": 400, "thorough": 5000, "timeout": 180},
    "initial": {"fn": case_initial, "quick": 60, "thorough": 300, "timeout": 120, "optional": True},
}

if __name__ == "__main__":
    sys.exit(run_check(
        PROP, KINDS,
        rule="random graphs are scheduled with random schedulers and edited (moves, rotations, schedule time, resolution, latencies); the re-derived SFG is simulated and "
             "the schedule itself executed operation by operation through its memory variables, and both are compared at every iteration with an independent "
             "interpreter of the original graph, aligned by the iteration shift of each operation; non-trivial: more than four nodes",
        assumptions=["delays start at zero (other initial values are a recorded finding)", "the iteration shift of each operation is the potential of the differences in delay counts"],
        min_eval=300))
