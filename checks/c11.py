"""C11: memory variables and operation processes reflect the schedule exactly."""
import logging
import sys
from collections import Counter

from vh import boot

boot.install()
logging.disable(logging.CRITICAL)
from b_asic import Input, Output  # noqa: E402
from b_asic.core_operations import Constant  # noqa: E402
from b_asic.process import MemoryVariable, OperatorProcess, PlainMemoryVariable, Process  # noqa: E402
from b_asic.resources import ProcessCollection  # noqa: E402
from b_asic.utility_operations import DontCare, Sink  # noqa: E402

from vh import sched as vs  # noqa: E402
from vh.core import Skip, run_check  # noqa: E402
from vh.gen import BASIC, LINEAR, LINEAR_X  # noqa: E402
from vh.job import Job, random_edit, random_schedule  # noqa: E402

PROP = "C11"


def histories(ctx):
    rng = ctx.rng
    j = Job(ctx, ops=rng.choice([LINEAR, LINEAR, LINEAR_X, BASIC]))
    for o in j.sfg.operations:  # everything placed needs an execution time
        if isinstance(o, (Input, Output, Constant)) and o.execution_time is None:
            o.execution_time = 1
    s, kind = random_schedule(ctx, j)
    for _ in range(rng.choice([0, 0, 2, 5, 10])):
        random_edit(ctx, s, j)
    if s.schedule_time < 1:
        raise Skip("zero schedule time")
    return j, s, kind


def model(s):
    """(start times, period, timing, {(op, port): (write time, {(op, input): life time})})."""
    st, P = {str(k): v for k, v in s.start_times.items()}, s.schedule_time
    sfg = s.sfg
    tm, L = vs.Timing(sfg), vs.links(sfg)
    out = {}
    for (v, i), (u, p, d) in L.items():
        avail = st[u] + tm.outs[u][p]
        out.setdefault((u, p), (avail % P, {}))[1][v, i] = st[v] + tm.ins[v][i] + d * P - avail
    return st, P, tm, out


def count_slots(times, P):
    c = Counter(t % P for t in times)
    return dict(sorted(c.items()))


def check_counts(ctx, pc, procs, P, what):
    """procs: [(start, execution time, read times)] counted directly."""
    c = ctx.check
    w = count_slots([a for a, _, _ in procs], P)
    r = count_slots([t for _, _, rs in procs for t in rs], P)
    t = count_slots([a for a, _, _ in procs] + [t for _, _, rs in procs for t in rs], P)
    e = count_slots([a + k for a, x, _ in procs for k in range(x)], P)
    c(dict(pc.write_port_accesses()) == w, "write_accesses", lambda: f"{what}: writes per slot {pc.write_port_accesses()}, counted {w}")
    c(dict(pc.read_port_accesses()) == r, "read_accesses", lambda: f"{what}: reads per slot {pc.read_port_accesses()}, counted {r}")
    c(dict(pc.total_port_accesses()) == t, "total_accesses", lambda: f"{what}: accesses per slot {pc.total_port_accesses()}, counted {t}")
    c(dict(pc.total_execution_times()) == e, "live", lambda: f"{what}: active per slot {pc.total_execution_times()}, counted {e}")
    c(pc.write_ports_bound() == max(w.values(), default=0), "write_bound", lambda: f"{what}: write port bound {pc.write_ports_bound()}, counted {w}")
    c(pc.read_ports_bound() == max(r.values(), default=0), "read_bound", lambda: f"{what}: read port bound {pc.read_ports_bound()}, counted {r}")
    c(pc.total_ports_bound() == max(t.values(), default=0), "total_bound", lambda: f"{what}: port bound {pc.total_ports_bound()}, counted {t}")
    c(pc.processing_element_bound() == max(e.values(), default=0), "live_bound", lambda: f"{what}: bound {pc.processing_element_bound()}, counted {e}")
    ctx.count("slots_counted", 4 * P)


def case_variables(ctx):
    j, s, kind = histories(ctx)
    st, P, tm, want = model(s)
    pc = s.get_memory_variables()
    c = ctx.check
    c(isinstance(pc, ProcessCollection) and pc.schedule_time == P, "period", lambda: f"schedule time of the collection {pc.schedule_time}, schedule {P}")
    got = {}
    for v in pc:
        c(isinstance(v, MemoryVariable), "type", lambda: f"{v!r}")
        k = (str(v.write_port.operation.graph_id), v.write_port.index)
        c(k not in got, "twice", lambda: f"two variables for output {k}")
        got[k] = v
    c(set(got) == set(want), "ports", lambda: f"variables of outputs {sorted(got)}, driven outputs {sorted(want)}")
    c(len(pc) == len(want), "length", lambda: f"{len(pc)} variables")
    procs = []
    for k, v in got.items():
        w, reads = want[k]
        r = {(str(p.operation.graph_id), p.index): t for p, t in v.reads.items()}
        c(v.name == f"{k[0]}.{k[1]}", "name", lambda: f"variable of {k} is called {v.name!r}")
        c(set(r) == set(reads), "readers", lambda: f"variable {v.name} read by {sorted(r)}, consumers {sorted(reads)}")
        if tm.kind[k[0]] is DontCare:
            procs.append((v.start_time, v.execution_time, list(v.read_times)))
            continue
        c(r == reads, "life_times", lambda: f"variable {v.name}: life times {r}, from production to consumption {reads} (period {P})")
        c(0 <= v.start_time < P and v.start_time == w, "write_time", lambda: f"variable {v.name} written at {v.start_time}, produced at {w} (period {P})")
        c(v.execution_time == max(reads.values()), "execution_time", lambda: f"variable {v.name} lives {v.execution_time}, longest life time {max(reads.values())}")
        c(sorted(v.life_times) == sorted(reads.values()) and len(v.read_ports) == len(reads), "life_time_list", lambda: f"{v!r}")
        c(set(v.read_times) == {w + t for t in reads.values()} and len(v.read_times) == len(set(v.read_times)), "read_times", lambda: f"variable {v.name} read at {v.read_times}, life times {reads}, written at {w}")
        procs.append((w, max(reads.values()), {w + t for t in reads.values()}))
    check_counts(ctx, pc, procs, P, "memory variables")
    ctx.count("variables", len(got))
    short, long = pc.split_on_length(0)
    stored = [(want[k][0], {want[k][0] + t for t in want[k][1].values() if t > 0}) for k in want if tm.kind[k[0]] is not DontCare and any(t > 0 for t in want[k][1].values())]
    if not any(x is DontCare for x in tm.kind.values()):
        c(long.read_ports_bound() == max(count_slots([t for _, r in stored for t in r], P).values(), default=0), "stored_reads", lambda: "reads of stored variables")
        c(long.write_ports_bound() == max(count_slots([w for w, _ in stored], P).values(), default=0), "stored_writes", lambda: "writes of stored variables")
        live = [sum(1 for w, r in stored for x in range(w, max(r)) if x % P == t) for t in range(P)]
        c(long.processing_element_bound() == max(live), "stored_live", lambda: f"most variables stored at once {long.processing_element_bound()}, counted {live}")


def case_operations(ctx):
    j, s, kind = histories(ctx)
    st, P, tm, _ = model(s)
    pc = s.get_operations()
    c = ctx.check
    ops = {o for o in st if tm.kind[o] not in (DontCare, Sink)}
    c(pc.schedule_time == P, "op_period", lambda: f"{pc.schedule_time}")
    got = {}
    for p in pc:
        c(isinstance(p, OperatorProcess), "op_type", lambda: f"{p!r}")
        o = str(p.operation.graph_id)
        c(o not in got, "op_twice", lambda: f"two processes for {o}")
        got[o] = p
        c(o in st and p.start_time == st[o] and p.execution_time == tm.ex[o], "op_times", lambda: f"process of {o}: {p.start_time}, {p.execution_time}; scheduled at {st.get(o)}, execution time {tm.ex.get(o)}")
        c(p.name == (p.operation.name or o), "op_name", lambda: f"process of {o} called {p.name!r}")
        c(tuple(p.read_times) == (st[o] + tm.ex[o],), "op_read", lambda: f"{o}: {p.read_times}")
    c(set(got) == ops, "op_missing", lambda: f"processes {sorted(got)}, operations {sorted(ops)}")
    check_counts(ctx, pc, [(st[o], tm.ex[o], [st[o] + tm.ex[o]]) for o in ops], P, "operations")
    for tn in {tm.tn[o] for o in ops} | {"nosuch"}:
        part = pc.get_by_type_name(tn)
        names = {str(p.operation.graph_id) for p in part}
        c(names == {o for o in ops if tm.tn[o] == tn} and len(part) == len(names), "by_type", lambda: f"operations of type {tn}: {sorted(names)}")
        use = vs.occupancy(st, tm, tn, P)
        c([part.total_execution_times().get(k, 0) for k in range(P)] == use, "occupancy", lambda: f"{tn} per slot {part.total_execution_times()}, counted {use}")
    parts = pc.split_on_type_name()
    c({str(k): {str(p.operation.graph_id) for p in v} for k, v in parts.items()} == {t: {o for o in ops if tm.tn[o] == t} for t in {tm.tn[o] for o in ops}}, "split_type", lambda: f"{parts}")
    for o in sorted(ops):
        c(pc.from_name(got[o].name).name == got[o].name, "from_name", o)
    ctx.count("operations", len(ops))


def random_collection(rng, P=None, n=None, wrap=True, max_life=None, kinds=("plain",)):
    P = P or rng.randint(1, 14)
    n = n or rng.randint(1, 10)
    out = []
    for k in range(n):
        a = rng.randrange(P)
        lives = {}
        for port in range(rng.choice([1, 1, 1, 2, 3])):
            lives[port] = rng.randint(0, max_life if max_life is not None else (P if rng.random() < 0.8 else 3 * P))
        if not wrap:
            lives = {p: min(v, P - a) for p, v in lives.items()}
        kind = rng.choice(kinds)
        if kind == "plain":
            out.append((PlainMemoryVariable(a, rng.randint(0, 3), lives, f"v{k}"), (a, max(lives.values()), {a + v for v in lives.values()})))
        else:
            x = max(lives.values())
            out.append((Process(a, x, f"v{k}"), (a, x, {a + x})))
    return P, out


def case_counts(ctx):
    rng = ctx.rng
    P, procs = random_collection(rng, kinds=("plain", "process"))
    if rng.random() < 0.05:
        procs = []
    cyc = rng.random() < 0.5
    items = [p for p, _ in procs]
    pc = ProcessCollection(rng.choice([list, tuple, iter])(items), P, cyc)
    now = list(procs)
    ctx.sig = f"{P} {items!r}"
    ctx.sample = ctx.sig[:300]
    ctx.nontrivial = len(items) > 2
    c = ctx.check
    check_counts(ctx, pc, [x for _, x in now], P, "collection")
    for _ in range(rng.randint(0, 6)):
        act = rng.choice(["add", "remove", "again", "gone", "time", "name"])
        if act == "add":
            a, x = rng.randrange(P), rng.randint(0, P)
            p = Process(a, x, f"n{len(now)}")
            pc.add_process(p)
            now.append((p, (a, x, {a + x})))
        elif act == "remove" and now:
            k = rng.randrange(len(now))
            pc.remove_process(now.pop(k)[0])
        elif act in ("again", "gone"):
            if act == "again" and not now:
                continue
            try:
                pc.add_process(now[0][0]) if act == "again" else pc.remove_process(Process(0, 1, "zz"))
                ctx.fail("duplicate", f"{act}: accepted")
            except (ValueError, KeyError):
                pass
        elif act == "time":
            t = rng.randrange(P)
            got = pc.find_by_time(t)
            c(sorted(p.name for p in got) == sorted(p.name for p, x in now if x[0] == t) and got.schedule_time == P, "by_time", lambda: f"find_by_time({t}): {got!r}")
        else:
            try:
                c(pc.from_name("v0").name == "v0", "from_name", "v0")
            except KeyError:
                c(all(p.name != "v0" for p, _ in now), "from_name", "v0 not found")
        c(len(pc) == len(now) and all(p in pc for p, _ in now) and {id(p) for p in pc} == {id(p) for p, _ in now}, "members", lambda: f"{pc!r}")
        check_counts(ctx, pc, [x for _, x in now], P, f"collection after {act}")
    for a, xa in now:
        for b, xb in now:
            if a is not b:
                want = (xa[0], -xa[1], a.name) < (xb[0], -xb[1], b.name)
                c((a < b) == want, "order", lambda: f"{a!r} < {b!r} is {a < b}")


KINDS = {
    "variables": {"fn": case_variables, "quick": 3000, "thorough": 15000, "timeout": 120},
    "operations": {"fn": case_operations, "quick": 1600, "thorough": 8000, "timeout": 120},
    "counts": {"fn": case_counts, "quick": 5000, "thorough": 20000, "timeout": 60},
}

if __name__ == "__main__":
    sys.exit(run_check(
        PROP, KINDS,
        rule="memory variables and operation processes of random (edited) schedules are compared with lifetimes counted from the start times, latencies and delays of the "
             "re-derived SFG; port and live histograms and bounds of these and of random collections with direct per-slot counting; non-trivial: more than four nodes (two processes)",
        assumptions=["life times of variables written by DontCare operations are not judged", "Sink and DontCare operations have no operation process"],
        min_eval=300))
