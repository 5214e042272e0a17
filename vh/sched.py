"""Independent validity oracle for schedules, judged on the public results only."""
from collections import Counter, defaultdict

import b_asic as ba
from b_asic import Delay, Input, Output
from b_asic.core_operations import Constant
from b_asic.utility_operations import DontCare, Sink


def links(sfg):
    """{(op id, input index): (source id, source port, number of delays in between)} for everything but delays."""
    out = {}
    for o in sfg.operations:
        if isinstance(o, Delay):
            continue
        for p in o.inputs:
            src, d = p.signals[0].source, 0
            seen = set()
            while isinstance(src.operation, Delay):
                if src.operation in seen:
                    return None  # loop of delays only
                seen.add(src.operation)
                d += 1
                src = src.operation.input(0).signals[0].source
            out[(str(o.graph_id), p.index)] = (str(src.operation.graph_id), src.index, d)
    return out


class Timing:
    """Copies of the latencies and execution times, taken before scheduling."""

    def __init__(self, sfg):
        self.kind, self.ins, self.outs, self.ex, self.tn = {}, {}, {}, {}, {}
        for o in sfg.operations:
            if isinstance(o, Delay):
                continue
            i = str(o.graph_id)
            self.kind[i], self.tn[i], self.ex[i] = type(o), str(o.type_name()), o.execution_time
            self.ins[i] = [p.latency_offset for p in o.inputs]
            self.outs[i] = [p.latency_offset for p in o.outputs]

    def ids(self):
        return set(self.kind)


def audit(ctx, sched, sfg, tm, link0, cyclic=None, T=None, max_resources=None, reads=None, writes=None, what="", tr=None):
    """Raise a violation unless sched is a valid schedule of sfg; returns (links, iteration shifts)."""
    c = ctx.check
    st = {str(k): v for k, v in sched.start_times.items()}
    c(set(st) == tm.ids(), "placed", lambda: f"{what}: placed {sorted(st)}, operations {sorted(tm.ids())}")
    P = sched.schedule_time
    c(isinstance(P, int) and P >= 0, "period", lambda: f"{what}: schedule time {P!r}")
    if T is not None:
        c(P == T, "requested_time", lambda: f"{what}: schedule time {P}, requested {T}")
    for o, t in st.items():
        c(isinstance(t, int), "start_type", lambda: f"{what}: start time of {o} is {t!r}")
        if tm.kind[o] is not DontCare:
            c(0 <= t <= P, "range", lambda: f"{what}: {o} starts at {t}, schedule time {P}")
    L = links(sched.sfg)
    c({k: v[:2] for k, v in L.items()} == {k: v[:2] for k, v in link0.items()}, "connections",
      lambda: f"{what}: connections of the schedule differ from the graph: { {k: (L.get(k), link0.get(k)) for k in set(L) | set(link0) if (L.get(k) or (0,))[:2] != (link0.get(k) or (0,))[:2]} }")
    for (v, i), (u, j, d) in L.items():
        if tm.kind[u] is DontCare:
            continue
        use, avail = st[v] + tm.ins[v][i] + d * P, st[u] + tm.outs[u][j]
        c(use >= avail, "causality", lambda: f"{what}: {v}.in{i} used at {use} (start {st[v]}, {d} iterations later, period {P}), "
                                             f"{u}.out{j} available at {avail}")
    r = retiming(L, link0)
    c(r is not None, "retiming", lambda: f"{what}: iteration distances are no retiming of the delays: "
      + str({k: (v[2], link0[k][2]) for k, v in L.items() if v[2] != link0[k][2]}))
    if cyclic is False:
        for o, t in st.items():
            if tm.kind[o] in (Output, Sink, DontCare):
                continue
            e = max([t + x for x in tm.outs[o]], default=t)
            c(e <= P, "noncyclic_wrap", lambda: f"{what}: {o} ends at {e} beyond the schedule time {P} of a non-cyclic schedule")
    if max_resources is not None and P:
        for tn, lim in max_resources.items():
            use = occupancy(st, tm, tn, P)
            for s in range(P):
                c(use[s] <= lim, "resources", lambda: f"{what}: {use[s]} operations of type {tn} executing in time slot {s}, limit {lim}; "
                                                      f"{ {o: (st[o], tm.ex[o]) for o in st if tm.tn[o] == tn} }, schedule time {P}")
    if (reads or writes) and P:
        # without a requested schedule time the period is only known afterwards, and accesses of different iterations are not limited
        m = P if T is not None else 10**9
        rd, wr, produced = Counter(), Counter(), Counter()
        for u, j in {(v[0], v[1]) for v in L.values()}:
            if tm.kind[u] is DontCare:
                continue
            use = {}
            for (v, i), (u2, j2, d) in L.items():
                if (u2, j2) == (u, j):
                    a = st[v] + tm.ins[v][i] + d * P
                    if a > st[u] + tm.outs[u][j]:
                        use[a % m] = 1
            if use:
                wr[(st[u] + tm.outs[u][j]) % m] += 1
                for a in use:
                    rd[a] += 1
        for u in tm.kind:
            if u in st and tm.ins[u] and not issubclass(tm.kind[u], (DontCare, Delay)):
                for t in tm.outs[u]:
                    produced[(st[u] + t) % m] += 1
        inputs = Counter()
        for (v, i), (u, j, d) in L.items():
            a = st[v] + tm.ins[v][i] + d * P
            if link0[v, i][2] == 0 and tm.outs[v] and tm.kind[u] is not DontCare and a > st[u] + tm.outs[u][j]:
                inputs[a % m] += 1
        for s in sorted({*rd, *wr, *produced, *inputs}):
            if reads:
                c(inputs[s] <= reads, "reads", lambda: f"{what}: {inputs[s]} inputs read values stored before in slot {s}, limit {reads}")
            if writes:
                c(produced[s] <= writes, "writes", lambda: f"{what}: {produced[s]} results produced in slot {s}, limit {writes}")
            if reads:
                c(rd[s] <= reads, "reads", lambda: f"{what}: {rd[s]} variables read from memory in slot {s}, limit {reads}")
            if writes:
                c(wr[s] <= writes, "writes", lambda: f"{what}: {wr[s]} variables written to memory in slot {s}, limit {writes}")
    return L, r


def occupancy(st, tm, tn, P):
    use = [0] * P
    for o, t in st.items():
        if tm.tn[o] == tn and tm.ex[o] is not None:
            for k in range(tm.ex[o]):
                use[(t + k) % P] += 1
    return use


def retiming(L, link0):
    """{op: r} with distance = delays + r(consumer) - r(producer), inputs at 0 when one component; None if there is none."""
    adj = defaultdict(list)
    for k, (u, _, d) in L.items():
        w = d - link0[k][2]
        v = k[0]
        adj[u].append((v, w))
        adj[v].append((u, -w))
    r = {}
    roots = sorted(adj)
    roots.sort(key=lambda o: not o.startswith("in"))
    for root in roots:
        if root in r:
            continue
        r[root] = 0
        todo = [root]
        while todo:
            x = todo.pop()
            for y, w in adj[x]:
                if y not in r:
                    r[y] = r[x] + w
                    todo.append(y)
                elif r[y] != r[x] + w:
                    return None
    return r
