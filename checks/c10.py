"""C10: schedule edits keep the schedule valid, slacks exact, and reject atomically."""
import contextlib
import io
import logging
import sys

from vh import boot

boot.install()
logging.disable(logging.CRITICAL)
from b_asic import Input, Output  # noqa: E402
from b_asic.core_operations import Constant  # noqa: E402
from b_asic.utility_operations import DontCare, Sink  # noqa: E402

from vh import sched as vs  # noqa: E402
from vh.core import Skip, run_check  # noqa: E402
from vh.gen import BASIC, LINEAR, LINEAR_X  # noqa: E402
from vh.job import Job, random_schedule  # noqa: E402

PROP = "C10"
INF = sys.maxsize
FIXED = (Input, Output, Constant, Sink, DontCare)


class State:
    """What the schedule says, through its public interface, plus everything derived from it by counting."""

    def __init__(self, s):
        self.st = {str(k): v for k, v in s.start_times.items()}
        self.P, self.cyclic = s.schedule_time, s.cyclic
        self.laps = {str(k): v for k, v in s.laps.items() if v}
        sfg = s.sfg
        self.tm = vs.Timing(sfg)
        self.L = vs.links(sfg)
        self.params = {str(o.graph_id): (type(o).__name__, repr(o.params), o.name) for o in sfg.operations if str(o.graph_id) in self.tm.kind}
        tm, st, P = self.tm, self.st, self.P
        self.back = {o: INF for o in st}
        self.fwd = {o: INF for o in st}
        self.free = set()  # with neighbours that are not timed
        for (v, i), (u, j, d) in self.L.items():
            if tm.kind[u] is DontCare:
                self.free |= {u, v}
                continue
            gap = st[v] + tm.ins[v][i] + d * P - st[u] - tm.outs[u][j]
            self.back[v] = min(self.back[v], gap)
            self.fwd[u] = min(self.fwd[u], gap)

    def key(self):
        return self.st, self.P, self.cyclic, self.laps, self.tm.ins, self.tm.outs, self.tm.ex, self.L, self.params

    def distances(self, k):
        """Links when operation o is moved by k[o] iterations; None when a value from the future would be needed."""
        out, ok = {}, True
        for (v, i), (u, j, d) in self.L.items():
            d2 = d + k.get(v, 0) - k.get(u, 0)
            if self.tm.kind[u] is not DontCare and d2 < 0:
                ok = False
            out[v, i] = (u, j, d2)
        return out, ok

    def max_end(self, io=True):
        m = 0
        for o, t in self.st.items():
            if self.tm.kind[o] in (Output, Sink):
                m = max(m, t) if io or self.tm.kind[o] is Sink and False else m
            else:
                m = max([m] + [t + x for x in self.tm.outs[o]])
        return m

    def io_latency(self):
        """Smallest number of delays between input and output, in time units."""
        src = {}
        for (v, i), (u, j, d) in self.L.items():
            src.setdefault(v, []).append((u, d))
        out = {}
        for o in self.tm.kind:
            if self.tm.kind[o] is not Output:
                continue
            dist = {o: 0}
            for _ in range(len(self.tm.kind)):
                change = False
                for v in list(dist):
                    for u, d in src.get(v, ()):
                        if dist[v] + d < dist.get(u, INF):
                            dist[u] = dist[v] + d
                            change = True
                if not change:
                    break
            for x, d in dist.items():
                if self.tm.kind[x] is Input:
                    out.setdefault(x, {})[o] = d * self.P + self.st[o] - self.st[x]
        return out


class Monitor:
    def __init__(self, ctx, j, s):
        self.ctx, self.j, self.s = ctx, j, s
        self.link0 = j.link0
        self.now = State(s)
        self.full("schedule")

    def full(self, what):
        """Validity, function, slacks and all derived queries of the current state."""
        ctx, s, x = self.ctx, self.s, self.now
        c = ctx.check
        vs.audit(ctx, s, None, x.tm, self.link0, what=what)
        ctx.count("states_audited")
        for o in x.st:
            b, f = s.backward_slack(o), s.forward_slack(o)
            c((b, f) == tuple(s.slacks(o)), "slacks_pair", lambda: f"{what}: slacks({o}) {s.slacks(o)}, separately {(b, f)}")
            if o in x.free:
                c(b <= x.back[o] and f <= x.fwd[o] or x.tm.kind[o] is DontCare, "slack", lambda: f"{what}: slacks of {o} {(b, f)}, distances {(x.back[o], x.fwd[o])}")
                continue
            c(b == x.back[o], "backward_slack", lambda: f"{what}: backward slack of {o} reported {b}, distance to its sources {x.back[o]}")
            c(f == x.fwd[o], "forward_slack", lambda: f"{what}: forward slack of {o} reported {f}, distance to its consumers {x.fwd[o]}")
            c(s.start_time_of_operation(o) == x.st[o], "start_time_of_operation", lambda: f"{what}: {o}")
        c(s.get_max_end_time() == x.max_end(), "max_end_time", lambda: f"{what}: get_max_end_time() {s.get_max_end_time()}, latest end {x.max_end()}")

    def unchanged(self, what):
        new = State(self.s)
        self.ctx.count("refusals")
        for a, b, n in zip(self.now.key(), new.key(), ("start times", "schedule time", "cyclic", "laps", "latencies", "latencies", "execution times", "connections", "parameters")):
            self.ctx.check(a == b, "refusal_changes", lambda: f"{what} was refused but changed the {n}: {a} -> {b}")

    def expect(self, what, st=None, P=None, L=None, tm=None, alt=()):
        """The state after a successful edit; alt: operations that may sit at 0 or at the end of the period."""
        ctx, old, new = self.ctx, self.now, State(self.s)
        st = old.st if st is None else st
        P = old.P if P is None else P
        ctx.check(new.P == P, "schedule_time", lambda: f"{what}: schedule time {new.P}, expected {P}")
        diff = {o: (new.st.get(o), t) for o, t in st.items() if new.st.get(o) != t and o not in alt}
        ctx.check(not diff and set(st) == set(new.st), "start_times", lambda: f"{what}: start times (is, expected) {diff}; period {P}")
        L = dict(old.L if L is None else L)
        for o in alt:
            ctx.check(new.st[o] in (0, P), "start_times", lambda: f"{what}: {o} at {new.st[o]}, expected 0 or {P}")
            if new.st[o] != st[o]:
                e = (st[o] - new.st[o]) // P
                L = {k: (v[0], v[1], v[2] + (e if k[0] == o else 0) - (e if v[0] == o else 0)) for k, v in L.items()}
        bad = {k: (new.L.get(k), v) for k, v in L.items() if new.L.get(k) != v and new.tm.kind.get(v[0]) is not DontCare}
        ctx.check(not bad and set(L) == set(new.L), "distances", lambda: f"{what}: delays on links (is, expected) {bad}")
        tm = old.tm if tm is None else tm
        ctx.check((new.tm.ins, new.tm.outs) == (tm.ins, tm.outs), "latencies", lambda: f"{what}: latency offsets { {o: (new.tm.ins[o], new.tm.outs[o]) for o in tm.ins if (new.tm.ins[o], new.tm.outs[o]) != (tm.ins[o], tm.outs[o])} }")
        ctx.check(new.tm.ex == tm.ex, "execution_times", lambda: f"{what}: execution times {new.tm.ex}, expected {tm.ex}")
        ctx.check(new.params == old.params, "parameters", lambda: f"{what}: operations changed: { {o: (new.params.get(o), p) for o, p in old.params.items() if new.params.get(o) != p} }")
        ctx.check(new.cyclic == old.cyclic, "cyclic", what)
        self.now = new
        self.full(what)
        ctx.count("edits." + what.split()[0])

    # -- moves -------------------------------------------------------------
    def moved(self, o, t):
        """(start times, links, alternatives, feasible) after moving o by t."""
        x = self.now
        S = x.st[o] + t
        st = dict(x.st)
        st[o] = S % x.P
        L, ok = x.distances({o: S // x.P})
        alt = (o,) if S % x.P == 0 and x.tm.kind[o] in (Output, Sink) else ()
        return st, L, alt, ok

    def move(self, o, t, call=None, what=None):
        ctx, s, x = self.ctx, self.s, self.now
        what = what or f"move {o} by {t}"
        b, f = s.slacks(o)
        inside = -b <= t <= f
        st, L, alt, ok = self.moved(o, t)
        try:
            ret = (call or (lambda: s.move_operation(o, t)))()
        except ValueError as e:
            ctx.note(f"refused: {what}")
            ctx.check(not inside or not ok, "move_refused", lambda: f"{what} refused although within the slacks {(b, f)} (start {x.st[o]}, period {x.P}): {e}")
            self.unchanged(what)
            return False
        ctx.note(what)
        ctx.check(ret is s, "return_value", lambda: f"{what} returned {ret!r}")
        ctx.check(inside, "move_beyond_slack", lambda: f"{what} accepted, slacks {(b, f)}")
        if t == 0:
            st, L, alt = x.st, x.L, ()
        self.expect(what, st=st, L=L, alt=alt)
        return True

    def move_asap(self, o):
        b = self.s.backward_slack(o)
        t = -b if b != INF else -self.now.st[o]
        self.move(o, t, lambda: self.s.move_operation_asap(o), f"asap {o} (by {t})")

    def move_alap(self, o):
        x = self.now
        f = self.s.forward_slack(o)
        if f == INF:
            t = x.P - x.st[o]
        else:
            t = f
            if o not in x.free:
                while t > 0 and not self.moved_out(o, t):
                    t -= 1
        if o in x.free:
            return
        self.move(o, t, lambda: self.s.move_operation_alap(o), f"alap {o} (by {t}, slack {f})")

    def moved_out(self, o, t):
        x = self.now
        k = (x.st[o] + t) // x.P
        return all(d - k >= 0 for (v, i), (u, j, d) in x.L.items() if u == o and v != o)

    def rotate(self, sign):
        ctx, s, x = self.ctx, self.s, self.now
        what = f"rotate {sign:+d}"
        st = {o: (t + sign) % x.P for o, t in x.st.items()}
        L, ok = x.distances({o: (t + sign) // x.P for o, t in x.st.items()})
        alt = [o for o in st if st[o] == 0 and x.tm.kind[o] in (Output, Sink)]
        try:
            ret = s.rotate_forward() if sign > 0 else s.rotate_backward()
        except ValueError as e:
            ctx.note(f"refused: {what}")
            ctx.check(not x.cyclic or not ok, "rotation_refused", lambda: f"{what} of a cyclic schedule refused: {e}")
            self.unchanged(what)
            return False
        ctx.note(what)
        ctx.check(x.cyclic, "rotation_noncyclic", lambda: f"{what} of a non-cyclic schedule accepted")
        ctx.check(ret is s, "return_value", lambda: f"{what} returned {ret!r}")
        self.expect(what, st=st, L=L, alt=alt)
        for o in x.st:
            if o not in x.free:
                ctx.check((self.now.back[o], self.now.fwd[o]) == (x.back[o], x.fwd[o]), "rotation_slack", lambda: f"{what} changes the slacks of {o}")
        return True

    def rotations(self):
        sign = self.ctx.rng.choice((1, -1))
        n = self.ctx.rng.randint(1, self.now.P + 1)
        before, done = self.now, 0
        for _ in range(n):
            if not self.rotate(sign):
                break
            done += 1
        if self.ctx.rng.random() < 0.4:
            for _ in range(done):
                if not self.rotate(-sign):
                    return
            diff = {o: (before.st[o], self.now.st[o]) for o in before.st if (before.st[o] - self.now.st[o]) % before.P}
            self.ctx.check(not diff, "rotation_back", lambda: f"rotating {done} times forth and back moves {diff}")

    # -- times ---------------------------------------------------------------
    def set_time(self):
        ctx, s, x = self.ctx, self.s, self.now
        m = x.max_end()
        t = max(1, m + ctx.rng.choice([-2, -1, 0, 0, 1, 2, ctx.rng.randint(0, 12)]))
        what = f"schedule_time {t} (minimum {m}, was {x.P})"
        try:
            s.set_schedule_time(t)
        except ValueError as e:
            ctx.note(f"refused: {what}")
            ctx.check(t < m, "schedule_time_refused", lambda: f"{what} refused: {e}")
            self.unchanged(what)
            return
        ctx.note(what)
        ctx.check(t >= m, "schedule_time_short", lambda: f"{what} accepted")
        self.expect(what, P=t)

    def times(self):
        x = self.now
        v = [x.P, *x.st.values()]
        for o, k in x.tm.kind.items():
            if k not in FIXED:
                v += [x.tm.ex[o], *x.tm.ins[o], *x.tm.outs[o]]
        return [t for t in v if t is not None]

    def scaled(self, fn):
        x = self.now
        tm = State.__new__(State)
        tm.ins = {o: [fn(t) if x.tm.kind[o] not in FIXED else t for t in v] for o, v in x.tm.ins.items()}
        tm.outs = {o: [fn(t) if x.tm.kind[o] not in FIXED else t for t in v] for o, v in x.tm.outs.items()}
        tm.ex = {o: v if v is None or x.tm.kind[o] in FIXED else fn(v) for o, v in x.tm.ex.items()}
        return {o: fn(t) for o, t in x.st.items()}, fn(x.P), tm

    def resolution(self):
        ctx, s, x = self.ctx, self.s, self.now
        ts = self.times()
        poss = [f for f in range(1, max(ts) + 1) if all(t % f == 0 for t in ts)]
        got = s.get_possible_time_resolution_decrements()
        ctx.check(sorted(got) == poss and len(set(got)) == len(got), "possible_decrements", lambda: f"possible resolution decrements {got}, common divisors {poss} of {sorted(set(ts))}")
        self.unchanged("get_possible_time_resolution_decrements")
        if ctx.rng.random() < 0.5 and x.P < 40:
            f = ctx.rng.randint(1, 4)
            st, P, tm = self.scaled(lambda t: t * f)
            s.increase_time_resolution(f)
            ctx.note(f"resolution times {f}")
            self.expect(f"resolution times {f}", st=st, P=P, tm=tm)
            return
        f = ctx.rng.choice(poss + [2, 3, 5])
        what = f"resolution by {f}"
        try:
            s.decrease_time_resolution(f)
        except ValueError as e:
            ctx.check(f not in poss, "decrement_refused", lambda: f"{what} refused: {e}")
            self.unchanged(what)
            return
        ctx.note(what)
        ctx.check(f in poss, "decrement_inexact", lambda: f"{what} accepted, possible {poss}")
        st, P, tm = self.scaled(lambda t: t // f)
        self.expect(what, st=st, P=P, tm=tm)

    def pick_type(self):
        x, rng = self.now, self.ctx.rng
        tn = [x.tm.tn[o] for o in x.st if x.tm.kind[o] not in FIXED]
        return rng.choice(sorted(set(tn))) if tn else None

    def latency(self):
        ctx, s, x = self.ctx, self.s, self.now
        tn = self.pick_type()
        if tn is None:
            return
        v = ctx.rng.choice([0, 1, 1, 2, 3, 4])
        cls = next(x.tm.kind[o] for o in x.st if x.tm.tn[o] == tn)
        by_class = ctx.rng.random() < 0.5
        hit = {o for o in x.st if (issubclass(x.tm.kind[o], cls) if by_class else x.tm.tn[o] == tn)}
        what = f"latency of {cls.__name__ if by_class else tn} = {v}"
        tm = State.__new__(State)
        tm.ins = {o: [0] * len(a) if o in hit else a for o, a in x.tm.ins.items()}
        tm.outs = {o: [v] * len(a) if o in hit else a for o, a in x.tm.outs.items()}
        tm.ex = x.tm.ex
        fits = all(x.tm.kind[u] is DontCare or x.st[w] + tm.ins[w][i] + d * x.P >= x.st[u] + tm.outs[u][j2] for (w, i), (u, j2, d) in x.L.items())
        try:
            s.set_latency_of_type(cls, v) if by_class else s.set_latency_of_type_name(tn, v)
        except ValueError as e:
            ctx.note(f"refused: {what}")
            ctx.check(not fits, "latency_refused", lambda: f"{what} refused although every value would still be available in time: {e}")
            self.unchanged(what)
            return
        ctx.note(what)
        ctx.check(fits, "latency_too_long", lambda: f"{what} accepted although values would come too late")
        self.expect(what, tm=tm)

    def execution(self):
        ctx, s, x = self.ctx, self.s, self.now
        tn = self.pick_type()
        if tn is None:
            return
        v = ctx.rng.choice([1, 2, 3])
        cls = next(x.tm.kind[o] for o in x.st if x.tm.tn[o] == tn)
        by_class = ctx.rng.random() < 0.5
        hit = {o for o in x.st if (issubclass(x.tm.kind[o], cls) if by_class else x.tm.tn[o] == tn)}
        what = f"execution_time of {cls.__name__ if by_class else tn} = {v}"
        s.set_execution_time_of_type(cls, v) if by_class else s.set_execution_time_of_type_name(tn, v)
        tm = State.__new__(State)
        tm.ins, tm.outs = x.tm.ins, x.tm.outs
        tm.ex = {o: v if o in hit else e for o, e in x.tm.ex.items()}
        ctx.note(what)
        self.expect(what, tm=tm)

    def swap(self):
        ctx, s, x = self.ctx, self.s, self.now
        sfg = s.sfg
        cand = [str(o.graph_id) for o in sfg.operations if o.is_swappable and o.input_count == 2 and o.output_count == 1 and str(o.graph_id) in x.st]
        if not cand:
            return
        o = ctx.rng.choice(cand)
        s.swap_io_of_operation(o)
        ctx.note(f"swap {o}")
        m = {(o, 0): (o, 1), (o, 1): (o, 0)}
        L = {m.get(k, k): v for k, v in x.L.items()}
        self.link0 = {m.get(k, k): v for k, v in self.link0.items()}
        tm = State.__new__(State)
        tm.ins, tm.outs, tm.ex = dict(x.tm.ins), x.tm.outs, x.tm.ex
        tm.ins[o] = tm.ins[o][::-1]
        new = State(s)
        if new.params[o] != x.params[o]:  # swapping rewrites the operation (judged by C04)
            self.now.params[o] = new.params[o]
        self.expect(f"swap {o}", L=L, tm=tm)

    def bad_ids(self):
        ctx, s = self.ctx, self.s
        for n, fn in [("move_operation", lambda: s.move_operation("nosuch0", 1)), ("forward_slack", lambda: s.forward_slack("nosuch0")),
                      ("backward_slack", lambda: s.backward_slack("nosuch0")), ("slacks", lambda: s.slacks("nosuch0")),
                      ("start_time_of_operation", lambda: s.start_time_of_operation("nosuch0"))]:
            try:
                fn()
                ctx.fail("unknown_id", f"{n} of an unknown operation succeeds")
            except ValueError:
                pass
        self.unchanged("query of an unknown operation")

    # -- rows ------------------------------------------------------------------
    def rows(self):
        ctx, s, x = self.ctx, self.s, self.now
        rng = ctx.rng
        ids = sorted(x.st)
        kind = rng.choice(["sort", "set", "move", "reset"])
        if kind == "sort":
            if any(x.tm.kind[o] is Input and not any(v[0] == o for v in x.L.values()) for o in ids):
                return
            s.sort_y_locations_on_start_times()
            y = {o: s.get_y_location(o) for o in ids}
            ctx.check(len(set(y.values())) == len(ids), "rows_distinct", lambda: f"rows after sorting {y}")
            plain = [o for o in sorted(ids, key=lambda o: y[o]) if x.tm.kind[o] not in (Input, Output, Sink, DontCare)]
            ctx.check([x.st[o] for o in plain] == sorted(x.st[o] for o in plain), "rows_sorted", lambda: f"rows after sorting {y}, start times {x.st}")
        elif kind == "set":
            perm = list(range(len(ids)))
            rng.shuffle(perm)
            for o, r in zip(ids, perm):
                s.set_y_location(o, r)
            ctx.check([s.get_y_location(o) for o in ids] == perm, "rows_set", lambda: f"rows {[s.get_y_location(o) for o in ids]}, set {perm}")
        elif kind == "move":
            for k, o in enumerate(ids):
                s.set_y_location(o, k)
            for _ in range(rng.randint(1, 5)):
                y = {o: s.get_y_location(o) for o in ids}
                o, new = rng.choice(ids), rng.randint(0, max(y.values()))
                insert = rng.random() < 0.7
                s.move_y_location(o, new, insert)
                z = {p: s.get_y_location(p) for p in ids}
                ctx.check(sorted(set(z.values())) == list(range(len(set(z.values())))), "rows_gap", lambda: f"rows after moving {o} to {new}: {z}")
                rest = [p for p in ids if p != o]
                ctx.check(all((z[p] < z[q]) == (y[p] < y[q]) for p in rest for q in rest), "rows_order", lambda: f"moving {o} to {new} (insert={insert}) reorders the others: {y} -> {z}")
                if insert:
                    ctx.check(all(z[p] != z[o] for p in rest), "rows_shared", lambda: f"inserting {o} at {new} shares a row: {z}")
                    ctx.check(all((z[p] < z[o]) == (y[p] < new) for p in rest), "rows_place", lambda: f"inserting {o} at {new}: {y} -> {z}")
        else:
            s.reset_y_locations()
        self.unchanged(f"rows ({kind})")
        ctx.count("edits.rows")

    # -- reports ----------------------------------------------------------------
    def reports(self):
        ctx, s, x = self.ctx, self.s, self.now
        got = {str(a): {str(b): t for b, t in d.items()} for a, d in s.get_io_latency().items()}
        ctx.check(got == x.io_latency(), "io_latency", lambda: f"get_io_latency() {got}, expected {x.io_latency()}")
        m = max([0] + [t + o for k, t in x.st.items() for o in x.tm.outs[k]])
        ctx.check(s.get_max_non_io_end_time() == m, "max_non_io_end_time", lambda: f"get_max_non_io_end_time() {s.get_max_non_io_end_time()}, latest end {m}")
        ctx.check({str(t) for t in s.get_used_type_names()} == set(x.tm.tn.values()), "used_types", lambda: f"{s.get_used_type_names()}")

        def txt(v):
            return "oo" if v == INF else str(v)
        slack = {o: (txt(s.backward_slack(o)), txt(s.forward_slack(o))) for o in x.st}
        order = ctx.rng.randint(0, 2)
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            s.print_slacks(order)
        rows = [tuple(c.strip() for c in line.split("|")) for line in out.getvalue().splitlines()[2:]]
        ctx.check({r[0]: r[1:] for r in rows} == slack and len(rows) == len(slack), "print_slacks", lambda: f"print_slacks: {rows}, slacks {slack}")
        if order:
            vals = [INF if r[order] == "oo" else int(r[order]) for r in rows]
            ctx.check(vals == sorted(vals), "print_slacks_order", lambda: f"print_slacks({order}): {rows}")
        tn = self.pick_type()
        if tn is not None:
            cls = next(x.tm.kind[o] for o in x.st if x.tm.tn[o] == tn)
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                s.print_slacks(0, tn if ctx.rng.random() < 0.5 else cls)
            got = {line.split("|")[0].strip() for line in out.getvalue().splitlines()[2:]}
            ctx.check(got == {o for o in x.st if x.tm.tn[o] == tn}, "print_slacks_type", lambda: f"print_slacks for {tn}: {got}")
        rows = [tuple(c.strip() for c in line.split("|")) for line in str(s).splitlines()[2:]]
        ctx.check({r[0]: r[1:] for r in rows} == {o: (str(x.st[o]), *slack[o]) for o in x.st}, "str", lambda: f"str(schedule) {rows}")
        self.unchanged("reports")


def start(ctx, names=None, cyclic=None, **kw):
    rng = ctx.rng
    j = Job(ctx, ops=rng.choice([LINEAR, LINEAR, LINEAR_X, BASIC]), **kw)
    s, kind = random_schedule(ctx, j, names=names, cyclic=cyclic)
    if s.schedule_time < 1:
        raise Skip("zero schedule time")
    return Monitor(ctx, j, s)


def random_move(m):
    rng = m.ctx.rng
    o = rng.choice(sorted(m.now.st))
    b, f = m.s.slacks(o)
    P = m.now.P
    b, f = min(b, 3 * P), min(f, 3 * P)
    m.move(o, rng.choice([-b, f, rng.randint(-b, f), rng.randint(-b, f), -b - rng.randint(1, 3), f + rng.randint(1, 3)]))


def case_moves(ctx):
    m = start(ctx)
    for _ in range(ctx.rng.randint(3, 40 if ctx.thorough else 18)):
        random_move(m)


def case_extreme(ctx):
    m = start(ctx)
    for _ in range(ctx.rng.randint(3, 20 if ctx.thorough else 10)):
        o = ctx.rng.choice(sorted(m.now.st))
        ctx.rng.choice([m.move_asap, m.move_alap])(o)
        if ctx.rng.random() < 0.3:
            random_move(m)
    m.reports()


def case_rotation(ctx):
    m = start(ctx, cyclic=ctx.rng.random() < 0.9)
    for _ in range(ctx.rng.randint(1, 6)):
        m.rotations()
        if ctx.rng.random() < 0.5:
            random_move(m)
    m.reports()


def case_mixed(ctx):
    m = start(ctx)
    acts = [lambda: random_move(m), lambda: m.move_asap(ctx.rng.choice(sorted(m.now.st))), lambda: m.move_alap(ctx.rng.choice(sorted(m.now.st))),
            m.rotations, m.set_time, m.set_time, m.resolution, m.latency, m.execution, m.swap, m.rows, m.reports, m.bad_ids]
    for _ in range(ctx.rng.randint(3, 40 if ctx.thorough else 18)):
        ctx.rng.choice(acts)()


def case_times(ctx):
    m = start(ctx)
    for _ in range(ctx.rng.randint(3, 20 if ctx.thorough else 10)):
        ctx.rng.choice([m.set_time, m.resolution, m.latency, m.latency, m.execution, lambda: random_move(m)])()


def case_rows(ctx):
    m = start(ctx)
    for _ in range(ctx.rng.randint(2, 8)):
        m.rows()
        random_move(m)


KINDS = {
    "moves": {"fn": case_moves, "quick": 400, "thorough": 8000, "timeout": 180},
    "extreme": {"fn": case_extreme, "quick": 400, "thorough": 6000, "timeout": 180},
    "rotation": {"fn": case_rotation, "quick": 220, "thorough": 4000, "timeout": 180},
    "mixed": {"fn": case_mixed, "quick": 400, "thorough": 10000, "timeout": 180},
    "times": {"fn": case_times, "quick": 300, "thorough": 6000, "timeout": 180},
    "rows": {"fn": case_rows, "quick": 150, "thorough": 2000, "timeout": 180},
}

if __name__ == "__main__":
    sys.exit(run_check(
        PROP, KINDS,
        rule="random histories of public schedule edits on random schedules; after every edit the whole observable state (start times, period, delays on every link of the "
             "re-derived SFG, latencies, slacks, reports) is compared with an independent model of the edit, and after every refusal with the state before; "
             "non-trivial: more than four nodes",
        assumptions=["a move that would need a value from a later iteration (negative delay count) may be refused within the slacks",
                     "an Output or Sink moved to a multiple of the period may be placed at 0 or at the end", "DontCare operations carry no timing constraint"],
        min_eval=300))
