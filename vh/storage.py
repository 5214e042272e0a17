"""Storage entities (register chains, memories) under GHDL: every read of every lap against the value written for it."""
import random

from b_asic.architecture import Memory
from b_asic.code_printer import VhdlPrinter
from b_asic.data_type import DataType
from b_asic.process import PlainMemoryVariable
from b_asic.research.interleaver import generate_matrix_transposer, generate_random_interleaver
from b_asic.resources import ProcessCollection

from . import rtl
from .core import Skip


def serial(rng, *, T=None, n=None, min_life=0, multi=False, dense=False, ports=0):
    """At most one write and one read per slot."""
    T = T or rng.randint(2, 12)
    n = T if dense else (n or rng.randint(1, T))
    starts = rng.sample(range(T), n)
    free = set(range(T))
    vs = []
    for k, s in enumerate(starts):
        cand = [life for life in range(min_life, T + 1) if (s + life) % T in free]
        if not cand:
            continue
        lives = [rng.choice(cand)]
        free.discard((s + lives[0]) % T)
        if multi and rng.random() < 0.4:
            for _ in range(rng.choice([1, 1, 2])):
                # keep enough read slots for the rest
                if len(free) <= n - k - 1:
                    break
                cand = [life for life in range(min_life, T + 1) if (s + life) % T in free]
                if cand:
                    lives.append(rng.choice(cand))
                    free.discard((s + lives[-1]) % T)
        vs.append((s, lives))
    if not vs:
        raise Skip("no variable")
    rng.shuffle(vs)
    return ProcessCollection([PlainMemoryVariable(s, 0, {ports + i: x for i, x in enumerate(lives)}, f"v{k}") for k, (s, lives) in enumerate(vs)], T, rng.random() < 0.5)


def transposer(rng, size, parallelism=1):
    r = rng.randint(1, size)
    c = rng.randint(1, size) if rng.random() < 0.7 else None
    if r * (c or r) < 2:
        raise Skip("one element")
    return generate_matrix_transposer(r, c, rng.choice([0, 0, 1, 1, 2, 3]), True, parallelism), (r, c or r)


def interleaver(rng, size):
    random.seed(rng.getrandbits(32))
    return generate_random_interleaver(rng.randint(2, size), rng.choice([0, 0, 1, 1, 2]), True)


def describe(ctx, pc):
    ctx.note(f"T={pc.schedule_time} " + ", ".join(f"{p.name}: {p.start_time}->{sorted(p.reads.values())}" for p in pc))
    ctx.sig = (pc.schedule_time, tuple(sorted((p.start_time, tuple(sorted(p.reads.values()))) for p in pc)))
    ctx.sample = repr(ctx.sig)[:400]
    ctx.nontrivial = len(pc) > 2


def plan(rng, pc, wl, laps):
    """Values written per (variable, lap), the input of each time and what each output time has to show."""
    T = pc.schedule_time
    data, due = {}, {}
    for lap in range(laps):
        for p in pc:
            t = p.start_time + lap * T
            if t in data:
                raise Skip("two writes at once")
            data[t] = rng.getrandbits(wl)
            for life in set(p.reads.values()):
                if t + life in due:
                    raise Skip("two reads at once")
                due[t + life] = (p, lap, data[t])
    return data, due


def judge(ctx, rows, resp, due, wl, at, first, mech="read"):
    """at: time -> index of the row showing the read of that time."""
    for t, (p, lap, v) in sorted(due.items()):
        if lap < first or t not in at or at[t] >= len(resp):
            continue
        ctx.count("reads")
        got = resp[at[t]]
        ctx.check(got == rtl.bits(v, wl), mech, lambda: f"{p.name} written at {p.start_time} lap {lap}, read at time {t}: {got}, expected {rtl.bits(v, wl)}")


def research(ctx, pc, make, latency, *, laps=4, first=1, ahead=0):
    """Entities of ProcessCollection.generate_*_storage_vhdl. latency: between the time of the read and the value at the output; ahead: cycles
    from enable to time 0."""
    rng = ctx.rng
    wl = rng.choice([4, 8, 12])
    T = pc.schedule_time
    data, due = plan(rng, pc, wl, laps)
    with rtl.Workdir() as w:
        make(w / "dut.vhdl", wl)
        try:
            rtl.analyse(w, ["dut.vhdl"])
            rows = ["10" + rtl.bits(rng.getrandbits(wl), wl) for _ in range(rng.randint(1, 3))]
            base = len(rows) + ahead
            for t in range(-ahead, laps * T + T + latency + 1):
                rows.append("01" + rtl.bits(data.get(t, rng.getrandbits(wl)), wl))
            resp = rtl.drive(w, "dut", [("rst", 1, False), ("en", 1, False), ("p_0_in", wl, True)], [("p_0_out", wl, True)], rows)
        except rtl.RtlError as e:
            ctx.fail("vhdl_unusable", str(e))
            return
    ctx.count("cycles", len(rows))
    judge(ctx, rows, resp, due, wl, {t: base + t + latency for t in due}, first)


def standalone(ctx, pc, kind, *, laps=4):
    """Memory printed on its own, with its schedule counter driven from outside or (RAM) inside."""
    rng = ctx.rng
    T = pc.schedule_time
    wl = rng.choice([4, 8, 12])
    try:
        mem = Memory(pc, kind, "dut")
        if kind == "RAM":
            mem.assign(rng.choice(["left_edge", "greedy_graph_color"]))
        else:
            mem.assign()
    except ValueError as e:
        if "allocate" in str(e):
            raise Skip("refused") from None
        raise
    if mem.input_count != 1 or mem.output_count != 1:
        raise Skip("several ports")
    opts = {"std_logic_vector": rng.random() < 0.5}
    late = 0
    if kind == "RAM":
        opts["output_sync"] = rng.random() < 0.6
        opts["external_schedule_counter"] = rng.random() < 0.6
        opts["pipeline_mem_control"] = rng.random() < 0.4
        late = opts["pipeline_mem_control"]
    else:
        opts["pipeline_output_mux"] = rng.random() < 0.4
        opts["pipeline_back_edge_mux"] = rng.random() < 0.4
        late = opts["pipeline_output_mux"] or opts["pipeline_back_edge_mux"]
    inside = opts.get("external_schedule_counter") is False
    ctx.note(f"{kind} {opts}")
    data, due = plan(rng, pc, wl, laps)
    dt = DataType((1, wl - 1), is_signed=rng.random() < 0.5)
    text = VhdlPrinter(dt).print_Memory(mem, **opts)
    cb = max(1, (T - 1).bit_length())
    stall = rng.choice([0, 0, 0.3])
    refine = rng.choice(["0", "1", None])
    ctx.note(f"stall={stall} don't-care={refine}")
    cast = None if opts["std_logic_vector"] else ("signed" if dt.is_signed else "unsigned")
    ins = ([("rst", 1, False)] if inside else []) + [("en", 1, False)] + ([] if inside else [("schedule_cnt", cb, True, "unsigned")]) + [("p_0_in", wl, True, cast)]
    rows, at = [], {}

    def row(rst, en, t, v):
        rows.append((str(rst) if inside else "") + str(en) + ("" if inside else rtl.bits(t % T, cb)) + rtl.bits(v, wl))
    with rtl.Workdir() as w:
        (w / "dut.vhdl").write_text(text)
        if refine is not None:
            rtl.refine_dontcares(w, ["dut.vhdl"], refine)
        for _ in range(rng.randint(1, 3)):
            row(1, 0, 0, rng.getrandbits(wl))
        t, end = 0, laps * T + T
        while t <= end:
            if rng.random() < stall:
                row(0, 0, t, rng.getrandbits(wl))
                continue
            at[t] = len(rows)
            row(0, 1, t, data.get(t, rng.getrandbits(wl)))
            t += 1
        try:
            rtl.analyse(w, ["dut.vhdl"])
            resp = rtl.drive(w, "dut", ins, [("p_0_out", wl, True, cast)], rows)
        except rtl.RtlError as e:
            ctx.fail("vhdl_unusable", str(e))
            return
    ctx.count("cycles", len(rows))
    judge(ctx, rows, resp, due, wl, at, 1 if late else 0)


def crowded(rng):
    """Two or three reads, or two or three writes, in one slot."""
    T = rng.randint(2, 10)
    n = rng.randint(2, 3)
    vs = [(rng.randrange(T), rng.randint(1, T)) for _ in range(rng.randint(0, 3))]
    if rng.random() < 0.5:
        t = rng.randrange(T)
        vs += [(t, x) for x in rng.sample(range(1, T + 1), min(n, T))]
    else:
        t = rng.randrange(T)
        vs += [((t - x) % T, x) for x in rng.sample(range(1, T + 1), min(n, T))]
    rng.shuffle(vs)
    return ProcessCollection([PlainMemoryVariable(a, 0, {0: x}, f"v{k}") for k, (a, x) in enumerate(vs)], T, rng.random() < 0.5)


def must_refuse(ctx, pc, fn, what):
    """More accesses in a cycle than there are ports: an error, and no description."""
    try:
        fn()
    except (ValueError, NotImplementedError):
        ctx.count("refusals")
        return
    ctx.fail("ports_ignored", f"{what} made for one read and one write port, but {pc.read_ports_bound()} reads and {pc.write_ports_bound()} writes at once are needed")
