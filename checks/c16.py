"""C16: the generated VHDL computes what the fixed-point simulation of the scheduled graph computes."""
import logging

from vh import boot

boot.install()
logging.disable(logging.CRITICAL)
import apytypes as apy  # noqa: E402
from b_asic import Delay, Simulation  # noqa: E402
from b_asic.architecture import Architecture, Memory, ProcessingElement  # noqa: E402
from b_asic.data_type import DataType  # noqa: E402
from b_asic.quantization import OverflowMode, QuantizationMode  # noqa: E402
from b_asic.resource_assigner import assign_processing_elements_and_memories  # noqa: E402
from b_asic.resources import ProcessCollection  # noqa: E402

from vh import rtl  # noqa: E402
from vh.core import Skip, run_check  # noqa: E402
from vh.job import Job, random_edit, random_schedule  # noqa: E402

PROP = "C16"
REAL_OPS = ["Addition", "AddSub", "ShiftAddSub", "ConstantMultiplication", "ConstantMultiplication", "SymmetricTwoportAdaptor", "MADS"]
CPLX_OPS = ["AddSub", "AddSub", "ShiftAddSub", "ConstantMultiplication", "ConstantMultiplication"]
PIPED = ("multiplexer_control_registered", "pipeline_mem_control", "pipeline_output_mux", "pipeline_back_edge_mux")
Q = [QuantizationMode.TRUNCATION, QuantizationMode.TRUNCATION, QuantizationMode.MAGNITUDE_TRUNCATION, QuantizationMode.UNBIASED_MAGNITUDE_TRUNCATION]


def data_type(rng, cplx):
    wl = (rng.randint(1, 4), rng.randint(2, 11))

    in_wl = (max(1, wl[0] - 1), wl[1]) if rng.random() < 0.2 else None
    out_wl = (max(1, wl[0] + rng.randint(-1, 1)), max(1, wl[1] + rng.randint(-2, 2))) if rng.random() < 0.25 else None
    return DataType(wl, input_wl=in_wl, output_wl=out_wl, is_complex=cplx, quantization_mode=rng.choice(Q), overflow_mode=rng.choice([OverflowMode.WRAPPING, OverflowMode.SATURATION]))


def coefficients(rng, net, dt):
    """Coefficients of all word lengths that the data type holds exactly."""
    def c(lim=None):
        i, f = rng.randint(1, min(dt.int_bits, 3)), rng.randint(0, min(8, dt.frac_bits))
        m = 1 << (i + f - 1)
        v = rng.choice([rng.randint(-m, m - 1), rng.randint(-m, m - 1), rng.choice([-m, m - 1])]) / 2 ** f
        if lim and abs(v) > lim:
            v = 0.0
        v = v or -(2.0 ** -f)
        if frac and v == int(v):
            v = rng.choice([-0.5, 0.25])
        return v
    frac = dt.quantization_mode is QuantizationMode.MAGNITUDE_TRUNCATION
    style = rng.choice(["real", "imag", "either", "full"])
    for n in net.nodes.values():
        p = n["p"]
        if n["op"] == "ConstantMultiplication":
            v = c()
            if dt.is_complex and style != "real":
                p["value"] = complex({"imag": 1j * v, "either": rng.choice([v, 1j * v]), "full": rng.choice([v + 1j * c(), v + 1j * c(), v + 1j * v])}[style])
            else:
                p["value"] = v
        elif n["op"] == "SymmetricTwoportAdaptor":
            p["value"] = c(1)
        if n["op"] != "ShiftAddSub" or not dt.is_complex:
            p.pop("mul_j", None)
        if dt.quantization_mode is not QuantizationMode.TRUNCATION:
            for k in ("shift", "shift_output"):
                if k in p:
                    p[k] = 0


def timing(rng, sfg, zero):
    per = {}
    for o in sorted(sfg.operations, key=lambda o: str(o.graph_id)):
        if not o.input_count or not o.output_count or str(o.type_name()) == "t":
            continue
        t = str(o.type_name())
        lat = per.setdefault(t, rng.choice([0, 1, 2, 3, 4, 5] if zero else [1, 1, 2, 3, 4, 5]))
        o.set_latency_offsets({f"in{i}": 0 for i in range(o.input_count)} | {f"out{i}": lat for i in range(o.output_count)})
        o.execution_time = 1


class RtlJob(Job):
    def __init__(self, ctx, cplx, **kw):
        super().__init__(ctx, ops=CPLX_OPS if cplx else REAL_OPS, cplx=cplx, init=False, const=0, sinks=False, dangling=False, **kw)


def graph(ctx, dt, **kw):
    import vh.job
    rng = ctx.rng
    orig_net, orig_lat = vh.job.random_net, vh.job.lat.assign

    def net(r, **k):
        n = orig_net(r, **k)
        coefficients(r, n, dt)
        return n

    def assign(r, sfg, zero=True, exec_max=None, per_op=None):
        timing(r, sfg, zero)
    vh.job.random_net, vh.job.lat.assign = net, assign
    try:
        return RtlJob(ctx, dt.is_complex, **kw)
    finally:
        vh.job.random_net, vh.job.lat.assign = orig_net, orig_lat


def scheduled(ctx, dt, **kw):
    rng = ctx.rng
    j = graph(ctx, dt, n_ops=rng.randint(1, 12 if ctx.thorough else 8), n_in=rng.choice([1, 1, 2]), **kw)
    s, kind = random_schedule(ctx, j, names=["asap", "alap", "list", "list", "list"])
    for _ in range(rng.choice([0, 0, 3])):
        random_edit(ctx, s, j)
    if s.schedule_time < 1:
        raise Skip("zero schedule time")
    return j, s


def architecture(ctx, s):
    rng = ctx.rng
    how = rng.choice(["manual", "manual", "assigned"])
    mtype = rng.choice(["RAM", "RAM", "register"])
    ctx.note(f"{how} {mtype}")
    if how == "assigned":
        try:
            pes, mems, direct = assign_processing_elements_and_memories(s, strategy=rng.choice(["left_edge", "greedy_graph_color"]), memory_read_ports=1, memory_write_ports=1, memory_total_ports=2, memory_type=mtype)
        except ValueError as e:
            raise Skip(f"assignment refused: {e}") from None
    else:
        pes = []
        if any(p.execution_time > s.schedule_time for p in s.get_operations()):
            raise Skip("an operation longer than the schedule")
        for tn, q in sorted(s.get_operations().split_on_type_name().items()):
            groups = {}
            for p in q:
                groups.setdefault(p.operation.latency, []).append(p)
            for g in groups.values():
                for part in ProcessCollection(g, q.schedule_time, s.cyclic).split_on_execution_time(rng.choice(["left_edge", "greedy_graph_color"])):
                    pes.append(ProcessingElement(part, f"{tn}{len(pes)}"))
        direct, mem = s.get_memory_variables().split_on_length()
        if any(p.execution_time > s.schedule_time for p in mem):
            mem = mem.split_into_chains()
        mems = []
        try:
            parts = mem.split_on_ports(rng.choice(["left_edge", "greedy_graph_color"]), read_ports=1, write_ports=1, total_ports=2) if len(mem) else []
        except ValueError:
            raise Skip("ports") from None
        for k, part in enumerate(parts):
            kind = mtype if rng.random() < 0.8 else "RAM"
            try:
                mems.append(Memory(part, kind, f"mem{k}", assign=True))
            except ValueError:
                if kind == "RAM":
                    raise
                raise Skip("forward-backward allocation") from None
    return Architecture(pes, mems, "dut", direct), mtype


def options(ctx, rng, arch):
    o = {}
    for name, p in (("input_register", 0.25), ("output_register", 0.25), ("io_registers", 0.1), ("multiplexer_control_registered", 0.4), ("pipeline_mem_control", 0.3), ("pipeline_pe_control", 0.3), ("pipeline_output_mux", 0.3), ("pipeline_back_edge_mux", 0.3)):
        if rng.random() < p:
            o[name] = True
    if rng.random() < 0.3:
        o["enable_pin"] = False
    if rng.random() < 0.3:
        o["output_sync"] = False
    regs = {}
    for pe in arch.processing_elements:
        L = pe._latency
        if L and rng.random() < 0.4:
            n_in = rng.randint(0, L)
            regs[pe.entity_name] = (n_in, L - n_in)
    if regs:
        o["pe_registers"] = regs
    return o


def bits_of(v, cx):
    b = v.to_bits()
    return tuple(b) if cx else (b,)


def run_case(ctx, s, arch, dt, opts, *, std="93c", stall=0.0, refine="0", n=6, warm=1, also=None):
    """also: (mechanism, data type) another data type that the VHDL is known to follow here."""
    rng = ctx.rng
    cx = dt.is_complex
    sfg = s.sfg
    ids = [str(o.graph_id) for o in sfg.input_operations]
    hi = 1 << (dt.input_bits - 1)
    mode = {"quantization": dt.quantization_mode.to_apytypes(), "overflow": dt.overflow_mode.to_apytypes()}
    amp = rng.choice([hi, hi, max(1, hi // 4)])

    def word():
        return rng.choice([rng.randint(-amp, amp - 1), rng.randint(-amp, amp - 1), rng.choice([-amp, amp - 1, 0, 1, -1])])
    x = {g: [(word(), word()) if cx else word() for _ in range(n)] for g in ids}
    num = apy.APyCFixed if cx else apy.APyFixed
    ii, fi = dt.input_wl
    io, fo = dt.output_wl
    prov = [[num(v, int_bits=ii, frac_bits=fi).cast(int_bits=dt.int_bits, frac_bits=dt.frac_bits, **mode) for v in x[g]] for g in ids]

    def simulated(sdt):
        sim = Simulation(sfg, prov, data_type=sdt)
        sim.run_for(n)
        return {str(o.graph_id): [tuple(rtl.bits(b, dt.output_bits) for b in bits_of(v.cast(int_bits=io, frac_bits=fo, **mode), cx)) for v in sim.results[o.graph_id]] for o in sfg.output_operations}
    want = simulated(dt)
    other = simulated(also[1]) if also else None
    ctx.note(f"{dt.wl} in {dt.input_wl} out {dt.output_wl} {dt.quantization_mode.name} {dt.overflow_mode.name} complex={cx} options {opts} stall={stall} don't-care={refine} std={std} warm={warm}")
    ctx.note("; ".join(f"{g}@{t}" for g, t in s.start_times.items()) + f" T={s.schedule_time}")
    # the don't-cares of memories can become anything, those that select something out of range in a processing element cannot
    mem_refine = None if refine == "0" and warm else rng.choice(["0", "1", None])
    with rtl.Workdir() as w:
        d = rtl.Design(arch, s, dt)
        files = d.print(w, **opts)
        if mem_refine is not None:
            rtl.refine_dontcares(w, [f"{m.entity_name}.vhdl" for m in arch.memories], mem_refine)
        if refine is not None:
            rtl.refine_dontcares(w, files, refine)
        try:
            rtl.analyse(w, files, std)
            got, cycles = d.run(w, x, n, rng, warm=warm, stall=stall, std=std, enable_pin=opts.get("enable_pin", True),
                                in_reg=bool(opts.get("input_register") or opts.get("io_registers")), out_reg=bool(opts.get("output_register") or opts.get("io_registers")))
        except rtl.RtlError as e:
            ctx.fail("vhdl_unusable", str(e))
    ctx.count("clock_cycles", cycles)
    ctx.count("designs")
    for g, seq in want.items():
        for k, y in enumerate(seq):
            ctx.counters["monitor_checks"] += 1
            if other and got[g][k] != y and got[g][k] == other[g][k]:
                ctx.fail(also[0], f"{g} sample {k}: {got[g][k]} from the VHDL, {y} from the simulation, inputs {x}")
            if got[g][k] != y:
                ctx.fail("wrong_output", f"{g} sample {k}: {got[g][k]} from the VHDL, {y} from the simulation; VHDL {got[g]}, simulation {seq}; inputs {x}")
    ctx.count("output_samples", sum(map(len, want.values())))


def recursive(sfg):
    succ = {o.graph_id: {q.graph_id for q in o.subsequent_operations} for o in sfg.operations}
    state = {}

    def visit(v):
        state[v] = 1
        for w in succ[v]:
            if state.get(w) == 1 or w not in state and visit(w):
                return True
        state[v] = 2
        return False
    return any(v not in state and visit(v) for v in list(succ))


def dontcare(rng, opts, loop):
    """What the don't-cares of the description become: a value, or (None) what simulation makes of them."""
    if loop and any(opts.get(k) for k in PIPED):
        return "0"
    return rng.choice(["0", None])


def laps(rng, s, opts):
    """Laps with zero inputs before the first judged one. Registered control for the first cycle comes from the cycle before, and what an
    operation does without its control is open, so that a graph with loops has no defined state then (not generated)."""
    n = 0
    if any(opts.get(k) for k in (*PIPED, "pipeline_pe_control")) or opts.get("output_sync", True):
        n = -(-4 // s.schedule_time)
    if any(opts.get(k) for k in (*PIPED, "pipeline_pe_control")) or not opts.get("enable_pin", True):
        n += 2 + sum(isinstance(o, Delay) for o in s.sfg.operations) + max([max(s.laps.values(), default=0)])
    return n + rng.choice([0, 0, 1])


def case(ctx, cplx):
    rng = ctx.rng
    dt = data_type(rng, cplx)
    j, s = scheduled(ctx, dt)
    arch, mtype = architecture(ctx, s)
    opts = options(ctx, rng, arch)
    loop = recursive(s.sfg)
    if loop:
        opts.pop("pipeline_pe_control", None)
        opts.pop("enable_pin", None)
        if any(str(o.type_name()) == "shiftaddsub" for o in s.sfg.operations):
            for k in PIPED:  # what it gives for zeros outside its cycles is open (the carry), and may get into the state in the first cycle
                opts.pop(k, None)
        ctx.count("recursive_designs")
    enable = opts.get("enable_pin", True)
    run_case(ctx, s, arch, dt, opts, stall=rng.choice([0, 0, 0.3]) if enable else 0.0, refine=dontcare(rng, opts, loop), warm=laps(rng, s, opts))


def c_real(ctx):
    case(ctx, False)


def c_complex(ctx):
    case(ctx, True)


def directed(ctx, mech, op):
    """One operation without state, under magnitude truncation."""
    from b_asic import SFG, Input, Output, Schedule
    from b_asic.scheduler import ASAPScheduler
    rng = ctx.rng
    wl = (rng.randint(2, 4), rng.randint(2, 9))
    mode = QuantizationMode.MAGNITUDE_TRUNCATION
    o = rng.choice([OverflowMode.WRAPPING, OverflowMode.SATURATION])
    dt, plain = DataType(wl, quantization_mode=mode, overflow_mode=o), DataType(wl, overflow_mode=o)
    ins = [Input(f"in{i}") for i in range(2)]
    b = op(rng, ins)
    lat = rng.randint(1, 3)
    b.set_latency(lat)
    b.execution_time = 1
    sfg = SFG(ins[:len(b.inputs)], [Output(b)])
    s = Schedule(sfg, ASAPScheduler(), schedule_time=lat + rng.randint(0, 2))
    arch, _ = architecture(ctx, s)
    run_case(ctx, s, arch, dt, {}, refine="0", warm=1, n=8, also=(mech, plain))


def c_shift_rounding(ctx):
    from b_asic import AddSub, ShiftAddSub

    def op(rng, ins):
        if rng.random() < 0.5:
            return ShiftAddSub(*ins, is_add=rng.random() < 0.5, shift=rng.randint(1, 3))
        return AddSub(is_add=rng.random() < 0.5, src0=ins[0], src1=ins[1], shift_output=rng.randint(1, 2))
    directed(ctx, "rounding_of_shifts", op)


def c_integer_rounding(ctx):
    from b_asic import ConstantMultiplication
    directed(ctx, "rounding_of_integer_coefficients", lambda rng, ins: ConstantMultiplication(rng.choice([-1, -2, 1]), ins[0]))


def waves(path, wanted):
    """Values held when the clock rises: [(schedule_cnt, {signal: bits})] of the instance that has all of wanted."""
    scope, scopes, events, body = [], {}, [], False
    for line in path.read_text().splitlines():
        w = line.split()
        if not w:
            continue
        if not body:
            if w[0] == "$scope":
                scope.append(w[2])
            elif w[0] == "$upscope":
                scope.pop()
            elif w[0] == "$var":
                scopes.setdefault(tuple(scope), {})[w[4].split("[")[0].lower()] = w[3]
            elif w[0] == "$enddefinitions":
                body = True
        elif w[0][0] == "#":
            events.append({})
        elif w[0][0] == "b":
            events[-1][w[1]] = w[0][1:]
        elif w[0][0] in "01XxUuZz-WwLlHh":
            events[-1][w[0][1:]] = w[0][0]
    ids = next(v for v in scopes.values() if all(n in v for n in ["clk", *wanted]))
    now, out = {}, []
    for e in events:
        if e.get(ids["clk"]) == "1" and now.get(ids["clk"]) == "0":
            out.append((now[ids["schedule_cnt"]], {n: now[ids[n]] for n in wanted}))
        now.update(e)
    return out


def c_control(ctx):
    """Every control signal has the value of the operation in the cycle of the operation in which it is asked for."""
    import copy
    rng = ctx.rng
    dt = data_type(rng, False)
    j, s = scheduled(ctx, dt)
    arch, _ = architecture(ctx, s)
    T = s.schedule_time
    pes = [pe for pe in arch.processing_elements if any(not t.is_static for t in pe.control_table.values())]
    if not pes or T < 2:
        raise Skip("no control signal that varies")
    pe = rng.choice(pes)
    table = {n: t for n, t in pe.control_table.items() if not t.is_static}
    asked = {n: rng.randint(0, pe._latency) for n in pe.control_table if rng.random() < 0.7}
    key = pe.entity_name
    if rng.random() < 0.5 and pe._type_name not in [q.entity_name for q in arch.processing_elements] and all(set(asked) <= set(q.control_table) and all(v <= q._latency for v in asked.values()) for q in arch.processing_elements if q._type_name == pe._type_name):
        key = pe._type_name
    opts = {"control_cycle": {key: asked}}
    if rng.random() < 0.4:
        opts["pipeline_pe_control"] = True
    n_in = None
    if pe._latency and rng.random() < 0.6:
        n_in = rng.randint(0, pe._latency)
        opts["pe_registers"] = {pe.entity_name: (n_in, pe._latency - n_in)}
    given = copy.deepcopy(opts)
    ctx.note(f"{pe.entity_name} latency {pe._latency} options {opts} T={T} " + "; ".join(f"{p.operation.graph_id}@{p.start_time} {p.operation.params}" for p in pe.collection))
    with rtl.Workdir() as w:
        d = rtl.Design(arch, s, dt)
        try:
            files = d.print(w, **opts)
            ctx.check(opts == given, "options_changed", lambda: f"{given} became {opts}")
            rtl.analyse(w, files)
            cw = max(1, (T - 1).bit_length())
            ins = [("en", 1, False), ("schedule_cnt", cw, True, "unsigned")] + [(f"p_{k}_in", dt.bits, True, "signed") for k in range(pe.input_count)]
            rows = ["1" + rtl.bits(k % T, cw) + "0" * (dt.bits * pe.input_count) for k in range(4 * T + 2)]
            rtl.drive(w, pe.entity_name, ins, [("p_0_out", dt.bits, True, "signed")], rows)
            rc, out = rtl.simulate(w, "vhtb", "93c", ["--vcd=control.vcd"])
        except rtl.RtlError as e:
            ctx.fail("vhdl_unusable", str(e))
        seen = waves(w / "control.vcd", ["schedule_cnt", *table])
    ctx.check(len(seen) >= 3 * T, "control_observed", lambda: f"{len(seen)} cycles")
    for cnt, values in seen[2 * T:]:
        for n, t in table.items():
            if n not in asked:
                continue  # left to the generator
            for p in pe.collection:
                if (p.start_time + asked[n]) % T != int(cnt, 2):
                    continue
                v = p.operation.params[n]
                want = str(int(v)) if isinstance(v, bool) else rtl.bits(int(v * 2 ** t.frac_bits), t.bits)
                got = values[n]
                got = got if isinstance(v, bool) or set(got) - {"0", "1"} else got.rjust(len(want), "0")
                ctx.count("control_values")
                ctx.check(got == want, "control_cycle", lambda: f"{n} is {values[n]} at count {int(cnt, 2)}, {p.operation.graph_id} (start {p.start_time}) needs {want} in its cycle {asked[n]}")


KINDS = {
    "control": {"fn": c_control, "quick": 300, "thorough": 8000, "timeout": 200},
    "shift_rounding": {"fn": c_shift_rounding, "quick": 6, "thorough": 60, "timeout": 100},
    "integer_rounding": {"fn": c_integer_rounding, "quick": 6, "thorough": 60, "timeout": 100},
    "real": {"fn": c_real, "quick": 1000, "thorough": 20000, "timeout": 200},
    "complex": {"fn": c_complex, "quick": 600, "thorough": 12000, "timeout": 200},
}
if __name__ == "__main__":
    raise SystemExit(run_check(PROP, KINDS, rule="the generated VHDL, run in GHDL against randomly scheduled graphs, gives bit for bit the words of the fixed-point simulation at the scheduled cycles"))
