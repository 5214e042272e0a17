"""C23: looking at something does not change it, and looking again shows the same."""
import difflib
import io
import itertools
import json
import logging
import os
import random
import re
import subprocess
import sys
import warnings
from contextlib import redirect_stdout

import numpy as np

from vh import boot

boot.install()
logging.disable(logging.CRITICAL)
import matplotlib.pyplot as plt  # noqa: E402
from b_asic import SFG, Delay, Signal, Simulation  # noqa: E402
from b_asic import scheduler as S  # noqa: E402
from b_asic.architecture import Architecture, Memory, ProcessingElement  # noqa: E402
from b_asic.code_printer import VhdlPrinter  # noqa: E402
from b_asic.data_type import DataType  # noqa: E402
from b_asic.operation import Operation  # noqa: E402
from b_asic.port import AbstractPort  # noqa: E402
from b_asic.process import MemoryVariable, OperatorProcess, PlainMemoryVariable, Process  # noqa: E402
from b_asic.resources import ProcessCollection  # noqa: E402
from b_asic.save_load_structure import schedule_to_python, sfg_to_python  # noqa: E402
from b_asic.schedule import Schedule  # noqa: E402
from b_asic.transfer_function import TransferFunction  # noqa: E402

from checks import c12, c15, c16  # noqa: E402
from vh import edits, lat, rtl, sound  # noqa: E402
from vh.core import Skip, run_check  # noqa: E402
from vh.gen import BASIC, CPLX, LINEAR, REALS, random_net  # noqa: E402
from vh.job import Job, list_scheduler, random_edit, random_schedule  # noqa: E402

PROP = "C23"
REFUSALS = (ValueError, TypeError, NotImplementedError, RuntimeError, IndexError, KeyError, ZeroDivisionError, OverflowError, AttributeError, AssertionError, ArithmeticError)
DATE = re.compile(r"\d{4}-\d\d-\d\d[ T]\d\d:\d\d:\d\d(\.\d+)?|(?i:code generated|generated (on|by)|date).*")
ADDR = re.compile(r"0x[0-9a-f]{6,}")


# --- plain values ---------------------------------------------------------------------------------------------------------------------

def text(s):
    return ADDR.sub("0x", DATE.sub("DATE", str(s)))


def norm(v, depth=0):
    """What can be seen of a result, as a plain value."""
    if depth > 8:
        return "deep"
    n = lambda x: norm(x, depth + 1)  # noqa: E731
    if v is None or isinstance(v, (bool, int, str)):
        return text(v) if isinstance(v, str) else v
    if isinstance(v, (float, complex, np.generic)):
        return repr(v)
    if isinstance(v, SFG):
        return ("sfg", sound.fingerprint(v))
    if isinstance(v, Schedule):
        return ("schedule", schedule_state(v))
    if isinstance(v, np.ndarray):
        return ("array", v.shape, [repr(x) for x in v.ravel()])
    if isinstance(v, (Operation, Signal)):
        return (type(v).__name__, str(v.graph_id))
    if isinstance(v, AbstractPort):
        return (type(v).__name__, str(v.operation.graph_id), v.index)
    if isinstance(v, Process):
        return process(v)
    if isinstance(v, ProcessCollection):
        return ("collection", v.schedule_time, sorted((process(p) for p in v), key=repr))
    if isinstance(v, Architecture):
        return architecture_state(v)
    if isinstance(v, TransferFunction):
        return text(repr(v)), text(v)
    if isinstance(v, dict):
        return ("dict", sorted(((n(k), n(x)) for k, x in v.items()), key=repr))
    if isinstance(v, (set, frozenset)):
        return ("set", sorted((n(x) for x in v), key=repr))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, [n(x) for x in v])
    if hasattr(v, "source") and isinstance(getattr(v, "source"), str):  # graphviz
        return ("digraph", sorted(text(v.source).splitlines()))
    if hasattr(v, "nodes") and hasattr(v, "edges"):  # networkx
        return ("graph", sorted((n(x) for x in v.nodes), key=repr), sorted((sorted((n(a), n(b)), key=repr) for a, b in v.edges), key=repr))
    if hasattr(v, "__next__"):
        return ("iterator", [n(x) for x in v])
    return (type(v).__name__, text(repr(v)))


def process(p):
    r = [type(p).__name__, str(p.name), p.start_time, p.execution_time]
    if isinstance(p, OperatorProcess):
        r.append(str(p.operation.graph_id))
    if isinstance(p, (MemoryVariable, PlainMemoryVariable)):
        r.append(sorted((norm(k), x) for k, x in p.reads.items()) if isinstance(p, PlainMemoryVariable) else sorted(((norm(k), x) for k, x in p.reads.items()), key=repr))
    return tuple(map(repr, r))


def schedule_state(s):
    return (sorted((str(k), v) for k, v in s.start_times.items()), sorted((str(k), v) for k, v in s.laps.items() if v), s.schedule_time, s.cyclic, sound.fingerprint(s._sfg if hasattr(s, "_sfg") else s.sfg))


def collection_state(pc):
    return (pc.schedule_time, [process(p) for p in pc], len(pc))


def architecture_state(a):
    out = [str(a.entity_name), a.schedule_time, repr(c15.observed(a))]
    for r in (*a.processing_elements, *a.memories):
        out.append((str(r.entity_name), collection_state(r.collection), r.input_count, r.output_count, r.is_assigned,
                    [collection_state(q) for q in r.assignment] if r.is_assigned and isinstance(r, Memory) else None))
    out.append(collection_state(a.direct_interconnects) if a.direct_interconnects is not None else None)
    return out


# --- the monitor ------------------------------------------------------------------------------------------------------------------------

def watch(ctx, obj, state, probes, steps, what):
    """Random sequence of probes, each at least twice: the state stays, and every repetition gives what the first call gave."""
    rng = ctx.rng
    names = rng.sample(sorted(probes), min(len(probes), steps))
    seq = names * 2 + rng.sample(names, len(names) // 2)
    rng.shuffle(seq)
    ctx.note(f"{what}: {seq}")
    before = state(obj)
    first = {}
    for name in seq:
        r = call(probes[name], obj)
        ctx.count("calls")
        ctx.count(f"{what}.{name}{'.raises' if r[0] == 'raises' else ''}")
        now = state(obj)
        ctx.check(now == before, f"{what}.{name}.changes", lambda: f"{name} changed the {what}: {diff(before, now)}")
        if name in first:
            ctx.check(first[name] == r, f"{what}.{name}.differs", lambda: f"{name} of the same {what} gave different results: {diff(first[name], r)}")
        first.setdefault(name, r)
    return first


DEBUG = False


def call(fn, obj):
    try:
        with warnings.catch_warnings(), redirect_stdout(io.StringIO()) as out:
            warnings.simplefilter("ignore")
            r = fn(obj)
        return (norm(r), text(out.getvalue()))
    except REFUSALS as e:
        if DEBUG:
            print(type(e).__name__, e)
        return ("raises", type(e).__name__)
    finally:
        plt.close("all")


def diff(a, b, path=""):
    if type(a) is type(b) and isinstance(a, (list, tuple)) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b, strict=True)):
            if x != y:
                return diff(x, y, f"{path}[{i}]")
    return f"at {path or 'top'}: {str(a)[:300]} -> {str(b)[:300]}"


def axes():
    return plt.figure().gca()


def picture(fig):
    fig = getattr(fig, "figure", None) or fig
    ax = fig.axes if hasattr(fig, "axes") and not callable(fig.axes) else [fig]
    return [([t.get_text() for t in a.texts], len(a.patches), len(a.lines), len(a.collections), a.get_xlim(), a.get_ylim()) for a in ax]


# --- SFG --------------------------------------------------------------------------------------------------------------------------------

def sfg_probes(rng, sfg, linear, small):
    ids = sorted(str(c.graph_id) for c in sfg.components)
    ops = sorted(str(o.graph_id) for o in sfg.operations)
    x = [rng.randint(-8, 8) / 4 for _ in range(sfg.input_count)]
    xs = [[rng.randint(-8, 8) / 4 for _ in range(5)] for _ in range(sfg.input_count)]
    gid, oid = rng.choice(ids), rng.choice(ops)
    name = rng.choice([str(sfg.find_by_id(i).name) for i in ids])
    cls = type(sfg.find_by_id(oid))
    tn = sfg.find_by_id(oid).type_name()
    n_out = sfg.output_count
    P = {
        "str": str, "repr_html": lambda s: s._repr_mimebundle_() if hasattr(s, "_repr_mimebundle_") else None,
        "evaluate": lambda s: s.evaluate(*x),
        "evaluate_output": lambda s: [s.evaluate_output(i, x) for i in range(n_out)],
        "evaluate_state": lambda s: [s.evaluate_output(i, x, {}, {}) for i in range(n_out)],
        "current_output": lambda s: [s.current_output(i) for i in range(n_out)],
        "expression": lambda s: s.expression, "input_operations": lambda s: s.input_operations, "output_operations": lambda s: s.output_operations,
        "split": lambda s: s.split(), "to_sfg": lambda s: s.to_sfg(), "flatten": lambda s: s.flatten(), "copy": lambda s: s.copy(), "call": lambda s: s(),
        "required": lambda s: [s.inputs_required_for_output(i) for i in range(n_out)],
        "components": lambda s: set(s.components), "operations": lambda s: set(s.operations),
        "by_type_name": lambda s: s.find_by_type_name(tn), "by_type": lambda s: set(s.find_by_type(cls)), "by_id": lambda s: s.find_by_id(gid), "by_name": lambda s: set(s.find_by_name(name)),
        "by_keys": lambda s: s.find_result_keys_by_name(name),
        "precedence": lambda s: s.get_precedence_list(), "precedence_graph": lambda s: s.precedence_graph, "print_precedence": lambda s: s.print_precedence_graph(),
        "order": lambda s: [str(o.graph_id) for o in s.get_operations_topological_order()],
        "digraph": lambda s: s.sfg_digraph(signal_info=rng_choice, branch_node=rng_bool, show_op_params=True),
        "critical_path": lambda s: s.critical_path_time(), "lower_bound": lambda s: s.resource_lower_bound(tn, 4), "period_bound": lambda s: s.iteration_period_bound(),
        "counter": lambda s: s.operation_counter(), "linear": lambda s: (s.is_linear, s.is_constant, s.is_add if hasattr(s, "is_add") else None),
        "type_names": lambda s: s.get_used_type_names(), "op_types": lambda s: s.get_used_operation_types(), "used_ids": lambda s: s.get_used_graph_ids(),
        "latency": lambda s: (s.latency_offsets, s.execution_time, s.get_plot_coordinates() if s.latency_offsets.get("in0") is not None else None),
        "python": lambda s: sorted(sfg_to_python(s).splitlines()),
        "simulate": lambda s: simulate(s, xs),
        "schedule_asap": lambda s: Schedule(s), "schedule_alap": lambda s: Schedule(s, S.ALAPScheduler()),
        "schedule_list": lambda s: Schedule(s, S.ListScheduler(sort_order=((1, True), (2, False)), max_resources={tn: 1})),
        "neighbours": lambda s: (s.find_by_id(gid).neighbors, s.find_by_id(oid).preceding_operations, s.find_by_id(oid).subsequent_operations),
        "traverse": lambda s: {str(c.graph_id) for c in s.find_by_id(gid).traverse()},
        "unfold": lambda s: s.unfold(2),
        "replace": lambda s: s.replace(oid, s.find_by_id(oid).copy()),
        "remove": lambda s: s.remove_operation(oid),
        "insert_before": lambda s: s.insert_operation_before(oid, Delay()),
        "insert_after": lambda s: s.insert_operation_after(oid, Delay()),
        "simplify": lambda s: s.simplify_delay_element_placement(),
        "extract": lambda s: s.extract([oid]),
    }
    if small:
        P["loops"] = lambda s: s.loops
    if linear:
        P.update({"to_ss": lambda s: text(repr(s.to_ss())), "to_tf": lambda s: text(repr(s.to_tf())), "to_zpk": lambda s: s.to_zpk(),
                  "impulse": lambda s: s.get_impulse_responses(1e-3, 20), "l1": lambda s: s.get_l1_norms(1e-3, 20), "l2": lambda s: s.get_l2_norms(1e-3, 20), "impulse_all": lambda s: s.get_impulse_responses(1e-3, 20, True), "from_nodes": lambda s: s.get_impulse_responses_from_nodes(None, 1e-3, 20)})
    rng_choice, rng_bool = rng.choice(["none", "id"]), rng.random() < 0.5
    return P


def simulate(s, xs):
    sim = Simulation(s, xs)
    sim.run_for(5)
    return sim.results


def timed_net(ctx, **kw):
    rng = ctx.rng
    d = dict(n_ops=rng.randint(1, 9), nested=rng.choice([0, 0, 1]), names=rng.random() < 0.4)
    d.update(kw)
    ops = rng.choice([LINEAR, LINEAR, BASIC, REALS])
    net = random_net(rng, ops=ops, **d)
    sfg = net.build(rng)
    if rng.random() < 0.7:
        lat.assign(rng, sfg, zero=rng.random() < 0.3, exec_max=3)
    ctx.sig = net.signature()
    ctx.sample = net.describe()
    ctx.nontrivial = len(net.nodes) > 3
    return net, sfg, ops is LINEAR


def case_sfg(ctx):
    net, sfg, linear = timed_net(ctx)
    small = len(net.nodes) < 9
    outside = [(s, s.source, s.destination) for p in (*sfg.inputs, *sfg.outputs) for s in p.signals]
    watch(ctx, sfg, sound.fingerprint, sfg_probes(ctx.rng, sfg, linear, small), 14 if ctx.thorough else 9, "sfg")
    ctx.check(all(s.source is a and s.destination is b for s, a, b in outside), "sfg.outside", "signals around the SFG moved")


def case_transform(ctx):
    """Every transformation gives a new graph and leaves the one it came from, and editing the new one leaves the old one too."""
    rng = ctx.rng
    net, sfg, _ = timed_net(ctx, dangling=False)
    before = sound.fingerprint(sfg)
    was = sound.parts(sfg)
    names = sorted({**edits.KEEP, **edits.CHANGE}.items())
    done = 0
    for _ in range(4):
        name, make = rng.choice(names)
        if name == "swap":  # works in place
            continue
        e = make(rng, sfg)
        if e is None:
            continue
        ctx.note(e[0])
        now = sound.fingerprint(sfg)
        ctx.check(now == before, f"transform.{name}.preparation", lambda: f"{e[0]}: {diff(before, now)}")
        try:
            new, refused = edits.perform(e)
        except REFUSALS:
            new, refused = None, True
        now = sound.fingerprint(sfg)
        ctx.check(now == before, f"transform.{name}.changes", lambda: f"{e[0]} changed the graph it was applied to: {diff(before, now)}")
        ctx.count("transforms")
        if new is None or new is sfg:
            continue
        done += 1
        shared = was & sound.parts(new)
        ctx.check(not shared, f"transform.{name}.shares", lambda: f"{e[0]}: the result shares {len(shared)} components with its origin")
        for tn in sorted({str(o.type_name()) for o in new.operations}):
            new.set_latency_of_type_name(tn, 7)
            new.set_execution_time_of_type_name(tn, 5)
        for o in new.operations:
            for a in ("value", "initial_value"):
                if hasattr(o, a):
                    try:
                        setattr(o, a, 0.625)
                    except (TypeError, ValueError):
                        pass
        now = sound.fingerprint(sfg)
        ctx.check(now == before, f"transform.{name}.linked", lambda: f"{e[0]}: changing the result changed its origin: {diff(before, now)}")
    if not done:
        raise Skip("nothing applicable")


# --- schedules --------------------------------------------------------------------------------------------------------------------------

def schedule_probes(rng, s):
    ids = sorted(str(g) for g in s.start_times)
    g = rng.choice(ids)
    sub = rng.sample(ids, min(3, len(ids)))
    P = {
        "str": str, "start": lambda s: s.start_time_of_operation(g), "max_end": lambda s: s.get_max_end_time(), "max_non_io": lambda s: s.get_max_non_io_end_time(),
        "forward": lambda s: s.forward_slack(g), "backward": lambda s: s.backward_slack(g), "slacks": lambda s: s.slacks(g), "print_slacks": lambda s: s.print_slacks(), "print_slacks_order": lambda s: s.print_slacks(1),
        "sfg": lambda s: s.sfg, "start_times": lambda s: s.start_times, "laps": lambda s: {k: v for k, v in s.laps.items() if v}, "time": lambda s: (s.schedule_time, s.cyclic),
        "decrements": lambda s: s.get_possible_time_resolution_decrements(), "memory": lambda s: s.get_memory_variables(), "operations": lambda s: s.get_operations(),
        "type_names": lambda s: sorted(map(str, s.get_used_type_names())), "io_latency": lambda s: s.get_io_latency(),
        "plot": lambda s: (s.plot(a := axes()), picture(a))[1], "plot_some": lambda s: (s.plot(a := axes(), operation_gap=0.3), picture(a))[1], "svg": lambda s: len(s._repr_svg_()) > 0,
        "python": lambda s: sorted(schedule_to_python(s).splitlines()), "simulate": lambda s: simulate(s.sfg, [[1, 2, 0, 0.5, -1]] * s.sfg.input_count),
        "sub": lambda s: [s.slacks(i) for i in sub],
        "refused_move": lambda s: s.move_operation(g, s.forward_slack(g) + 1 if s.forward_slack(g) < 1000 else -s.backward_slack(g) - 1),
        "refused_time": lambda s: s.set_schedule_time(s.get_max_end_time() - 1),
        "precedence": lambda s: s.sfg.get_precedence_list(), "exec_bound": lambda s: s.get_operations().processing_element_bound(),
        "reschedule": lambda s: Schedule(s.sfg, S.ASAPScheduler()),
    }
    return P


def case_schedule(ctx):
    rng = ctx.rng
    j = Job(ctx, ops=rng.choice([LINEAR, BASIC]), n_ops=rng.randint(1, 8))
    s, _ = random_schedule(ctx, j, names=["asap", "alap", "list", "list"])
    for _ in range(rng.choice([0, 0, 3])):
        random_edit(ctx, s, j)
    watch(ctx, s, schedule_state, schedule_probes(rng, s), 12 if ctx.thorough else 8, "schedule")
    # afterwards the schedule is edited. The delay-free parts of its graph are those of the SFG it was made from (the timing of
    # the operations is meant to be shared), but values, connections and delays of that SFG stay
    before = simulate_or_refuse(j.sfg)
    done = [random_edit(ctx, s, j) for _ in range(3)]
    now = simulate_or_refuse(j.sfg)
    ctx.check(now == before, "schedule.edits_graph", lambda: f"editing the schedule ({done}) changed what the SFG it was made from computes: {diff(before, now)}")


def simulate_or_refuse(sfg):
    return call(lambda g: simulate(g, [[1, 2, 0, 0.5, -1]] * g.input_count), sfg)


def case_scheduler(ctx):
    """One scheduler object used again gives the same schedule again, and keeps what it was given."""
    rng = ctx.rng
    j = Job(ctx, ops=rng.choice([LINEAR, BASIC]), n_ops=rng.randint(1, 8))
    k = rng.random()
    limits = j.limits(rng, 0.8) or {sorted(j.types)[0]: 1}
    ins = {str(o.graph_id): rng.randint(0, 2) for o in j.sfg.input_operations} if rng.random() < 0.3 else None
    given = (dict(limits), dict(ins) if ins else None)
    so = tuple((c, rng.random() < 0.5) for c in rng.sample([1, 2, 3, 4], rng.randint(1, 4)))
    try:
        if k < 0.15:
            make = S.ASAPScheduler
        elif k < 0.3:
            make = S.ALAPScheduler
        elif k < 0.8:
            make = lambda: S.ListScheduler(sort_order=so, max_resources=limits, **({"input_times": ins} if ins else {}))  # noqa: E731
        else:
            make = lambda: S.RecursiveListScheduler(sort_order=((1, True),), max_resources=limits)  # noqa: E731
        sch = make()
    except REFUSALS:
        raise Skip("refused") from None
    T = None if k < 0.3 or k >= 0.8 else j.period(rng, False)
    cyclic = rng.random() < 0.5
    ctx.note(f"{type(sch).__name__} {so} {limits} inputs {ins} T={T} cyclic={cyclic}")

    def run(x):
        try:
            return schedule_state(Schedule(j.sfg, x, schedule_time=T, cyclic=cyclic))
        except REFUSALS as e:
            return type(e).__name__
    a = run(sch)
    # used for another graph in between
    if rng.random() < 0.5:
        other = random_net(rng, ops=LINEAR, n_ops=4).build(rng)
        lat.assign(rng, other)
        try:
            Schedule(other, sch)
        except REFUSALS:
            pass
    b, c = run(sch), run(make())
    ctx.check(a == b, "scheduler.differs", lambda: f"the scheduler used twice gave different schedules: {diff(a, b)}")
    ctx.check(a == c, "scheduler.differs_new", lambda: f"an equal scheduler gave another schedule: {diff(a, c)}")
    ctx.check((limits, ins) == given, "scheduler.arguments", lambda: f"arguments changed from {given} to {(limits, ins)}")
    j.unchanged(ctx, "scheduler")
    ctx.count("scheduled", not isinstance(a, str))
    # a schedule from given times keeps the dictionaries as they are
    if not isinstance(a, str):
        s = Schedule(j.sfg, make(), schedule_time=T, cyclic=cyclic)
        times, laps = dict(s.start_times), dict(s.laps)
        keep = (dict(times), dict(laps))
        s2 = Schedule(s._sfg if hasattr(s, "_sfg") else s.sfg, schedule_time=s.schedule_time, cyclic=cyclic, start_times=times, laps=laps)
        for _ in range(3):
            random_edit(ctx, s2, j)
        ctx.check((times, laps) == keep, "schedule.given_times", lambda: f"editing a schedule changed the start times or laps it was made from: {keep} -> {(times, laps)}")


# --- process collections ----------------------------------------------------------------------------------------------------------------

def collection_probes(rng, pc, tmp):
    P = {
        "len": len, "iter": list, "repr": repr, "plot": lambda c: (c.plot(a := axes()), picture(a))[1], "svg": lambda c: len(c._repr_svg_()) > 0,
        "plot_line": lambda c: (c.plot(a := axes(), show_markers=False, row=0), picture(a))[1],
        "excl_ports": lambda c: c.exclusion_graph_from_ports(1, 1, 2), "excl_exec": lambda c: c.exclusion_graph_from_execution_time(),
        "split_exec": lambda c: parts(c.split_on_execution_time("left_edge")), "split_exec2": lambda c: parts(c.split_on_execution_time("greedy_graph_color")),
        "split_ports": lambda c: parts(c.split_on_ports("left_edge", read_ports=1, write_ports=1, total_ports=2)), "split_ports2": lambda c: parts(c.split_on_ports("greedy_graph_color", read_ports=1, write_ports=1, total_ports=2)),
        "split_len": lambda c: c.split_on_length(2), "chains": lambda c: c.split_into_chains(),
        "bounds": lambda c: (c.read_ports_bound(), c.write_ports_bound(), c.total_ports_bound()), "accesses": lambda c: (c.read_port_accesses(), c.write_port_accesses(), c.total_port_accesses()),
        "pe_bound": lambda c: c.processing_element_bound(), "exec_times": lambda c: c.total_execution_times(), "show_exec": lambda c: (c.plot_total_execution_times(a := axes()), picture(a))[1],
        "plot_accesses": lambda c: (c.plot_port_accesses([axes(), axes(), axes()]), None)[1],
        "by_name": lambda c: c.from_name(c.collection[0].name), "by_time": lambda c: c.find_by_time(c.collection[0].start_time), "contains": lambda c: c.collection[0] in c,
        "type_name": lambda c: c.split_on_type_name(), "get_type_name": lambda c: c.get_by_type_name("add"),
        "memory": lambda c: collection_state(Memory(c, "RAM", "m", assign=True).collection), "register": lambda c: norm(parts(Memory(c, "register", "m", assign=True).assignment)),
        "pe": lambda c: [collection_state(ProcessingElement(q, "p").collection) for q in c.split_on_type_name().values()],
        "vhdl_register": lambda c: (c.generate_register_based_storage_vhdl(str(tmp / "r.vhdl"), 8, "r"), (tmp / "r.vhdl").read_text())[1],
        "vhdl_memory": lambda c: (c.generate_memory_based_storage_vhdl(str(tmp / "m.vhdl"), "m", 8, c.split_on_execution_time("left_edge")), (tmp / "m.vhdl").read_text())[1],
    }
    return P


def parts(qs):
    """A split up to the order of its parts and within them."""
    return sorted((norm(q) for q in qs), key=repr)


def case_collection(ctx):
    rng = ctx.rng
    k = rng.random()
    if k < 0.3:
        pc = c12.plain(rng)
    elif k < 0.5:
        from vh import storage
        pc = storage.serial(rng)
    else:
        s = c12.scheduled(ctx, n_ops=rng.randint(1, 8))[1]
        try:
            pc = s.get_memory_variables() if k < 0.8 else s.get_operations()
        except ValueError:
            raise Skip("operation without execution time") from None
    if not len(pc):
        raise Skip("empty")
    if k < 0.5:
        ctx.sig = repr(pc)
        ctx.sample = repr(pc)[:400]
        ctx.nontrivial = len(pc) > 2
    with rtl.Workdir() as w:
        watch(ctx, pc, collection_state, collection_probes(rng, pc, w), 12 if ctx.thorough else 8, "collection")
    given = list(pc.collection)
    keep = list(given)
    form = rng.choice(["list", "list", "collection", "dict"])
    own = ProcessCollection(given if form == "list" else pc if form == "collection" else dict.fromkeys(given).keys(), pc.schedule_time)
    removed = rng.choice(keep)
    steps = [lambda: own.remove_process(removed), lambda: own.add_process(PlainMemoryVariable(0, 0, {0: 1}, "extra"))]
    rng.shuffle(steps)
    for step in steps[: rng.randint(1, 2)]:
        step()
    ctx.check(given == keep and list(pc.collection) == keep, "collection.given", lambda: f"editing a collection made from a {form} changed what it was made from: {keep} -> {given} and {pc.collection}")
    inside = list(own.collection)
    given.pop()
    ctx.check(list(own.collection) == inside, "collection.given", lambda: f"a collection made from a {form} changed with it")


# --- architectures ----------------------------------------------------------------------------------------------------------------------

def printed(tmp, fn):
    d = tmp / f"d{next(COUNT)}"
    d.mkdir()
    fn(d)
    return {str(p.relative_to(d)): text(p.read_text()) for p in sorted(d.rglob("*")) if p.is_file()}


COUNT = itertools.count()


def architecture_probes(rng, arch, tmp, dt, dt2):
    pe, mem = rng.choice(arch.processing_elements), rng.choice(arch.memories) if arch.memories else None
    opts = c16.options(None, rng, arch)
    one, other = VhdlPrinter(dt), VhdlPrinter(dt2)
    P = {
        "str": str, "digraph": lambda a: a._digraph(), "digraph_plain": lambda a: a._digraph(branch_node=False, cluster=False), "svg": lambda a: a._repr_mimebundle_() and 1,
        "validate": lambda a: a.validate_ports(), "mux": lambda a: (a.get_multiplexer_input_count(), a.get_multiplexer_input_count(multiplexed_only=True)),
        "pe": lambda a: names(a.get_interconnects_for_pe(pe)), "pe_name": lambda a: names(a.get_interconnects_for_pe(str(pe.entity_name))),
        "resource": lambda a: str(a.resource_from_name(pe.entity_name).entity_name), "lists": lambda a: ([str(p.entity_name) for p in a.processing_elements], [str(m.entity_name) for m in a.memories]),
        "vhdl": lambda a: printed(tmp, lambda d: VhdlPrinter(dt).print(a, path=d)), "vhdl_same_printer": lambda a: printed(tmp, lambda d: one.print(a, path=d)),
        "vhdl_other": lambda a: printed(tmp, lambda d: other.print(a, path=d)), "vhdl_options": lambda a: printed(tmp, lambda d: one.print(a, path=d, **opts)),
        "order": lambda a: one.get_compile_order(a),
        "pe_control": lambda a: [norm(getattr(p, "control_table", None)) and 1 for p in a.processing_elements], "pe_text": lambda a: (repr(pe), pe._repr_svg_() and 1),
        "pe_plot": lambda a: (pe.plot_content(x := axes()), picture(x))[1],
    }
    if mem is not None:
        P.update({"mem": lambda a: names(a.get_interconnects_for_memory(mem)), "mem_text": lambda a: repr(mem), "mem_plot": lambda a: (mem.plot_content(x := axes()), picture(x))[1],
                  "print_memory": lambda a: one.print_Memory(mem), "print_pe": lambda a: one.print_ProcessingElement(pe)})
    return P


def names(v):
    if isinstance(v, dict):
        return sorted((str(k[0].entity_name if isinstance(k, tuple) else k.entity_name), k[1] if isinstance(k, tuple) else None, n) for k, n in v.items())
    return [names(x) for x in v]


def case_architecture(ctx):
    rng = ctx.rng
    j, s = c15.scheduled(ctx, n_ops=rng.randint(1, 7))
    pes, mems, direct = c15.manual(ctx, s)
    for m in mems:
        m.assign()
    for p in pes:
        p.assign()
    arch = Architecture(pes, mems, direct_interconnects=direct)
    dt, dt2 = DataType((2, rng.randint(3, 9))), DataType((3, rng.randint(2, 9)), is_complex=rng.random() < 0.3)
    before = schedule_state(s)
    with rtl.Workdir() as w:
        watch(ctx, arch, architecture_state, architecture_probes(rng, arch, w, dt, dt2), 10 if ctx.thorough else 7, "architecture")
    now = schedule_state(s)
    ctx.check(now == before, "architecture.schedule", lambda: f"the schedule changed with its architecture: {diff(before, now)}")


# --- simulation ---------------------------------------------------------------------------------------------------------------------------

def case_simulation(ctx):
    """Simulations neither change the graph nor the inputs given, do not see later changes of the graph, and two of them agree."""
    rng = ctx.rng
    cplx = rng.random() < 0.2
    net = random_net(rng, n_ops=rng.randint(1, 9), nested=rng.choice([0, 1]), ops=CPLX if cplx else rng.choice([LINEAR, BASIC]), cplx=cplx)
    sfg = net.build(rng)
    ctx.sig = net.signature()
    ctx.sample = net.describe()
    ctx.nontrivial = len(net.nodes) > 3
    n = 8
    xs = []
    for _ in range(sfg.input_count):
        v = [rng.randint(-8, 8) / 4 for _ in range(n)]
        xs.append(rng.choice([lambda: np.array(v), lambda: list(v), lambda: tuple(v), lambda: rng.randint(-3, 3)])())
    keep = [norm(x) for x in xs]
    outer = list(xs)
    before = sound.fingerprint(sfg)
    dt = None
    if not cplx and rng.random() < 0.3:
        dt = DataType((8, 6))
    if sfg.input_count == 0:
        arg = None
    else:
        arg = xs if sfg.input_count > 1 else [xs[0]]

    def run(a):
        try:
            sim = Simulation(sfg, arg, data_type=dt)
            sim.run_for(a)
            first = norm(sim.results)
            sim.run_for(n - a)
            ctx.check(norm(sim.results) == norm(sim.results), "simulation.results", "results read twice differ")
            return first, norm(sim.results), sim
        except REFUSALS as e:
            return "raises", type(e).__name__, None
    a = rng.randint(1, n - 1)
    r1 = run(a)
    now = sound.fingerprint(sfg)
    ctx.check(now == before, "simulation.graph", lambda: f"simulating changed the SFG: {diff(before, now)}")
    r2 = run(n - a)
    ctx.check(r1[1] == r2[1], "simulation.differs", lambda: f"two simulations of the same graph and inputs differ: {diff(r1[1], r2[1])}")
    ctx.check([norm(x) for x in xs] == keep and all(x is y for x, y in zip(xs, outer, strict=True)), "simulation.inputs", lambda: f"the inputs changed: {keep} -> {[norm(x) for x in xs]}")
    sim = r1[2]
    if sim is not None:
        # clear_results and clear_state only affect this simulation; the graph can be changed without it noticing
        sim.clear_results()
        sim.clear_state()
        ctx.check(sound.fingerprint(sfg) == before, "simulation.clear", "clearing changed the SFG")
        ref = r2[2]
        base = norm(ref.results)
        for o in sfg.operations:
            for att in ("value", "initial_value"):
                if hasattr(o, att) and not isinstance(getattr(o, att), complex):
                    try:
                        setattr(o, att, 0.375)
                    except (TypeError, ValueError):
                        pass
        ctx.check(norm(ref.results) == base, "simulation.linked", "results changed with the graph")
        third = Simulation(sfg, arg, data_type=dt)
        del third
    ctx.count("simulated")


# --- runs in different processes ----------------------------------------------------------------------------------------------------------

class Quiet:
    """What the generators need of a context."""
    thorough = False

    def __init__(self, rng):
        self.rng = rng
        self.sig = None

    def check(self, *a):
        return True

    def note(self, *a):
        pass

    count = note


def emit(seed):
    """Everything the tools give for one random design, exactly as given."""
    rng = random.Random(seed)
    out, ctx = {}, Quiet(rng)

    def put(k, f):
        try:
            out[k] = text(f())
        except REFUSALS as e:
            out[k] = "raises " + type(e).__name__
    s = random_net(rng, ops=rng.choice([LINEAR, BASIC]), n_ops=rng.randint(1, 9), names=True, nested=rng.choice([0, 0, 1])).build(rng)
    lat.assign(rng, s)
    put("sfg.str", lambda: s)
    put("sfg.python", lambda: sfg_to_python(s))
    put("sfg.precedence", lambda: [[p.name for p in x] for x in s.get_precedence_list()])
    put("sfg.order", lambda: [o.graph_id for o in s.get_operations_topological_order()])
    put("sfg.digraph", lambda: s.sfg_digraph().source)
    put("sfg.precedence_graph", lambda: s.precedence_graph.source)
    put("sfg.operations", lambda: [o.graph_id for o in s.operations])
    put("sfg.components", lambda: [o.graph_id for o in s.components])
    put("sfg.types", lambda: (s.get_used_type_names(), s.get_used_operation_types(), dict(s.operation_counter())))
    put("sfg.period", lambda: (s.iteration_period_bound(), s.critical_path_time()))
    put("sfg.unfold", lambda: sfg_to_python(s.unfold(2)))
    put("sfg.flatten", lambda: sfg_to_python(s.flatten()))
    put("sfg.simplify", lambda: sfg_to_python(s.simplify_delay_element_placement()))
    put("sfg.results", lambda: list(simulate(s, [[1, 2, 0, 0.5, -1]] * s.input_count)))
    try:
        j = Job(ctx, ops=rng.choice([LINEAR, BASIC]), n_ops=rng.randint(2, 9))
        s, _ = random_schedule(ctx, j, names=["asap", "alap", "list", "list", "recursive"])
        put("schedule.times", lambda: (s.start_times, dict(s.laps), s.schedule_time))
        put("schedule.python", lambda: schedule_to_python(s))
        mv, ops = s.get_memory_variables(), s.get_operations()
    except (Skip, *REFUSALS) as e:
        out["schedule"] = text(e)
        return out
    put("collection.variables", lambda: list(map(repr, mv)))
    put("collection.operations", lambda: list(map(repr, ops)))
    inside = lambda qs: [[p.name for p in q] for q in qs]  # noqa: E731
    for how in ("left_edge", "greedy_graph_color"):
        put("collection.execution." + how, lambda: inside(ops.split_on_execution_time(how)))  # noqa: B023
        put("collection.lifetime." + how, lambda: inside(mv.split_on_execution_time(how)))  # noqa: B023
        put("collection.ports." + how, lambda: inside(mv.split_on_ports(how, read_ports=1, write_ports=1, total_ports=2)))  # noqa: B023
    put("collection.chains", lambda: list(map(repr, mv.split_into_chains())))
    put("collection.length", lambda: inside(mv.split_on_length()))
    try:
        j, s = c15.scheduled(ctx, n_ops=rng.randint(1, 7))
        pes, mems, direct = c15.manual(ctx, s)
        for r in (*pes, *mems):
            r.assign()
        a = Architecture(pes, mems, direct_interconnects=direct)
    except (Skip, *REFUSALS) as e:
        out["architecture"] = text(e)
        return out
    put("architecture.text", lambda: repr(a))
    put("architecture.digraph", lambda: a._digraph(show_edge_counts=True).source)
    put("architecture.cells", lambda: [inside(m.assignment) for m in mems])
    put("architecture.order", lambda: VhdlPrinter(DataType((2, 6))).get_compile_order(a))
    with rtl.Workdir() as w:
        put("architecture.vhdl", lambda: sorted(printed(w, lambda d: VhdlPrinter(DataType((2, 6))).print(a, path=d)).items()))
    return out


def case_processes(ctx):
    """The same designs made in two processes, which place objects at different addresses and order sets differently, come out the same."""
    rng = ctx.rng
    n, start = 20 if ctx.thorough else 12, rng.randrange(10**9)
    runs = []
    for k in range(2):
        env = dict(os.environ, PYTHONHASHSEED=str(rng.randrange(1, 10**6)))
        runs.append(subprocess.Popen([sys.executable, "-m", "checks.c23", "--emit", str(start), str(n), str(k * rng.randint(1000, 90000))], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True))
    outs = []
    for p in runs:
        o, e = p.communicate(timeout=400)
        if p.returncode:
            raise RuntimeError(e[-1500:])
        outs.append(json.loads(o.splitlines()[-1]))
    ctx.sig = start
    for i, (a, b) in enumerate(zip(*outs, strict=True)):
        ctx.check(list(a) == list(b), "processes.calls", lambda: f"design {start + i}: {set(a) ^ set(b)}")  # noqa: B023
        for k in a:
            ctx.count("compared." + k)
            ctx.check(a[k] == b[k], "processes." + k, lambda: f"design {start + i}: {k} differs between two runs:\n" + "\n".join(x[:200] for x in list(difflib.unified_diff(a[k].split("\n"), b[k].split("\n"), n=0, lineterm=""))[:12]))  # noqa: B023
        ctx.count("designs")


KINDS = {
    "processes": {"fn": case_processes, "quick": 10, "thorough": 150, "timeout": 400},
    "sfg": {"fn": case_sfg, "quick": 500, "thorough": 12000, "timeout": 120},
    "transform": {"fn": case_transform, "quick": 800, "thorough": 20000, "timeout": 60},
    "schedule": {"fn": case_schedule, "quick": 300, "thorough": 8000, "timeout": 120},
    "scheduler": {"fn": case_scheduler, "quick": 500, "thorough": 15000, "timeout": 120},
    "collection": {"fn": case_collection, "quick": 250, "thorough": 6000, "timeout": 120},
    "architecture": {"fn": case_architecture, "quick": 150, "thorough": 4000, "timeout": 120},
    "simulation": {"fn": case_simulation, "quick": 800, "thorough": 20000, "timeout": 60},
}
if __name__ == "__main__":
    if sys.argv[1:2] == ["--emit"]:
        first, count, junk = map(int, sys.argv[2:])
        elsewhere = [[i] for i in range(junk)][::3]
        warnings.simplefilter("ignore")
        print(json.dumps([emit(first + i) for i in range(count)]))
        sys.exit(0)
    sys.exit(run_check(PROP, KINDS, rule="a case counts when the object's fingerprint was compared after a call, or repeated results were compared"))
