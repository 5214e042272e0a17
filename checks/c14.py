"""C14: memory storage returns every variable at its read times, cells are never shared, and interleaver collections are the permutation."""
import logging
import random
import sys
from collections import Counter

from vh import boot

boot.install()
logging.disable(logging.CRITICAL)
from b_asic.architecture import Memory  # noqa: E402
from b_asic.process import PlainMemoryVariable  # noqa: E402
from b_asic.research.interleaver import generate_matrix_transposer, generate_random_interleaver  # noqa: E402
from b_asic.resources import ProcessCollection  # noqa: E402

from vh import rtl, storage  # noqa: E402
from vh.arch import slots  # noqa: E402
from vh.core import Skip, run_check  # noqa: E402

PROP = "C14"
STRATEGIES = ["left_edge", "greedy_graph_color", "ilp_graph_color"]


def collection(ctx, min_life=0, multi=False):
    rng = ctx.rng
    big = ctx.thorough
    kind = rng.random()
    if kind < 0.35:
        pc, shape = storage.transposer(rng, 8 if big else 6)
        ctx.note(f"transposer {shape}")
        if min_life and any(0 in p.reads.values() for p in pc):
            raise Skip("zero lifetime")
    elif kind < 0.6:
        pc = storage.interleaver(rng, 20 if big else 12)
        if min_life and any(0 in p.reads.values() for p in pc):
            raise Skip("zero lifetime")
    else:
        pc = storage.serial(rng, T=rng.randint(2, 20 if big else 12), min_life=min_life, multi=multi, dense=rng.random() < 0.4)
    storage.describe(ctx, pc)
    return pc


def case_entity(ctx):
    rng = ctx.rng
    pc = collection(ctx)
    T = pc.schedule_time
    assignment = pc.split_on_execution_time(rng.choice(["left_edge", "greedy_graph_color"]))
    kw = {}
    depth = 0
    if rng.random() < 0.3:
        kw["input_sync"] = False
    elif rng.random() < 0.6:
        mux = rng.choice([1, 2, 2, 4])
        ok = [d for d in range(1, 4) if mux ** d <= T]
        if ok:
            depth = rng.choice(ok)
            kw.update(adr_mux_size=mux, adr_pipe_depth=depth)
    ctx.note(f"{len(assignment)} cells {kw}")

    def make(path, wl):
        pc.generate_memory_based_storage_vhdl(str(path), "dut", wl, assignment, **kw)
    # the test bench of the repository: one register at the input, one at the output, the schedule ahead by the address pipeline
    storage.research(ctx, pc, make, 1 if kw.get("input_sync") is False else 2, ahead=depth)


def case_memory(ctx):
    pc = collection(ctx, min_life=1, multi=True)
    storage.standalone(ctx, pc, "RAM")


def case_cells(ctx):
    """Assignments of memories: each variable in one cell, no cell holding two live variables."""
    rng = ctx.rng
    T = rng.randint(1, 12)
    vs = []
    for k in range(rng.randint(1, 12)):
        vs.append(PlainMemoryVariable(rng.randrange(T), 0, {i: rng.randint(1, T) for i in range(rng.choice([1, 1, 2]))}, f"v{k}"))
    pc = ProcessCollection(vs, T, True)
    storage.describe(ctx, pc)
    m = Memory(pc, "RAM", "mem")
    strategy = rng.choice(STRATEGIES)
    m.assign(strategy)
    cells(ctx, pc, m.assignment, strategy)
    # a second assignment replaces the first
    strategy = rng.choice(STRATEGIES[:2])
    m.assign(strategy)
    cells(ctx, pc, m.assignment, strategy)


def cells(ctx, pc, parts, what):
    ids = Counter(id(p) for part in parts for p in part)
    ctx.check(ids == Counter(id(p) for p in pc), "partition", lambda: f"{what}: cells {[[p.name for p in q] for q in parts]} of {[p.name for p in pc]}")
    for q in parts:
        use = sum((slots(p, pc.schedule_time) for p in q), Counter())
        ctx.check(all(v <= 1 for v in use.values()), "cell_shared", lambda: f"{what}: {[(p.name, p.start_time, p.execution_time) for p in q]} in one cell, period {pc.schedule_time}")
    ctx.count("cells", len(parts))


def case_permutation(ctx):
    """Interleaver collections: each input position of the block once, each output position once, constant latency, and the intended order."""
    rng = ctx.rng
    life = rng.randint(0, 4)
    cyclic = rng.random() < 0.7
    if rng.random() < 0.6:
        r, c = rng.randint(1, 9), rng.randint(1, 9)
        par = rng.choice([d for d in range(1, r * c + 1) if r * c % d == 0])
        square = r == c and rng.random() < 0.5
        ctx.note(f"transposer {r}x{None if square else c} life {life} cyclic {cyclic} parallelism {par}")
        pc = generate_matrix_transposer(r, None if square else c, life, cyclic, par)
        n = r * c
        # element k of the input block is element target[k] of the output block: rows come in one after the other, columns go out
        target = {row * c + col: col * r + row for row in range(r) for col in range(c)}
    else:
        size, par = rng.randint(1, 30), rng.choice([1, 1, 2, 3])
        n = size * par
        ctx.note(f"interleaver {size} life {life} cyclic {cyclic} parallelism {par}")
        random.seed(rng.getrandbits(32))
        pc = generate_random_interleaver(size, life, cyclic, par)
        target = None
    T = n // par
    ctx.sig = (n, par, life, cyclic, target is None)
    ctx.sample = repr([(p.start_time, p.write_port, p.reads) for p in pc])[:400]
    ctx.nontrivial = n > 3
    c = ctx.check
    blocks = len(pc) // n if n else 0
    c(len(pc) == blocks * n and blocks in (1, 2), "count", lambda: f"{len(pc)} variables for a block of {n}")
    lap = {}
    span = pc.schedule_time
    c(span == T * blocks, "period", lambda: f"period {span} for {blocks} blocks of {T} cycles")
    ins = {}
    for p in pc:
        c(len(p.reads) == 1, "reads", lambda: f"{p.name} is read {p.reads}")
        (port, life_p), = p.reads.items()
        c(0 <= p.write_port < par and 0 <= port < par, "port", lambda: f"{p.name}: write port {p.write_port}, read port {port}, parallelism {par}")
        c(life_p >= life, "lifetime", lambda: f"{p.name}: lifetime {life_p}, at least {life} asked for")
        c(0 <= p.start_time < span, "start", lambda: f"{p.name} written at {p.start_time}, period {span}")
        k = p.start_time * par + p.write_port
        c(k not in ins, "input_twice", lambda: f"two variables written at {p.start_time} port {p.write_port}")
        ins[k] = (p.start_time + life_p, port)
    c(sorted(ins) == list(range(blocks * n)), "inputs", lambda: f"input positions {sorted(ins)}")
    # outputs in order of time and port are consecutive full cycles
    out = sorted(ins.values())
    first = out[0][0]
    for k, (t, port) in ins.items():
        lap[k] = (t - first) * par + port
    if blocks == 1:
        c(sorted(lap.values()) == list(range(n)), "outputs", lambda: f"output positions {sorted(lap.values())}")
    else:
        c(sorted(lap.values()) == list(range(2 * n)), "outputs", lambda: f"output positions {sorted(lap.values())}")
    c(min(t - k // par for k, (t, _) in ins.items()) == life, "min_lifetime", lambda: f"shortest lifetime is not {life}")
    for k, pos in lap.items():
        c(lap[k % n] % n == pos % n and pos // n == k // n, "second_block", lambda: f"input {k} becomes output {pos}, but input {k % n} becomes {lap[k % n]}")
    if target is not None:
        c(all(lap[k] == target[k] for k in range(n)), "order", lambda: f"order {[lap[k] for k in range(n)]}, expected {[target[k] for k in range(n)]}")
    ctx.count("elements", n)


def case_ports(ctx):
    rng = ctx.rng
    pc = storage.crowded(rng)
    storage.describe(ctx, pc)
    with rtl.Workdir() as w:
        storage.must_refuse(ctx, pc, lambda: pc.generate_memory_based_storage_vhdl(str(w / "dut.vhdl"), "dut", 8, pc.split_on_execution_time("greedy_graph_color")), "memory storage")
    for kw in ({"read_ports": 1, "write_ports": 1, "total_ports": 2}, {"read_ports": 1, "write_ports": 1}):
        storage.must_refuse(ctx, pc, lambda: Memory(pc, rng.choice(["RAM", "register"]), "mem", **kw), f"memory {kw}")


KINDS = {
    "entity": {"fn": case_entity, "quick": 1500, "thorough": 40000, "timeout": 60},
    "memory": {"fn": case_memory, "quick": 1500, "thorough": 40000, "timeout": 60},
    "ports": {"fn": case_ports, "quick": 200, "thorough": 4000},
    "cells": {"fn": case_cells, "quick": 2000, "thorough": 60000, "timeout": 60},
    "permutation": {"fn": case_permutation, "quick": 2000, "thorough": 60000, "timeout": 30},
}

if __name__ == "__main__":
    sys.exit(run_check(PROP, KINDS, rule="a case counts when a read, a cell or an element of a permutation was compared"))
