"""C13: register storage returns every variable at its read times, in every lap."""
import logging
import sys

from vh import boot

boot.install()
logging.disable(logging.CRITICAL)

from vh import rtl, storage  # noqa: E402
from vh.core import Skip, run_check  # noqa: E402

PROP = "C13"
LATENCY = 1  # output register


def collection(ctx, multi=False, zero=True):
    rng = ctx.rng
    n = 9 if ctx.thorough else 6
    kind = rng.random()
    must = False
    if kind < 0.35:
        pc, shape = storage.transposer(rng, n)
        must = True
        ctx.note(f"transposer {shape}")
    elif kind < 0.6:
        pc = storage.interleaver(rng, 16 if ctx.thorough else 12)
    else:
        pc = storage.serial(rng, T=rng.randint(2, 16 if ctx.thorough else 10), min_life=0 if zero else 1, multi=multi, dense=rng.random() < 0.4)
    storage.describe(ctx, pc)
    return pc, must


def refused(ctx, e, must):
    """The allocation heuristic may give up, with an error, except where it is meant for."""
    if "allocate" not in str(e):
        raise e
    ctx.check(not must, "transposer_refused", str(e))
    ctx.count("refused")
    raise Skip("refused")


def case_entity(ctx):
    pc, must = collection(ctx)

    def make(path, wl):
        try:
            pc.generate_register_based_storage_vhdl(str(path), wl, "dut")
        except ValueError as e:
            refused(ctx, e, must)
    storage.research(ctx, pc, make, LATENCY)


def case_memory(ctx):
    pc, must = collection(ctx, multi=True)
    storage.standalone(ctx, pc, "register")


def case_ports(ctx):
    rng = ctx.rng
    pc = storage.crowded(rng)
    storage.describe(ctx, pc)
    with rtl.Workdir() as w:
        storage.must_refuse(ctx, pc, lambda: pc.generate_register_based_storage_vhdl(str(w / "dut.vhdl"), 8, "dut"), "register storage")


KINDS = {
    "entity": {"fn": case_entity, "quick": 1500, "thorough": 40000, "timeout": 60},
    "ports": {"fn": case_ports, "quick": 200, "thorough": 4000},
    "memory": {"fn": case_memory, "quick": 1500, "thorough": 40000, "timeout": 60},
}

if __name__ == "__main__":
    sys.exit(run_check(PROP, KINDS, rule="a case counts when a read of a variable was compared with the value written for it"))
