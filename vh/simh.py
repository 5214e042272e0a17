"""Helpers shared by the simulation-based monitors."""
import numpy as np

from .gen import Diverges, close, noise, well_conditioned, running_scale, finite, random_inputs, random_net, CPLX, LINEAR_X, REALS, LINEAR, BASIC
from .core import Skip

MONITORED = None


def unique_names(net, prefix="n"):
    """Give every node a unique name, so that it can be found in the SFG."""
    for nid, n in net.nodes.items():
        n["name"] = f"{prefix}{nid}"
        if n["op"] == "SFG":
            unique_names(n["p"]["net"], f"{prefix}{nid}q")
    return net


def usable_net(ctx, tries=8, n_iter=8, kind=None, cplx=None, names=False, limit=1e7, **kw):
    """A random net plus inputs whose reference run stays bounded."""
    rng = ctx.rng
    for _ in range(tries):
        c = rng.random() < 0.2 if cplx is None else cplx
        k = dict(kw)
        if c:
            k["ops"] = [o for o in (kw.get("ops") or CPLX) if o in CPLX] or CPLX
        elif "ops" not in k:
            k["ops"] = rng.choice([REALS, LINEAR_X, LINEAR, BASIC])
        net = random_net(rng, cplx=c, names=names, **k)
        x = random_inputs(rng, len(net.inputs), n_iter, kind or rng.choice(["int", "dyadic", "float"]), cplx=c)
        try:
            ys, vs = net.run(x, n_iter, limit=limit)
            _, ws = net.run(x, n_iter, limit=10 * limit, post=noise(rng))
        except Diverges:
            continue
        if not well_conditioned(vs, ws):
            continue
        return net, x, ys, vs
    raise Skip("reference run diverges")


def outputs_of(results, sfg):
    """Saved output sequences of a simulation, in output order."""
    return [list(results[op.graph_id]) for op in sfg.output_operations]


def simulate(sfg, x, n, data_type=None):
    from b_asic import Simulation
    sim = Simulation(sfg, x if len(x) != 1 else [x[0]], data_type=data_type)
    sim.run_for(n)
    return outputs_of(sim.results, sfg)


def check_same(ctx, mech, got, want_rows, tol=1e-9, what="", scale=None):
    """got: per output sequence; want_rows: per iteration list of outputs."""
    n = len(want_rows)
    ctx.check(len(got) == (len(want_rows[0]) if n else len(got)), mech + ".count",
              lambda: f"{what}: {len(got)} outputs, expected {len(want_rows[0])}")
    for o, seq in enumerate(got):
        ctx.check(len(seq) == n, mech + ".length", lambda: f"{what}: output {o} has {len(seq)} samples, expected {n}")
        for k in range(n):
            ctx.counters["monitor_checks"] += 1
            if not close(seq[k], want_rows[k][o], tol, scale[k] if scale else 1.0):
                ctx.fail(mech, f"{what}: output {o} iteration {k}: got {seq[k]!r}, expected {want_rows[k][o]!r}; "
                               f"got {[str(v) for v in seq[:8]]}, expected {[r[o] for r in want_rows[:8]]}")


def as_list(v):
    return list(np.asarray(v)) if not isinstance(v, list) else v
