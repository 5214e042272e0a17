"""C20: signal generators obey pointwise algebra and their definitions."""
import math
import os
import shutil
import sys
import tempfile

import numpy as np

from vh import boot

boot.install()
from b_asic import SFG, Simulation  # noqa: E402
from b_asic import signal_generator as sg  # noqa: E402
from b_asic.special_operations import Input, Output  # noqa: E402

from vh.core import Skip, run_check  # noqa: E402

PROP = "C20"
FAIL = (ZeroDivisionError, OverflowError)


def number(rng, text=False):
    """Text excludes numpy scalars."""
    k = rng.random()
    if k < 0.4:
        return rng.choice([0, 1, -1, 2, 3, -7, 10])
    if k < 0.75:
        return rng.choice([0.5, -0.25, 1e-3, 2.75, rng.uniform(-5, 5)])
    if k < 0.9 or text:
        return complex(rng.choice([0, 1, -2, 0.5]), rng.choice([1, -1, 0.25, -3]))
    return rng.choice([np.float64(1.5), np.int64(-3), np.complex128(1 - 2j), True])


def samples(rng, text=False):
    n = rng.choice([0, 1, 2, 3, 8])
    d = [number(rng, text=True) for _ in range(n)]
    return d if text or rng.random() < 0.6 else (tuple(d) if rng.random() < 0.5 else np.array(d))


def zero_pad(d):
    d = list(d)
    return lambda t: d[t] if 0 <= t < len(d) else 0


def leaf(ctx, text):
    """(generator, its value as a function of time)."""
    rng = ctx.rng
    k = rng.choice(["impulse", "step", "constant", "zeropad", "sinusoid", "file", "default"])
    ctx.count("leaf_" + k)
    n = rng.choice([0, 1, 2, 5, -1, -4, 9])
    if k == "impulse":
        return sg.Impulse(n), lambda t: 1 if t == n else 0
    if k == "step":
        return sg.Step(n), lambda t: 1 if t >= n else 0
    if k == "constant":
        v = number(rng, text)
        return sg.Constant(v), lambda t: v
    if k == "zeropad":
        d = samples(rng, text)
        return sg.ZeroPad(d), zero_pad(d)
    if k == "sinusoid":
        f, p = rng.choice([0, 0.1, 0.5, 1, 1.3, rng.random()]), rng.choice([0, 0, 0.5, -0.3, 2, rng.random()])
        return sg.Sinusoid(f, p), lambda t: math.sin(math.pi * (f * t + p))
    if k == "file":
        d = samples(rng, True)
        path = os.path.join(ctx.dir, rng.choice(["a.txt", "b c.csv", "it's.txt", "back\\slash.txt"]))
        path = path if not os.path.exists(path) else f"{path}{len(os.listdir(ctx.dir))}.txt"
        if not d:
            d = [1]
        kind = rng.random()
        with open(path, "w") as f:
            f.write("\n".join(str(v) if kind < 0.5 else repr(complex(v)) for v in d) + rng.choice(["", "\n"]))
        return sg.FromFile(path), zero_pad(d)
    g = rng.choice([(sg.Impulse(), lambda t: int(t == 0)), (sg.Step(), lambda t: int(t >= 0)), (sg.Constant(), lambda t: 1)])
    return g


OPS = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": lambda a, b: a / b}


def tree(ctx, depth, text=False):
    """A random expression of generators and numbers, with every intermediate generator and its model recorded in ctx.nodes."""
    rng = ctx.rng
    if depth == 0 or rng.random() < 0.15:
        g, m = leaf(ctx, text)
    elif rng.random() < 0.3:
        k = rng.choice(["delay", "up", "down", "up_seq", "down_seq"])
        ctx.count("leaf_" + k)
        n, ph = rng.randint(1, 4), rng.choice([0, 0, 1, -1, 2, 5])
        if k.endswith("seq"):
            d = samples(rng, text)
            a, f = d, zero_pad(d)
        else:
            a, f = tree(ctx, depth - 1, text)
        if k == "delay":
            n = rng.choice([0, 1, 2, -1, -3, 7])
            g, m = (sg.Delay(a), lambda t: f(t - 1)) if rng.random() < 0.2 else (sg.Delay(a, n), lambda t: f(t - n))
        elif k.startswith("up"):
            g, m = sg.Upsample(a, n, ph), lambda t: f((t - ph) // n) if (t - ph) % n == 0 else 0
        else:
            g, m = sg.Downsample(a, n, ph), lambda t: f(t * n + ph)
    else:
        s = rng.choice("++--**" if not text else "++--**/")  # text: no numpy scalars, which divide by zero without an error
        op = OPS[s]
        ctx.count("operator_" + s)
        side = rng.random()
        a, f = tree(ctx, depth - 1, text)
        if side < 0.55:
            b, h = (a, f) if rng.random() < 0.1 else tree(ctx, depth - 1, text)
            if text and isinstance(a, sg.Constant) and isinstance(b, sg.Constant):
                b, h = sg.Step(2), lambda t: 1 if t >= 2 else 0
            g, m = op(a, b), lambda t: op(f(t), h(t))
        else:
            v = number(rng, text)
            if text and isinstance(a, sg.Constant):
                a, f = sg.Impulse(1), lambda t: 1 if t == 1 else 0
            g, m = (op(a, v), lambda t: op(f(t), v)) if side < 0.8 else (op(v, a), lambda t: op(v, f(t)))
    ctx.check(isinstance(g, sg.SignalGenerator), "type", lambda: f"combining gave a {type(g).__name__}")
    ctx.nodes.append((g, m))
    return g, m


def at(f, t):
    try:
        v = complex(f(t))
    except FAIL as e:
        return type(e).__name__
    return v


def close(a, b, scale=1.0):
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if isinstance(a, str) or isinstance(b, str):  # numpy scalars give nan/inf where Python raises
        return not math.isfinite(abs(a if isinstance(b, str) else b))
    if a != a or b != b or math.isinf(abs(a)) or math.isinf(abs(b)):
        return True
    return abs(a - b) <= 1e-9 * max(scale, abs(a), abs(b))


def with_dir(fn):
    def run(ctx):
        ctx.dir, ctx.nodes = tempfile.mkdtemp(prefix="vh_c20_"), []
        try:
            with np.errstate(all="ignore"):
                fn(ctx)
        finally:
            shutil.rmtree(ctx.dir, ignore_errors=True)
    return run


@with_dir
def case_algebra(ctx):
    rng = ctx.rng
    g, m = tree(ctx, rng.randint(0, 5), text=rng.random() < 0.6)
    times = list(range(-12, 25)) + [rng.randint(-300, 300) for _ in range(5)]
    ctx.sig = str(([type(x).__name__ for x, _ in ctx.nodes], [at(m, t) for t in times[:20]]))
    ctx.sample, ctx.nontrivial = f"{len(ctx.nodes)} generators: {[type(x).__name__ for x, _ in ctx.nodes]}"[:300], len(ctx.nodes) > 2
    seen = {}
    calls = [(i, t) for i in range(len(ctx.nodes)) for t in rng.sample(times, 14)] * 2
    rng.shuffle(calls)
    for i, t in calls:
        x, f = ctx.nodes[i]
        got, want = at(x, t), at(f, t)
        ctx.check(close(got, want), "value", lambda: f"{type(x).__name__} at {t}: {got}, by definition {want}")
        if (i, t) in seen:
            ctx.check(str(seen[i, t]) == str(got), "repeat", lambda: f"{type(x).__name__} at {t}: first {seen[i, t]}, later {got}")
        seen[i, t] = got
    ctx.count("values", len(calls))


NAMESPACE = {n: getattr(sg, n) for n in ("Impulse", "Step", "Constant", "ZeroPad", "FromFile", "Sinusoid", "Delay", "Upsample", "Downsample", "Gaussian", "Uniform")}


@with_dir
def case_text(ctx):
    rng = ctx.rng
    tree(ctx, rng.randint(0, 4), text=True)
    ctx.sig, ctx.nontrivial = str(ctx.nodes[-1][0]), len(ctx.nodes) > 1
    ctx.sample = ctx.sig[:300]
    for g, m in ctx.nodes:
        for text in (str(g), repr(g)):
            ctx.note(text)
            try:
                back = eval(text, dict(NAMESPACE))
            except SyntaxError:
                ctx.fail("text.unreadable", f"{text!r} is not an expression")
            f = back if isinstance(back, sg.SignalGenerator) else (lambda t, v=back: v)
            for t in range(-4, 14):
                got, want = at(f, t), at(m, t)
                scale = max([abs(v) for x, h in ctx.nodes for v in [at(h, t)] if not isinstance(v, str)] + [1.0]) if not close(got, want) else 1
                if not close(got, want) and (isinstance(got, str) or isinstance(want, str)):
                    if "/" in text:
                        continue  # a * b / 0
                ctx.check(close(got, want, scale * 1e3), "text", lambda: f"text {text!r} gives {got} at {t}, the generator {want}")
            ctx.count("texts")


@with_dir
def case_simulation(ctx):
    """Simulating feeds every input with the values of its generator at 0, 1, 2, …"""
    rng = ctx.rng
    k, n = rng.randint(1, 3), rng.randint(1, 12)
    gs = [tree(ctx, rng.randint(0, 3), text=rng.random() < 0.6) for _ in range(k)]
    ins = [Input(f"i{x}") for x in range(k)]
    outs = []
    for i in ins:
        o = Output(name="o")
        o.input(0).connect(i)
        outs.append(o)
    s = SFG(ins, outs)
    want = [[at(m, t) for t in range(n)] for _, m in gs]
    ctx.sig, ctx.sample, ctx.nontrivial = str(want), f"{want}"[:200], n > 1
    if any(isinstance(v, str) or v != v or math.isinf(abs(v)) for w in want for v in w):
        raise Skip("division by zero")
    # an array, a function and a number are as good as a generator
    provided = [rng.choice([g, g, g, lambda t, m=m: m(t), [m(t) for t in range(n)]]) for g, m in gs]
    sim = Simulation(s, provided)
    sim.run_for(n // 2)
    last = sim.run() if any(isinstance(p, list) for p in provided) else sim.run_for(n - n // 2)
    ctx.check(all(close(complex(v), w[-1]) for v, w in zip(last, want)), "simulation.last", lambda: f"returned {last}, generators {want}")
    same = sim.run_for(0)
    ctx.check(list(same) == list(last), "simulation.last", lambda: f"nothing more run: returned {same}, before {last}")
    for i, w in enumerate(want):
        for key in (s.input_operations[i].graph_id, s.output_operations[i].graph_id):
            r = [complex(v) for v in sim.results[key]]
            ctx.check(len(r) == n and all(close(a, b) for a, b in zip(r, w)), "simulation", lambda: f"result {key}: {r}, generator {w}")
    ctx.count("simulated_values", n * k)


@with_dir
def case_noise(ctx):
    """Noise: the documented distribution and reproducible for a given seed."""
    rng = ctx.rng
    seed = rng.choice([0, 1, rng.randint(0, 10**9)])
    gauss = rng.random() < 0.5
    if gauss:
        a, b = rng.choice([0.0, 1.5, -3]), rng.choice([1.0, 0.25, 3])
        make = lambda: sg.Gaussian(seed, a, b)  # noqa: E731
        mean, std = a, b
    else:
        a = rng.choice([-1.0, 0.0, 2, -5])
        b = a + rng.choice([1.0, 2.0, 0.5]) if rng.random() < 0.7 else max(1.0, a + 1)
        make = lambda: sg.Uniform(seed, a, b)  # noqa: E731
        mean, std = (a + b) / 2, (b - a) / math.sqrt(12)
    ctx.sig, ctx.sample, ctx.nontrivial = str((gauss, seed, a, b)), f"{make()!r}", True
    n = 4000
    g = make()
    x = [g(t) for t in range(n)]
    y = [h(t) for h in [make()] for t in range(n)]
    ctx.check(x == y, "noise.seed", "two generators with the same seed differ")
    z = [h(t) for h in [eval(repr(g), dict(NAMESPACE))] for t in range(20)]
    ctx.check(x[:20] == z, "noise.text", lambda: f"text {g!r} gives another sequence")
    ctx.check(abs(np.mean(x) - mean) < 7 * std / math.sqrt(n), "noise.mean", lambda: f"{g!r}: mean {np.mean(x)}, documented {mean}")
    ctx.check(abs(np.std(x) - std) < 0.12 * std, "noise.std", lambda: f"{g!r}: standard deviation {np.std(x)}, documented {std}")
    if not gauss:
        ctx.check(all(a <= v < b for v in x), "noise.range", lambda: f"{g!r}: outside [{a}, {b})")
    ctx.check(len(set(x)) > n * 0.99, "noise.repeats", "values repeat")
    other = (sg.Gaussian if gauss else sg.Uniform)(seed + 1, a, b)
    ctx.check([other(t) for t in range(20)] != x[:20], "noise.seed_ignored", "another seed gives the same sequence")
    # combinations evaluate every operand once per index
    h, s = make(), sg.Sinusoid(0.1)
    c = 2 * h + s
    got = [c(t) for t in range(50)]
    ctx.check(all(close(v, 2 * x[t] + s(t)) for t, v in enumerate(got)), "noise.algebra", "2 * noise + sinusoid differs from pointwise arithmetic")
    ctx.count("values", 2 * n)


KINDS = {
    "algebra": {"fn": case_algebra, "quick": 6000, "thorough": 60000, "timeout": 60},
    "text": {"fn": case_text, "quick": 3000, "thorough": 30000, "timeout": 60},
    "simulation": {"fn": case_simulation, "quick": 1500, "thorough": 10000, "timeout": 60},
    "noise": {"fn": case_noise, "quick": 200, "thorough": 1500, "timeout": 60},
}

if __name__ == "__main__":
    sys.exit(run_check(
        PROP, KINDS,
        rule="random expressions of generators, sequences, files and numbers are evaluated at shuffled and repeated time indices and compared with closed-form definitions; "
             "their textual form is evaluated again; simulations fed by them are compared; noise is checked against its distribution and seed; non-trivial: at least two combined generators",
        assumptions=["noise generators draw the next value of their seeded sequence on every call, whatever the index", "textual form judged for Python numbers and lists"],
        min_eval=500))
