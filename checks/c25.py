"""C25: multirate helpers and signed-digit conversions follow their definition."""
import logging
import sys
from fractions import Fraction

from vh import boot

boot.install()
logging.disable(logging.CRITICAL)
import numpy as np  # noqa: E402
from b_asic.utils import decompose, downsample, float_to_csd, int_to_csd, interleave, upsample  # noqa: E402

from vh.core import run_check  # noqa: E402

PROP = "C25"


def samples(rng, n):
    k = rng.choice(["int", "float", "complex"])
    return [rng.randint(-99, 99) if k == "int" else rng.uniform(-5, 5) if k == "float" else complex(rng.randint(-9, 9), rng.randint(-9, 9)) for _ in range(n)]


def case_multirate(ctx):
    rng = ctx.rng
    c = ctx.check
    form = rng.choice([list, list, tuple, np.array])
    n, m = rng.randint(0, 24), rng.randint(1, 7)
    x = samples(rng, n)
    keep = list(x)
    a = form(x)
    phase = rng.randrange(m)
    ctx.sig = (n, m, phase, form.__name__, repr(x))
    ctx.sample = {"a": [str(v) for v in x], "factor": m, "phase": phase}
    ctx.nontrivial = n > 2 and m > 1
    what = f"{form.__name__} of {n}, factor {m}, phase {phase}"
    d = list(downsample(a, m, phase))
    c(d == [x[i] for i in range(n) if i % m == phase], "downsample", lambda: f"{what}: {d}")
    c(list(downsample(a, m)) == [x[i] for i in range(n) if i % m == 0], "downsample_phase", what)
    u = list(upsample(a, m, phase))
    c(len(u) == n * m, "upsample_length", lambda: f"{what}: {len(u)}")
    c(u == [x[i // m] if i % m == phase else 0 for i in range(n * m)], "upsample", lambda: f"{what}: {u}")
    c(list(upsample(a, m)) == [x[i // m] if i % m == 0 else 0 for i in range(n * m)], "upsample_phase", what)
    for other in range(m):
        got = list(downsample(u, m, other))
        c(got == (x if other == phase else [0] * n), "roundtrip", lambda: f"{what}, component {other}: {got}")  # noqa: B023
    parts = [list(p) for p in decompose(a, m)]
    c(parts == [[x[i] for i in range(n) if i % m == k] for k in range(m)], "decompose", lambda: f"{what}: {parts}")
    total = [sum(v) for v in zip(*(upsample(p, m, k) for k, p in enumerate(parts)), strict=True)] if n % m == 0 else None
    if total is not None:
        c(total == x, "polyphase", lambda: f"{what}: {total}")
        c(list(interleave(*(form(p) for p in parts))) == x, "interleave", what)
    cols = [samples(rng, n) for _ in range(m)]
    flat = list(interleave(*map(form, cols)))
    c(flat == [cols[k][i] for i in range(n) for k in range(m)], "interleave_order", lambda: f"{what}: {flat}")
    if m > 1 and n:
        cut = [list(v) for v in cols]
        cut[rng.randrange(m)].pop()
        try:
            interleave(*cut)
            c(False, "interleave_lengths", f"{what}: lengths {[len(v) for v in cut]} were accepted")
        except ValueError:
            ctx.count("refused")
    c(list(a) == keep, "argument_modified", what)
    ctx.count("sequences", 4 + m)


def canonical(ctx, digits, what):
    ctx.check(all(d in (-1, 0, 1) for d in digits), "digits", lambda: f"{what}: {digits}")
    ctx.check(not any(a and b for a, b in zip(digits, digits[1:], strict=False)), "adjacent", lambda: f"{what}: {digits}")
    ctx.check(not digits or digits[0] != 0, "leading", lambda: f"{what}: {digits}")
    ctx.count("digits", len(digits))
    ctx.count("nonzero_digits", sum(d != 0 for d in digits))


def total(digits):
    v = 0
    for d in digits:
        v = 2 * v + d
    return v


def case_csd(ctx):
    rng = ctx.rng
    k = rng.random()
    if k < 0.3:
        n = rng.randint(-300, 300)
    elif k < 0.6:
        b = rng.randint(1, 200)
        n = rng.choice([-1, 1]) * (rng.getrandbits(b) if rng.random() < 0.7 else (1 << b) + rng.choice([-3, -2, -1, 0, 1, 2, 3]))
    else:
        n = None
    if n is not None:
        ctx.sig = n
        ctx.sample = str(n)
        d = int_to_csd(n)
        canonical(ctx, d, f"int_to_csd({n})")
        ctx.check(total(d) == n, "value", lambda: f"int_to_csd({n}) = {d} = {total(d)}")
        ctx.check([-x for x in d] == int_to_csd(-n), "negation", lambda: f"int_to_csd({n})")
        x = n
    else:
        e = rng.choice([rng.randint(-12, 12), rng.randint(-60, 60), rng.randint(-1074, 960)])
        x = rng.choice([rng.uniform(-2, 2), rng.randint(-64, 64) / 64, rng.randint(-9, 9)]) * 2.0**e
        if rng.random() < 0.2:
            x = np.float64(x)
        ctx.sig = float(x)
        ctx.sample = repr(x)
    d, frac = float_to_csd(x)
    canonical(ctx, d, f"float_to_csd({x!r})")
    ctx.check(total(d) * Fraction(2) ** -frac == Fraction(x if isinstance(x, int) else float(x)), "float_value", lambda: f"float_to_csd({x!r}) = {d}, {frac}")
    ctx.check(not d or d[-1] != 0, "trailing", lambda: f"float_to_csd({x!r}) = {d}, {frac}")
    ctx.check(x != 0 or (d, frac) == ([], 0), "zero", lambda: f"{d, frac}")
    ctx.nontrivial = len(d) > 2
    ctx.count("converted")


KINDS = {
    "multirate": {"fn": case_multirate, "quick": 3000, "thorough": 200000, "timeout": 30},
    "csd": {"fn": case_csd, "quick": 6000, "thorough": 400000, "timeout": 30},
}
if __name__ == "__main__":
    sys.exit(run_check(PROP, KINDS, level="exploration", rule="One case = one random sequence, factor and phase, or one random number, with every function applied and compared with its definition (exact rational arithmetic for digits). Seed VERIF_SEED, index 0..n-1 per kind."))
