"""S06 harmonics are looked for where they alias to, counted once, and never under the fundamental or DC."""
import math
import numpy as np
from fractions import Fraction
from mc.core import Tree
from mc.ref import tones
from adctoolbox.spectrum import compute_spectrum, analyze_spectrum

ASSUMPTIONS = ["exact-bin tones; tones between bins covered for the position of the harmonics only"]
db = lambda v: 10 * math.log10(v)


def fold(f, n):
    f = f % n
    return n - f if 2 * f > n else f


def map_body(ctx, n, k, side, mh):
    """A bare tone: the harmonic map alone."""
    x, p = tones.build(n, [(k, 0.9, 0.7)])
    if k not in p or p[k] < 0.1:
        return
    r = ctx.call(compute_spectrum, x, win_type="rectangular", side_bin=side, max_harmonic=mh)
    hb = [fold(h * k, n) for h in range(2, mh + 1)]
    pd = r["plot_data"]
    ctx.equal([int(b) for b in pd["harmonic_bins"]], hb, "harmonic bins")
    ctx.equal([int(h) for h in pd["collided_harmonics"]], [h for h, b in zip(range(2, mh + 1), hb) if abs(b - k) <= 2 * side], "harmonics hidden by the fundamental")
    ctx.equal(len(r["metrics"]["harmonics_dbc"]), mh - 1, "number of harmonic levels")
    ctx.outcome(n, k, mh)


def level_body(ctx, n, k, mh, amps):
    """Distinct levels on every harmonic order: each order reads the total at its bin, THD counts a bin once."""
    comps = [(k, 1.0, 0.7)] + [(h * k, 0.05 * (0.63 ** i) * (1 if amps == "fall" else (i % 2)), 0.2 * h) for i, h in enumerate(range(2, mh + 1))]
    x, p = tones.build(n, comps)
    if p.get(k, 0) < 0.2 or max(p, key=p.get) != k or min(p.get(k - 1, 0), p.get(k + 1, 0)) > 1e-6 * p[k]:
        return
    m = ctx.call(analyze_spectrum, x, max_scale_range=1.0, win_type="rectangular", side_bin=0, max_harmonic=mh, create_plot=False)
    tot = {}
    for h in range(2, mh + 1):
        b = fold(h * k, n)
        if b == 0 or b == k:
            ctx.check(m["harmonics_dbc"][h - 2] < -100, f"harmonic {h} is hidden but reported at {m['harmonics_dbc'][h - 2]}")
            continue
        v = p.get(b, 0)
        if v > 1e-10:
            ctx.close(m["harmonics_dbc"][h - 2], db(v / p[k]), f"harmonic {h}", rtol=0, atol=1e-6)
            tot[b] = v
    if tot:
        ctx.close(m["thd_dbc"], db(sum(tot.values()) / p[k]), "THD", rtol=0, atol=1e-6)
    ctx.outcome(n, k, mh, amps)


def edge_body(ctx, n, k, side, h):
    """One harmonic with side bins: hidden under DC or the fundamental, else the total of its bins."""
    b = fold(h * k, n)
    x, p = tones.build(n, [(k, 1.0, 0.7), (b, 0.2, 0.3)])
    if p.get(k, 0) < 0.2 or max(p, key=p.get) != k or abs(b - k) < 2 or min(p.get(k - 1, 0), p.get(k + 1, 0)) > 1e-6 * p[k]:
        return
    m = ctx.call(compute_spectrum, x, win_type="rectangular", side_bin=side, max_harmonic=h, max_scale_range=1.0)["metrics"]
    got = m["harmonics_dbc"][h - 2]
    if b <= side or abs(b - k) <= 2 * side:
        ctx.check(got < -100, f"harmonic {h} at bin {b} is hidden but reported at {got}")
    else:
        sig = sum(p.get(j, 0) for j in range(max(k - side, 0), k + side + 1))
        tot = sum(p.get(j, 0) for j in range(b - side, b + side + 1))
        if tot > 1e-10:
            ctx.close(got, db(tot / sig), f"harmonic {h}", rtol=0, atol=1e-6)
    ctx.outcome(n, k, h)


def frac_body(ctx, n, num, mh):
    """A tone between bins: harmonics at the nearest bin of the exact alias of h times the measured position."""
    f = num / 16
    t = np.arange(n)
    r = ctx.call(compute_spectrum, np.sin(2 * np.pi * f * t / n + 0.4), win_type="hann", max_harmonic=mh, side_bin=1)
    kr = float(r["plot_data"]["fundamental_bin_fractional"])
    ctx.check(abs(kr - f) < 0.2, f"measured position {kr}, tone at {f}")
    for h, b in zip(range(2, mh + 1), r["plot_data"]["harmonic_bins"]):
        want = float(fold(Fraction(kr) * h, n))
        ctx.check(abs(want - int(b)) <= 0.5 + 1e-6, f"harmonic {h}: bin {b}, alias at {want}")
    ctx.outcome(n, num)


def families(tier):
    q = tier == "quick"
    return [
        Tree("every tone bin", [("n", list(range(8, 49)) if q else list(range(6, 129))), ("k", lambda c: range(1, c["n"] // 2 + 1)), ("side", [0, 1, 2]), ("mh", [3, 9] if q else [2, 5, 9, 15])], map_body),
        Tree("every harmonic level", [("n", list(range(8, 41)) if q else list(range(6, 97))), ("k", lambda c: range(1, c["n"] // 2 + 1)), ("mh", [2, 3, 5, 8, 11]), ("amps", ["fall", "alternate"])], level_body),
        Tree("hidden or not", [("n", list(range(16, 41)) if q else list(range(16, 97))), ("k", lambda c: range(3, c["n"] // 2)), ("side", [0, 1, 2, 3]), ("h", [2, 3, 4, 5])], edge_body),
        Tree("between bins", [("n", [32, 45] if q else [32, 45, 64, 81]), ("num", lambda c: range(16 * 4, 8 * c["n"] - 16 * 4, 3 if q else 1)), ("mh", [9])], frac_body),
        Tree("long records", [("n", [1000, 1024, 4096, 5001]), ("k", lambda c: [1, 2, 17, c["n"] // 9, c["n"] // 7 + 1, c["n"] // 5, c["n"] // 4, c["n"] // 4 + 1, c["n"] // 3, c["n"] // 3 + 1, 2 * c["n"] // 5, c["n"] // 2 - 1]), ("side", [0, 1, 5]), ("mh", [5, 20, 60])], map_body),
        Tree("long records, levels", [("n", [1000, 1024, 4096, 5001]), ("k", lambda c: [1, 2, 17, c["n"] // 9, c["n"] // 7 + 1, c["n"] // 5, c["n"] // 4 + 1, c["n"] // 3 + 1, 2 * c["n"] // 5 + 1, c["n"] // 2 - 1]), ("mh", [5, 13, 18]), ("amps", ["fall", "alternate"])], level_body),
    ]
