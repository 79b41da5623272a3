"""D02 weight-list radix, scale and effective resolution over every small weight list."""
import math
from fractions import Fraction
import numpy as np
from mc.core import Tree
from adctoolbox.dout import analyze_weight_radix

ASSUMPTIONS = ["a ratio within rounding of the cut at 3 is accepted either way; equally good scale factors are interchangeable"]


def body(ctx, m, scale, sep, **w):
    ws = [w[f"w{i}"] for i in range(m)]
    if not any(ws):
        return
    v = np.array(ws, float) * scale
    with np.errstate(all="ignore"):
        r = ctx.call(analyze_weight_radix, v.tolist() if sep else v, create_plot=False)
    a = [Fraction(abs(float(x))) for x in v]
    rad = list(r["radix"])
    ctx.equal(len(rad), m, "one radix per bit")
    ctx.check(math.isnan(rad[0]), "no radix for the first bit")
    for i in range(1, m):
        if a[i]:
            ctx.close(rad[i], float(a[i - 1] / a[i]), f"radix {i}", rtol=1e-12)
        else:
            ctx.check(not math.isfinite(rad[i]), f"radix over a zero weight: {rad[i]}")
    s = sorted(a, reverse=True)
    sig = [s[0]]
    for x in s[1:]:
        if x == 0 or sig[-1] / x >= 3:
            if x and abs(sig[-1] / x - 3) < Fraction(1, 10 ** 9) and scale != 1.0:
                ctx.skip_ambiguous()
                return
            break
        if abs(sig[-1] / x - 3) < Fraction(1, 10 ** 9):
            ctx.skip_ambiguous()
            return
        sig.append(x)
    ctx.close(r["effres"], math.log2(float(sum(sig) / sig[-1]) + 1), "effective resolution", rtol=1e-12)

    def cost(k):
        return math.sqrt(sum((float(x) * k - round(float(x) * k)) ** 2 for x in sig) / len(sig))

    base = float(sig[0] / sig[-1])
    if abs(base - math.floor(base) - 0.5) < 1e-9:
        ctx.skip_ambiguous()
        return
    top = round(base)
    lo = max(1, round(top * 0.5))
    cands = [1 / float(sig[-1])] + [k / float(sig[0]) for k in range(lo, max(lo, round(top * 1.5)) + 1)]
    best = min(map(cost, cands))
    got = float(r["wgtsca"])
    ctx.check(min(abs(got / c - 1) for c in cands) < 1e-9, f"scale factor {got} maps neither the smallest weight to 1 nor the largest to an integer")
    ctx.check(cost(got) <= best + 1e-9, f"scale factor {got} leaves {cost(got)}, best is {best}")
    ctx.outcome(r["effres"], got)


def long_body(ctx, m, radix, scale, kind):
    w = [radix ** (m - 1 - i) for i in range(m)]
    if kind == "tail":
        w = w + [w[-1] / 8, w[-1] / 16]
    elif kind == "twice":
        w.insert(m // 2, w[m // 2])
    elif kind == "negative":
        w[1] = -w[1]
    body(ctx, len(w), scale, False, **{f"w{i}": v for i, v in enumerate(w)})


def off_body(ctx, m, which, factor, scale):
    """Binary weights with one of them off by a factor."""
    w = [2.0 ** (m - 1 - i) for i in range(m)]
    w[which] *= factor
    body(ctx, m, scale, False, **{f"w{i}": v for i, v in enumerate(w)})


def binary_body(ctx, m, scale, perm):
    ws = np.array([2.0 ** (m - 1 - i) for i in range(m)]) * scale
    ws = {"down": ws, "up": ws[::-1], "neg": -ws}[perm]
    r = ctx.call(analyze_weight_radix, ws, create_plot=False)
    ctx.close(r["effres"], float(m), "binary weights give their bit count", rtol=1e-12)
    ctx.close(r["wgtsca"], 1 / scale, "binary weights scale to whole units", rtol=1e-12)
    ctx.outcome(m, perm)


def families(tier):
    q = tier == "quick"
    al = [0.0, 1.0, -1.0, 2.0, 3.0, 5.5, 9.0, 40.0] if q else [0.0, 1.0, -1.0, 1.7, 2.0, -3.0, 4.0, 5.5, 9.0, 16.0, 40.0]
    out = []
    for m in ([1, 2, 3, 4] if q else [1, 2, 3, 4]):
        out.append(Tree(f"every list of {m}", [("m", [m]), ("scale", [1.0, 0.37, 1e-3]), ("sep", [False, True] if m < 4 else [False])] + [(f"w{i}", al) for i in range(m)], body))
    out.append(Tree("binary lists", [("m", range(1, 17)), ("scale", [1.0, 0.25, 8.0]), ("perm", ["down", "up", "neg"])], binary_body))
    out.append(Tree("one weight off", [("m", [4, 5, 6, 8]), ("which", lambda c: range(c["m"])), ("factor", [0.52, 0.55, 0.6, 0.7, 0.8, 0.9, 0.97, 1.04, 1.1, 1.3, 1.45, 1.6, 1.75, 1.9]), ("scale", [1.0, 0.37])], off_body))
    out.append(Tree("longer lists", [("m", [6, 8, 10, 12, 14]), ("radix", [1.5, 1.8, 1.93, 2.0, 2.1]), ("scale", [1.0, 0.37, 1e-3]), ("kind", ["plain", "tail", "twice", "negative"])], long_body))
    return out
