"""D01 bit-matrix statistics over every small bit matrix."""
import itertools, math, os
from fractions import Fraction
import numpy as np
from mc.core import Tree
from adctoolbox.dout import analyze_bit_activity, analyze_overflow, plot_residual_scatter
import adctoolbox.dout as D

ASSUMPTIONS = ["weights are positive in sum for every tail segment, as a converter's are"]

WEIGHTS = {
    "binary": lambda m: [2.0 ** (m - 1 - i) for i in range(m)],
    "radix1.8": lambda m: [1.8 ** (m - 1 - i) * 0.37 for i in range(m)],
    "sub": lambda m: [float([1, 2, 3, 5, 9, 16, 28][m - 1 - i]) for i in range(m)],
    "thirds": lambda m: [(i + 1) / 3.0 for i in range(m)][::-1],
    "signed": lambda m: [float([3, -1, 5, -2, 9, -4, 17][m - 1 - i]) for i in range(m)],
    "dup": lambda m: [1.0] * m,
}


def matrix(code, n, m):
    return np.array([[(code >> (i * m + j)) & 1 for j in range(m)] for i in range(n)])


def body(ctx, shape, code, wkind, dtype):
    judge(ctx, matrix(code, *shape), wkind, dtype)


def long_body(ctx, n, m, pat, wkind, dtype):
    """Realistic sizes: a full sweep, scattered codes, and codes at the two ends of the range."""
    top = 2 ** m - 1
    c = [{"count": top * i // (n - 1), "hash": (i * 2654435761 + 12345 * i * i) % (top + 1), "ends": [0, top, 1, top - 1, top // 2][i % 5], "ones": top * (i % 1000 > 0)}[pat] for i in range(n)]
    judge(ctx, np.array([[(v >> (m - 1 - j)) & 1 for j in range(m)] for v in c]), wkind, dtype)


def judge(ctx, b, wkind, dtype):
    n, m = b.shape
    arg = b.tolist() if dtype == "list" else b.astype(dtype)
    w = WEIGHTS[wkind](m)
    W = [Fraction(v) for v in w]
    if wkind == "binary":
        a = ctx.call(analyze_bit_activity, arg, create_plot=False)
        ctx.close(a, [100.0 * sum(int(v) for v in b[:, j]) / n for j in range(m)], "share of ones", rtol=1e-12, atol=1e-12)
    lo, hi, z, o = ctx.call(analyze_overflow, arg, np.array(w), create_plot=False)
    for j in range(m):
        tot = sum(W[j:])
        r = [sum(W[k] * int(b[i, k]) for k in range(j, m)) / tot for i in range(n)]
        ctx.close(lo[j], float(min(r)), f"smallest residue of bit {j}", rtol=1e-12, atol=1e-12)
        ctx.close(hi[j], float(max(r)), f"largest residue of bit {j}", rtol=1e-12, atol=1e-12)
        ctx.close(z[j], 100.0 * sum(v <= 0 for v in r) / n, f"bottomed-out share of bit {j}", rtol=1e-12, atol=1e-12)
        ctx.close(o[j], 100.0 * sum(v >= 1 for v in r) / n, f"saturated share of bit {j}", rtol=1e-12, atol=1e-12)
    ctx.outcome(list(z), list(o))


def ofb_body(ctx, n, m, code, ofb):
    """The bit watched only changes the picture, never the numbers."""
    b = matrix(code, n, m)
    w = np.array(WEIGHTS["sub"](m))
    A = ctx.call(analyze_overflow, b, w, create_plot=False)
    B = ctx.call(analyze_overflow, b, w, ofb=ofb, create_plot=False)
    for u, v in zip(A, B):
        ctx.close(u, v, "watched bit", rtol=0, atol=0)
    ctx.outcome(A[0])


def scatter_body(ctx, n, m, code, wkind, pairs):
    b = matrix(code, n, m)
    sig = np.array([0.7 * i - 0.4 for i in range(n)])
    w = None if wkind is None else WEIGHTS[wkind](m)
    W = [Fraction(v) for v in (WEIGHTS["binary"](m) if w is None else w)]
    ps = None if pairs is None else list(itertools.product(range(m + 1), repeat=2))
    r = ctx.call(plot_residual_scatter, sig, b, weights=w, pairs=ps, create_plot=False)
    want = [(i, m) for i in range(m)] if ps is None else ps
    ctx.equal([tuple(p) for p in r["pairs"]], want, "pairs")
    ctx.equal((len(r["residuals_x"]), len(r["residuals_y"])), (len(want), len(want)), "one residue per pair")
    res = [[float(Fraction(sig[i]) - sum(W[k] * int(b[i, k]) for k in range(d))) for i in range(n)] for d in range(m + 1)]
    for p, u, v in zip(want, r["residuals_x"], r["residuals_y"]):
        ctx.close(u, res[p[0]], f"residue after {p[0]} bits", rtol=1e-12, atol=1e-12)
        ctx.close(v, res[p[1]], f"residue after {p[1]} bits", rtol=1e-12, atol=1e-12)
    ctx.close(sig, [0.7 * i - 0.4 for i in range(n)], "input untouched", rtol=0, atol=0)
    ctx.outcome(res[-1])


def refuse_body(ctx, m, extra, which):
    if which == "overflow":
        ctx.raises(ValueError, analyze_overflow, np.ones((3, m), int), np.ones(m + extra), create_plot=False)
    else:
        ctx.raises(ValueError, plot_residual_scatter, np.zeros(m + extra), np.ones((m, 2), int), create_plot=False)


def families(tier):
    q = tier == "quick"
    shapes = [(1, 1), (1, 3), (2, 2), (2, 4), (3, 3)] if q else [(1, 1), (1, 3), (1, 7), (2, 2), (2, 4), (3, 3), (4, 3), (3, 4), (2, 6)]
    return [
        Tree("every bit matrix", [("shape", shapes), ("code", lambda c: range(2 ** (c["shape"][0] * c["shape"][1]))), ("wkind", sorted(WEIGHTS)), ("dtype", ["int64", "float64", "uint8", "list"] if q else ["int64", "float64", "uint8", "bool", "list"])], body),
        Tree("watched bit", [("n", [2]), ("m", [1, 3]), ("code", lambda c: range(2 ** (2 * c["m"]))), ("ofb", lambda c: range(1, c["m"] + 1))], ofb_body),
        Tree("stage residues", [("n", [1, 2] if q else [1, 2, 3]), ("m", [1, 2, 3]), ("code", lambda c: range(2 ** (c["n"] * c["m"]))), ("wkind", [None, "radix1.8", "sub"]), ("pairs", [None, "all"])], scatter_body),
        Tree("mismatched lengths", [("m", [2, 4]), ("extra", [-1, 1, 3]), ("which", ["overflow", "scatter"])], refuse_body),
        Tree("long bit records", [("n", [40, 200, 1000]), ("m", [8, 12, 16, 24]), ("pat", ["count", "hash", "ends"]), ("wkind", ["binary", "radix1.8", "thirds", "dup"]), ("dtype", ["int64", "uint8"])], long_body),
        Tree("very long bit records", [("n", [70001] if q else [70001, 140000]), ("m", [2, 5]), ("pat", ["hash", "ends", "ones"]), ("wkind", ["binary"]), ("dtype", ["int64", "uint8", "float64"])], long_body),
    ]
