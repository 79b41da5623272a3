"""C03 the minimal calibration."""
import itertools, math
import numpy as np
from mc.core import Tree
from mc.checks.c01 import LISTS, SHORT, LONG, slice_bits, tone, exact_record
from adctoolbox.calibration import calibrate_weight_sine, calibrate_weight_sine_lite

ASSUMPTIONS = ["independent columns, as the function requires; records on which the two ways of fixing the scale fit equally well but with other weights are left out"]


def turn(B, flip):
    """Columns wired with opposite polarity: their true weights are negative."""
    cols = {"none": [], "first": [0], "second": [1], "last": [-1], "all": list(range(B.shape[1])), "all but the last": list(range(B.shape[1] - 1))}[flip]
    s = np.ones(B.shape[1])
    s[cols] = -1
    B = B.copy()
    B[:, cols] = 1 - B[:, cols]
    return B, s


def truth_body(ctx, n, k, ph, lst, flip, back):
    f = k / n
    B, w, amp = exact_record(n, f, ph, LISTS[lst])
    B, s = turn(B, flip)
    w = np.asarray(w) * s
    if back:
        B, w = B[:, ::-1].copy(), w[::-1]
    if abs(w.sum()) < 1e-6 * np.abs(w).sum():
        return
    w = w * np.sign(w.sum())
    full = np.column_stack([B, np.ones(n), np.cos(2 * np.pi * f * np.arange(n)), np.sin(2 * np.pi * f * np.arange(n))])
    if np.linalg.matrix_rank(full, tol=1e-6) < full.shape[1] - 1:
        return
    ctx.close(ctx.call(calibrate_weight_sine_lite, B, f), w / amp, "true weights", rtol=0, atol=1e-7)
    ctx.outcome(n, k, lst)


def settled(b, f):
    """The data alone decide the weights: both ways of fixing the scale have one answer, and it is clear which fits better."""
    t = 2 * np.pi * f * np.arange(len(b))
    found = []
    for unity, other in ((np.cos(t), np.sin(t)), (np.sin(t), np.cos(t))):
        a = np.column_stack([b, np.ones(len(b)), other])
        sv = np.linalg.svd(a, compute_uv=False)
        if sv[-1] < 1e-7 * sv[0]:
            return False
        c = np.linalg.lstsq(a, -unity, rcond=None)[0]
        w = c[:b.shape[1]] / math.hypot(1, c[-1])
        found.append((np.linalg.norm(a @ c + unity), w * (1 if w.sum() >= 0 else -1)))
    (e1, w1), (e2, w2) = found
    return abs(e1 - e2) > 1e-6 * max(e1, e2) + 1e-9 or np.abs(w1 - w2).max() < 1e-3


def agree_body(ctx, n, k, ph, lst, amp, dtype, flip):
    f = k / n
    b, _ = slice_bits(tone(n, f, ph, amp), LISTS[lst])
    b, _ = turn(b, flip)
    if np.linalg.matrix_rank(np.column_stack([b, np.ones(n)])) < b.shape[1] + 1:
        return
    if not settled(b, f):
        return
    full = ctx.call(calibrate_weight_sine, b, freq=f)
    lite = np.asarray(ctx.call(calibrate_weight_sine_lite, b.astype(dtype), f))
    ctx.equal(lite.shape, (b.shape[1],), "one weight per bit")
    ctx.check(lite.sum() >= 0, "positive sum")
    # the two quadrature choices differ by no more than the error left in the record
    slack = 3 * float(np.sqrt(np.mean(np.asarray(full["error"][0]) ** 2))) + 1e-9
    want = np.asarray(full["weight"])
    if abs(want.sum()) < 0.1:
        want = want * np.sign(want @ lite)
    ctx.close(lite, want, "same weights as the full calibration", rtol=0, atol=max(0.02, slack))
    a = math.hypot(*[2 / n * float(fn(2 * np.pi * f * np.arange(n)) @ (b @ lite)) for fn in (np.cos, np.sin)])
    ctx.check(abs(a - 1) < 0.1 + 3 * slack, f"calibrated tone amplitude {a}")
    ctx.outcome(lite)


def refuse_body(ctx, f):
    b, _ = slice_bits(tone(64, 5 / 64, 0.3), LISTS["bin4"])
    ctx.raises(ValueError, calibrate_weight_sine_lite, b, f)


FLIPS = ["none", "first", "second", "last", "all", "all but the last"]


def families(tier):
    q = tier == "quick"
    phs = [0.0, 1e-3, 0.3, 1.0, math.pi / 2, math.pi, -2.0] if q else [0.0, 1e-6, 1e-3, 0.1, 0.3, 1.0, math.pi / 2, 2.5, math.pi, -2.0, -math.pi / 2]
    ks = [3, 7, 29, 41] if q else range(2, 47, 3)
    return [
        Tree("true weights", [("n", [128, 97, 200]), ("k", ks), ("ph", phs), ("lst", SHORT), ("flip", ["none", "first", "last", "all"] if q else FLIPS), ("back", [False, True])], truth_body),
        Tree("against the full calibration", [("n", [128, 97, 200]), ("k", ks), ("ph", phs), ("lst", ["bin4", "bin6", "red6", "rad5", "bad5"]), ("amp", [0.48, 0.4]), ("dtype", ["int64", "float64", "uint8"]), ("flip", ["none", "first", "all"] if q else FLIPS)], agree_body),
        Tree("refused", [("f", [0.500001, 1.0, 5e6])], refuse_body),
        Tree("long records", [("n", [1024, 4096]), ("k", [61, 307, 401]), ("ph", phs[:5]), ("lst", sorted(LONG)), ("flip", ["none", "first", "all"]), ("back", [False, True])], truth_body),
        Tree("long records, against the full calibration", [("n", [1024, 4096]), ("k", [61, 307, 401]), ("ph", phs[:5]), ("lst", sorted(LONG)), ("amp", [0.48]), ("dtype", ["int64", "uint8"]), ("flip", ["none", "first"])], agree_body),
    ]
