"""T02 per-channel offset, gain and skew measured from a sine capture."""
import itertools, math
import numpy as np
from mc.core import Tree
from adctoolbox.timeinterleave import extract_mismatch_sine

ASSUMPTIONS = ["coherent capture whose tone and its image fall on neither DC nor each other inside one channel"]

OFFS = [0.0, 0.02, -0.013, 0.007, -0.03, 0.011, 0.004, -0.001]
GAINS = [0.0, 0.03, -0.02, 0.011, -0.04, 0.006, 0.015, -0.009]
SKEWS = [0.0, 0.04, -0.03, 0.012, -0.02, 0.027, -0.005, 0.033]


def params(m, mask, rot=0):
    """Which of the three mismatches are present is the bit mask."""
    o = np.array([OFFS[(i + rot) % 8] * (mask & 1) for i in range(m)])
    g = np.array([1 + GAINS[(i + 2 * rot) % 8] * (mask >> 1 & 1) for i in range(m)])
    s = np.array([SKEWS[(i + 3 * rot) % 8] * (mask >> 2 & 1) for i in range(m)])
    return o, g, s


def capture(n, m, cyc, o, g, s, amp, ph, fs=1.0):
    t = np.arange(n)
    c = t % m
    return amp * g[c] * np.cos(2 * np.pi * cyc / n * (t + s[c]) + ph) + o[c]


def usable(n, m, cyc):
    k = n // m
    return k >= 3 and cyc % k and (2 * cyc) % k


def body(ctx, m, k, cyc, mask, rot, amp, ph, fs, given):
    n = m * k
    if not usable(n, m, cyc):
        return
    o, g, s = params(m, mask, rot)
    x = capture(n, m, cyc, o * amp, g, s, amp, ph)
    f = cyc / n * fs
    keep = x.copy()
    r = ctx.call(extract_mismatch_sine, x if given != "list" else x.tolist(), m, fs, f)
    ctx.close(r["fin"], f, "frequency", rtol=1e-12)
    ctx.close(r["offset"], o * amp, "offsets", rtol=0, atol=1e-9 * amp)
    ctx.close(r["gain"], g / g.mean(), "gains", rtol=0, atol=1e-9)
    ctx.close(r["A"], amp * g.mean(), "amplitude", rtol=1e-9)
    ctx.close(np.asarray(r["skew"]) * fs, s - s.mean(), "skews", rtol=0, atol=1e-8)
    for i in range(m):
        want = ph + 2 * math.pi * cyc / n * s[i]
        d = (r["phases"][i] - want + math.pi) % (2 * math.pi) - math.pi
        ctx.check(abs(d) < 1e-8, f"phase of channel {i}")
    ctx.check(np.array_equal(x, keep), "input untouched")
    ctx.outcome(m, k, cyc, mask)


def auto_body(ctx, m, k, cyc, mask, fs):
    """Without a frequency the library's own estimate is used, and the offsets do not depend on it."""
    n = m * k
    if not usable(n, m, cyc):
        return
    o, g, s = params(m, mask)
    x = capture(n, m, cyc, o, g, s, 1.0, 0.6)
    r = ctx.call(extract_mismatch_sine, x, m, fs)
    ctx.close(r["fin"], cyc / n * fs, "frequency", rtol=0, atol=0.05 / n * fs)
    ctx.close(r["offset"], o, "offsets", rtol=0, atol=1e-9)
    ctx.close(np.mean(r["gain"]), 1.0, "gains average one", rtol=1e-12)
    ctx.check(abs(np.mean(r["skew"])) * fs < 1e-9, "skews average zero")
    e = ctx.call(extract_mismatch_sine, x, m, fs, r["fin"])
    ctx.close(e["skew"], r["skew"], "same as giving that frequency", rtol=0, atol=0)
    ctx.check(np.abs(np.asarray(r["skew"]) * fs - (s - s.mean())).max() < 0.05 + 0.1 * m, "skews near the truth")
    ctx.outcome(m, k, cyc, mask)


def refuse_body(ctx, case):
    x = np.arange(12.0)
    a = {"length": (x, 5, 1.0, 0.1), "zero": (x, 0, 1.0, 0.1), "negative": (x, -2, 1.0, 0.1), "2d": (x.reshape(3, 4), 2, 1.0, 0.1)}[case]
    ctx.raises(ValueError, extract_mismatch_sine, *a)


def families(tier):
    q = tier == "quick"
    return [
        Tree("known mismatch", [("m", [1, 2, 3, 4] if q else [1, 2, 3, 4, 5, 8]), ("k", [16, 15] if q else [15, 16, 32, 33]), ("cyc", lambda c: range(1, (c["m"] * c["k"] + 1) // 2)), ("mask", range(8)), ("rot", [0, 3] if q else range(4)), ("amp", [1.0, 500.0]), ("ph", [0.0, 3.1, -1.9]), ("fs", [1.0, 8e8]), ("given", ["array"] if q else ["array", "list"])], body),
        Tree("frequency left out", [("m", [2, 3, 4]), ("k", [64] if q else [64, 101]), ("cyc", lambda c: range(3, (c["m"] * c["k"]) // 2 - 3, 7 if q else 3)), ("mask", [0, 1, 2, 3]), ("fs", [1.0, 8e8])], auto_body),
        Tree("refused", [("case", ["length", "zero", "negative", "2d"])], refuse_body),
        Tree("many channels", [("m", [8, 16, 32]), ("k", [64, 101]), ("cyc", lambda c: [7, 19, c["k"] // 3, c["k"] + 5, 3 * c["k"] + 11, c["m"] * c["k"] // 2 - 9]), ("mask", range(8)), ("rot", [0, 3]), ("amp", [1.0, 2000.0]), ("ph", [0.0, -1.9]), ("fs", [1.0, 2e11]), ("given", ["array"])], body),
        Tree("long records", [("m", [2, 4]), ("k", [4096, 10000]), ("cyc", lambda c: [7, c["k"] // 3, c["k"] + 5]), ("mask", range(8)), ("rot", [3]), ("amp", [1.0, 1e-7]), ("ph", [0.0, -1.9]), ("fs", [8e8]), ("given", ["array"])], body),
    ]
