"""T03 foreground correction removes exactly the mismatch it is told about."""
import math
import numpy as np
from mc.core import Tree
from mc.checks.t02 import params, capture, usable
from mc.checks.t05 import delay_dft, delay_lagrange
from adctoolbox.timeinterleave import extract_mismatch_sine, calibrate_foreground

ASSUMPTIONS = ["timing correction is exact only for tones below half the channel rate, as documented; above it only offset and gain are judged against the ideal tone"]


def ideal_body(ctx, m, k, cyc, mask, rot, amp, fs, src):
    n = m * k
    if not usable(n, m, cyc):
        return
    low = 2 * cyc < k
    o, g, s = params(m, mask, rot)
    if mask & 4 and not low:
        return
    x = capture(n, m, cyc, o * amp, g, s, amp, 0.7)
    keep = x.copy()
    if src == "known":
        p = {"offset": o * amp, "gain": g, "skew": s / fs}
        want = capture(n, m, cyc, o * 0, g * 0 + 1, s * 0, amp, 0.7)
    else:
        p = ctx.call(extract_mismatch_sine, x, m, fs, cyc / n * fs)
        want = capture(n, m, cyc, o * 0, g * 0 + g.mean(), s * 0 + s.mean(), amp, 0.7)
    y = ctx.call(calibrate_foreground, x, m, p, fs)
    ctx.equal(np.asarray(y).shape, (n,), "length")
    ctx.close(y, want, "ideal tone", rtol=0, atol=1e-8 * amp)
    ctx.check(np.array_equal(x, keep), "input untouched")
    e = ctx.call(extract_mismatch_sine, y, m, fs, cyc / n * fs)
    ctx.close(e["gain"], np.ones(m), "no gain mismatch left", rtol=0, atol=1e-8)
    ctx.close(np.asarray(e["offset"]) / amp, np.zeros(m), "no offset left", rtol=0, atol=1e-8)
    ctx.close(np.asarray(e["skew"]) * fs, np.zeros(m), "no skew left", rtol=0, atol=1e-6)
    ctx.outcome(m, k, cyc, mask)


def any_body(ctx, m, k, mask, rot, fs, method, taps):
    """Any record: each channel is shifted, scaled and delayed on its own."""
    n = m * k
    x = np.random.RandomState(n + rot).standard_normal(n)
    o, g, s = params(m, mask, rot)
    kw = dict(skew_method=method)
    if method == "farrow":
        kw["n_taps"] = taps
    y = np.asarray(ctx.call(calibrate_foreground, x, m, {"offset": o, "gain": g.tolist(), "skew": s / fs}, fs, **kw))
    for c in range(m):
        u = (x[c::m] - o[c]) / g[c]
        d = s[c] / m
        v = u if d == 0 else (delay_dft(u, d) if method == "fft" else delay_lagrange(u, d, taps)[0])
        ctx.close(y[c::m], v, f"channel {c}", rtol=0, atol=1e-9)
    ctx.outcome(y[:2])


def refuse_body(ctx, case, size):
    x = np.arange(12.0)
    p = {"offset": np.zeros(3), "gain": np.ones(3), "skew": np.full(3, 0.01)}
    if case in p:
        p[case] = np.full(size, 0.5)
        ctx.raises(ValueError, calibrate_foreground, x, 3, p, 1.0)
    elif case == "method":
        ctx.raises(ValueError, calibrate_foreground, x, 3, p, 1.0, skew_method="sinc")
    elif case == "taps":
        ctx.raises(ValueError, calibrate_foreground, x, 3, p, 1.0, skew_method="farrow", n_taps=4)
    else:
        ctx.raises(ValueError, calibrate_foreground, np.arange(13.0), 3, p, 1.0)


def families(tier):
    q = tier == "quick"
    return [
        Tree("ideal tone", [("m", [1, 2, 3, 4] if q else [1, 2, 3, 4, 5, 8]), ("k", [16, 21] if q else [16, 21, 32]), ("cyc", lambda c: range(1, (c["m"] * c["k"] + 1) // 2)), ("mask", range(8)), ("rot", [0, 3]), ("amp", [1.0, 500.0]), ("fs", [1.0, 8e8, 2e11]), ("src", ["known", "measured"])], ideal_body),
        Tree("any record", [("m", [1, 2, 3, 4]), ("k", [1, 4, 9, 16] if q else [1, 2, 4, 9, 16, 25]), ("mask", range(8)), ("rot", range(4)), ("fs", [1.0, 8e8, 2e11]), ("method", ["fft", "farrow"]), ("taps", lambda c: [7] if c["method"] == "fft" else [1, 3, 7, 9])], any_body),
        Tree("refused", [("case", ["offset", "gain", "skew", "method", "taps", "length"]), ("size", lambda c: [0, 1, 2, 4, 6, 12] if c["case"] in ("offset", "gain", "skew") else [0])], refuse_body),
        Tree("many channels", [("m", [8, 16]), ("k", [64, 101]), ("cyc", lambda c: [7, 19, c["k"] // 3, c["k"] + 5, 3 * c["k"] + 11]), ("mask", range(8)), ("rot", [0, 3]), ("amp", [1.0, 500.0]), ("fs", [1.0, 8e8]), ("src", ["known", "measured"])], ideal_body),
        Tree("long records", [("m", [2, 4]), ("k", [2048]), ("cyc", [7, 301]), ("mask", range(8)), ("rot", [3]), ("amp", [1.0]), ("fs", [8e8]), ("src", ["known", "measured"])], ideal_body),
        Tree("long records, any", [("m", [2, 16]), ("k", [600]), ("mask", range(8)), ("rot", [1, 3]), ("fs", [8e8]), ("method", ["fft", "farrow"]), ("taps", [7, 15])], any_body),
    ]
