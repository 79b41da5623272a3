"""T05 fractional delays."""
import math
import numpy as np
from mc.core import Tree
from adctoolbox.timeinterleave import fractional_delay_fft, fractional_delay_farrow

ASSUMPTIONS = ["a delay exactly half way between two samples may be split either way by the interpolator"]


def delay_dft(x, d):
    """Explicit trigonometric interpolation at n - d."""
    n = len(x)
    t = np.arange(n)
    out = np.zeros(n)
    for k in range(n // 2 + 1):
        ph = 2 * np.pi * ((k * t) % n) / n
        a, b = x @ np.cos(ph), x @ np.sin(ph)
        if k == 0:
            out += a / n
        elif 2 * k == n:
            out += a / n * np.cos(math.pi * d) * np.cos(ph)
        else:
            q = ph - 2 * np.pi * k * d / n
            out += 2 / n * (a * np.cos(q) + b * np.sin(q))
    return out


def delay_lagrange(x, d, taps):
    """Candidates: whole-sample shift plus Lagrange interpolation; two when d is half way."""
    n = len(x)
    whole = {int(math.floor(d + 0.5)), int(math.ceil(d - 0.5))}
    if abs(d - math.floor(d) - 0.5) < 1e-9:
        whole = {int(math.floor(d)), int(math.floor(d)) + 1}
    out = []
    p = taps // 2
    for w in sorted(whole, key=lambda v: abs(d - v)):
        f = d - w
        y = np.array([x[i - w] if 0 <= i - w < n else 0.0 for i in range(n)])
        h = []
        for i in range(-p, p + 1):
            c = 1.0
            for j in range(-p, p + 1):
                if j != i:
                    c *= (f - j) / (i - j)
            h.append(c)
        out.append(np.array([sum(h[i + p] * y[m - i] for i in range(-p, p + 1) if 0 <= m - i < n) for m in range(n)]))
    return out


def record(n, seed):
    return np.random.RandomState(40 + seed).standard_normal(n)


def fft_body(ctx, n, d, fs, kind):
    x = record(n, 1)
    keep = x.copy()
    y = np.asarray(ctx.call(fractional_delay_fft, x.tolist() if kind == "list" else x, d / fs, fs))
    ctx.equal(y.shape, (n,), "length")
    ctx.close(y, delay_dft(x, d), "delayed record", rtol=0, atol=1e-8)
    if d == int(d):
        ctx.close(y, np.roll(x, int(d)), "whole-sample delay is a rotation", rtol=0, atol=1e-8)
    ctx.check(np.array_equal(x, keep), "input untouched")
    if n % 2:
        z = ctx.call(fractional_delay_fft, y, -d / fs, fs)
        ctx.close(z, x, "advance undoes delay", rtol=0, atol=1e-8)
    ctx.outcome(y[:2])


def tone_body(ctx, n, cyc, d, fs):
    t = np.arange(n)
    x = np.cos(2 * np.pi * cyc * t / n + 0.3)
    y = ctx.call(fractional_delay_fft, x, d / fs, fs)
    ctx.close(y, np.cos(2 * np.pi * cyc * (t - d) / n + 0.3), "a later tone", rtol=0, atol=1e-8)
    ctx.outcome(n, cyc)


def farrow_body(ctx, n, d, taps, fs, kind):
    x = record(n, 2)
    keep = x.copy()
    kw = {} if taps == 7 and kind == "default" else dict(n_taps=taps)
    y = np.asarray(ctx.call(fractional_delay_farrow, x, d / fs, fs, **kw))
    ctx.equal(y.shape, (n,), "length")
    want = delay_lagrange(x, d, taps)
    ctx.check(min(np.abs(y - w).max() for w in want) < 1e-8, f"delayed record {y[:4]} want {want[0][:4]}")
    ctx.check(np.array_equal(x, keep), "input untouched")
    ctx.outcome(y[:2])


def poly_body(ctx, n, taps, deg, d):
    t = np.arange(n) / n
    x = sum((i + 1) * t ** i for i in range(deg + 1))
    y = np.asarray(ctx.call(fractional_delay_farrow, x, d, 1.0, n_taps=taps))
    u = (np.arange(n) - d) / n
    want = sum((i + 1) * u ** i for i in range(deg + 1))
    e = taps // 2 + int(math.ceil(abs(d))) + 1
    ctx.close(y[e:n - e], want[e:n - e], "polynomials are delayed exactly away from the ends", rtol=0, atol=1e-7)
    ctx.outcome(taps, deg)


def refuse_body(ctx, case):
    x = np.arange(8.0)
    if case == "2d fft":
        ctx.raises(ValueError, fractional_delay_fft, x.reshape(2, 4), 0.1, 1.0)
    elif case == "2d":
        ctx.raises(ValueError, fractional_delay_farrow, x.reshape(2, 4), 0.1, 1.0)
    else:
        ctx.raises(ValueError, fractional_delay_farrow, x, 0.1, 1.0, n_taps=case)


def families(tier):
    q = tier == "quick"
    ds = [0.0, 0.25, -0.3, 0.5, 0.73, 1.0, -1.0, 1.5, 2.0, -2.6, 5.1, -7.0, 40.25]
    ns = [1, 2, 3, 8, 9, 16] if q else list(range(1, 26))
    return [
        Tree("rotation", [("n", ns), ("d", ds), ("fs", [1.0, 2e8]), ("kind", ["array", "list"])], fft_body),
        Tree("tones", [("n", [16, 17] if q else [8, 9, 16, 17, 32]), ("cyc", lambda c: range(0, (c["n"] + 1) // 2)), ("d", ds), ("fs", [1.0, 2e8])], tone_body),
        Tree("interpolator", [("n", ns), ("d", ds), ("taps", [1, 3, 5, 7, 11] if q else [1, 3, 5, 7, 9, 11, 15]), ("fs", [1.0, 2e8]), ("kind", ["default", "named"])], farrow_body),
        Tree("polynomials", [("n", [24, 40]), ("taps", [3, 5, 7]), ("deg", lambda c: range(c["taps"])), ("d", [0.0, 0.2, -0.4, 0.5, 1.3, -2.7])], poly_body),
        Tree("refused", [("case", [0, 2, 4, -1, -3, "2d", "2d fft"])], refuse_body),
        Tree("long records", [("n", [500, 1024]), ("d", [0.25, -7.5, 123.4, -499.0, 1000.25, 3000.5]), ("fs", [1.0, 2e8, 2e11]), ("kind", ["array"])], fft_body),
        Tree("long records, interpolator", [("n", [500, 1024]), ("d", [0.25, -7.3, 123.4, -499.0, 3000.25]), ("taps", [7, 21]), ("fs", [1.0, 2e11]), ("kind", ["default", "named"])], farrow_body),
    ]
