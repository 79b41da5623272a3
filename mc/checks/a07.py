"""A07 phase-plane views: lag choice, anomaly list, residual trend and hysteresis."""
import math
import numpy as np
from mc.core import Tree
from mc.checks.s01 import record
from adctoolbox.fundamentals import fit_sine_4param
from adctoolbox.aout import analyze_phase_plane, analyze_error_phase_plane

ASSUMPTIONS = ["a lag or an anomaly that sits within rounding of the decision threshold is accepted either way"]


def median(v):
    s = sorted(v)
    n = len(s)
    return s[n // 2] if n % 2 else 0.5 * (s[n // 2 - 1] + s[n // 2])


def judge_outliers(ctx, x, k, thr, got, detect=True):
    n = len(x)
    if not detect:
        ctx.equal([int(i) for i in got], [], "no anomalies when detection is off")
        return
    a, b = x[:n - k], x[k:]
    ma, mb = math.fsum(a) / len(a), math.fsum(b) / len(b)
    r = [math.hypot(u - ma, v - mb) for u, v in zip(a, b)]
    med = median(r)
    dev = [abs(v - med) for v in r]
    lim = thr * max(1.4826 * median(dev), 1e-12)
    eps = 1e-9 * max(1.0, max(map(abs, x)))
    got = [int(i) for i in got]
    ctx.check(got == sorted(set(got)), "indices ascend")
    for i, d in enumerate(dev):
        if abs(d - lim) <= eps:
            ctx.skip_ambiguous()
            continue
        ctx.check(((i + k) in got) == (d > lim), f"sample {i + k}: distance {d} limit {lim} listed {(i + k) in got}")
    ctx.check(all(k <= i < n for i in got), "indices within the record")


def lag_body(ctx, n, cyc, amp, dc):
    t = np.arange(n)
    x = amp * np.sin(2 * np.pi * ((cyc * t) % n) / n + 0.4) + dc
    z = x - x.mean()
    w = 0.5 - 0.5 * np.cos(2 * np.pi * t / (n - 1))
    mag = np.array([abs(np.sum(z * w * np.exp(-2j * np.pi * ((j * t) % n) / n))) for j in range(1, n // 2 + 1)])
    top = np.sort(mag)
    r = ctx.call(analyze_phase_plane, x, create_plot=False)
    k = int(r["lag"])
    ctx.check(1 <= k < n, f"lag {k}")
    if top[-1] - top[-2] < 1e-9 * top[-1]:
        ctx.skip_ambiguous()
        return
    f = (int(np.argmax(mag)) + 1) / n
    lim = min(n // 2, int(0.6 / f) + 20)
    sc = {c: abs(math.sin(2 * math.pi * f * c)) - 1e-4 * c for c in range(1, max(lim, 2))}
    ctx.check(k in sc, f"lag {k} within the search range {lim}")
    ctx.check(sc[k] >= max(sc.values()) - 1e-9, f"lag {k} scores {sc[k]}, best {max(sc.values())}")
    judge_outliers(ctx, x, k, 4.0, r["outliers"])
    ctx.outcome(k)


def outlier_body(ctx, n, cyc, lag, spot, size, thr, detect):
    t = np.arange(n)
    x = np.sin(2 * np.pi * cyc * t / n) + 0.01 * np.random.RandomState(5).standard_normal(n)
    if spot is not None:
        x[spot] += size
    r = ctx.call(analyze_phase_plane, x, lag=lag, detect_outliers=detect, threshold=thr, create_plot=False)
    ctx.equal(int(r["lag"]), lag, "lag as asked for")
    judge_outliers(ctx, x, lag, thr, r["outliers"], detect)
    ctx.outcome(len(r["outliers"]))


def refuse_body(ctx, n, extra):
    ctx.raises(ValueError, analyze_phase_plane, np.arange(float(n)), lag=n + extra, create_plot=False)


def ls(x, y, order):
    c = 0.5 * (x.max() + x.min())
    s = 0.5 * (x.max() - x.min())
    from numpy.polynomial import chebyshev as C
    w, *_ = np.linalg.lstsq(C.chebvander((x - c) / s, order), y, rcond=None)
    return lambda v: C.chebval((v - c) / s, w)


def pct(v, p):
    s = np.sort(v)
    h = (len(s) - 1) * p / 100
    i = int(math.floor(h))
    return s[i] + (h - i) * (s[min(i + 1, len(s) - 1)] - s[i])


def error_body(ctx, n, cyc, memory, gain, order, hyst, unit):
    t = np.arange(n)
    ph = 2 * np.pi * cyc * t / n + 0.2
    x = gain * (np.sin(ph) + 0.01 * np.sin(ph) ** 3 + memory * np.sign(np.cos(ph)) + 0.002 * np.random.RandomState(9).standard_normal(n))
    fit = ctx.call(fit_sine_4param, x, max_iterations=3)
    r = ctx.call(analyze_error_phase_plane, x, fit_polynomial_order=order, detect_hysteresis=hyst, unit_mode=unit, create_plot=False)
    e = x - np.asarray(fit["fitted_signal"])
    ctx.close(r["residual"], e, "residual", rtol=0, atol=1e-9 * gain)
    ctx.close(np.asarray(r["residual"]) + np.asarray(r["fitted_sine"]), x, "residual + sine = data", rtol=0, atol=1e-9 * gain)
    lo, hi = pct(x, 2), pct(x, 98)
    ok = (x > lo) & (x < hi)
    g = np.empty(n)
    g[0], g[-1] = x[1] - x[0], x[-1] - x[-2]
    g[1:-1] = (x[2:] - x[:-2]) / 2
    grid = np.linspace(lo, hi, 50)
    ctx.equal(len(r["trend_coeffs"]), order + 1, "trend order")
    ctx.close(sum(c * grid ** (order - i) for i, c in enumerate(r["trend_coeffs"])), ls(x[ok], e[ok], order)(grid), "trend", rtol=0, atol=1e-7 * gain)
    up, dn = g > 0, g < 0
    want = 0.0
    if hyst and up.sum() > 100 and dn.sum() > 100 and (up & ok).sum() > 50 and (dn & ok).sum() > 50:
        want = np.mean(np.abs(ls(x[up & ok], e[up & ok], order)(x) - ls(x[dn & ok], e[dn & ok], order)(x)))
    ctx.close(r["hysteresis_gap"], want, "hysteresis gap", rtol=1e-6, atol=1e-9 * gain)
    ctx.outcome(r["hysteresis_gap"])


def unit_body(ctx, unit):
    ctx.raises(ValueError, analyze_error_phase_plane, record(64, 3.0, "noise"), unit_mode=unit, create_plot=False)


def families(tier):
    q = tier == "quick"
    return [
        Tree("lag", [("n", [64, 101] if q else [32, 64, 101, 200]), ("cyc", lambda c: range(1, (c["n"] - 1) // 2 + 1)), ("amp", [1.0, 1000.0]), ("dc", [0.0, 3.0])], lag_body),
        Tree("anomalies", [("n", [64, 65]), ("cyc", [3, 7]), ("lag", [1, 2, 5, 20]), ("spot", [None] + ([0, 1, 5, 20, 40, 63] if q else list(range(64)))), ("size", [0.3, -0.8, 3.0]), ("thr", [3.0, 4.0, 8.0]), ("detect", [True, False])], outlier_body),
        Tree("lag too long", [("n", [2, 5, 16]), ("extra", [0, 1, 100])], refuse_body),
        Tree("residual plane", [("n", [128, 400, 512]), ("cyc", [3, 7, 11]), ("memory", [0.0, 0.01, -0.03]), ("gain", [1.0, 100.0]), ("order", [1, 2, 3, 5]), ("hyst", [True, False]), ("unit", ["auto", "normalized_fs", "voltage", "code"])], error_body),
        Tree("unit names", [("unit", ["volts", "", None, "CODE"])], unit_body),
        Tree("long records, lag", [("n", [600, 1500]), ("cyc", lambda c: [1, 2, 3, 7, 37, c["n"] // 9, c["n"] // 5 + 1, c["n"] // 3, c["n"] // 2 - 3]), ("amp", [1.0, 1000.0]), ("dc", [0.0, 3.0])], lag_body),
        Tree("long records, anomalies", [("n", [1000, 8192]), ("cyc", [7, 61]), ("lag", [1, 20, 200]), ("spot", [None, 0, 5, 500, 999]), ("size", [0.3, 3.0]), ("thr", [4.0]), ("detect", [True])], outlier_body),
        Tree("long records, residual plane", [("n", [2000, 8192]), ("cyc", [7, 61]), ("memory", [0.0, -0.03]), ("gain", [1.0, 2000.0]), ("order", [1, 3]), ("hyst", [True, False]), ("unit", ["auto"])], error_body),
    ]
