"""F04 sine fitting."""
import math
import warnings
import numpy as np
from mc.core import Tree
from adctoolbox import fit_sine_4param, estimate_frequency
from adctoolbox.common import fit_sine, fit_sine_4param as common_fit, estimate_frequency as common_est

ASSUMPTIONS = ["records of 24..128 samples in depth, up to 16384 for realistic captures; automatic start claimed for tones at least two cycles away from DC and "
               "Nyquist with iterations allowed to converge (the documented start is an FFT peak)"]

LIM = 0.6          # bins; interpolated peak of a tone two or more cycles from DC and Nyquist
FIELDS = {"fitted_signal", "residuals", "frequency", "amplitude", "phase", "dc_offset", "rmse",
          "converged", "n_iterations", "initial_frequency", "last_delta_freq"}


def tone(n, f, a, ph, dc):
    return a * np.cos(2 * np.pi * f * np.arange(n) + ph) + dc


def wrapdiff(a, b):
    return abs((a - b + np.pi) % (2 * np.pi) - np.pi)


def consistent(ctx, y, r):
    """The reported numbers describe one and the same sine."""
    y = np.asarray(y, float)
    ctx.check(FIELDS <= set(r), f"missing fields {FIELDS - set(r)}")
    n = len(y)
    s = max(1.0, np.abs(y).max())
    fit = r["amplitude"] * np.cos(2 * np.pi * r["frequency"] * np.arange(n) + r["phase"]) + r["dc_offset"]
    ctx.close(r["fitted_signal"], fit, "fitted signal vs reported amplitude, phase, frequency, offset", rtol=0, atol=1e-8 * s)
    ctx.close(r["residuals"], y - np.asarray(r["fitted_signal"]), "residual = data - fit", rtol=0, atol=1e-9 * s)
    ctx.close(r["rmse"], np.sqrt(np.mean(np.asarray(r["residuals"]) ** 2)), "rmse of residual", atol=1e-10 * s)
    ctx.check(r["amplitude"] >= 0, "negative amplitude")


def recovered(ctx, r, n, f, a, ph, dc, tol):
    s = max(a, abs(dc))
    ctx.check(abs(r["frequency"] - f) * n < tol, f"frequency {r['frequency']} want {f}")
    ctx.check(abs(r["amplitude"] - a) < tol * s, f"amplitude {r['amplitude']} want {a}")
    ctx.check(wrapdiff(r["phase"], ph) < 4 * tol, f"phase {r['phase']} want {ph}")
    ctx.check(abs(r["dc_offset"] - dc) < tol * s, f"offset {r['dc_offset']} want {dc}")
    ctx.check(r["rmse"] < tol * s, f"rmse {r['rmse']} on a pure tone")


def fixed_body(ctx, n, cyc, a, ph, dc):
    """Frequency known, no refinement: plain three-parameter fit."""
    f = cyc / n
    y = tone(n, f, a, ph, dc)
    keep = y.copy()
    r = ctx.call(fit_sine_4param, y, frequency_estimate=f, max_iterations=0)
    consistent(ctx, y, r)
    recovered(ctx, r, n, f, a, ph, dc, 1e-6)
    ctx.check(r["frequency"] == f and r["initial_frequency"] == f, "a fixed frequency must stay as given")
    ctx.check(bool(r["converged"]) and r["n_iterations"] == 0 and r["last_delta_freq"] == 0, "no refinement was asked for")
    ctx.equal(y, keep, "data modified")
    r2 = ctx.call(common_fit, y.tolist(), f, 0)
    ctx.close(r2["amplitude"], r["amplitude"], "list input", rtol=1e-12)
    r3 = ctx.call(fit_sine, y, f, 0)
    ctx.close(r3["phase"], r["phase"], "compatibility alias", rtol=1e-12)
    ctx.outcome(r["amplitude"], r["phase"], r["dc_offset"])


def search_body(ctx, n, cyc, off, a, ph, dc):
    """off: start error in bins, or None for the automatic start."""
    f = cyc / n
    y = tone(n, f, a, ph, dc)
    start = None if off is None else f + off / n
    r = ctx.call(fit_sine_4param, y, frequency_estimate=start, max_iterations=30, tolerance=1e-12)
    consistent(ctx, y, r)
    recovered(ctx, r, n, f, a, ph, dc, 1e-6)
    ctx.check(bool(r["converged"]), "pure tone must converge")
    ctx.check(1 <= r["n_iterations"] <= 30, "iteration count")
    if start is not None:
        ctx.check(r["initial_frequency"] == start, "start frequency must be reported")
    else:
        ctx.check(abs(r["initial_frequency"] - f) * n < LIM, f"automatic start {r['initial_frequency']} want {f} (n={n})")
    fs = 1e6
    for est in (estimate_frequency, common_est):
        fe = ctx.call(est, y, frequency_estimate=start, fs=fs)
        one = ctx.call(fit_sine_4param, y, frequency_estimate=start)
        ctx.close(fe, one["frequency"] * fs, "estimated frequency is the fitted frequency times the rate", rtol=1e-12)
        if off is None or abs(off) <= 0.2:
            lim = 0.1 if off is None else 0.05
            ctx.check(abs(fe / fs - f) * n < lim, f"one-step frequency {fe / fs} want {f} (n={n})")
    ctx.outcome(n, cyc, r["n_iterations"])


def default_body(ctx, n, cyc, ph, dc):
    """Nothing but the record given: one refinement from the automatic start comes close for tones four cycles clear of DC and Nyquist."""
    y = tone(n, cyc / n, 1.0, ph, dc)
    ctx.calls += 1
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r = fit_sine_4param(y)
    consistent(ctx, y, r)
    ctx.check(abs(r["initial_frequency"] * n - cyc) < 0.12, f"automatic start at {r['initial_frequency'] * n} cycles, tone at {cyc}")
    recovered(ctx, r, n, cyc / n, 1.0, ph, dc, 4e-3)
    ctx.check(abs(r["frequency"] * n - cyc) < 2e-3, f"fitted {r['frequency'] * n} cycles, tone at {cyc}")
    ctx.close(ctx.call(estimate_frequency, y, fs=1e6), r["frequency"] * 1e6, "estimated frequency", rtol=1e-12)
    ctx.outcome(n, cyc)


def unit_body(ctx, n, cyc, kind, iters, a):
    """The unit of the samples does not matter, however long the record: volts, microvolts or codes of a wide converter."""
    y = tone(n, cyc / n, 1.0, 0.7, 0.25) + pert(n, kind)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        one = ctx.call(fit_sine_4param, y, max_iterations=iters)
        r = ctx.call(fit_sine_4param, y * a, max_iterations=iters)
    for key in ("amplitude", "dc_offset", "rmse"):
        ctx.close(r[key] / a, one[key], f"{key} in units of {a:g}", rtol=1e-6, atol=1e-9)
    ctx.check(abs(r["frequency"] - one["frequency"]) * n < 1e-6, f"frequency {r['frequency']} in units of {a:g}, {one['frequency']} in units of one")
    ctx.close(math.remainder(r["phase"] - one["phase"], 2 * math.pi), 0, "phase", atol=1e-5)
    ctx.close(np.asarray(r["fitted_signal"]) / a, one["fitted_signal"], "fitted record", rtol=1e-5, atol=1e-6)
    ctx.check(abs(one["amplitude"] - 1) < 0.1, f"amplitude {one['amplitude']} of a tone of size one")
    ctx.outcome(n, cyc, kind, one["n_iterations"])


def pert(n, kind):
    """Deterministic disturbances that no sine can fit."""
    i = np.arange(n)
    if kind == "alt":
        return 0.05 * (-1.0) ** i
    if kind == "step":
        return 0.04 * (i >= n // 3)
    if kind == "hash":
        return 0.1 * (((i * 2654435761) % 1000) / 1000.0 - 0.5)
    return 0.06 * np.cos(2 * np.pi * 0.31 * i + 0.4)


def opt_body(ctx, n, cyc, ph, kind, iters):
    """Least squares: the residual has no component left along any fitted direction."""
    f = cyc / n
    y = tone(n, f, 1.1, ph, -0.3) + pert(n, kind)
    start = None if iters is None else f
    r = ctx.call(fit_sine_4param, y, frequency_estimate=start, max_iterations=40 if iters is None else iters, tolerance=1e-13)
    consistent(ctx, y, r)
    t = np.arange(n)
    w = 2 * np.pi * r["frequency"]
    e = np.asarray(r["residuals"])
    dirs = [np.cos(w * t), np.sin(w * t), np.ones(n)]
    if iters != 0:
        dirs.append((t - (n - 1) / 2) / n * np.sin(w * t + r["phase"]))
    if iters in (0, None, 40):
        for j, d in enumerate(dirs):
            ctx.check(abs(e @ d) / n < 1e-6, f"residual correlates with fitted direction {j}: {e @ d / n}")
        if iters is None and not r["converged"]:
            ctx.fail("did not converge in 40 iterations")
    ctx.outcome(kind, r["rmse"], r["frequency"])


def cols_body(ctx, n, m, freq, iters):
    """Columns are fitted independently; scalars are stacked per column."""
    cyc = [[3.0, 5.2, 7.0, 4.4][i % 4] + i // 4 * 0.3 for i in range(m)]
    Y = np.column_stack([tone(n, c / n, 1 + 0.3 * i, 0.5 * i, 0.1 * i) + pert(n, "hash") for i, c in enumerate(cyc)])
    fe = None if freq is None else cyc[0] / n
    R = ctx.call(fit_sine_4param, Y, frequency_estimate=fe, max_iterations=iters)
    for key in FIELDS:
        ctx.check(key in R, f"missing {key}")
    for i in range(m):
        r = ctx.call(fit_sine_4param, Y[:, i], frequency_estimate=fe, max_iterations=iters)
        for key in FIELDS:
            col = np.asarray(R[key])
            got = col[:, i] if key in ("fitted_signal", "residuals") else col[i]
            ctx.close(got, np.asarray(r[key]), f"column {i} field {key}", rtol=1e-9, atol=1e-10)
        ctx.outcome(i, r["amplitude"])
    ctx.equal(np.asarray(R["fitted_signal"]).shape, (n, m), "fitted shape")
    ctx.equal(np.asarray(R["frequency"]).shape, (m,), "per-column values")
    e = ctx.call(estimate_frequency, Y, frequency_estimate=fe, fs=10.0)
    if iters == 1:
        ctx.close(e, np.asarray(R["frequency"]) * 10.0, "per-column frequency estimate", rtol=1e-12)


def status_body(ctx, n, cyc, off, iters, tol):
    """Convergence report: a stop below tolerance is reported as such, a stop at the limit warns."""
    f = cyc / n
    y = tone(n, f, 1.0, 0.3, 0.0) + pert(n, "hash")
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        ctx.calls += 1
        r = fit_sine_4param(y, frequency_estimate=f + off / n, max_iterations=iters, tolerance=tol)
    warned = any(issubclass(w.category, RuntimeWarning) for w in rec)
    conv = bool(r["converged"])
    ctx.check(r["n_iterations"] <= iters, "more iterations than allowed")
    if iters == 0:
        ctx.check(conv and not warned, "no refinement requested is not a failure")
    else:
        ctx.check(conv == (abs(r["last_delta_freq"]) < tol), "converged must mean the last step was below tolerance")
        ctx.check(warned == (not conv), "non-convergence must warn, convergence must not")
        ctx.check(conv or r["n_iterations"] == iters, "stopped early without converging")
    ctx.outcome(conv, r["n_iterations"])


def bad_body(ctx, shape):
    ctx.raises(ValueError, fit_sine_4param, np.zeros(shape) if shape else np.float64(1.0))


def families(tier):
    q = tier == "quick"
    ns = [24, 33, 64] if q else [24, 32, 33, 64, 101, 128]

    def cycs(c):
        n = c["n"]
        base = [x for x in range(2, n // 2 - 1)]
        if q:
            base = base[:4] + base[4:-3:5] + base[-3:]
        out = []
        for b in base:
            out += [b + d for d in ((0.0, 0.37, 0.68) if q else (0.0, 0.13, 0.37, 0.5, 0.81))
                    if 2 <= b + d <= n / 2 - 2]
        return out
    phs = [0.0, 0.7, 1.6, 3.0, -2.0] if q else [0.0, 0.4, 0.7, 1.2, 1.6, 2.3, 3.0, -0.9, -2.0, -2.8]
    return [
        Tree("fixed frequency", [("n", ns), ("cyc", cycs), ("a", [1.0, 0.01, 300.0]), ("ph", phs), ("dc", [0.0, -0.5, 2.0])], fixed_body),
        Tree("frequency search", [("n", ns), ("cyc", cycs), ("off", [None, 0.0, 0.1, -0.2, 0.3]),
                                  ("a", [1.0, 37.0]), ("ph", phs), ("dc", [0.0, 0.4])], search_body),
        Tree("least squares", [("n", ns), ("cyc", cycs), ("ph", phs), ("kind", ["alt", "step", "hash", "tone"]),
                               ("iters", [0, 40])], opt_body),
        Tree("columns", [("n", [48, 65]), ("m", [1, 2, 3, 4, 48, 70]), ("freq", [None, "first"]), ("iters", [0, 1, 3])], cols_body),
        Tree("status", [("n", ns), ("cyc", [4.0, 5.5]), ("off", [0.0, 0.05, -0.3]), ("iters", [0, 1, 2, 3, 10]),
                        ("tol", [1e-12, 1e-9, 1e-4, 1e-2])], status_body),
        Tree("refused shapes", [("shape", [(), (4, 4, 4), (2, 2, 2, 2)])], bad_body),
        Tree("default search", [("n", [64, 129, 256] if q else [64, 65, 129, 256, 500, 1024]), ("cyc", lambda c: [b + d for b in range(4, c["n"] // 2 - 4, max(1, c["n"] // (20 if q else 64))) for d in (0.0, 0.13, 0.25, 0.37, 0.45, 0.55, 0.68, 0.81) if b + d <= c["n"] / 2 - 4]),
                                ("ph", phs), ("dc", [0.0, 0.5])], default_body),
        Tree("long records", [("n", [1000, 4096, 8192, 65536]), ("cyc", lambda c: [5.0, 17.3, c["n"] / 8 + 1.37, c["n"] / 3, c["n"] / 2 - 7.6]), ("ph", phs[:3]), ("dc", [0.0, 0.5])], default_body),
        Tree("long records, fixed frequency", [("n", [1000, 4096, 8192, 65536]), ("cyc", lambda c: [5.0, 17.3, c["n"] / 8 + 1.37, c["n"] / 3, c["n"] / 2 - 7.6]), ("a", [1.0, 3e4]), ("ph", phs[:3]), ("dc", [0.0, 0.5])], fixed_body),
        Tree("units", [("n", [64, 1000, 8192, 65536] if q else [64, 1000, 4096, 8192, 65536, 262144]), ("cyc", lambda c: [5.0, 17.3, c["n"] / 8 + 1.37, c["n"] / 3, c["n"] / 2 - 7.6]), ("kind", ["hash", "tone"]),
                       ("iters", [1, 2, 20]), ("a", [1e-6, 1e-3, 2.0 ** 15, 2.0 ** 23] if q else [1e-9, 1e-6, 1e-3, 2.0 ** 8, 2.0 ** 15, 2.0 ** 23, 2.0 ** 31])], unit_body),
    ]
