"""A03 error by value / by phase: every sample lands in exactly its bin."""
import math
import numpy as np
from mc.core import Tree
from mc.checks.s01 import record
from adctoolbox.fundamentals import fit_sine_4param
from adctoolbox.aout import (rearrange_error_by_value, analyze_error_by_value, rearrange_error_by_phase, analyze_error_by_phase,
                             plot_error_hist_code, plot_error_hist_phase)

ASSUMPTIONS = ["fitted sine taken from the library's own fit (decided by F04); samples within 1e-9 of a bin edge are left out of the judgement of their record"]
REC = {"small": (1.0, -0.3), "millivolts": (1e-3, 2e-4), "microvolts": (1e-6, 2e-7), "unipolar": (0.4, 0.35), "mostly positive": (0.2, 0.15), "small positive": (0.03, 0.06), "just above half": (0.5, -0.05), "between ranges": (0.65, -0.2), "tiny": (0.3, -0.09), "codes": (500.0, 600.0), "wide codes": (3e6, 8e6), "signed codes": (300.0, -90.0)}


def rec(n, pos, kind, unit):
    g, o = REC[unit]
    return record(n, pos, kind) * g + o


def auto_range(x):
    a = max(abs(x.min()), abs(x.max()))
    if a > 2:
        return x.min(), x.max()
    if x.mean() > 0.1:
        return 0.0, 1.0
    return (-0.5, 0.5) if a <= 0.6 else (-1.0, 1.0)


def value_body(ctx, n, pos, kind, unit, bins, clip, rng, freq, it):
    x = rec(n, pos, kind, unit)
    lo, hi = auto_range(x) if rng is None else (x.min() + rng[0] * np.ptp(x), x.min() + rng[1] * np.ptp(x))
    raw = (x - lo) * (bins - 1) / (hi - lo)
    if np.any(np.abs(raw - np.floor(raw) - 0.5) < 1e-9):
        return ctx.skip_ambiguous()
    idx = [min(max(int(math.floor(v + 0.5)), 0), bins - 1) for v in raw]
    f = None if freq is None else pos / n * freq
    fit = ctx.call(fit_sine_4param, x, frequency_estimate=f, max_iterations=it, tolerance=1e-9)
    err = x - np.asarray(fit["fitted_signal"])
    margin = int(bins * clip)
    kw = dict(norm_freq=f, n_bins=bins, clip_percent=clip, value_range=None if rng is None else (lo, hi), max_iterations=it)
    keep = [i for i, b in enumerate(idx) if margin <= b <= bins - 1 - margin]
    if margin * 2 >= bins or not keep:
        ctx.raises(ValueError, rearrange_error_by_value, x, **kw)
        return
    mean, rms, cnt = np.full(bins, np.nan), np.full(bins, np.nan), np.zeros(bins, int)
    for b in range(bins):
        e = [err[i] for i in keep if idx[i] == b]
        cnt[b] = len(e)
        if e:
            mean[b], rms[b] = math.fsum(e) / len(e), math.sqrt(math.fsum(v * v for v in e) / len(e))
    s = np.abs(err).max() * 1e-9 + np.abs(x).max() * 1e-13
    for fn, more in ((rearrange_error_by_value, {}), (analyze_error_by_value, {"create_plot": False})):
        r = ctx.call(fn, x, return_fit=True, **kw, **more)
        ctx.equal([int(v) for v in r["bin_indices"]], idx, "bin of each sample")
        ctx.equal([int(v) for v in r["count_per_bin"]], cnt.tolist(), "samples per bin")
        ctx.close(r["error_mean"], mean, "mean error per bin", rtol=1e-7, atol=s)
        ctx.close(r["error_rms"], rms, "rms error per bin", rtol=1e-7, atol=s)
        ctx.close(r["value_bin_centers"], np.array([lo + (hi - lo) * b / (bins - 1) if bins > 1 else lo for b in range(bins)]), "bin values", rtol=1e-9, atol=1e-12)
        ctx.equal([int(v) for v in r["bin_centers"]], list(range(bins)), "bin numbers")
        ctx.close(r["error"], err, "error", rtol=1e-7, atol=s)
        ctx.close(r["fit"]["frequency"], fit["frequency"], "fit diagnostics")
    if it == 1 and rng is None:
        t = ctx.call(plot_error_hist_code, x, bins=bins, freq=f, disp=0, clip_percent=clip)
        ctx.close(t[0], mean, "tuple mean", rtol=1e-7, atol=s)
        ctx.close(t[1], rms, "tuple rms", rtol=1e-7, atol=s)
    ctx.outcome(cnt.tolist())


def phase_body(ctx, n, pos, kind, unit, bins, base, freq, it):
    x = rec(n, pos, kind, unit)
    f = None if freq is None else pos / n * freq
    fit = ctx.call(fit_sine_4param, x, frequency_estimate=f, max_iterations=it, tolerance=1e-9)
    err = x - np.asarray(fit["fitted_signal"])
    ph = 2 * np.pi * fit["frequency"] * np.arange(n) + fit["phase"]
    turn = ph / (2 * np.pi)
    turn = turn - np.floor(turn)
    pos_b = turn * bins
    if np.any(np.abs(pos_b - np.round(pos_b)) < 1e-9):
        return ctx.skip_ambiguous()
    idx = np.minimum(np.floor(pos_b).astype(int), bins - 1)
    cnt, mean, rms = np.zeros(bins), np.full(bins, np.nan), np.full(bins, np.nan)
    for b in range(bins):
        e = err[idx == b]
        cnt[b] = len(e)
        if len(e):
            mean[b], rms[b] = math.fsum(e) / len(e), math.sqrt(math.fsum(e * e) / len(e))
    y = err ** 2
    c, s = np.cos(ph), np.sin(ph)
    if base:
        u = np.cos(2 * ph)
        M = np.array([[u @ u, u.sum()], [u.sum(), n]])
        A, B = np.linalg.solve(M, [u @ y, y.sum()])
        if abs(A) < 1e-6 * abs(B):
            return ctx.skip_ambiguous()
        am, pm, nz = (2 * A, 0.0, max(B - A, 0)) if A > 0 else (0.0, -2 * A, max(B + A, 0))
    else:
        M = np.array([[(c ** 2) @ (c ** 2), (c ** 2) @ (s ** 2)], [(c ** 2) @ (s ** 2), (s ** 2) @ (s ** 2)]])
        am, pm = np.linalg.solve(M, [(c ** 2) @ y, (s ** 2) @ y])
        am, pm, nz = max(am, 0), max(pm, 0), 0.0
    t = np.abs(err).max()
    # how much of the squared error, sample by sample and bin by bin, the model explains
    if base:
        model = A * u + B
    else:
        a2, p2 = np.linalg.solve(M, [(c ** 2) @ y, (s ** 2) @ y])
        model = a2 * c ** 2 + p2 * s ** 2
    var = np.sum((y - y.mean()) ** 2)
    r_raw = 1 - np.sum((y - model) ** 2) / var if var > 1e-10 * (y @ y) else None
    ok = cnt > 0
    mid = (np.arange(bins)[ok] + 0.5) * 2 * np.pi / bins
    sq = rms[ok] ** 2
    res = np.sum((sq - am * np.cos(mid) ** 2 - pm * np.sin(mid) ** 2 - nz) ** 2)
    var_b, flat = np.sum((sq - sq.mean()) ** 2), 0.01 * sq.mean() ** 2 * len(sq)
    r_bin = 0.0 if len(sq) < 3 else 1 - res / var_b if var_b > 1.001 * flat else max(0.0, 1 - res / len(sq) / sq.mean() ** 2) if var_b < 0.999 * flat else None
    if math.sqrt(np.mean(y)) < 1e-8 * fit["amplitude"]:
        r_raw = r_bin = None                    # nothing but rounding
    for fn, more in ((rearrange_error_by_phase, {}), (analyze_error_by_phase, {"create_plot": False})):
        r = ctx.call(fn, x, norm_freq=f, n_bins=bins, include_base_noise=base, max_iterations=it, **more)
        ctx.close(r["bin_counts"], cnt, "samples per phase bin")
        ctx.close(r["bin_error_mean_v"], mean, "mean error per phase", rtol=1e-6, atol=t * 1e-8)
        ctx.close(r["bin_error_rms_v"], rms, "rms error per phase", rtol=1e-6, atol=t * 1e-8)
        ctx.close(r["phase_bin_centers_rad"], (np.arange(bins) + 0.5) * 2 * np.pi / bins, "bin centres", rtol=1e-9)
        # squared quantities: small ones are differences of large ones
        for key, want in (("am_noise_rms_v", am), ("pm_noise_rms_v", pm), ("base_noise_rms_v", nz)):
            ctx.close(r[key] ** 2, want, key + " squared", rtol=1e-6, atol=t * t * 1e-9)
        ctx.close(r["total_rms_v"], math.sqrt(np.mean(y)), "total rms", rtol=1e-7, atol=t * 1e-9)
        ctx.close(r["pm_noise_rms_rad"], r["pm_noise_rms_v"] / fit["amplitude"], "phase noise in radians", rtol=1e-7, atol=1e-15)
        ctx.close(r["am_relative"], r["am_noise_rms_v"] / fit["amplitude"], "relative AM", rtol=1e-7, atol=1e-15)
        ctx.close(r["amplitude"], fit["amplitude"], "amplitude")
        ctx.close(r["error"], err, "error", rtol=1e-7, atol=t * 1e-9)
        if r_raw is not None:
            ctx.close(r["r_squared_raw"], r_raw, "part of the squared error explained", rtol=1e-6, atol=1e-6)
        if r_bin is not None:
            ctx.close(r["r_squared_binned"], r_bin, "part of the binned trend explained", rtol=1e-5, atol=1e-6)
    if it == 1 and base:
        q = ctx.call(plot_error_hist_phase, x, bins=bins, freq=f, disp=0)
        ctx.close(q[0], mean, "tuple mean", rtol=1e-6, atol=t * 1e-8)
        ctx.close(q[1], rms, "tuple rms", rtol=1e-6, atol=t * 1e-8)
    ctx.outcome(cnt.tolist(), am > 0, pm > 0)


def known_body(ctx, n, k, am, pm, base):
    """Known error shapes: +-am*cos(phase) is amplitude noise, +-pm*sin(phase) is phase noise."""
    t = np.arange(n)
    ph = 2 * np.pi * k * t / n + 0.4
    sgn = np.where((t * 7919 % 101) % 2 == 0, 1.0, -1.0)
    if n < 256:
        return
    x = np.cos(ph) + am * sgn * np.cos(ph) + pm * sgn * np.sin(ph)
    r = ctx.call(rearrange_error_by_phase, x, norm_freq=k / n, max_iterations=0, include_base_noise=base)
    tot = math.hypot(am, pm)
    if pm == 0:
        ctx.close(r["am_noise_rms_v"], am, "amplitude noise", rtol=0.1)
        ctx.check(r["pm_noise_rms_v"] < 0.25 * tot, f"phase noise {r['pm_noise_rms_v']} reported for pure amplitude noise {am}")
    else:
        ctx.close(r["pm_noise_rms_v"], pm, "phase noise", rtol=0.1)
        ctx.check(r["am_noise_rms_v"] < 0.25 * tot, f"amplitude noise {r['am_noise_rms_v']} reported for pure phase noise {pm}")
    ctx.outcome(n, k, am, pm)


def refuse_body(ctx, case):
    x = rec(64, 5.0, "noise", "small")
    a, kw = {"empty": (np.array([]), {}), "nan": (np.array([1.0, np.nan, 2.0]), {}), "bins0": (x, dict(n_bins=0)), "bins1.5": (x, dict(n_bins=1.5)), "clip-": (x, dict(clip_percent=-0.1)),
             "clip nan": (x, dict(clip_percent=float("nan"))), "clip half": (x, dict(clip_percent=0.5)), "range1": (x, dict(value_range=(1,))), "range rev": (x, dict(value_range=(1, 0))), "range nan": (x, dict(value_range=(0, float("nan"))))}[case]
    ctx.raises(ValueError, rearrange_error_by_value, a, **kw)
    ctx.raises(ValueError, analyze_error_by_value, a, create_plot=False, **kw)


def families(tier):
    q = tier == "quick"
    ns = [33, 64] if q else [24, 33, 64, 101]
    ps = [3.0, 5.3] if q else [3.0, 5.3, 7.0, 9.7]
    ks = ["noise", "harm"]
    return [
        Tree("by value", [("n", ns), ("pos", ps), ("kind", ks), ("unit", list(REC)), ("bins", [1, 2, 7, 16, 100] if q else [1, 2, 3, 7, 16, 64, 100, 200]), ("clip", [0.0, 0.01, 0.2, 0.45]), ("rng", [None, (0.0, 1.0), (0.2, 0.9), (-0.3, 1.4)]), ("freq", [None, 1.0]), ("it", [1] if q else [0, 1, 5])], value_body),
        Tree("by phase", [("n", ns), ("pos", ps), ("kind", ks), ("unit", list(REC)), ("bins", [1, 2, 7, 16, 100]), ("base", [True, False]), ("freq", [None, 1.0]), ("it", [1] if q else [0, 1, 5])], phase_body),
        Tree("given frequency, by value", [("n", ns + [4096]), ("pos", [2.0, 3.3]), ("kind", ks), ("unit", ["small", "codes"]), ("bins", [16]), ("clip", [0.0]), ("rng", [None, (0.0, 1.0)]), ("freq", [0.98, 1.0, 1.01]), ("it", [0, 1, 2])], value_body),
        Tree("given frequency, by phase", [("n", ns + [4096]), ("pos", [2.0, 3.3]), ("kind", ks), ("unit", ["small", "codes"]), ("bins", [16]), ("base", [True, False]), ("freq", [0.98, 1.0, 1.01]), ("it", [0, 1, 2])], phase_body),
        Tree("known noise", [("n", [512, 1009]), ("k", [31, 67, 151]), ("am", [0.0, 1e-3, 0.02]), ("pm", lambda c: [1e-3, 0.02] if c["am"] == 0 else [0.0]), ("base", [True, False])], known_body),
        Tree("refused", [("case", ["empty", "nan", "bins0", "bins1.5", "clip-", "clip nan", "clip half", "range1", "range rev", "range nan"])], refuse_body),
        Tree("long records", [("n", [1000, 4096, 8192]), ("pos", [17.0, 40.3]), ("kind", ks), ("unit", ["small", "codes"]), ("bins", [100, 500]), ("clip", [0.0, 0.01]), ("rng", [None, (-0.3, 1.4)]), ("freq", [None, 1.0]), ("it", [1])], value_body),
        Tree("long records, by phase", [("n", [1000, 4096, 8192]), ("pos", [17.0, 40.3]), ("kind", ks), ("unit", ["small", "codes", "millivolts", "wide codes"]), ("bins", [100, 500]), ("base", [True, False]), ("freq", [None, 1.0]), ("it", [1])], phase_body),
    ]
