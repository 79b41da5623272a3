"""A04 harmonic decomposition: exact split, true magnitudes and phases."""
import itertools, math
import numpy as np
from mc.core import Tree
from mc.checks.s01 import record, runs
from adctoolbox.fundamentals import fit_sine_4param
from adctoolbox.aout import decompose_harmonic_error, analyze_decomposition_time, analyze_decomposition_polar, decompose_harmonics

ASSUMPTIONS = ["frequency taken from the library's own fit (decided by F04) unless given; orders that alias onto each other share their content and are judged by the split only"]


def basis(n, f, order):
    t = np.arange(n)
    cols = [np.ones(n)]
    for h in range(1, order + 1):
        cols += [np.cos(2 * np.pi * f * h * t), np.sin(2 * np.pi * f * h * t)]
    return np.stack(cols, axis=1)


def wrap(a):
    return (a + math.pi) % (2 * math.pi) - math.pi


def split_body(ctx, n, pos, kind, m, order, freq, it, layout):
    x = runs(n, pos, kind, m)
    arg = x.reshape(-1, 1) if layout == "col" and m == 1 else (x.tolist() if layout == "list" else x)
    f = None if freq is None else pos / n * (1 if freq == "given" else freq)
    avg = np.atleast_2d(x).mean(axis=0)
    z = avg - avg.mean()
    fit = ctx.call(fit_sine_4param, z, frequency_estimate=f, max_iterations=it, tolerance=1e-9)
    B = basis(n, fit["frequency"], order)
    cond = np.linalg.cond(B)
    q, r = np.linalg.qr(B)
    tol = 1e-8 * max(1, np.abs(avg).max())
    R = ctx.call(decompose_harmonic_error, arg, n_harmonics=order, frequency=f, max_iterations=it)
    ctx.close(R["fundamental_freq"], fit["frequency"], "frequency", rtol=1e-12)
    tot = np.asarray(R["fundamental_signal"]) + np.asarray(R["harmonic_signal"]) + np.asarray(R["noise_residual"])
    ctx.close(tot, avg, "fundamental + harmonics + rest = signal", rtol=0, atol=tol)
    ctx.close(np.asarray(R["reconstructed_signal"]) + np.asarray(R["noise_residual"]), avg, "reconstruction + rest = signal", rtol=0, atol=tol)
    if cond < 1e6:
        w = np.linalg.solve(r, q.T @ z)
        ctx.close(R["noise_residual"], z - B @ w, "rest is orthogonal to every harmonic", rtol=0, atol=tol)
        ctx.close(R["fundamental_signal"], B[:, :3] @ w[:3] + avg.mean(), "fundamental waveform", rtol=0, atol=tol)
        ctx.close(R["harmonic_signal"], B[:, 3:] @ w[3:], "harmonic waveform", rtol=0, atol=tol)
        mags = 2 * np.hypot(w[1::2], w[2::2])
        ctx.close(R["magnitudes"], mags, "magnitudes (peak to peak)", rtol=0, atol=tol)
        ctx.close(R["magnitudes_db"], 20 * np.log10(mags / np.ptp(avg)), "magnitudes in dB", rtol=0, atol=1e-3)
        p = np.arctan2(w[2::2], w[1::2])
        for h in range(order):
            if mags[h] > 1e-4:
                ctx.check(abs(wrap(R["phases"][h] - (p[h] - p[0] * (h + 1)))) < 1e-5, f"phase of harmonic {h + 1}: {R['phases'][h]} want {wrap(p[h] - p[0] * (h + 1))}")
        ctx.check(np.all(np.abs(R["phases"]) <= math.pi + 1e-12), "phases wrapped")
        rest = z - B @ w
        rr = math.sqrt(np.mean(rest ** 2))
        if rr > 1e-9:
            ctx.close(R["residual_rms"], rr * 2 * math.sqrt(2), "residual", rtol=1e-5)
            ctx.close(R["noise_db"], 20 * math.log10(rr * 2 * math.sqrt(2) / np.ptp(avg)), "residual in dB", rtol=0, atol=1e-4)
    for fn in (analyze_decomposition_time, analyze_decomposition_polar):
        w2 = ctx.call(fn, arg, harmonic=order, frequency=f, max_iterations=it, create_plot=False)
        for k in ("magnitudes", "phases", "noise_residual", "fundamental_signal", "harmonic_signal"):
            ctx.close(w2[k], R[k], f"{fn.__name__} {k}", rtol=0, atol=1e-12)
    if m == 1 and layout == "row":
        for fr, iters in ((f, 0 if f is not None else 1),):
            t4 = ctx.call(decompose_harmonics, x, freq=fr, harmonic=order, disp=0)
            ref = ctx.call(decompose_harmonic_error, x, n_harmonics=order, frequency=fr, max_iterations=iters)
            ctx.close(t4[0], ref["fundamental_signal"], "tuple fundamental", rtol=0, atol=tol)
            ctx.close(t4[2], ref["harmonic_signal"], "tuple harmonics", rtol=0, atol=tol)
            ctx.close(t4[3], ref["noise_residual"], "tuple rest", rtol=0, atol=tol)
            ctx.close(t4[1], np.asarray(ref["harmonic_signal"]) + np.asarray(ref["noise_residual"]), "tuple total error", rtol=0, atol=tol)
    ctx.outcome(R["magnitudes"])


def truth_body(ctx, n, k, hs, ph, gain):
    """Synthetic harmonics are returned with their size and phase."""
    t = np.arange(n)
    amp = {1: 1.0, 2: 0.05, 3: 0.02, 4: 0.01, 5: 0.004}
    phs = {1: ph, 2: 1.0, 3: -2.2, 4: 0.3, 5: 3.0}
    bins = [min(h * k % n, n - h * k % n) for h in range(1, 6)]
    if len(set(bins)) < 5 or 0 in bins or 2 * max(bins) == n:
        return
    x = gain * sum(amp[h] * np.cos(2 * np.pi * ((h * k * t) % n) / n - phs[h]) for h in (1,) + hs) + 0.3
    r = ctx.call(decompose_harmonic_error, x, n_harmonics=5, frequency=k / n, max_iterations=0)
    for h in range(1, 6):
        want = 2 * gain * amp[h] if h == 1 or h in hs else 0.0
        ctx.close(r["magnitudes"][h - 1], want, f"harmonic {h}", rtol=1e-9, atol=1e-10 * gain)
        if want:
            ctx.check(abs(wrap(r["phases"][h - 1] - (phs[h] - h * phs[1]))) < 1e-8, f"phase of harmonic {h}: {r['phases'][h - 1]} want {wrap(phs[h] - h * phs[1])}")
    ctx.check(np.abs(r["noise_residual"]).max() < 1e-10 * gain, "nothing is left over")
    ctx.outcome(n, k, hs)


def families(tier):
    q = tier == "quick"
    subs = [s for r in range(5) for s in itertools.combinations((2, 3, 4, 5), r)]
    return [
        Tree("split", [("n", [48, 65] if q else [33, 48, 65, 96]), ("pos", lambda c: [3.0, 5.3, 7.0, c["n"] // 2 - 1.3]), ("kind", ["noise", "harm", "quiet"]), ("m", [1, 3]), ("order", [1, 2, 5, 7] if q else [1, 2, 3, 4, 5, 7]), ("freq", [None, "given", 0.99]), ("it", [0, 1, 5]), ("layout", ["row", "col", "list"])], split_body),
        Tree("known harmonics", [("n", [32, 35] if q else [32, 33, 35, 45, 64]), ("k", lambda c: range(1, c["n"] // 2)), ("hs", subs), ("ph", [0.0, 1.3, -3.0]), ("gain", [1.0, 2048.0])], truth_body),
        Tree("long records", [("n", [1000, 4096]), ("pos", [17.0, 40.3]), ("kind", ["noise", "harm"]), ("m", [1, 9]), ("order", [5, 12, 20]), ("freq", [None, "given"]), ("it", [0, 1]), ("layout", ["row", "col"])], split_body),
        Tree("long records, known harmonics", [("n", [1000, 4096]), ("k", [7, 61, 331, 433]), ("hs", subs), ("ph", [0.0, 1.3]), ("gain", [1.0, 2048.0])], truth_body),
    ]
