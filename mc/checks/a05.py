"""A05 residual statistics: distribution, autocorrelation, spectrum and envelope of the fit error."""
import math
import numpy as np
from mc.core import Tree
from mc.checks.s01 import record, METRICS
from mc.ref import spectrum as R
from adctoolbox.fundamentals import fit_sine_4param
from adctoolbox.aout import (analyze_error_pdf, analyze_error_autocorr, analyze_error_spectrum, analyze_error_envelope_spectrum,
                             plot_error_pdf, plot_error_autocorr, plot_envelope_spectrum)

ASSUMPTIONS = ["fitted sine taken from the library's own fit (decided by F04)"]


def err_of(ctx, x, f, it):
    fit = ctx.call(fit_sine_4param, x, frequency_estimate=f, max_iterations=it, tolerance=1e-9)
    return x - np.asarray(fit["fitted_signal"]), fit


def pdf_body(ctx, n, pos, kind, gain, res, fs, freq, it):
    x = record(n, pos, kind) * gain
    f = None if freq is None else pos / n * (1 if freq == "given" else freq)
    e, fit = err_of(ctx, x, f, it)
    full = np.ptp(x) if fs is None else fs * gain
    v = e / (full / 2 ** res)
    mu = math.fsum(v) / n
    sd = math.sqrt(math.fsum((v - mu) ** 2) / (n - 1))
    h = 1.06 * sd * n ** -0.2
    top = max(0.5, np.abs(v).max())
    r = ctx.call(analyze_error_pdf, x, resolution=res, full_scale=None if fs is None else full, frequency=f, create_plot=False, max_iterations=it, return_fit=True)
    ctx.close(r["err_lsb"], v, "error in LSB", rtol=1e-7, atol=1e-9 * np.abs(v).max())
    ctx.close(r["mu"], mu, "mean", rtol=1e-6, atol=1e-9 * sd)
    ctx.close(r["sigma"], sd, "standard deviation", rtol=1e-9)
    xs = np.asarray(r["x"])
    ctx.close(xs, np.array([-top + 2 * top * i / 199 for i in range(200)]), "axis", rtol=1e-7, atol=1e-7 * top)
    k = np.array([np.mean(np.exp(-0.5 * ((a - v) / h) ** 2)) / (h * math.sqrt(2 * math.pi)) for a in xs])
    g = np.exp(-(xs - mu) ** 2 / (2 * sd ** 2)) / (sd * math.sqrt(2 * math.pi))
    ctx.close(r["pdf"], k, "kernel density", rtol=1e-6, atol=1e-12 / h)
    ctx.close(r["gauss_pdf"], g, "normal density", rtol=1e-6, atol=1e-12 / sd)
    eps = np.finfo(float).eps
    kl = np.sum((k + eps) * np.log((k + eps) / (g + eps))) * (xs[1] - xs[0])
    ctx.close(r["kl_divergence"], kl, "divergence from normal", rtol=1e-5, atol=1e-8)
    ctx.close(r["fit"]["frequency"], fit["frequency"], "fit diagnostics")
    t = ctx.call(plot_error_pdf, x, resolution=res, full_scale=None if fs is None else full, frequency=f, create_plot=False, max_iterations=it)
    for a, key in zip(t, ("err_lsb", "mu", "sigma", "kl_divergence", "x", "pdf", "gauss_pdf")):
        ctx.close(a, r[key], f"tuple {key}", rtol=1e-12)
    ctx.outcome(r["sigma"], r["kl_divergence"])


def acf_body(ctx, n, pos, kind, lag, norm, freq, it):
    x = record(n, pos, kind)
    f = None if freq is None else pos / n * (1 if freq == "given" else freq)
    e, fit = err_of(ctx, x, f, it)
    d = e - e.mean()
    want = []
    for L in range(-lag, lag + 1):
        a = abs(L)
        want.append(math.fsum(d[i] * d[i + a] for i in range(n - a)) / (n - a))
    want = np.array(want)
    if norm:
        want = want / want[lag]
    r = ctx.call(analyze_error_autocorr, x, frequency=f, max_lag=lag, normalize=norm, create_plot=False, max_iterations=it)
    ctx.equal([int(v) for v in r["lags"]], list(range(-lag, lag + 1)), "lags")
    s = np.abs(want).max()
    ctx.close(r["acf"], want, "autocorrelation", rtol=1e-6, atol=s * 1e-8)
    ctx.close(np.asarray(r["acf"])[::-1], r["acf"], "autocorrelation is even", rtol=1e-9, atol=s * 1e-12)
    ctx.close(r["error_signal"], e, "error", rtol=1e-7, atol=1e-10)
    t = ctx.call(plot_error_autocorr, x, max_lag=lag, normalize=norm, frequency=f, create_plot=False, max_iterations=it)
    ctx.close(t[0], r["acf"], "tuple", rtol=1e-12)
    ctx.close(t[1], r["lags"], "tuple lags")
    ctx.outcome(want[:3])


def hilbert_env(e):
    n = len(e)
    t = np.arange(n)
    k = np.arange(n)
    if n > 600:
        g = np.where((k == 0) | (2 * k == n), 1.0, np.where(2 * k < n, 2.0, 0.0))
        return np.abs(np.fft.ifft(np.fft.fft(e) * g))
    F = np.exp(-2j * np.pi * (np.outer(k, t) % n) / n)
    X = F @ e
    g = np.where((k == 0) | (2 * k == n), 1.0, np.where(2 * k < n, 2.0, 0.0))
    return np.abs(np.conj(F.T) @ (X * g)) / n


def spec_body(ctx, n, pos, kind, fs, freq, it):
    x = record(n, pos, kind)
    f = None if freq is None else pos / n * (1 if freq == "given" else freq)
    e, fit = err_of(ctx, x, f, it)
    a = ctx.call(analyze_error_spectrum, x, fs=fs, frequency=f, create_plot=False, max_iterations=it, return_fit=True)
    ctx.close(a["error_signal"], e, "error", rtol=1e-7, atol=1e-10)
    ctx.close(a["fit"]["frequency"], fit["frequency"], "fit diagnostics")
    b = ctx.call(analyze_error_envelope_spectrum, x, fs=fs, frequency=f, create_plot=False, max_iterations=it)
    env = hilbert_env(e)
    ctx.close(b["envelope"], env, "envelope", rtol=1e-6, atol=1e-9)
    ctx.check(np.all(np.asarray(b["envelope"]) >= np.abs(e) - 1e-9), "the envelope bounds the error")
    c = ctx.call(plot_envelope_spectrum, x, fs=fs, frequency=f, create_plot=False, max_iterations=it)
    for got, sig, what in ((a, e, "error spectrum"), (b, env, "envelope spectrum"), (c, env, "old-name envelope spectrum")):
        try:
            ref = R.spectrum(sig, fs=fs)["metrics"]
        except R.Tie:
            ctx.skip_ambiguous()
            continue
        for k in METRICS:
            ctx.close(got[k], ref[k], f"{what}: {k}", rtol=0, atol=1e-4)
        for old, new in (("sndr_db", "sndr_dbc"), ("sfdr_db", "sfdr_dbc"), ("snr_db", "snr_dbc"), ("thd_db", "thd_dbc")):
            ctx.close(got[old], got[new], f"{what}: {old}", rtol=0, atol=0)
    ctx.outcome(a["sndr_dbc"], b["sndr_dbc"])


def families(tier):
    q = tier == "quick"
    ns = [48, 65] if q else [33, 48, 65, 96, 128]
    ps = [3.0, 5.3] if q else [3.0, 5.3, 7.0, 11.8]
    ks = ["noise", "harm"] if q else ["noise", "harm", "quiet", "loud"]
    its = [1] if q else [0, 1, 5]
    off = [("freq", [0.98, 1.01]), ("it", [0, 1])]
    return [
        Tree("rough frequency, distribution", [("n", ns + [2000]), ("pos", [2.0, 5.3]), ("kind", ["noise"]), ("gain", [1.0]), ("res", [8]), ("fs", [None])] + off, pdf_body),
        Tree("rough frequency, autocorrelation", [("n", ns + [2000]), ("pos", [2.0, 5.3]), ("kind", ["noise"]), ("lag", [5]), ("norm", [True, False])] + off, acf_body),
        Tree("rough frequency, spectra", [("n", ns + [2000]), ("pos", [2.0, 5.3]), ("kind", ["noise"]), ("fs", [1e6])] + off, spec_body),
        Tree("distribution", [("n", ns), ("pos", ps), ("kind", ks), ("gain", [1.0, 300.0, 1e-5]), ("res", [4, 8, 12, 20]), ("fs", [None, 2.0]), ("freq", [None, "given"]), ("it", its)], pdf_body),
        Tree("autocorrelation", [("n", ns), ("pos", ps), ("kind", ks), ("lag", [0, 1, 5, 20] if q else [0, 1, 2, 5, 20, 30]), ("norm", [True, False]), ("freq", [None, "given"]), ("it", its)], acf_body),
        Tree("spectra", [("n", ns), ("pos", ps), ("kind", ks), ("fs", [1, 1e6]), ("freq", [None, "given"]), ("it", its)], spec_body),
        Tree("long records", [("n", [1000, 4096, 12001]), ("pos", [17.0, 40.3]), ("kind", ks), ("gain", [1.0, 3000.0]), ("res", [8, 16]), ("fs", [None, 2.0]), ("freq", [None, "given"]), ("it", [1])], pdf_body),
        Tree("long records, autocorrelation", [("n", [1000, 4096, 8192]), ("pos", [17.0, 40.3]), ("kind", ks), ("lag", [50, 100, 300]), ("norm", [True, False]), ("freq", [None, "given"]), ("it", [1])], acf_body),
        Tree("long records, spectra", [("n", [1000, 4096, 8192]), ("pos", [17.0, 40.3]), ("kind", ks), ("fs", [1, 1e6]), ("freq", [None, "given"]), ("it", [1])], spec_body),
    ]
