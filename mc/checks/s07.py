"""S07 every spectrum entry point gives the same figures for the same analysis."""
import numpy as np
from mc.core import Tree
from mc.ref import spectrum as R
from mc.checks.s01 import record, runs, METRICS
import adctoolbox
import adctoolbox.aout as aout
from adctoolbox.spectrum import (compute_spectrum, analyze_spectrum, analyze_spectrum_virtuoso, analyze_spectrum_polar, quick_sndr)

ASSUMPTIONS = ["records from the S01 alphabet"]
LEGACY = {"sndr_db": "sndr_dbc", "sfdr_db": "sfdr_dbc", "snr_db": "snr_dbc", "thd_db": "thd_dbc", "noise_floor_db": "noise_floor_dbfs"}


def eq(ctx, a, b, what):
    for k in METRICS:
        ctx.close(b[k], a[k], f"{what}: {k}", rtol=0, atol=1e-9)
    ctx.close(b["harmonics_dbc"], a["harmonics_dbc"], f"{what}: harmonics_dbc", rtol=0, atol=1e-9)


def entry_body(ctx, n, pos, m, win, side, osr, mh, nf, coh):
    x = runs(n, pos, "harm", m)
    kw = dict(fs=3.0, osr=osr, side_bin=side, max_harmonic=mh, nf_method=nf, coherent_averaging=coh)
    wk = {} if win is None else {"win_type": win}
    base = ctx.call(compute_spectrum, x, win_type=win or "hann", **kw)["metrics"]
    a = ctx.call(analyze_spectrum, x, create_plot=False, **kw, **wk)
    eq(ctx, base, a, "analyze_spectrum")
    for old, new in LEGACY.items():
        ctx.close(a[old], a[new], f"old name {old}", rtol=0)
    o = ctx.call(aout.analyze_spectrum, x, create_plot=False, **kw, **wk)
    eq(ctx, base, o, "aout.analyze_spectrum")
    k2 = dict(kw)
    k2.pop("max_harmonic")
    o = ctx.call(aout.analyze_spectrum, x, n_thd=mh, create_plot=False, **k2, **wk)
    eq(ctx, base, o, "aout.analyze_spectrum(n_thd)")
    for old, new in LEGACY.items():
        ctx.close(o[old], o[new], f"old name {old}", rtol=0)
    v = ctx.call(analyze_spectrum_virtuoso, x, create_plot=False, **kw, **wk)
    vb = base if win else ctx.call(compute_spectrum, x, win_type="rectangular", **kw)["metrics"]
    eq(ctx, vb, v, "analyze_spectrum_virtuoso")
    t = ctx.call(adctoolbox.analyze_spectrum, x, create_plot=False, **kw, **wk)
    eq(ctx, base, t, "adctoolbox.analyze_spectrum")
    ctx.outcome(base["sndr_dbc"], base["thd_dbc"])


def polar_body(ctx, n, pos, m, win, osr, harmonic, code, cut):
    x = runs(n, pos, "harm", m)
    kw = {} if win is None else {"win_type": win}
    p = ctx.call(analyze_spectrum_polar, x, max_code=code, harmonic=harmonic, osr=osr, cutoff_freq=cut, fs=2.0, create_plot=False, **kw)
    b = ctx.call(compute_spectrum, x, fs=2.0, max_scale_range=code, osr=osr, cutoff_freq=cut, win_type=win or "boxcar",
                 coherent_averaging=True, max_harmonic=max(3, harmonic))["metrics"]
    eq(ctx, b, p, "analyze_spectrum_polar")
    ctx.outcome(b["sndr_dbc"])


def quick_body(ctx, n, pos, kind, win, side, rng, m):
    x = runs(n, pos, kind, m)
    s = side if side is not None else R.MAINLOBE[R.win_name(win)]
    a = ctx.call(analyze_spectrum, x, win_type=win, side_bin=s, max_scale_range=rng, create_plot=False)
    b = ctx.call(quick_sndr, x, win_type=win, side_bin=side, max_scale_range=rng)
    ctx.close(b["sndr_dbc"], a["sndr_dbc"], "quick SNDR", rtol=0, atol=1e-9)
    ctx.close(b["enob"], a["enob"], "quick ENOB", rtol=0, atol=1e-9)
    c = ctx.call(quick_sndr, x, fs=7.0, win_type=win, side_bin=side, max_scale_range=rng)
    ctx.close(c["sndr_dbc"], b["sndr_dbc"], "quick SNDR independent of the rate", rtol=0, atol=1e-9)
    try:
        ref = R.spectrum(x, win_type=win, side_bin=s, max_scale_range=rng)
        ctx.close(b["sndr_dbc"], ref["metrics"]["sndr_dbc"], "quick SNDR by definition", rtol=0, atol=2e-6)
    except R.Tie:
        ctx.skip_ambiguous()
    ctx.outcome(b["sndr_dbc"])


def families(tier):
    q = tier == "quick"
    ns = [24, 33] if q else [24, 33, 64]
    wins = ["hann", "rectangular", "hamming", "blackman", "blackmanharris", "flattop", "kaiser", "chebwin", "Boxcar", "unknown"]
    return [
        Tree("entry points", [("n", ns), ("pos", [3.0, 5.3]), ("m", [1, 2]), ("win", [None, "hann", "rectangular", "flattop"]), ("side", [None, 1]),
                              ("osr", [1, 2]), ("mh", [3, 5, 7]), ("nf", [0, 4] if q else range(5)), ("coh", [False, True])], entry_body),
        Tree("polar", [("n", ns), ("pos", [3.0, 5.3]), ("m", [1, 2]), ("win", [None, "hann", "flattop"]), ("osr", [1, 2]), ("harmonic", [1, 2, 3, 5, 8]),
                       ("code", [None, 2.0]), ("cut", [0, 0.05])], polar_body),
        Tree("quick SNDR", [("n", ns), ("pos", [1.0, 3.0, 5.3, 11.0]), ("kind", ["noise", "harm", "loud"]), ("win", wins), ("side", [None, 0, 1, 3]),
                            ("rng", [None, 1.0, (-1.0, 2.0)]), ("m", [1, 2])], quick_body),
        Tree("long records", [("n", [1000, 4096]), ("pos", [37.0, 101.3]), ("m", [1, 9]), ("win", [None, "rectangular"]), ("side", [None, 1]), ("osr", [1, 16]), ("mh", [5, 12]), ("nf", [0, 4]), ("coh", [False, True])], entry_body),
        Tree("long records, polar", [("n", [1000, 4096]), ("pos", [37.0, 101.3]), ("m", [1, 9]), ("win", [None, "hann"]), ("osr", [1, 2]), ("harmonic", [5, 12]), ("code", [None, 2.0]), ("cut", [0, 0.05])], polar_body),
        Tree("long records, quick SNDR", [("n", [1000, 4096, 65536]), ("pos", [37.0, 101.3]), ("kind", ["noise", "harm"]), ("win", ["hann", "rectangular", "blackmanharris", "kaiser"]), ("side", [None, 4]), ("rng", [None, (-1.0, 2.0)]), ("m", [1, 9])], quick_body),
    ]
