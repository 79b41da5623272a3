"""P08 a setting left out means its documented default."""
import contextlib
import io
import itertools
import logging
import os
import tempfile
import numpy as np
import matplotlib.pyplot as plt
import adctoolbox as A
import adctoolbox.aout as ao
import adctoolbox.spectrum as sp
import adctoolbox.toolset as ts
from adctoolbox.siggen import ADC_Signal_Generator
from mc.core import Tree
from mc.ref import registry as R
from mc.ref.defaults import DEFAULTS, METHODS
from mc.ref.drawn import content

ASSUMPTIONS = ["documented defaults are the table in mc/ref/defaults.py, taken from the documentation and signatures of the pinned tree",
               "random generator settings are compared with the same seed before both calls"]

logging.getLogger("matplotlib.font_manager").setLevel(logging.ERROR)
KEEP = {"analyze_inl_from_ramp": {"code_min"}, "compute_inl_from_ramp": {"code_min"}, "old spectrum": {"create_plot"}}
POLAR = {"analyze_spectrum_polar", "analyze_decomposition_polar"}
SILENT = {"title", "col_title", "alpha"}


def observe(ctx, fn, args, kw, polar=False):
    """Result, printed text and everything drawn by one call."""
    plt.close("all")
    np.random.seed(7)
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out):
            if polar:
                plt.figure()
                plt.subplot(projection="polar")
            r = R.plain(ctx.call(fn, *args, **kw))
        drawn = [[dict(content(a), title=a.get_title()) for a in plt.figure(n).axes] for n in plt.get_fignums()]
    finally:
        plt.close("all")
    return {"result": r, "printed": out.getvalue(), "drawn": R.plain(drawn)}


def same(ctx, a, b, what):
    d = R.differ(a, b)
    ctx.check(d is None, f"{what}: {d}")


def compare(ctx, fn, args, given, left, polar, what):
    """given: settings that stay; left: defaults of the settings left out in one of the two calls."""
    a = observe(ctx, fn, args, given, polar)
    b = observe(ctx, fn, args, {**given, **left}, polar)
    same(ctx, a, b, f"{what} left out differs from {', '.join(f'{k}={v!r}' for k, v in left.items())}")


def body(ctx, op, v, how, which):
    fn, args, kw = R.CALC[op](v)
    table = DEFAULTS[op]
    if op in R.PLOT:                                   # draw as the function does by itself
        kw = {k: x for k, x in kw.items() if k != R.PLOT[op][2]}
    if how == "bare":
        kw = {k: x for k, x in kw.items() if k not in table or k in KEEP.get(op, ())}
    free = {k: x for k, x in table.items() if k not in kw}
    if which is None:
        compare(ctx, fn, args, kw, free, op in POLAR, "every setting")
    elif which in free:
        rest = {k: x for k, x in free.items() if k != which}
        compare(ctx, fn, args, {**kw, **rest}, {which: free[which]}, op in POLAR, which)
    else:
        return
    ctx.outcome(op, v, how, which)


def method_body(ctx, name, v, signal, which):
    g = ADC_Signal_Generator(N=(64, 4096)[v], Fs=(1e9, 8e8)[v], Fin=(3.0 / 64 * 1e9, 8e8 * 401 / 4096)[v], A=0.49, DC=0.5)
    x = None if not signal else g.get_clean_signal()
    args = () if x is None else (x,)
    d = METHODS[name]
    keep = {} if which is None else {k: w for k, w in d.items() if k != which}
    compare(ctx, getattr(g, name), args, keep, d if which is None else {which: d[which]}, False, which or "every setting")
    if x is not None and name != "apply_jitter":          # without a signal jitter samples the exact sine, with one it follows the slope
        np.random.seed(7)
        a = ctx.call(getattr(g, name))
        np.random.seed(7)
        same(ctx, R.plain(a), R.plain(ctx.call(getattr(g, name), g.get_clean_signal())), "the signal left out differs from the clean signal")
    ctx.outcome(name, v, signal, which)


def small():
    """Further functions with settings: name -> (callable, arguments, defaults)."""
    r = R.rec(0)
    spec = sp.compute_spectrum(r, max_harmonic=7)
    pol = sp.compute_spectrum(r, max_harmonic=7, coherent_averaging=True)
    dec = ao.decompose_harmonic_error(r)
    code, dnl = np.arange(5), np.array([0.1, -0.2, 0.0, 0.3, -0.1])
    shown = dict(show_title=True, show_label=True, plot_harmonics_up_to=3, ax=None)
    return {
        "snr_to_nsd": (A.snr_to_nsd, (70.0, 1e6), dict(osr=1.0, psignal_dbfs=0.0)), "nsd_to_snr": (A.nsd_to_snr, (-140.0, 1e6), dict(osr=1.0, psignal_dbfs=0.0)),
        "dbm_to_vrms": (A.dbm_to_vrms, (3.0,), dict(z_load=50)), "vrms_to_dbm": (A.vrms_to_dbm, (0.3,), dict(z_load=50)),
        "sine_amplitude_to_power": (A.sine_amplitude_to_power, (0.7,), dict(z_load=50)), "calculate_thermal_noise_limit": (A.calculate_thermal_noise_limit, (1.5,), dict(v_fs=1.0)),
        "ntfperf": (A.ntfperf, (([1, -1], [1, 0]), 0.0, 0.1), dict(disp=False)), "sar_ideal_weights": (A.sar_ideal_weights, (6,), dict(redundant_bit=None)),
        "plot_error_autocorr": (ao.plot_error_autocorr, (r,), dict(max_lag=50, normalize=True)),
        "plot_rearranged_error_by_value": (ao.plot_rearranged_error_by_value, (ao.rearrange_error_by_value(r, n_bins=9),), dict(axes=None, ax=None, title=None)),
        "plot_rearranged_error_by_phase": (ao.plot_rearranged_error_by_phase, (ao.rearrange_error_by_phase(r, n_bins=9),), dict(axes=None, ax=None, title=None)),
        "plot_decomposition_time": (ao.plot_decomposition_time, (dec, r), dict(n_cycles=1.5, axes=None, ax=None, title=None)),
        "plot_decomposition_polar": (ao.plot_decomposition_polar, (dec,), dict(harmonic=5, ax=None, title=None)),
        "plot_dnl_inl": (ao.plot_dnl_inl, (code, dnl, np.cumsum(dnl)), dict(num_bits=None, show_title=True, col_title=None, axes=None, ax=None, color_dnl="b", color_inl="b", inl_code=None)),
        "plot_spectrum": (sp.plot_spectrum, (spec,), shown), "plot_spectrum_virtuoso": (sp.plot_spectrum_virtuoso, (spec,), dict(baseline_db=None, **shown)),
        "plot_spectrum_polar": (sp.plot_spectrum_polar, (pol,), dict(show_metrics=True, harmonic=5, fixed_radial_range=None, ax=None)),
    }


SMALL = None


def small_body(ctx, name, which):
    fn, args, d = SMALL[name]
    keep = {} if which is None else {k: w for k, w in d.items() if k != which}
    compare(ctx, fn, args, keep, d if which is None else {which: d[which]}, name in ("plot_spectrum_polar", "plot_decomposition_polar"), which or "every setting")
    ctx.outcome(name, which)


BOARDS = {"aout": (ts.generate_aout_dashboard, lambda: (R.rec(0),), dict(fs=1.0, freq=None, resolution=12)),
          "dout": (ts.generate_dout_dashboard, lambda: (R.bits(0)[0],), dict(freq=None, weights=None, show=False))}


def board_body(ctx, board, which):
    fn, args, d = BOARDS[board]
    keep = {} if which is None else {k: w for k, w in d.items() if k != which}
    with tempfile.TemporaryDirectory(dir=os.environ.get("MPLCONFIGDIR")) as tmp:
        here = os.getcwd()
        os.chdir(tmp)
        try:
            compare(ctx, lambda *a, **k: fn(*a, **k) and None, args(), keep, d if which is None else {which: d[which]}, False, which or "every setting")
        finally:
            os.chdir(here)
    ctx.outcome(board, which)


def families(tier):
    global SMALL
    q = tier == "quick"
    SMALL = SMALL or small()
    ops = [o for o in R.CALC if o in DEFAULTS]
    each = lambda c: [None] + [k for k in DEFAULTS[c["op"]] if k not in SILENT]
    return [
        Tree("analyses", [("op", ops), ("v", [0, 1, 2]), ("how", ["as listed", "bare"]), ("which", each)], body),
        Tree("analyses of long records", [("op", ops), ("v", [3]), ("how", ["as listed", "bare"]), ("which", each)], body),
        Tree("signal generator", [("name", list(METHODS)), ("v", [0, 1]), ("signal", [False, True]), ("which", lambda c: [None] + list(METHODS[c["name"]]))], method_body),
        Tree("conversions and plots", [("name", list(SMALL)), ("which", lambda c: [None] + [k for k in SMALL[c["name"]][2] if k not in SILENT])], small_body),
        Tree("dashboards", [("board", list(BOARDS)), ("which", lambda c: [None] + ([] if q else list(BOARDS[c["board"]][2])))], board_body),
    ]
