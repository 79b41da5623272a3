"""P06 old names and MATLAB-style names give what the current functions give."""
import contextlib
import io
import warnings
import numpy as np
import matplotlib.pyplot as plt
import adctoolbox as A
import adctoolbox.aout as ao
import adctoolbox.calibration as ca
import adctoolbox.common as co
import adctoolbox.dout as do
import adctoolbox.fundamentals as fu
import adctoolbox.oversampling as ov
import adctoolbox.spectrum as sp
from mc.core import Tree
from mc.ref.drawn import content
from mc.ref import registry as R

ASSUMPTIONS = ["the current functions are the reference here; their own results are judged by the other properties"]
OLD = {"sndr_db": "sndr_dbc", "sfdr_db": "sfdr_dbc", "snr_db": "snr_dbc", "thd_db": "thd_dbc", "noise_floor_db": "noise_floor_dbfs"}


def pick(r, *keys):
    return tuple(r[k] for k in keys)


def no(kw):
    return {**kw, "create_plot": False}


def cases(v):
    """name -> list of (what, old call, reference call)."""
    x, (b, w) = R.rec(v), R.bits(v)
    e = x - np.mean(x)
    f, bf = R.freq(v), R.bfreq(v)
    out = {}
    for h in (None, 3, 7):
        for kw in ({}, dict(max_harmonic=4), dict(osr=2, win_type="boxcar")):
            ref = dict(kw)
            if h is not None and "max_harmonic" not in kw:
                ref["max_harmonic"] = h
            out.setdefault("spectrum", []).append((f"n_thd={h} {kw}", lambda kw=kw, h=h: ao.analyze_spectrum(x, n_thd=h, **no(kw)), lambda ref=ref: sp.analyze_spectrum(x, **no(ref))))
    for h in (1, 3, 6):
        for fr in (None, f):
            def ref(h=h, fr=fr):
                r = ao.analyze_decomposition_time(x, harmonic=h, frequency=fr, max_iterations=1 if fr is None else 0, create_plot=False)
                return r["fundamental_signal"], np.asarray(r["harmonic_signal"]) + r["noise_residual"], r["harmonic_signal"], r["noise_residual"]
            out.setdefault("harmonics", []).append((f"harmonic={h} freq={fr}", lambda h=h, fr=fr: ao.decompose_harmonics(x, freq=fr, harmonic=h, disp=0), ref))
    for kw in ({}, dict(resolution=5), dict(resolution=9, full_scale=3.0)):
        out.setdefault("pdf", []).append((str(kw), lambda kw=kw: ao.plot_error_pdf(x, **no(kw)),
                                          lambda kw=kw: pick(ao.analyze_error_pdf(x, **no(kw)), "err_lsb", "mu", "sigma", "kl_divergence", "x", "pdf", "gauss_pdf")))
    for lag in (None, 3, 11):
        for norm in (True, False):
            kw = {} if lag is None else dict(max_lag=lag)
            out.setdefault("autocorrelation", []).append((f"{kw} {norm}", lambda kw=kw, norm=norm: ao.plot_error_autocorr(e, normalize=norm, create_plot=False, **kw),
                                                          lambda kw=kw, norm=norm: pick(ao.analyze_error_autocorr(e, normalize=norm, create_plot=False, **{"max_lag": 50, **kw}), "acf", "lags")))
    for kw in ({}, dict(fs=1e3), dict(frequency=f)):
        def ref(kw=kw):
            r = ao.analyze_error_envelope_spectrum(x, **no(kw))
            return {**r, **{o: r[n] for o, n in OLD.items()}}
        out.setdefault("envelope", []).append((str(kw), lambda kw=kw: ao.plot_envelope_spectrum(x, **no(kw)), ref))
    for n in (None, 5, 12):
        for fr in (None, f):
            kw = {} if n is None else dict(bins=n)
            out.setdefault("by phase", []).append((f"{kw} {fr}", lambda kw=kw, fr=fr: ao.plot_error_hist_phase(x, freq=fr, disp=0, **kw),
                                                   lambda n=n, fr=fr: pick(ao.analyze_error_by_phase(x, norm_freq=fr, n_bins=n or 100, create_plot=False), "bin_error_mean_v", "bin_error_rms_v", "phase_bin_centers_rad", "am_noise_rms_v", "pm_noise_rms_v", "error", "phase")))
            out.setdefault("by code", []).append((f"{kw} {fr}", lambda kw=kw, fr=fr: ao.plot_error_hist_code(x, freq=fr, disp=0, **kw)[:4],
                                                  lambda n=n, fr=fr: pick(ao.analyze_error_by_value(x, norm_freq=fr, n_bins=n or 100, create_plot=False), "error_mean", "error_rms", "bin_centers", "error")))
    out["activity"] = [("", lambda: do.check_bit_activity(b, create_plot=False), lambda: do.analyze_bit_activity(b, create_plot=False))]
    for kw in (dict(disp=False), dict(disp=0), dict(create_plot=False), dict(disp=0, ofb=2)):
        out.setdefault("overflow", []).append((str(kw), lambda kw=kw: do.check_overflow(b, w, **kw), lambda kw=kw: do.analyze_overflow(b, w, create_plot=False, **{k: z for k, z in kw.items() if k == "ofb"})))
    for ws in (w, -w, w[::-1]):
        out.setdefault("radix", []).append((str(ws), lambda ws=ws: do.plot_weight_radix(ws, create_plot=False), lambda ws=ws: do.analyze_weight_radix(ws, create_plot=False)["radix"]))
    for order in (None, 1, 3):
        for kw in ({}, dict(harmonic_order=2)):
            h = kw.get("harmonic_order", order)
            out.setdefault("calibration", []).append((f"order={order} {kw}", lambda order=order, kw=kw: do.calibrate_weight_sine(b, freq=bf, **({} if order is None else dict(order=order)), **kw),
                                                      lambda h=h: pick(ca.calibrate_weight_sine(b, freq=bf, **({} if h is None else dict(harmonic_order=h))), "weight", "offset", "calibrated_signal", "ideal", "error", "refined_frequency")))
    for kw in ({}, dict(max_iterations=4), dict(frequency_estimate=f)):
        out.setdefault("sine fit", []).append((str(kw), lambda kw=kw: co.fit_sine(x, **kw), lambda kw=kw: fu.fit_sine_4param(x, **kw)))
    for p in (None, 0.0, -3.0, -20.5):
        for osr in (1, 16):
            kw = {} if p is None else dict(signal_pwr_dbfs=p)
            ref = {} if p is None else dict(psignal_dbfs=p)
            out.setdefault("density", []).append((f"{p} {osr}", lambda kw=kw, osr=osr: (co.snr_to_nsd(60.0 + v, 1e6, osr, **kw), co.nsd_to_snr(-120.0 + v, 1e6, osr, **kw)),
                                                  lambda ref=ref, osr=osr: (fu.snr_to_nsd(60.0 + v, 1e6, osr, **ref), fu.nsd_to_snr(-120.0 + v, 1e6, osr, **ref))))
    for band in ([[0.05, 0.2]], [[0.0, 0.1], [0.3, 0.5]]):
        out.setdefault("filter", []).append((str(band), lambda band=band: ov.ifilter(x, band), lambda band=band: sp.extract_freq_components(x, band)))
    for osr in (None, [1, 2, 4], [7, 3.5, 1]):
        out.setdefault("sweep", []).append((str(osr), lambda osr=osr: ov.perfosr(x, osr=osr), lambda osr=osr: pick(sp.sweep_performance_vs_osr(x, osr=None if osr is None else np.asarray(osr, float), create_plot=False), "osr", "sndr", "sfdr", "enob")))
    for fh in (0.05, 0.25):
        out.setdefault("shaping", []).append((str(fh), lambda fh=fh: ov.ntfperf(([1, -1], [1, 0]), 0.0, fh), lambda fh=fh: ov.ntf_analyzer(([1, -1], [1, 0]), 0.0, fh)))
    return out


GROUPS = ["spectrum", "harmonics", "pdf", "autocorrelation", "envelope", "by phase", "by code", "activity", "overflow", "radix", "calibration", "sine fit", "density", "filter", "sweep", "shaping"]


def body(ctx, group, v, which):
    what, old, new = R.scaled(cases, v)[group][which]
    plt.close("all")
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        got, want = R.plain(ctx.call(old)), R.plain(new())
    d = R.differ(got, want)
    ctx.check(d is None, f"{group} {what}: the old name gives something else: {d}")
    ctx.equal(plt.get_fignums(), [], f"{group} {what}: figures opened although drawing is off")
    ctx.outcome(group, v, which)


def keys_body(ctx, fn, v, kw):
    f = {"spectrum": A.analyze_spectrum, "virtuoso": A.analyze_spectrum_virtuoso, "error spectrum": A.analyze_error_spectrum, "envelope": A.analyze_error_envelope_spectrum, "old": ao.analyze_spectrum}[fn]
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r = ctx.call(f, R.rec(v), create_plot=False, **kw)
    for o, n in OLD.items():
        ctx.check(o in r and n in r and R.differ(float(r[o]), float(r[n])) is None, f"{fn}: {o} is not {n}")
    ctx.outcome(fn, v, kw)


def draw_body(ctx, name, on):
    """The old switch for drawing: on draws one figure, off none."""
    x, (b, w) = R.rec(0), R.bits(0)
    calls = {"harmonics": lambda: ao.decompose_harmonics(x, disp=on), "by phase": lambda: ao.plot_error_hist_phase(x, bins=8, disp=on), "by code": lambda: ao.plot_error_hist_code(x, bins=8, disp=on),
             "overflow": lambda: do.check_overflow(b, w, disp=on), "sweep": lambda: ov.perfosr(x, disp=on, osr=[1, 2, 4]), "shaping": lambda: ov.ntfperf(([1, -1], [1, 0]), 0.0, 0.1, disp=on)}
    plt.close("all")
    try:
        with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            ctx.call(calls[name])
        ctx.equal(bool(plt.get_fignums()), bool(on), f"{name}: drawn with the switch at {on}")
        ctx.outcome(name, on)
    finally:
        plt.close("all")


def figures(v):
    """Pairs of old and current calls that draw the same picture."""
    x, (b, w) = R.rec(v), R.bits(v)
    f = R.freq(v)
    osr = [1, 2, 4, 8]
    out = []
    for kw in ({}, dict(logscale=False), dict(logscale=0), dict(logscale=1), dict(harmonic=3), dict(smooth=3), dict(logscale=False, harmonic=2, smooth=2)):
        new = {k: bool(z) if k == "logscale" else z for k, z in kw.items()}
        out.append((f"sweep {kw}", lambda kw=kw: ov.perfosr(x, disp=True, osr=osr, **kw), lambda new=new: sp.sweep_performance_vs_osr(x, osr=np.array(osr, float), create_plot=True, **new)))
    for fr in (None, f):
        out.append((f"harmonics {fr}", lambda fr=fr: ao.decompose_harmonics(x, freq=fr, harmonic=4), lambda fr=fr: ao.analyze_decomposition_time(x, harmonic=4, frequency=fr, max_iterations=1 if fr is None else 0, create_plot=True)))
        out.append((f"by phase {fr}", lambda fr=fr: ao.plot_error_hist_phase(x, bins=9, freq=fr), lambda fr=fr: ao.analyze_error_by_phase(x, norm_freq=fr, n_bins=9, create_plot=True)))
        out.append((f"by code {fr}", lambda fr=fr: ao.plot_error_hist_code(x, bins=9, freq=fr), lambda fr=fr: ao.analyze_error_by_value(x, norm_freq=fr, n_bins=9, create_plot=True)))
    out.append(("pdf", lambda: ao.plot_error_pdf(x, resolution=7), lambda: ao.analyze_error_pdf(x, resolution=7)))
    out.append(("autocorrelation", lambda: ao.plot_error_autocorr(x - x.mean(), max_lag=9), lambda: ao.analyze_error_autocorr(x - x.mean(), max_lag=9, normalize=True)))
    out.append(("envelope", lambda: ao.plot_envelope_spectrum(x, fs=1e3), lambda: ao.analyze_error_envelope_spectrum(x, fs=1e3)))
    out.append(("spectrum", lambda: ao.analyze_spectrum(x, n_thd=3, fs=1e3), lambda: sp.analyze_spectrum(x, max_harmonic=3, fs=1e3)))
    out.append(("activity", lambda: do.check_bit_activity(b), lambda: do.analyze_bit_activity(b)))
    for kw in ({}, dict(ofb=2)):
        out.append((f"overflow {kw}", lambda kw=kw: do.check_overflow(b, w, disp=1, **kw), lambda kw=kw: do.analyze_overflow(b, w, create_plot=True, **kw)))
    out.append(("radix", lambda: do.plot_weight_radix(w), lambda: do.analyze_weight_radix(w)))
    out.append(("shaping", lambda: ov.ntfperf(([1, -1], [1, 0]), 0.01, 0.1, disp=1), lambda: ov.ntf_analyzer(([1, -1], [1, 0]), 0.01, 0.1, is_plot=1)))
    return out


def picture_body(ctx, v, which):
    what, old, new = figures(v)[which]
    seen = []
    for call in (old, new):
        plt.close("all")
        with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            ctx.call(call)
        seen.append([[(a.get_title(), content(a)) for a in plt.figure(n).axes] for n in plt.get_fignums()])
    plt.close("all")
    ctx.check(len(seen[0]) > 0, f"{what}: nothing drawn")
    d = R.differ(R.plain(seen[0]), R.plain(seen[1]))
    ctx.check(d is None, f"{what}: old and current figure differ: {d}")
    ctx.outcome(what, v)


def export_body(ctx, mod):
    m = {"adctoolbox": A, "aout": ao, "dout": do, "spectrum": sp, "calibration": ca, "common": co, "fundamentals": fu, "oversampling": ov}[mod]
    ctx.calls += 1
    for n in m.__all__:
        ctx.check(hasattr(m, n), f"{mod}.{n} is announced but missing")
        ctx.check(callable(getattr(m, n, None)) or n.startswith("__") or type(getattr(m, n)).__name__ == "module", f"{mod}.{n} is not usable")
    ctx.outcome(mod, len(m.__all__))


def families(tier):
    return [
        Tree("old call, current call", [("group", GROUPS), ("v", [0, 1, 2, 3, 4, 5]), ("which", lambda c: range(len(R.scaled(cases, c["v"])[c["group"]])))], body),
        Tree("old keys", [("fn", ["spectrum", "virtuoso", "error spectrum", "envelope", "old"]), ("v", [0, 1, 2]), ("kw", [{}, {"fs": 1e3}])], keys_body),
        Tree("drawing switch", [("name", ["harmonics", "by phase", "by code", "overflow", "sweep", "shaping"]), ("on", [0, 1, False, True])], draw_body),
        Tree("old and current figures", [("v", [0, 1, 2]), ("which", range(len(figures(0))))], picture_body),
        Tree("announced names", [("mod", ["adctoolbox", "aout", "dout", "spectrum", "calibration", "common", "fundamentals", "oversampling"])], export_body),
    ]
