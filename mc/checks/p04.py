"""P04 figures show the numbers the analyses return."""
import contextlib
import inspect
import io
import itertools
import logging
import re
import warnings
import numpy as np
import matplotlib.pyplot as plt
import adctoolbox.oversampling as ov
import adctoolbox.spectrum as sp
from matplotlib.collections import LineCollection
from mc.core import Tree
from mc.ref import registry as R
from mc.ref.drawn import content
from mc.checks.p01 import changes

ASSUMPTIONS = ["a curve counts as shown when one drawn line, bar group or point cloud has its coordinates; colours, fonts and placement of text boxes are not judged",
               "printed numbers must agree with the returned ones to the digits printed"]

logging.getLogger("matplotlib.font_manager").setLevel(logging.ERROR)


def near(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    s = np.nanmax(np.abs(b)) if b.size and np.any(np.isfinite(b)) else 0.0
    return bool(np.allclose(a, b, rtol=1e-9, atol=1e-9 * s + 1e-12, equal_nan=True))


class Seen:
    """Everything visible in a list of axes."""

    def __init__(self, ctx, axs):
        self.ctx, self.axs = ctx, list(axs)
        self.c = [content(a) for a in self.axs]

    def curve(self, x, y, what, where=None):
        for i in range(len(self.c)) if where is None else [where]:
            if any(near(ln, np.column_stack([x, y])) for ln in self.c[i]["lines"]):
                return self.ctx.check(True, what)
        self.ctx.check(False, f"{what} is not what is drawn")

    def cloud(self, x, y, what):
        ok = any(near(p, np.column_stack([x, y])) for c in self.c for p in c["points"])
        self.ctx.check(ok, f"{what}: points drawn differ")

    def bars(self, x, h, what):
        for c in self.c:
            b = np.array(c["bars"])
            if len(b) == len(h) and near(b[:, 0] + b[:, 2] / 2, x) and near(b[:, 3], h):
                return self.ctx.check(True, what)
        self.ctx.check(False, f"{what}: bars drawn differ")

    def texts(self):
        return [t for c in self.c for t in c["texts"] + c["legend"]] + [a.get_title() for a in self.axs]

    def number(self, pattern, want, what, scale=1.0):
        """The number matched by the pattern equals want to its printed digits."""
        for t in self.texts():
            m = re.search(pattern, t)
            if m:
                txt = m.group(1)
                digits = len(txt.split(".")[1]) if "." in txt else 0
                got = float(txt)
                return self.ctx.check(abs(got - want * scale) <= 0.5000001 * 10.0 ** -digits + 1e-12, f"{what} is shown as {txt}, it is {want * scale:.6g}")
        self.ctx.check(False, f"{what} is not shown")


NUM = r"\s*([-+]?\d+(?:\.\d+)?)"


def hz(ctx, txt, want, what):
    m = re.fullmatch(r"([-\d.]+)([KMG]?)", txt)
    ctx.check(m, f"{what} is shown as {txt!r}")
    mul = {"": 1.0, "K": 1e3, "M": 1e6, "G": 1e9}[m.group(2)]
    digits = len(m.group(1).split(".")[1]) if "." in m.group(1) else 0
    ctx.check(abs(float(m.group(1)) * mul - want) <= 0.5000001 * 10.0 ** -digits * mul, f"{what} is shown as {txt}, it is {want:g} Hz")


def spectrum_figure(ctx, s, x, kw, r, bar=False):
    """A Cartesian spectrum picture of record(s) x."""
    par = {k: v for k, v in kw.items() if k in ("fs", "osr", "win_type", "side_bin", "max_harmonic", "nf_method", "max_scale_range", "coherent_averaging")}
    pd = sp.compute_spectrum(x, **par)["plot_data"]
    y = np.asarray(pd["power_spectrum_db_plot"])
    n, fs, osr = np.shape(x)[-1], kw.get("fs", 1.0), kw.get("osr", 1)
    f = np.arange(len(y)) * fs / n
    if bar:
        seg = [c.get_segments() for a in s.axs for c in a.collections if isinstance(c, LineCollection)]
        ctx.check(any(len(g) == len(f) and all(near(q[:, 0], [x0, x0]) and np.abs(q[:, 1] - y0).min() < 1e-9 for q, x0, y0 in zip(g, f, y)) for g in seg), "spectrum drawn differs")
    else:
        s.curve(f, y, "the spectrum")
    for pat, key in ((r"ENoB =" + NUM, "enob"), (r"SNDR =" + NUM, "sndr_dbc"), (r"SFDR =" + NUM, "sfdr_dbc"), (r"THD =" + NUM, "thd_dbc"), (r"^SNR =" + NUM, "snr_dbc"),
                     (r"Noise Floor =" + NUM, "noise_floor_dbfs"), (r"NSD =" + NUM, "nsd_dbfs_hz"), (r"Sig =" + NUM, "sig_pwr_dbfs")):
        s.number(pat, r[key], key)
    inband = int(np.floor(n / 2 / osr)) + 1
    k0 = int(np.argmax(np.where((np.arange(len(y)) > 4) & (np.arange(len(y)) < inband), y, -np.inf)))
    dots = [ln[0] for c in s.c for ln in c["lines"] if len(ln) == 1]
    ctx.check(any(near(d, [f[k0], y[k0]]) for d in dots), "the fundamental is not marked where it is")
    for a in s.axs:
        for t in a.texts:
            px = t.get_position()[0]
            if re.fullmatch(r"\d+", t.get_text()):
                k = int(t.get_text()) * k0 % n
                k = min(k, n - k)
                ctx.close(px, f[k], f"harmonic {t.get_text()} is marked at the wrong frequency", rtol=1e-9, atol=1e-12 * fs)
                ctx.check(any(near(d, [f[k], y[k]]) for d in dots), f"harmonic {t.get_text()} is not marked on the spectrum")
            if t.get_text() == "MaxSpur":
                k = int(round(px / fs * n))
                side = max(4, k0 - int(pd["sig_bin_start"]), int(pd["sig_bin_end"]) - 1 - k0)          # decided by S01
                rest = [y[j] for j in range(side + 1, min(inband, len(y))) if abs(j - k0) > side]
                ctx.check(k < inband and all(v <= y[k] + 1e-9 for v in rest), "the largest spur is marked elsewhere")
                ctx.check(any(near(d, [f[k], y[k]]) for d in dots), "the largest spur is not marked on the spectrum")
            m = re.match(r"Fin/fs = (\S+) / (\S+) Hz", t.get_text())
            if m:
                hz(ctx, m.group(1), f[k0], "input frequency")
                hz(ctx, m.group(2), fs, "sampling rate")
    ctx.check(any("Fin/fs" in t for t in s.texts()), "frequencies are not shown")
    if osr > 1:
        s.number(r"OSR =" + NUM, osr, "oversampling ratio")


def j_spectrum(ctx, s, a, kw, r):
    spectrum_figure(ctx, s, a[0], kw, r)


def j_virtuoso(ctx, s, a, kw, r):
    spectrum_figure(ctx, s, a[0], kw, r, bar=True)


def j_polar(ctx, s, a, kw, r):
    s.number(r"SNR =" + NUM, r["snr_dbc"], "SNR")
    s.number(r"THD =" + NUM, r["thd_dbc"], "THD")
    for h in (2, 3):
        s.number(rf"HD{h} =" + NUM, r["harmonics_dbc"][h - 2], f"HD{h}")
    # the spectrum cloud: angles are those of the aligned bins, radii the level above the drawn floor
    x = np.asarray(a[0], float)
    h_max = kw.get("harmonic", 5)
    R0 = sp.compute_spectrum(x, coherent_averaging=True, max_harmonic=max(3, h_max), max_scale_range=kw.get("max_code"),
                             **{k: kw[k] for k in ("win_type", "osr", "cutoff_freq", "fs")})
    X, n = R0["plot_data"]["complex_spectrum"], x.shape[-1]
    pts = [p for c in s.c for p in c["points"] if len(p) == len(X)]
    ctx.check(pts, "the spectrum points are not drawn")
    db = 20 * np.log10(np.abs(X) + 1e-20)
    rng = kw.get("fixed_radial_range")
    low = np.percentile(db, 1) if rng is None else -rng
    rad = np.maximum(db - low, 0)
    got = pts[0][:, 1] * np.exp(1j * pts[0][:, 0])
    want = rad * np.exp(1j * np.angle(X))
    ctx.close(np.abs(got - want).max(), 0.0, "polar spectrum", atol=1e-6 * rad.max())
    ax = s.axs[0]
    ctx.close(np.array(ax.get_ylim()), [0, -low], "radial range", rtol=1e-9)
    ctx.check((ax.get_theta_direction(), ax.get_theta_offset()) == (-1, np.pi / 2), "angles run clockwise from the top")
    for v, t in zip(ax.get_yticks(), ax.get_yticklabels()):
        ctx.check(abs(float(t.get_text()) - (v + low)) <= 5.0 + 1e-9, f"radial label {t.get_text()} at level {v + low}")
    k0 = int(np.argmax(np.where((np.arange(len(X)) > 2) & (np.arange(len(X)) <= n / 2 / kw["osr"]), np.abs(X), 0)))
    place = lambda k: rad[k] * np.exp(1j * np.angle(X[k]))
    ends = [ln[-1, 1] * np.exp(1j * ln[-1, 0]) for c in s.c for ln in c["lines"]]
    shown = lambda k: any(abs(e - place(k)) <= 1e-6 * rad.max() for e in ends)
    ctx.check(shown(k0), "the fundamental is not marked")
    marks = {int(t.get_text()): t.get_position()[0] for ax in s.axs for t in ax.texts if re.fullmatch(r"\d+", t.get_text())}
    want = []
    for h in range(2, h_max + 1):
        k = int(R0["plot_data"]["harmonic_bins"][h - 2])          # decided by S06
        if k == 0 or h in R0["plot_data"]["collided_harmonics"]:
            continue
        want.append(h)
        ctx.check(shown(k), f"harmonic {h} is not marked at its place")
        ctx.check(h in marks and (rad[k] == 0 or abs(np.exp(1j * marks[h]) - np.exp(1j * np.angle(X[k]))) < 1e-6), f"harmonic {h} has no number at its angle")
        if h in (2, 3) and r["harmonics_dbc"][h - 2] > -149:
            s.number(rf"HD{h} =.*∠" + NUM, np.degrees(np.angle(X[k])), f"HD{h} phase")
    ctx.equal(sorted(marks), want, "harmonics marked")


def j_osr(ctx, s, a, kw, r):
    s.curve(r["osr"], r["sndr"], "SNDR over the ratio")
    s.curve(r["osr"], r["sfdr"], "SFDR over the ratio")


def j_value(ctx, s, a, kw, r):
    s.curve(r["value_bin_centers"], r["error_mean"], "mean error by value")
    s.bars(r["value_bin_centers"], r["error_rms"], "error spread by value")
    s.cloud(np.asarray(r["value_bin_centers"])[r["bin_indices"]], r["error"], "errors by value")


def volts(x):
    for lim, unit, mul in ((1, "V", 1), (1e-3, "mV", 1e3), (1e-6, "uV", 1e6), (1e-9, "nV", 1e9)):
        if abs(x) >= lim:
            return unit, mul
    return "[upn]V", 1e12


def j_phase(ctx, s, a, kw, r):
    deg = np.mod(np.asarray(r["phase"]) * 180 / np.pi, 360)
    o = np.argsort(deg)
    s.curve(deg[o], np.asarray(r["fitted_signal"])[o], "signal by phase")
    s.curve(deg, r["error"], "error by phase")
    c = np.asarray(r["phase_bin_centers_rad"]) * 180 / np.pi
    s.curve(c, r["bin_error_mean_v"], "mean error by phase")
    s.bars(c, r["bin_error_rms_v"], "error spread by phase")
    s.number(r"R²=" + NUM, r["r_squared_binned"], "quality of the model")
    for lab, key in (("AM", "am_noise_rms_v"), ("PM", "pm_noise_rms_v"), ("Base Noise", "base_noise_rms_v"), ("Total", "total_rms_v")):
        if lab == "Base Noise" and kw.get("include_base_noise", True) is False:
            continue
        unit, mul = volts(r[key])
        if abs(r[key]) >= 1e-9:
            s.number(rf"^{lab} =" + NUM + " " + unit, r[key], key, scale=mul)
    s.number(r"\(" + NUM + " urad", r["pm_noise_rms_rad"], "phase noise", scale=1e6)


def j_pdf(ctx, s, a, kw, r):
    s.curve(r["x"], r["pdf"], "density of the error")
    s.curve(r["x"], r["gauss_pdf"], "Gaussian density")
    s.number(r"μ =" + NUM, r["mu"], "mean")
    s.number(r"σ =" + NUM, r["sigma"], "spread")
    s.number(r"KL =" + NUM, r["kl_divergence"], "divergence")


def j_acf(ctx, s, a, kw, r):
    s.curve(r["lags"], r["acf"], "autocorrelation")


def j_error_spectrum(key):
    def j(ctx, s, a, kw, r):
        fs = kw.get("fs", 1.0)
        e = np.asarray(r[key])
        y = sp.compute_spectrum(e, fs=fs)["plot_data"]["power_spectrum_db_plot"]
        s.curve(np.arange(len(y)) * fs / len(e), y, "spectrum of the error")
    return j


def j_plane(ctx, s, a, kw, r):
    x, k = np.asarray(a[0]), r["lag"]
    bad = np.zeros(len(x) - k, bool)
    bad[np.asarray(r["outliers"], int) - k] = True      # numbered by the later sample
    px, py = x[:len(x) - k], x[k:]
    s.cloud(px[~bad], py[~bad], "trajectory")
    if bad.any():
        s.cloud(px[bad], py[bad], "outliers")
    s.number(r"Lag:" + NUM, k, "lag")
    s.number(r"Outliers:" + NUM, len(r["outliers"]), "outliers")
    tags = [(int(t.get_text()[4:]), t.xy) for ax in s.axs for t in ax.texts if t.get_text().startswith("idx:")]
    ctx.equal([i for i, _ in tags], [int(i) for i in r["outliers"][:len(tags)]], "sample numbers shown")
    ctx.check(len(tags) > 0 or not bad.any(), "no sample number is shown")
    for i, xy in tags:
        ctx.check(near(xy, [x[i - k], x[i]]), f"sample number {i} is shown at {xy}")


def j_error_plane(ctx, s, a, kw, r):
    x, e = np.asarray(a[0]), np.asarray(r["residual"])
    unit = [m.group(1) for c in s.c for m in [re.search(r"\((\w+)\)", c["labels"][1])] if m][0]
    mul = {"V": 1.0, "mV": 1e3, "uV": 1e6, "LSB": 1.0, "nV": 1e9, "uFS": 1e6}[unit]
    mode = kw.get("unit_mode", "auto")
    if mode == "auto":
        mode = "voltage" if np.abs(x).max() < 50 else "code"
    ctx.equal(unit, {"voltage": "uV", "code": "LSB", "normalized_fs": "uFS"}[mode], "unit of the residual")
    s.cloud(x, e * mul, "error over level")
    s.number(r"RMS:" + NUM, float(np.std(e)), "RMS", scale=mul)
    s.number(r"Peak:" + NUM, float(np.abs(e).max()), "peak", scale=mul)
    if r["hysteresis_gap"] == 0:
        xs = np.sort(x)
        s.curve(xs, np.polyval(r["trend_coeffs"], xs) * mul, "trend")
    else:
        s.number(r"Hyst:" + NUM, r["hysteresis_gap"], "hysteresis", scale=mul)


def j_time(ctx, s, a, kw, r):
    x = np.asarray(a[0])
    shown = None
    for c in s.c:
        for ln in c["lines"]:
            idx = np.round(ln[:, 0]).astype(int) - 1
            ctx.check(np.all(idx >= 0) and np.all(idx < len(x)) and np.all(np.diff(idx) == 1), "samples shown are not consecutive samples of the record")
            shown = idx if shown is None else shown
    for data, what in ((x, "signal"), (r["fundamental_signal"], "fitted sine"), (r["harmonic_signal"], "harmonics"), (r["noise_residual"], "other errors")):
        s.curve(shown + 1, np.asarray(data)[shown], what)
    err = np.abs(x - np.asarray(r["fundamental_signal"]))
    ctx.check(int(np.argmax(err)) in shown, "the largest error is not in the part shown")


def j_harm_polar(ctx, s, a, kw, r):
    s.number(r"Residue Errors\n" + NUM, r["noise_db"], "residue")
    dots = [ln[0] for c in s.c for ln in c["lines"] if len(ln) == 1]
    ctx.equal(len(dots), len(r["magnitudes_db"]), "components shown")
    ring = [ln for c in s.c for ln in c["lines"] if len(ln) > 20]
    base = r["noise_db"] - ring[0][0, 1]
    for d, mag, ph in zip(dots, r["magnitudes_db"], r["phases"]):
        ctx.close(d[1] + base, mag, "radius of a component", rtol=1e-9, atol=1e-9)
        ctx.close(abs(np.exp(1j * d[0]) - np.exp(1j * ph)), 0.0, "angle of a component", atol=1e-9)


def j_inl(ctx, s, a, kw, r):
    full = 2.0 ** kw["num_bits"] if kw.get("num_bits") else 1.0
    s.curve(np.asarray(r["code"]) / full, r["dnl"], "DNL", where=0)
    s.curve(np.asarray(r.get("transition_code", r["code"])) / full, r["inl"], "INL", where=1)
    for key in ("dnl", "inl"):
        s.number(key.upper() + r" = \[" + NUM, float(np.min(r[key])), f"smallest {key}")
        s.number(key.upper() + r" = \[[-\d.]+," + NUM, float(np.max(r[key])), f"largest {key}")


def j_activity(ctx, s, a, kw, r):
    s.bars(np.arange(1, len(r) + 1), r, "activity")
    dev = np.asarray(r) - 50
    s.number(r"^" + NUM + "%", float(dev[np.argmax(np.abs(dev))]), "largest deviation")


def j_overflow(ctx, s, a, kw, r):
    lo, hi, zero, one = r
    m = len(lo)
    s.curve(np.arange(1, m + 1), lo, "smallest residue")
    s.curve(np.arange(1, m + 1), hi, "largest residue")
    at = {}
    for ax in s.axs:
        for t in ax.texts:
            x, y = t.get_position()
            at[int(x), y > 0.5] = float(t.get_text().rstrip("%"))
    for i in range(m):
        ctx.close(at[i + 1, False], zero[i], "share at zero", atol=0.0500001)
        ctx.close(at[i + 1, True], one[i], "share at one", atol=0.0500001)
    pts = np.concatenate([p for c in s.c for p in c["points"]])
    b, w = np.asarray(a[0]), np.asarray(a[1], float)
    ctx.equal(len(pts), b.size, "residues shown")
    for i in range(m):
        want = np.sort(b[:, i:] @ w[i:] / w[i:].sum())
        ctx.check(near(np.sort(pts[np.abs(pts[:, 0] - (i + 1)) < 0.45, 1]), want), f"residues shown for bit {i}")


def j_radix(ctx, s, a, kw, r):
    w = np.abs(np.asarray(a[0], float))
    s.curve(np.arange(1, len(w) + 1), w, "weights")
    s.number(r"Eff. Res:" + NUM, r["effres"], "effective resolution")
    got = {round(t.get_position()[0]): t.get_text() for ax in s.axs for t in ax.texts if t.get_text().startswith("/")}
    ctx.equal(sorted(got), list(range(2, len(w) + 1)), "ratios shown")
    for i, t in got.items():
        ctx.close(float(t[1:]), r["radix"][i - 1], f"ratio before bit {i}", atol=0.00500001)
    neg = np.asarray(a[0], float) < 0
    for sel in (neg, ~neg):
        if sel.any():
            s.curve(np.flatnonzero(sel) + 1, w[sel], "weights of one sign")
    tag = {t.get_text(): round(t.get_position()[0]) for ax in s.axs for t in ax.texts if t.get_text() in ("MSB", "LSB")}
    ctx.equal(w[tag["MSB"] - 1], w.max(), "weight tagged MSB")


def j_enob(ctx, s, a, kw, r):
    s.curve(r[1], r[0], "ENOB over bits")
    got = {round(t.get_position()[0]): t.get_text() for ax in s.axs for t in ax.texts}
    d = np.concatenate([[r[0][0]], np.diff(r[0])])
    for i, t in got.items():
        ctx.close(float(t.replace("+-", "-")), d[i - 1], "step of ENOB", atol=0.00500001)


def j_scatter(ctx, s, a, kw, r):
    for i, (x, y) in enumerate(zip(r["residuals_x"], r["residuals_y"])):
        ctx.check(any(near(p, np.column_stack([x, y])) for p in s.c[i]["points"]), f"residuals of pair {i} drawn differ")


JUDGE = {"analyze_spectrum": j_spectrum, "analyze_spectrum runs": j_spectrum, "analyze_spectrum_virtuoso": j_virtuoso, "analyze_spectrum_polar": j_polar,
         "sweep_performance_vs_osr": j_osr, "analyze_error_by_value": j_value, "analyze_error_by_phase": j_phase, "analyze_error_pdf": j_pdf,
         "analyze_error_autocorr": j_acf, "analyze_error_spectrum": j_error_spectrum("error_signal"), "analyze_error_envelope_spectrum": j_error_spectrum("envelope"),
         "analyze_phase_plane": j_plane, "analyze_error_phase_plane": j_error_plane, "analyze_decomposition_time": j_time, "analyze_decomposition_polar": j_harm_polar,
         "analyze_inl_from_sine": j_inl, "analyze_inl_from_ramp": j_inl, "analyze_bit_activity": j_activity, "analyze_overflow": j_overflow,
         "analyze_weight_radix": j_radix, "analyze_enob_sweep": j_enob, "plot_residual_scatter": j_scatter}


def draw(ctx, op, fn, args, kw, polar, switch):
    plt.close("all")
    try:
        with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            plt.figure()
            if polar:
                plt.subplot(projection="polar")
            r = ctx.call(fn, *args, **{**kw, switch: True})
            axs = [a for n in plt.get_fignums() for a in plt.figure(n).axes]
            sig = inspect.signature(fn).parameters
            full = {**{k: p.default for k, p in sig.items() if p.default is not p.empty}, **kw}
            JUDGE[op](ctx, Seen(ctx, axs), args, full, r)
    finally:
        plt.close("all")


def body(ctx, op, v):
    fn, make, switch, _, polar = R.PLOT[op]
    args, kw = make(v)
    draw(ctx, op, fn, args, kw, polar, switch)
    ctx.outcome(op, v)


def plane_body(ctx, gain, off, unit):
    fn, make, switch, _, polar = R.PLOT["analyze_error_phase_plane"]
    args, kw = make(0)
    x = np.asarray(args[0], float)
    draw(ctx, "analyze_error_phase_plane", fn, (gain * (x - x.mean()) / np.abs(x - x.mean()).max() + off,) + tuple(args[1:]), {**kw, "unit_mode": unit}, polar, switch)
    ctx.outcome(gain, off, unit)


def watch_body(ctx, m, wkind, ofb):
    """Samples that run over at the watched bit are set apart: saturated ones to the left, bottomed-out ones to the right, in every column."""
    b = np.array([[(c >> (m - 1 - j)) & 1 for j in range(m)] for c in range(2 ** m)])
    w = np.array({"binary": [2.0 ** (m - 1 - j) for j in range(m)], "radix": [1.8 ** (m - 1 - j) for j in range(m)]}[wkind])
    plt.close("all")
    try:
        plt.figure()
        ctx.call(R.PLOT["analyze_overflow"][0], b, w, ofb=ofb, create_plot=True)
        pts = np.concatenate([p for ax in plt.gcf().axes for p in content(ax)["points"]])
    finally:
        plt.close("all")
    at = b[:, m - ofb:] @ w[m - ofb:] / w[m - ofb:].sum()
    kind = np.where(at >= 1 - 1e-9, -1, np.where(at <= 1e-9, 1, 0))
    for i in range(m):
        res = b[:, i:] @ w[i:] / w[i:].sum()
        col = pts[np.abs(pts[:, 0] - (i + 1)) < 0.45]
        side = np.sign(np.round(col[:, 0] - (i + 1), 6))
        for s, what in ((-1, "saturated"), (0, "regular"), (1, "bottomed out")):
            ctx.check(near(np.sort(col[side == s, 1]), np.sort(res[kind == s])), f"{what} samples shown for bit {i}, watching {ofb}")
    ctx.outcome(m, wkind, ofb)


def kinds(op, v):
    """Changes of a call that keep its tone inside the band."""
    return [i for i, c in enumerate(changes(op, v)) if "stirred" not in c[0]]


def alter(op, v, which):
    """The call with one or two things changed; None when they are not compatible."""
    ch = changes(op, v)
    args, kw, names = R.CALC[op](v)[1], dict(R.CALC[op](v)[2]), []
    for w in which:
        what, a, k = ch[w]
        args = tuple(x if x is not args[i] and not np.array_equal(x, R.CALC[op](v)[1][i]) else args[i] for i, x in enumerate(a))
        kw.update({key: val for key, val in k.items() if key in what})
        names.append(what)
    return names, args, kw


def change_body(ctx, op, v, which):
    fn, _, switch, _, polar = R.PLOT[op]
    names, args, kw = alter(op, v, which)
    try:
        with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            fn(*args, **{**kw, switch: False})
    except Exception:              # noqa: BLE001
        return                     # the call itself is not valid
    try:
        draw(ctx, op, fn, args, kw, polar, switch)
    except Exception as e:
        e.args = (f"{op}[{v}] with {', '.join(names)}: {e}",) + e.args[1:]
        raise
    ctx.outcome(op, v, names)


def rate_body(ctx, op, fs, k, osr, win):
    n = 128
    t = np.arange(n)
    p = 2 * np.pi * k / n * t
    x = 0.4 * np.sin(p + 0.2) + 0.004 * np.sin(2 * p + 1) + 0.002 * np.cos(3 * p) + 1e-4 * ((t * t * 7 + 3 * t) % 23 - 11) / 11
    fn, _, switch, _, polar = R.PLOT[op]
    draw(ctx, op, fn, (x,), dict(fs=fs, osr=osr, win_type=win), polar, switch)
    ctx.outcome(op, fs, k, osr, win)


def ntf_body(ctx, zeros, poles, low, high):
    """Noise transfer function: the curve is its magnitude on the unit circle, dashed lines stand at the band edges."""
    num, den = np.poly(zeros).tolist(), np.poly(poles).tolist()
    ctx.call(ov.ntf_analyzer, (num, den), low, high, is_plot=1)
    lines = [ln for c in (content(a) for a in plt.gcf().axes) for ln in c["lines"]]
    curve = max(lines, key=len)
    pick = np.linspace(1, len(curve) - 1, 97).astype(int)
    z = np.exp(2j * np.pi * curve[pick, 0])
    want = 20 * np.log10(np.abs(np.polyval(num, z) / np.polyval(den, z)))
    ctx.close(curve[pick, 1], want, "magnitude drawn", rtol=0, atol=1e-6)
    ctx.check(curve[:, 0].max() == 0.5 and np.all(np.diff(curve[:, 0]) > 0), "the curve does not run up to half the rate")
    edges = sorted(ln[0, 0] for ln in lines if len(ln) == 2 and ln[0, 0] == ln[1, 0])
    ctx.close(np.array(edges), [f for f in (low, high) if f > 0], "band edges drawn", rtol=0, atol=1e-12)
    plt.close("all")
    ctx.call(ov.ntf_analyzer, (num, den), low, high)
    ctx.check(not plt.get_fignums(), "a figure is opened without being asked for")
    ctx.outcome(zeros, poles, low, high)


def families(tier):
    q = tier == "quick"
    return [
        Tree("every drawing analysis", [("op", list(R.PLOT)), ("v", [0, 1, 2, 3, 4, 5])], body),
        Tree("parameters changed", [("op", list(R.PLOT)), ("v", [0, 1, 2]),
                                    ("which", lambda c: [w for n in ((1,) if q else (1, 2)) for w in itertools.combinations(kinds(c["op"], c["v"]), n)])], change_body),
        Tree("watched bit", [("m", [1, 2, 3, 5]), ("wkind", ["binary", "radix"]), ("ofb", lambda c: range(1, c["m"] + 1))], watch_body),
        Tree("unit of the residual plane", [("gain", [0.4, 30.0, 600.0]), ("off", [0.0, -700.0, 700.0]), ("unit", ["auto", "normalized_fs", "voltage", "code"])], plane_body),
        Tree("noise transfer functions", [("zeros", [(1.0,), (1.0, 1.0), (0.9, -0.5)]), ("poles", [(0.0,), (0.5, 0.2), (0.0, 0.0)]), ("low", [0.0, 0.02]), ("high", [0.05, 0.25, 0.4])], ntf_body),
        Tree("rates and tones", [("op", ["analyze_spectrum", "analyze_spectrum_virtuoso"]), ("fs", [1.0, 50.0, 1e3, 2.5e4, 8e5, 2e6, 1.5e9, 7e9]), ("osr", [1, 2] if q else [1, 2, 4]),
                                 ("k", lambda c: [k for k in ([7, 13, 31, 52] if q else range(6, 59)) if k < 64 / c["osr"] - 5]), ("win", ["boxcar", "hann"] if q else ["boxcar", "hann", "blackman"])], rate_body),
    ]
