"""S01 spectrum metrics equal their definitions for every analysis setting."""
import functools
import numpy as np
from mc.core import Tree
from mc.ref import spectrum as R
from adctoolbox.spectrum import compute_spectrum, analyze_spectrum

ASSUMPTIONS = ["records of 8..96 samples in depth, up to 16384 samples for realistic captures, from a fixed alphabet (coherent and non-coherent tones, harmonics, disturbance); "
               "settings whose outcome hangs on a rounding tie are counted and not judged; reference uses an explicit DFT (up to 600 samples; the numpy FFT above)"]
METRICS = ["enob", "sndr_dbc", "sfdr_dbc", "snr_dbc", "sig_pwr_dbfs", "noise_floor_dbfs", "nsd_dbfs_hz", "thd_dbc"]
WINS = ["hann", "rectangular", "boxcar", "hamming", "blackman", "blackmanharris", "flattop", "kaiser", "chebwin",
        "HANN", "Boxcar", "unknown"]


@functools.lru_cache(maxsize=4096)
def record(n, pos, kind, run=0):
    """pos: tone position as a bin (float); kind selects what else is in the record."""
    t = np.arange(n)
    rs = np.random.RandomState(1000 + run * 17 + n)
    w = 2 * np.pi * pos / n
    x = 0.8 * np.sin(w * t + 0.5 + 0.9 * run)
    lvl = {"noise": 0.02, "harm": 0.003, "quiet": 1e-4, "loud": 0.3}[kind]
    x = x + lvl * rs.randn(n)
    if kind == "harm":
        for h, a in ((2, 0.05), (3, 0.02), (4, 0.007), (5, 0.011), (7, 0.004)):
            x = x + a * np.sin(h * (w * t + 0.9 * run) + h)
    return x + 0.3


def runs(n, pos, kind, m):
    return record(n, pos, kind) if m == 1 else np.stack([record(n, pos, kind, r) for r in range(m)])


def compare(ctx, got, ref, what, tol=2e-6):
    gm, rm = got["metrics"], ref["metrics"]
    for key in METRICS:
        ctx.close(gm[key], rm[key], f"{what}: {key}", rtol=0, atol=tol)
    ctx.close(gm["harmonics_dbc"], np.array(rm["harmonics_dbc"], float), f"{what}: harmonics_dbc", rtol=0, atol=tol)


def compare_plot(ctx, got, ref, what, fs):
    pd = got["plot_data"]
    ctx.equal((int(got["N"]), int(got["M"])), (ref["N"], ref["M"]), f"{what}: record and run count")
    ctx.equal(int(pd["fundamental_bin"]), ref["k"], f"{what}: fundamental bin")
    ctx.close(pd["fundamental_bin_fractional"], ref["kr"], f"{what}: fractional bin", rtol=0, atol=1e-6)
    ctx.equal((int(pd["sig_bin_start"]), int(pd["sig_bin_end"])), ref["sig"], f"{what}: signal bins")
    if ref["spur"] is not None:
        ctx.equal(int(pd["spur_bin_idx"]), ref["spur"], f"{what}: spur bin")
    ctx.equal([int(b) for b in pd["harmonic_bins"]], ref["hb"], f"{what}: harmonic bins")
    ctx.equal([int(b) for b in pd["collided_harmonics"]], ref["collided"], f"{what}: collided harmonics")
    ctx.close(pd["freq"], np.arange(ref["N"] // 2 + 1) * fs / ref["N"], f"{what}: frequency axis", rtol=1e-12)
    g = np.asarray(pd["power_spectrum_db_plot"])
    ctx.equal(g.shape, ref["p_disp"].shape, f"{what}: spectrum length")
    big = ref["p_disp"] > 1e-14
    ctx.close(g[big], 10 * np.log10(ref["p_disp"][big]), f"{what}: spectrum (dB)", rtol=0, atol=2e-6)
    ctx.close(pd["v_offset"], got["metrics"]["sig_pwr_dbfs"] - g[ref["k"]], f"{what}: signal power above its centre bin", rtol=0, atol=1e-9)
    z = pd["complex_spectrum"]
    ctx.equal(z is not None, bool(pd["is_coherent"]), f"{what}: complex spectrum with phase-aligned averaging")
    if z is not None:
        ctx.equal(np.shape(z), g.shape, f"{what}: complex spectrum length")
        ctx.close(np.abs(z[big]) ** 2, ref["p_disp"][big], f"{what}: magnitude of the complex spectrum", rtol=1e-6)
        ctx.check(np.all(np.abs(z[~big]) ** 2 < 1e-13), f"{what}: complex spectrum where the power is zero")


def judge(ctx, data, fs=1.0, plot=True, **kw):
    keep = np.array(data, copy=True)
    try:
        ref = R.spectrum(data, fs=fs, **kw)
    except R.Tie:
        ctx.skip_ambiguous()
        ref = None
    got = ctx.call(compute_spectrum, data, fs=fs, **kw)
    ctx.equal(np.asarray(data), keep, "data modified")
    if ref is None:
        return
    compare(ctx, got, ref, "compute_spectrum")
    if plot:
        compare_plot(ctx, got, ref, "compute_spectrum", fs)
    if "cutoff_freq" not in kw:
        a = ctx.call(analyze_spectrum, data, fs=fs, create_plot=False, **kw)
        compare(ctx, {"metrics": a}, ref, "analyze_spectrum")
    ctx.outcome(got["metrics"]["sndr_dbc"], got["metrics"]["snr_dbc"], got["metrics"]["thd_dbc"])


def settings_body(ctx, n, pos, kind, win, side, osr):
    judge(ctx, record(n, pos, kind), win_type=win, side_bin=side, osr=osr)


def noise_body(ctx, n, pos, kind, m, coh, nf, mh, osr, win):
    judge(ctx, runs(n, pos, kind, m), coherent_averaging=coh, nf_method=nf, max_harmonic=mh, osr=osr, win_type=win)


def scale_body(ctx, n, scale, layout, fs, assumed, gain):
    x = record(n, 3.0, "harm") * gain
    m = 1
    if layout == "col":
        x = x.reshape(-1, 1)
    elif layout == "row":
        x = x.reshape(1, -1)
    elif layout == "runs":
        x = runs(n, 3.0, "harm", 3) * gain
    elif layout == "tall":
        x = (runs(n, 3.0, "harm", 3) * gain).T
    elif layout == "list":
        x = x.tolist()
    elif layout == "int":
        x = np.round(x * 200 / gain).astype(np.int64)
    if isinstance(scale, str):
        s = float(scale) * gain
    elif scale is None:
        s = None
    else:
        s = type(scale)(v * gain for v in scale)
    judge(ctx, x, fs=fs, max_scale_range=s, assumed_sig_pwr_dbfs=assumed)


def level_body(ctx, n, m, coh, level, win, nf):
    """A signal far below the full scale given."""
    judge(ctx, runs(n, 3.0, "harm", m) * level, coherent_averaging=coh, win_type=win, max_scale_range=1.0, nf_method=nf)


def limits_body(ctx, rows, cols):
    """Runs down or across: a matrix more than twice as tall as wide holds its runs in columns."""
    x = runs(cols, 3.0, "noise", rows) if rows > 1 else record(cols, 3.0, "noise")[None, :]
    judge(ctx, x, win_type="rectangular", max_scale_range=1.0)
    if cols > 2 * rows:
        judge(ctx, np.ascontiguousarray(x.T), win_type="rectangular", max_scale_range=1.0)


def cutoff_body(ctx, n, pos, kind, cut, win, coh):
    judge(ctx, record(n, pos, kind), fs=10.0, cutoff_freq=10.0 * cut / n, win_type=win, coherent_averaging=coh)


def refuse_body(ctx, case):
    x = record(32, 3.0, "noise")
    kw = {"nf5": dict(nf_method=5), "nf-1": dict(nf_method=-1), "osr0": dict(osr=0), "osr-2": dict(osr=-2),
          "range3": dict(max_scale_range=[0, 1, 2]), "range1": dict(max_scale_range=(1,))}.get(case, {})
    data = np.zeros((2, 3, 4)) if case == "3d" else x
    ctx.raises(ValueError, compute_spectrum, data, **kw)
    ctx.raises(ValueError, analyze_spectrum, data, create_plot=False, **kw)


def families(tier):
    q = tier == "quick"

    def poss(c):
        n = c["n"]
        out = [1.0, 2.0, 3.0, 3.3, 4.5 - 0.13, float(n // 4), n / 3 + 0.21, float(n // 2 - 2), float(n // 2 - 1), n / 2 - 1.4]
        return out if not q else out[:2] + out[3:4] + out[5:]

    def osrs(c):
        return [o for o in ([1, 1.5, 2, 3] if q else [1, 1.5, 2, 2.7, 3, 4, 8]) if c["n"] / (2 * o) >= 2]
    ns = [16, 17, 33, 48] if q else [8, 9, 16, 17, 24, 33, 48, 64, 96]
    kinds = ["noise", "harm"] if q else ["noise", "harm", "quiet", "loud"]
    return [
        Tree("settings", [("n", ns), ("pos", poss), ("kind", kinds), ("win", WINS),
                          ("side", [None, 0, 1, 3] if q else [None, 0, 1, 2, 3, 5]),
                          ("osr", osrs)], settings_body),
        Tree("noise and averaging", [("n", [24, 33] if q else [24, 33, 64]), ("pos", [3.0, 5.3] if q else [2.0, 3.0, 5.3, 9.0]),
                                     ("kind", kinds), ("m", [1, 2, 3]), ("coh", [False, True]), ("nf", [0, 1, 2, 3, 4]),
                                     ("mh", [2, 3, 5, 9] if q else [1, 2, 3, 4, 5, 7, 9, 13]), ("osr", [1, 2]),
                                     ("win", ["hann", "rectangular", "blackmanharris"])], noise_body),
        Tree("scaling and layout", [("n", [24, 33]), ("scale", [None, "1.0", "0.35", (-1.0, 1.0), [0.0, 3.0], (-0.2, 0.5)]),
                                    ("layout", ["vector", "col", "row", "runs", "tall", "list", "int"]),
                                    ("fs", [1.0, 48e3, 1e9]), ("assumed", [None, float("nan"), 0.0, -3.5]),
                                    ("gain", [1.0, 1e-3, 2048.0])], scale_body),
        Tree("high-pass cutoff", [("n", [24, 33]), ("pos", [3.0, 7.3]), ("kind", ["noise", "harm"]),
                                  ("cut", [0, 0.5, 1.3, 2.4, 5.5, 9.7]), ("win", ["hann", "rectangular"]), ("coh", [False, True])], cutoff_body),
        Tree("refused", [("case", ["nf5", "nf-1", "osr0", "osr-2", "range3", "range1", "3d"])], refuse_body),
        Tree("small against full scale", [("n", [24, 1000]), ("m", [1, 3]), ("coh", [False, True]), ("level", [1e-3, 3e-5, 1e-6, 1e-8]), ("win", ["hann", "rectangular"]), ("nf", range(5))], level_body),
        Tree("long records", [("n", [1000, 4096, 8192, 65536] if q else [1000, 1023, 4096, 8192, 16384, 65536, 100000]), ("pos", lambda c: [17.0, float(c["n"] // 7), c["n"] / 5.3]), ("kind", ["noise", "harm"]), ("win", ["hann", "rectangular", "blackmanharris", "kaiser"]),
                              ("side", [None, 3]), ("osr", [1, 8] if q else [1, 8, 12.5])], settings_body),
        Tree("many runs", [("n", [1024]), ("pos", [37.0, 101.3]), ("kind", ["noise", "harm"]), ("m", [8, 16, 40]), ("coh", [False, True]), ("nf", [0, 4] if q else [0, 1, 2, 3, 4]),
                           ("mh", [5, 20] if q else [5, 20, 50]), ("osr", [1, 4]), ("win", ["hann", "rectangular"])], noise_body),
        Tree("layout limits", [("rows", list(range(1, 14)) + [15, 16, 17, 20, 24, 30, 32]), ("cols", lambda c: [n for n in (8, 12, 16, 20, 24, 25, 26, 27) if n >= c["rows"]] + [n for n in (8, 12, 16) if c["rows"] / 2 <= n < c["rows"]])], limits_body),
    ]
