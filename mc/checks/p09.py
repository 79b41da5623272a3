"""P09 changing the unit of the samples or of time changes results only as units do."""
import contextlib
import io
import math
import re
import numpy as np
from mc.core import Tree
from mc.ref import registry as R

ASSUMPTIONS = ["levels are given by an explicit range where the analysis would otherwise guess one (sorting by value)",
               "gains from 2**-8 to 2**16 (millivolts to sixteen-bit codes): below it the guards against an empty record take over, and above it the least-squares fit loses digits as the square of the gain grows, so that rounding moves the results"]

# how a result moves when the record x becomes g*x + o; everything not named stays as it is
LEVEL = {"fitted_signal", "fitted_sine", "dc_offset", "reconstructed_signal", "fundamental_signal", "offset"}                       # g*y + o
SIZE = {"error", "error_mean", "error_rms", "error_signal", "envelope", "residual", "residuals", "amplitude", "rmse", "magnitudes", "residual_rms", "noise_residual",
        "harmonic_signal", "am_noise_rms_v", "pm_noise_rms_v", "base_noise_rms_v", "total_rms_v", "bin_error_rms_v", "bin_error_mean_v", "A", "hysteresis_gap"}      # g*y
OPS = ["analyze_spectrum", "analyze_spectrum runs", "analyze_spectrum_virtuoso", "analyze_spectrum_polar", "compute_spectrum", "compute_spectrum runs", "quick_sndr",
       "sweep_performance_vs_osr", "analyze_error_by_value", "analyze_error_by_phase", "rearrange_error_by_value", "rearrange_error_by_phase", "analyze_error_pdf",
       "analyze_error_autocorr", "analyze_error_spectrum", "analyze_error_envelope_spectrum", "analyze_phase_plane", "analyze_error_phase_plane", "analyze_decomposition_time",
       "analyze_decomposition_polar", "decompose_harmonic_error", "decompose_harmonics", "old error by phase", "old spectrum", "fit_sine_4param", "fit_sine columns",
       "estimate_frequency", "deinterleave", "interleave", "extract_mismatch_sine", "fractional_delay_fft", "extract_freq_components", "ifilter", "perfosr", "fit_static_nonlin"]
TUPLES = {"decompose_harmonics": ["size or level"] * 9, "deinterleave": ["level"], "interleave": ["level"], "fractional_delay_fft": ["level"], "extract_freq_components": ["level"], "ifilter": ["size"]}


def flat(x, path=""):
    if isinstance(x, dict):
        for k in x:
            yield from flat(x[k], f"{path}.{k}")
    elif isinstance(x, list):
        for i, v in enumerate(x):
            yield from flat(v, f"{path}[{i}]")
    else:
        yield path, x


def call(ctx, op, v, g, o):
    fn, args, kw = R.CALC[op](v)
    kw = dict(kw)
    x = args[0]
    if op in ("analyze_error_by_value", "rearrange_error_by_value"):
        kw["value_range"] = (float(x.min() - 0.013 * np.ptp(x)) * g + o, float(x.max() + 0.017 * np.ptp(x)) * g + o)
    for k in ("full_scale", "max_scale_range"):
        if kw.get(k) is not None:
            kw[k] = (np.array(kw[k]) * g).tolist()
    with contextlib.redirect_stdout(io.StringIO()):
        r = R.plain(ctx.call(fn, g * x + o, *args[1:], **kw))
    return dict(flat(r)), kw


def kind(op, path, kw):
    key = re.sub(r"\[\d+\]", "", path).split(".")[-1]
    if key.startswith("_") or key in ("last_delta_freq", "v_offset"):
        return None
    if key == "value_bin_centers":
        return "level"
    if key == "acf":
        return "inv" if kw.get("normalize", True) else "square"
    if key == "trend_coeffs":
        return None                        # judged through the residual; powers of the level mix
    if op in TUPLES:
        return TUPLES[op][0]
    if op == "old error by phase":
        return "size or inv"
    if op == "fit_static_nonlin":
        return "static"
    return "level" if key in LEVEL else "size" if key in SIZE else "inv"


def move(y, how, g, o):
    return {"inv": y, "size": y * g, "level": y * g + o, "square": y * g * g}[how]


def judge(ctx, op, path, a, b, how, g, o, ref):
    if isinstance(a, (str, type(None))):
        return ctx.check(a == b, f"{op}{path}: {a!r} becomes {b!r}")
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return ctx.fail(f"{op}{path}: shape {a.shape} becomes {b.shape}")
    if a.dtype.kind in "iub":
        if how == "inv":
            return ctx.check(np.array_equal(a, b), f"{op}{path} changes with the unit of the samples")
    big = max([float(np.max(np.abs(z[np.isfinite(z)]), initial=0.0)) for z in (a,)] + [ref])
    for h in how.split(" or "):
        w = move(a, h, g, o)
        s = move(big, h, abs(g), abs(o) + abs(g) * ref)
        if np.allclose(b, w, rtol=1e-5, atol=2e-7 * s + 1e-300, equal_nan=True):
            return ctx.check(True, "")
    ctx.fail(f"{op}{path} with samples scaled by {g:g} and shifted by {o:g} is {str(b)[:70]}, should be {str(move(a, how.split(' or ')[0], g, o))[:70]}")


def level_body(ctx, op, v, g, o):
    base, kw = call(ctx, op, v, 1.0, 0.0)
    got, _ = call(ctx, op, v, g, o * g)
    ctx.equal(sorted(got), sorted(base), "results returned")
    if op == "fit_static_nonlin":
        # k2 and k3 are per volt and per volt squared
        ctx.close(got["[0]"] * g, base["[0]"], "quadratic coefficient", rtol=1e-5, atol=1e-9)
        ctx.close(got["[1]"] * g * g, base["[1]"], "cubic coefficient", rtol=1e-5, atol=1e-9)
    for p in base:
        how = kind(op, p, kw)
        if how in (None, "static"):
            continue
        judge(ctx, op, p, base[p], got[p], how, g, o * g, 1.0 if how in ("level", "size") or p.endswith(("mu", "pm_noise_rms_rad", "phases", "phase", "am_relative", "r_squared_raw", "r_squared_binned")) else 0.0)
    ctx.outcome(op, v, g, o)


def rate_body(ctx, op, v, f):
    """The time unit: frequencies scale, times scale inversely, densities move by its logarithm, all else stays."""
    fn, args, kw = R.CALC[op](v)
    kw, args = dict(kw), list(args)
    fs0 = kw.get("fs", 1.0)
    if op in ("extract_mismatch_sine", "calibrate_foreground", "predict_spurs", "fractional_delay_fft", "fractional_delay_farrow"):
        kw2 = dict(kw)
        if "fin" in kw2:
            kw2["fin"] = kw["fin"] * f
        a2 = list(args)
        a2[-1] = args[-1] * f                                  # the rate is the last positional argument
        if op.startswith("fractional"):
            a2[1] = args[1] / f
        for i, q in enumerate(a2):
            if isinstance(q, dict):
                a2[i] = {**q, "skew": q["skew"] / f, "fin": q["fin"] * f}
    elif op == "find_coherent_frequency":
        a2, kw2 = [args[0] * f, args[1] * f] + args[2:], kw
    else:
        a2, kw2 = args, {**kw, "fs": fs0 * f}
        if kw.get("cutoff_freq"):
            kw2["cutoff_freq"] = kw["cutoff_freq"] * f
    with contextlib.redirect_stdout(io.StringIO()):
        base, got = R.plain(ctx.call(fn, *args, **kw)), R.plain(ctx.call(fn, *a2, **kw2))
    if op == "predict_spurs":                                  # lines at one frequency come in no particular order
        base, got = [sorted(q, key=lambda e: (e["kind"], e["k"])) for q in (base, got)]
    base, got = dict(flat(base)), dict(flat(got))
    ctx.equal(sorted(got), sorted(base), "results returned")
    for p in base:
        key = p.split(".")[-1]
        a, b = base[p], got[p]
        if isinstance(a, (str, type(None))):
            ctx.check(a == b, f"{op}{p}: {a!r} becomes {b!r}")
            continue
        if key in ("freq", "fs", "fin", "freq_hz") or op == "estimate_frequency" or (op == "find_coherent_frequency" and p == "[0]"):
            want = np.asarray(a) * f
        elif key == "skew":
            want = np.asarray(a) / f
        elif key == "nsd_dbfs_hz":
            want = np.asarray(a) - 10 * math.log10(f)
        else:
            want = np.asarray(a)
        big = float(np.max(np.abs(want[np.isfinite(want)]), initial=0.0)) if want.dtype.kind in "fc" else 0.0
        ctx.check(np.allclose(b, want, rtol=1e-7, atol=1e-9 * big + (1e-9 / f if key == "skew" else 1e-13), equal_nan=True), f"{op}{p} with the rate {f:g} times larger is {str(b)[:70]}, should be {str(want)[:70]}")
    ctx.outcome(op, v, f)


RATE = ["analyze_spectrum", "analyze_spectrum runs", "analyze_spectrum_virtuoso", "analyze_spectrum_polar", "compute_spectrum", "compute_spectrum runs", "quick_sndr", "analyze_error_spectrum",
        "analyze_error_envelope_spectrum", "analyze_phase_plane", "analyze_error_phase_plane", "estimate_frequency", "find_coherent_frequency", "extract_mismatch_sine", "calibrate_foreground", "predict_spurs",
        "fractional_delay_fft", "fractional_delay_farrow"]


def families(tier):
    q = tier == "quick"
    gains = [2.0 ** -8, 0.5, 3.0, 1e-2, 2.0 ** 8, 2.0 ** 16] if q else [2.0 ** e for e in range(-8, 17)] + [1e-2, 0.1, 0.7, 3.0, 10.0, 1e3, 1e4]
    return [
        Tree("level and size", [("op", OPS), ("v", [0, 1, 2]), ("g", gains), ("o", [0.0, 0.75, -3.0])], level_body),
        Tree("level and size of long records", [("op", OPS), ("v", [3, 4, 5]), ("g", [1e-6, 2.0 ** -8, 3.0, 2.0 ** 23] if q else [1e-6, 1e-3, 2.0 ** -8, 3.0, 2.0 ** 16, 2.0 ** 23, 2.0 ** 31]), ("o", [0.0, 0.75])], level_body),
        Tree("rate", [("op", RATE), ("v", [0, 1, 2, 3, 4]), ("f", [1e-3, 0.5, 48e3, 1e6, 2.0 ** 33] if q else [10.0 ** e for e in range(-6, 13)] + [0.5, 48e3, 2.0 ** 33])], rate_body),
    ]
