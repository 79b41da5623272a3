"""Every public analysis as a call with fixed inputs: three small variants 0..2, and 3..5 the same with records LONG times as long."""
import copy
import math
import numpy as np
import adctoolbox as A
import adctoolbox.aout as ao
import adctoolbox.dout as do
import adctoolbox.common as co
import adctoolbox.calibration as ca
import adctoolbox.fundamentals as fu
import adctoolbox.models as mo
import adctoolbox.oversampling as ov
import adctoolbox.spectrum as sp
import adctoolbox.timeinterleave as ti
from adctoolbox.siggen import ADC_Signal_Generator


LONG = 64
_times = 1         # record length factor while the arguments of a call are made


def scaled(make, v):
    global _times
    _times = LONG if v >= 3 else 1
    try:
        return make(v % 3)
    finally:
        _times = 1


def cycles(k):
    """Whole cycles in a record that holds k of them at the basic length."""
    return k * _times + (_times > 1)


def rec(v, n=(128, 97, 128)):
    """A distorted tone with a fixed rough error; three variants."""
    n = n[v] * _times
    t = np.arange(n)
    k = cycles((9, 11, 37)[v])
    p = 2 * np.pi * k / n * t + (0.3, 1.7, -2.2)[v]
    e = ((t * t * 7 + 3 * t) % 23 - 11) / 23
    return (0.48, 1.3, 0.9)[v] * np.sin(p) + 0.01 * np.sin(2 * p) + 0.004 * np.cos(3 * p) + (0.5, 0.0, -0.2)[v] + (0.002, 0.02, 0.006)[v] * e


def runs(v):
    return np.stack([rec(v), np.roll(rec(v), 5), rec(v)[::-1]])


def bits(v):
    n = (128, 97, 160)[v] * _times
    t = np.arange(n)
    w = ([8, 4, 2, 1], [16, 9, 5, 3, 2, 1], [32, 16, 8, 4, 2, 1])[v]
    x = (0.5 + 0.47 * np.sin(2 * np.pi * cycles((9, 11, 33)[v]) / n * t + 0.4)) * sum(w)
    out = np.zeros((n, len(w)), int)
    for j, wj in enumerate(w):
        out[:, j] = x >= wj
        x = x - wj * out[:, j]
    return out, np.array(w, float)


def freq(v, n=None):
    return cycles((9, 11, 37)[v]) / ((128, 97, 128)[v] * _times)


def bfreq(v):
    return cycles((9, 11, 33)[v]) / ((128, 97, 160)[v] * _times)


def codes(v):
    return np.repeat([np.repeat(np.arange(8), [4, 3, 5, 4, 6, 2, 4, 4]), np.repeat(np.arange(5), [1, 2, 3, 4, 5]), np.repeat(np.arange(3, 9), 7)][v], _times)


def capture(v):
    m = (2, 4, 3)[v]
    n = np.arange(m * 32 * _times)
    f = cycles(5) / len(n)
    return np.sin(2 * np.pi * f * (n + 0.01 * (n % m))) * (1 + 0.02 * (n % m)) + 0.1 * (n % m), m, f


def gen(v):
    return dict(N=(64, 63, 128)[v], Fs=(1.0, 1e6, 8.0)[v], Fin=(5 / 64, 7e6 / 63, 0.5)[v], A=(0.4, 1.0, 0.3)[v], DC=(0.5, 0.0, 0.1)[v])


PLOT = {}          # name -> (callable(v, **plot keywords), switch keyword, axes keyword or None)
CALC = {}          # name -> callable(v) -> (fn, args, kwargs)


def calc(name, fn, make):
    CALC[name] = lambda v: (fn,) + scaled(make, v)


def plot(name, fn, make, switch="create_plot", ax="ax", polar=False):
    """Analyses that can draw; as a pure computation they are called with drawing off."""
    def full(v):
        args, kw = scaled(make, v)
        return fn, args, {**kw, switch: False}
    CALC[name] = full
    PLOT[name] = (fn, lambda v: scaled(make, v), switch, ax, polar)


one = lambda v: ((rec(v),), {})
# ---- spectrum
plot("analyze_spectrum", A.analyze_spectrum, lambda v: ((rec(v),), [{}, dict(fs=1e6, osr=2, win_type="blackman", side_bin=3), dict(max_harmonic=3, nf_method=3, max_scale_range=[-1, 1])][v]))
plot("analyze_spectrum runs", A.analyze_spectrum, lambda v: ((runs(v),), dict(coherent_averaging=v != 0, win_type="boxcar")))
plot("analyze_spectrum_virtuoso", A.analyze_spectrum_virtuoso, lambda v: ((rec(v),), [{}, dict(fs=1e3), dict(osr=2)][v]))
plot("analyze_spectrum_polar", A.analyze_spectrum_polar, lambda v: ((rec(v),), [{}, dict(harmonic=3), dict(win_type="hann")][v]), polar=True)
calc("compute_spectrum", sp.compute_spectrum, lambda v: ((rec(v),), [{}, dict(win_type="blackman", osr=2), dict(coherent_averaging=True)][v]))
calc("compute_spectrum runs", sp.compute_spectrum, lambda v: ((runs(v),), dict(coherent_averaging=v == 1, nf_method=v)))
calc("quick_sndr", A.quick_sndr, lambda v: ((rec(v),), [{}, dict(win_type="boxcar"), dict(side_bin=2)][v]))
calc("extract_freq_components", A.extract_freq_components, lambda v: ((rec(v), [[0.0, 0.1], [0.2, (0.3, 0.4, 0.5)[v]]]), {}))
plot("sweep_performance_vs_osr", A.sweep_performance_vs_osr, lambda v: ((rec(v),), [dict(osr=[1, 2, 4, 8]), dict(osr=[8, 1.5, 3, 1]), dict(osr=[2, 2, 1, 16])][v]))
# ---- analog output
plot("analyze_error_by_value", A.analyze_error_by_value, lambda v: ((rec(v),), [dict(n_bins=10), dict(n_bins=7, clip_percent=0.15), dict(n_bins=20, norm_freq=freq(2))][v]), ax="axes2")
plot("analyze_error_by_phase", A.analyze_error_by_phase, lambda v: ((rec(v),), [dict(n_bins=10), dict(n_bins=8, include_base_noise=False), dict(n_bins=20, norm_freq=freq(2))][v]), ax="axes2")
calc("rearrange_error_by_value", ao.rearrange_error_by_value, lambda v: ((rec(v),), dict(n_bins=9 + v, return_fit=v == 1)))
calc("rearrange_error_by_phase", ao.rearrange_error_by_phase, lambda v: ((rec(v),), dict(n_bins=9 + v, return_fit=v == 1)))
plot("analyze_error_pdf", A.analyze_error_pdf, lambda v: ((rec(v),), [{}, dict(resolution=6), dict(resolution=8, full_scale=2.0)][v]))
plot("analyze_error_autocorr", A.analyze_error_autocorr, lambda v: ((rec(v),), [dict(max_lag=10), dict(max_lag=20, normalize=False), dict(max_lag=5, frequency=freq(2))][v]))
plot("analyze_error_spectrum", A.analyze_error_spectrum, lambda v: ((rec(v),), [{}, dict(fs=1e3), dict(frequency=freq(2))][v]))
plot("analyze_error_envelope_spectrum", A.analyze_error_envelope_spectrum, lambda v: ((rec(v),), [{}, dict(fs=1e3), dict(frequency=freq(2))][v]))
plot("analyze_phase_plane", ao.analyze_phase_plane, lambda v: ((rec(v),), [{}, dict(lag=3), dict(threshold=2.0)][v]))
plot("analyze_error_phase_plane", ao.analyze_error_phase_plane, lambda v: ((rec(v),), [{}, dict(fit_polynomial_order=2), dict(detect_hysteresis=False)][v]))
plot("analyze_decomposition_time", A.analyze_decomposition_time, lambda v: ((rec(v),), dict(harmonic=3 + v)), ax="axes2")
plot("analyze_decomposition_polar", A.analyze_decomposition_polar, lambda v: ((rec(v),), dict(harmonic=3 + v)), polar=True)
calc("decompose_harmonic_error", ao.decompose_harmonic_error, lambda v: ((rec(v),), dict(n_harmonics=2 + v)))
plot("analyze_inl_from_sine", A.analyze_inl_from_sine, lambda v: ((np.round(rec(v, (128, 97, 128)) * 20).astype(int) + 40,), dict(num_bits=7)), ax="axes2")
calc("compute_inl_from_sine", ao.compute_inl_from_sine, lambda v: ((np.round(rec(v) * 20).astype(int) + 40,), dict(num_bits=7, clip_percent=0.01 * v)))
plot("analyze_inl_from_ramp", A.analyze_inl_from_ramp, lambda v: ((codes(v),), dict(code_min=int(codes(v).min()), endpoint=("endpoints", "fit", "none")[v])), ax="axes2")
calc("compute_inl_from_ramp", ao.compute_inl_from_ramp, lambda v: ((codes(v),), dict(code_min=int(codes(v).min()), exclude_endpoints=v != 1)))
calc("fit_static_nonlin", A.fit_static_nonlin, lambda v: ((rec(v), 3 + (v == 2)), {}))
calc("decompose_harmonics", ao.decompose_harmonics, lambda v: ((rec(v),), dict(harmonic=3, disp=0)))
calc("old error pdf", ao.plot_error_pdf, lambda v: ((rec(v),), dict(create_plot=False)))
calc("old error by code", ao.plot_error_hist_code, lambda v: ((rec(v),), dict(bins=8, disp=0)))
calc("old error by phase", ao.plot_error_hist_phase, lambda v: ((rec(v),), dict(bins=8, disp=0)))
calc("old spectrum", ao.analyze_spectrum, lambda v: ((rec(v),), dict(n_thd=4, create_plot=False)))
# ---- digital output
plot("analyze_bit_activity", A.analyze_bit_activity, lambda v: ((bits(v)[0],), {}))
plot("analyze_overflow", A.analyze_overflow, lambda v: (bits(v), {}))
plot("analyze_weight_radix", A.analyze_weight_radix, lambda v: (([8, 4, 2, 1], [10.1, 5.2, -3, 1.4, 0.1], [1, 2, 4, 8.5])[v:v + 1], {}))
plot("analyze_enob_sweep", A.analyze_enob_sweep, lambda v: ((bits(v)[0],), dict(freq=bfreq(v), win_type=("hamming", "hann", "boxcar")[v])))
plot("plot_residual_scatter", do.plot_residual_scatter, lambda v: ((rec(0, (128,)) * 15 if v == 0 else bits(v)[0] @ bits(v)[1] + 0.25, bits(v)[0]), dict(weights=bits(v)[1], pairs=[(0, 1), (1, 3)])), ax=None)
# ---- calibration
calc("calibrate_weight_sine", A.calibrate_weight_sine, lambda v: ((bits(v)[0],), [dict(freq=bfreq(0)), dict(freq=bfreq(1), harmonic_order=3), dict(freq=bfreq(2) + 1e-4, force_search=True)][v]))
calc("calibrate several", A.calibrate_weight_sine, lambda v: (([bits(0)[0], np.roll(bits(0)[0], 3, axis=0)[:100]],), dict(freq=[bfreq(0), bfreq(0)], harmonic_order=1 + v)))
calc("calibrate redundant", A.calibrate_weight_sine, lambda v: ((np.column_stack([bits(v)[0], bits(v)[0][:, v], np.ones(len(bits(v)[0]))]),), dict(freq=bfreq(v))))
calc("calibrate_weight_sine_lite", ca.calibrate_weight_sine_lite, lambda v: ((bits(v)[0], bfreq(v)), {}))
# ---- fundamentals
calc("fit_sine_4param", A.fit_sine_4param, lambda v: ((rec(v),), [{}, dict(max_iterations=5), dict(frequency_estimate=freq(2), max_iterations=0)][v]))
calc("fit_sine columns", A.fit_sine_4param, lambda v: ((np.column_stack([rec(v), rec(v)[::-1] * 2]),), {}))
calc("estimate_frequency", A.estimate_frequency, lambda v: ((rec(v),), dict(fs=(1.0, 1e3, 7.0)[v])))
calc("find_coherent_frequency", A.find_coherent_frequency, lambda v: ((1e6, (1.2e5, 3e5, 4.9e5)[v], (64, 97, 128)[v]), {}))
calc("fold", A.fold_frequency_to_nyquist, lambda v: ((np.array([0.1, 0.7, 1.3, -0.2]) * (v + 1), 1.0), {}))
calc("validate analog", fu.validate_aout_data, lambda v: ((rec(v),), dict(min_samples=50)))
calc("validate digital", fu.validate_dout_data, lambda v: ((bits(v)[0],), dict(min_samples=50)))
calc("convert_cap_to_weight", fu.convert_cap_to_weight, lambda v: ((np.array([1., 2, 4, 8]), np.array([0., 0, 1 + v, 0]), np.array([0.1, 0, 0, v])), {}))
calc("amplitudes_to_snr", A.amplitudes_to_snr, lambda v: ((np.array([1.0, 0.5]), 1e-3 * (v + 1)), dict(osr=v + 1)))
calc("units", A.volts_to_lsb, lambda v: ((rec(v), 1.0, 8 + v), {}))
# ---- models, interleaving, oversampling
calc("sar_convert", mo.sar_convert, lambda v: ((rec(v), bits(v)[1] / 64), dict(quant_range=(-1.0, 1.0))))
calc("sar_reconstruct", mo.sar_reconstruct, lambda v: (bits(v), {}))
calc("sar_apply_cap_mismatch", lambda v, w: mo.sar_apply_cap_mismatch(w, 0.01, rng=np.random.default_rng(v)), lambda v: ((v, bits(v)[1]), {}))
calc("deinterleave", ti.deinterleave, lambda v: (capture(v)[:2], {}))
calc("interleave", ti.interleave, lambda v: ((np.arange(12.0).reshape((2, 4, 3)[v], -1),), {}))
calc("extract_mismatch_sine", ti.extract_mismatch_sine, lambda v: (capture(v)[:2] + (1.0,), dict(fin=capture(v)[2])))
PAR = lambda v: dict(offset=np.arange(capture(v)[1]) * 0.1, gain=1 + np.arange(capture(v)[1]) * 0.02, skew=np.arange(capture(v)[1]) * 0.01, fin=capture(v)[2], A=1.0)
calc("calibrate_foreground", ti.calibrate_foreground, lambda v: (capture(v)[:2] + (PAR(v), 1.0), dict(skew_method=("fft", "farrow", "fft")[v])))
calc("predict_spurs", ti.predict_spurs, lambda v: ((PAR(v), 1.0), {}))
calc("fractional_delay_fft", ti.fractional_delay_fft, lambda v: ((rec(v), 0.3 * (v + 1), 1.0), {}))
calc("fractional_delay_farrow", ti.fractional_delay_farrow, lambda v: ((rec(v), 0.7 * (v + 1), 1.0), dict(n_taps=3 + 2 * v)))
calc("ntf_analyzer", ov.ntf_analyzer, lambda v: ((([1, -1], [1, 0]), 0.0, 0.1 * (v + 1)), {}))
calc("ifilter", ov.ifilter, lambda v: ((rec(v), np.array([[0.05, 0.2 + 0.1 * v]])), {}))
calc("perfosr", ov.perfosr, lambda v: ((rec(v),), dict(disp=False, osr=[1, 2, 5 + v])))


def siggen(v, kind):
    g = ADC_Signal_Generator(**gen(v))
    x = g.get_clean_signal()
    if kind == "quantise":
        return g.apply_quantization_noise(x, n_bits=6 + v, quant_range=(-1.0, 1.5))
    if kind == "static":
        return g.apply_static_nonlinearity(x, k2=0.01, k3=0.02 * v)
    return x


calc("siggen clean", siggen, lambda v: ((v, "clean"), {}))
calc("siggen quantise", siggen, lambda v: ((v, "quantise"), {}))
calc("siggen static", siggen, lambda v: ((v, "static"), {}))


def plain(x):
    """Copy of a result made of numbers, arrays, strings and containers only."""
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, np.ndarray):
        return [plain(v) for v in x] if x.dtype == object else x.copy()
    if isinstance(x, (bool, int, float, complex, str, type(None), np.generic)):
        return copy.copy(x)
    return f"<{type(x).__name__}>"


def size(x):
    """Largest finite entry of an array, 0 for anything else."""
    if not isinstance(x, np.ndarray) or x.dtype.kind not in "fc" or not x.size:
        return 0.0
    return float(np.max(np.abs(np.where(np.isfinite(x), x, 0))))


def differ(a, b, path="", summed=None):
    """First difference of two plain results, or None. summed: numbers may carry the rounding of a sum over
    the arrays they come with (None: they may not)."""
    if type(a) is not type(b) and not (np.isscalar(a) and np.isscalar(b)):
        return f"{path}: {type(a).__name__} vs {type(b).__name__}"
    if isinstance(a, dict):
        if sorted(a) != sorted(b):
            return f"{path}: keys {sorted(set(a) ^ set(b))}"
        if summed is not None:
            summed = max(map(size, a.values()), default=0.0)
        for k in a:
            d = differ(a[k], b[k], f"{path}.{k}", summed)
            if d:
                return d
        return None
    if isinstance(a, list):
        if len(a) != len(b):
            return f"{path}: length {len(a)} vs {len(b)}"
        if summed is not None:
            summed = max(map(size, a), default=0.0)
        for i, (x, y) in enumerate(zip(a, b)):
            d = differ(x, y, f"{path}[{i}]", summed)
            if d:
                return d
        return None
    if isinstance(a, (str, type(None))):
        return None if a == b else f"{path}: {a!r} vs {b!r}"
    x, y = np.asarray(a), np.asarray(b)
    if x.shape != y.shape:
        return f"{path}: shape {x.shape} vs {y.shape}"
    if x.dtype.kind not in "fc":
        return None if np.array_equal(x, y) else f"{path}: {str(x)[:80]} vs {str(y)[:80]}"
    scale = np.nanmax(np.abs(np.where(np.isfinite(x), x, 0))) if x.size else 0.0
    if np.allclose(x, y, rtol=1e-9, atol=1e-10 * scale + 1e-14 + (1e-10 * (summed or 0.0) if x.ndim == 0 else 0.0), equal_nan=True):
        return None
    if "_db" in path and x.ndim:                # empty lines hold rounding only, which the order of summation decides
        top = np.nanmax(np.where(np.isfinite(x), x, -np.inf))
        if np.allclose(x, y, rtol=0, atol=1e-8 + 1e-6 * (np.minimum(x, y) < top - 100), equal_nan=True):
            return None
    return f"{path}: {str(x)[:80]} vs {str(y)[:80]}"


def scribble(x):
    """Overwrite every array of a result in place."""
    if isinstance(x, dict):
        for v in x.values():
            scribble(v)
    elif isinstance(x, (list, tuple)):
        for v in x:
            scribble(v)
    elif isinstance(x, np.ndarray) and x.dtype != object and x.flags.writeable:
        x[...] = x.dtype.type(0) if x.dtype.kind in "biu" else -77.0
