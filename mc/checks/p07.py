"""P07 only the values count: the same data stored in another way gives the same results."""
import contextlib
import copy
import io
import warnings
import numpy as np
from mc.checks import p01
from mc.core import Tree
from mc.ref import registry as R
import adctoolbox.aout as ao

ASSUMPTIONS = ["storage forms: read-only, every-second-element view, reversed view, Fortran order, big-endian, unaligned, integer or boolean type where the values allow it, plain lists",
               "captures stored as 8, 16 or 32 bit whole numbers, filling up to their whole range, compared with the same codes as floating point"]


def forms(x):
    """name -> the same values stored differently."""
    out = {}
    ro = x.copy()
    ro.flags.writeable = False
    out["read-only"] = ro
    wide = np.empty(x.shape[:-1] + (2 * x.shape[-1],), x.dtype)
    wide[...] = 77
    wide[..., ::2] = x
    out["every second element"] = wide[..., ::2]
    tall = np.zeros((2 * x.shape[0],) + x.shape[1:], x.dtype)
    tall[1::2] = x
    out["every second row"] = tall[1::2]
    out["reversed view"] = x[::-1].copy()[::-1]
    if x.ndim == 2:
        out["column order"] = np.asfortranarray(x)
        out["transposed view"] = x.T.copy().T
    out["big-endian"] = x.astype(x.dtype.newbyteorder(">"))
    raw = np.zeros(x.nbytes + 1, np.uint8)
    un = raw[1:].view(x.dtype).reshape(x.shape)
    un[...] = x
    out["unaligned"] = un
    if x.dtype.kind in "iu":
        out["float"] = x.astype(float)
        for t in (np.int8, np.uint8, np.int16, np.uint16, np.int32, np.uint32):
            if np.array_equal(x.astype(t), x):
                out[np.dtype(t).name] = x.astype(t)
        if set(np.unique(x)) <= {0, 1}:
            out["boolean"] = x.astype(bool)
    if x.dtype.kind == "f" and np.array_equal(x, np.round(x)) and x.size:
        out["integer"] = x.astype(np.int64)
        out["int32"] = x.astype(np.int32)
    out["list"] = x.tolist()
    return out


NAMES = ["read-only", "every second element", "every second row", "reversed view", "column order", "transposed view", "big-endian", "unaligned",
         "float", "int8", "uint8", "int16", "uint16", "int32", "uint32", "boolean", "integer", "list"]


ARRAY_ONLY = {"fit_static_nonlin", "calibrate_weight_sine", "calibrate several", "calibrate redundant", "calibrate_weight_sine_lite", "units", "sar_reconstruct"}     # documented for arrays, not lists


def places(args):
    return [i for i, x in enumerate(args) if isinstance(x, np.ndarray) and x.ndim]


def body(ctx, op, v, place, form):
    fn, args, kw = R.CALC[op](v)
    f = forms(args[place])
    if form not in f or form == "list" and op in ARRAY_ONLY or form == "boolean" and op == "validate digital":
        return
    new = list(copy.deepcopy(args))
    new[place] = f[form]
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            got = R.plain(ctx.call(fn, *new, **copy.deepcopy(kw)))
        except (ArithmeticError, AttributeError, LookupError, TypeError, ValueError, np.linalg.LinAlgError) as e:
            got = f"raised {type(e).__name__}"
    d = R.differ(got, p01._BASE[op, v], summed=0.0)
    ctx.check(d is None, f"{op}[{v}] argument {place} stored as {form}: {d}")
    ctx.outcome(op, v, place, form)


# full-range converter output as it comes from a capture file, against the same codes as floating point
CODES = {"int8": (-128, 127), "uint8": (0, 255), "int16": (-32768, 32767), "uint16": (0, 65535), "int32": (-2 ** 31, 2 ** 31 - 1), "uint32": (0, 2 ** 32 - 1)}
RECORDS = ["analyze_spectrum", "analyze_spectrum runs", "analyze_spectrum_virtuoso", "analyze_spectrum_polar", "compute_spectrum", "compute_spectrum runs", "quick_sndr",
           "sweep_performance_vs_osr", "analyze_error_by_value", "analyze_error_by_phase", "rearrange_error_by_value", "rearrange_error_by_phase", "analyze_error_pdf",
           "analyze_error_autocorr", "analyze_error_spectrum", "analyze_error_envelope_spectrum", "analyze_phase_plane", "analyze_error_phase_plane", "analyze_decomposition_time",
           "analyze_decomposition_polar", "decompose_harmonic_error", "decompose_harmonics", "old error pdf", "old error by phase", "old spectrum", "fit_sine_4param", "fit_sine columns",
           "deinterleave", "extract_mismatch_sine", "calibrate_foreground", "fractional_delay_fft", "fractional_delay_farrow"]


def run(ctx, fn, args, kw):
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return R.plain(ctx.call(fn, *copy.deepcopy(args), **copy.deepcopy(kw)))


def codes_body(ctx, op, v, kind, part):
    """part: how much of the range of the integer type the record fills."""
    fn, args, kw = R.CALC[op](v)
    x = np.asarray(args[0], float)
    lo, hi = CODES[kind]
    mid, half = (lo + hi) / 2, (hi - lo) / 2
    q = np.round(mid + half * part * (2 * (x - x.min()) / np.ptp(x) - 1)).astype(np.int64).astype(kind)
    got = run(ctx, fn, [q] + list(args[1:]), kw)
    want = run(ctx, fn, [q.astype(float)] + list(args[1:]), kw)
    d = R.differ(got, want, summed=0.0)
    ctx.check(d is None, f"{op}[{v}] on {kind} codes filling {part} of their range: {d}")
    ctx.outcome(op, v, kind, part)


def near(a, b, path=""):
    """First difference beyond single precision of two plain results, or None."""
    if isinstance(a, dict) and isinstance(b, dict) and sorted(a) == sorted(b):
        return next(filter(None, (near(a[k], b[k], f"{path}.{k}") for k in a)), None)
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        return next(filter(None, (near(x, y, f"{path}[{i}]") for i, (x, y) in enumerate(zip(a, b)))), None)
    if isinstance(a, (dict, list, str, type(None))) or isinstance(b, (dict, list, str, type(None))):
        return None if type(a) is type(b) and isinstance(a, (str, type(None))) and a == b else f"{path}: {str(a)[:60]} vs {str(b)[:60]}"
    x, y = np.asarray(a), np.asarray(b)
    if x.shape != y.shape:
        return f"{path}: shape {x.shape} vs {y.shape}"
    top = np.max(np.abs(np.where(np.isfinite(x), x, 0)), initial=0.0)
    if "_db" in path and x.ndim:                # lines far below the strongest hold rounding only
        top = np.max(np.where(np.isfinite(x), x, -np.inf))
        x, y = np.maximum(x, top - 90), np.maximum(y, top - 90)
        top = 10.0
    return None if np.allclose(x, y, rtol=2e-3, atol=2e-3 * top + 1e-12, equal_nan=True) else f"{path}: {str(x)[:60]} vs {str(y)[:60]}"


def single_body(ctx, op, v, place):
    """Single precision: the results of the same rounded values in double precision, to single precision."""
    fn, args, kw = R.CALC[op](v)
    x = args[place]
    if x.dtype.kind not in "fiu" or x.dtype.kind != "f" and np.max(np.abs(x), initial=0) >= 2 ** 24:
        return
    res = []
    for z in (x.astype(np.float32), x.astype(np.float32).astype(float)):
        new = list(copy.deepcopy(args))
        new[place] = z
        with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                res.append(R.plain(ctx.call(fn, *new, **copy.deepcopy(kw))))
            except (ArithmeticError, AttributeError, LookupError, TypeError, ValueError, np.linalg.LinAlgError) as e:
                res.append(f"raised {type(e).__name__}")
    d = near(res[1], res[0])
    ctx.check(d is None, f"{op}[{v}] argument {place} in single precision: {d}")
    ctx.outcome(op, v, place)


def inl_body(ctx, kind, shape, clip):
    lo, hi = CODES[kind]
    n = 5000
    if shape == "ramp":
        q = np.linspace(lo, hi, n).round()
        calls = [(ao.compute_inl_from_ramp, dict(code_min=lo)), (ao.compute_inl_from_ramp, dict(code_min=lo, code_max=hi)), (ao.analyze_inl_from_ramp, dict(code_min=lo, create_plot=False))]
    else:
        q = np.round((lo + hi) / 2 + (hi - lo) / 2 * np.sin(2 * np.pi * 7.1234 * np.arange(n) / n))
        calls = [(ao.compute_inl_from_sine, dict(clip_percent=clip)), (ao.analyze_inl_from_sine, dict(clip_percent=clip, create_plot=False))]
    q = q.astype(np.int64)
    for fn, kw in calls:
        d = R.differ(run(ctx, fn, [q.astype(kind)], kw), run(ctx, fn, [q], kw))
        ctx.check(d is None, f"{fn.__name__} on {kind} codes: {d}")
    ctx.outcome(kind, shape, clip)


def families(tier):
    p01.baseline()
    ops = [o for o in R.CALC if places(R.CALC[o](0)[1])]
    return [Tree("storage", [("op", ops), ("v", [0, 1, 2]), ("place", lambda c: places(R.CALC[c["op"]](c["v"])[1])), ("form", NAMES)], body),
            Tree("storage of long records", [("op", ops), ("v", [3, 4, 5]), ("place", lambda c: places(R.CALC[c["op"]](c["v"])[1])), ("form", NAMES)], body),
            Tree("single precision", [("op", ops), ("v", [0, 1, 2]), ("place", lambda c: places(R.CALC[c["op"]](c["v"])[1]))], single_body),
            Tree("converter codes", [("op", RECORDS), ("v", [0, 1, 2, 3, 4, 5]), ("kind", sorted(CODES)), ("part", [1.0, 0.6, 0.3])], codes_body),
            Tree("code histograms", [("kind", ["int8", "uint8", "int16", "uint16"]), ("shape", ["ramp", "sine"]), ("clip", [0.0, 0.01, 0.1])], inl_body)]
