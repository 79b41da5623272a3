"""F01 aliasing: folded bins and frequencies."""
from fractions import Fraction as Fr
import numpy as np
from mc.core import Tree
from adctoolbox import fold_bin_to_nyquist, fold_frequency_to_nyquist
from adctoolbox.common import fold_frequency_to_nyquist as common_fold

ASSUMPTIONS = ["bins on a quarter-bin grid over five wraps; rates from a fixed list; "
               "comparison within 1e-9 of the rate, exact for bins"]


def ref_fold(x, period):
    """Distance from x to the nearest multiple of period, in exact arithmetic."""
    x, period = Fr(x), Fr(period)
    r = x - period * (x // period)
    return min(r, period - r)


def bin_body(ctx, n, q):
    b = q / 4
    want = float(ref_fold(Fr(q, 4), n))
    got = ctx.call(fold_bin_to_nyquist, b, n)
    ctx.equal(float(got), want, f"fold_bin({b}, {n})")
    got_f = ctx.call(fold_frequency_to_nyquist, b, float(n))
    ctx.check(isinstance(got_f, float), "scalar frequency must fold to a float")
    ctx.close(got_f, want, f"fold_frequency({b}, fs={n})", rtol=0, atol=1e-9 * n)
    if q % 4 == 0:
        ctx.equal(float(ctx.call(fold_bin_to_nyquist, q // 4, n)), want, f"integer fold_bin({q // 4}, {n})")
        ctx.equal(float(ctx.call(fold_bin_to_nyquist, np.int64(q // 4), np.int64(n))), want,
                  f"numpy integer fold_bin({q // 4}, {n})")
    ctx.outcome(want, n)


def freq_body(ctx, fs, q, off):
    fin = fs * q / 24 + off * fs
    want = float(ref_fold(fin, fs))
    for fold in (fold_frequency_to_nyquist, common_fold):
        got = ctx.call(fold, fin, fs)
        ctx.check(isinstance(got, float), "scalar frequency must fold to a float")
        ctx.close(got, want, f"fold_frequency({fin}, {fs})", rtol=0, atol=1e-9 * fs)
        ctx.check(-1e-9 * fs <= got <= fs / 2 * (1 + 1e-9), "folded frequency outside [0, fs/2]")
    ctx.outcome(want)


def array_body(ctx, fs, shape, kind):
    size = int(np.prod(shape))
    qs = (np.arange(size) * 7 - 3 * size).reshape(shape)
    vals = qs * fs / 8
    if kind == "int":
        vals = np.round(vals).astype(int)
    arg = vals.tolist() if kind == "list" else vals
    before = np.array(vals, copy=True)
    got = ctx.call(fold_frequency_to_nyquist, arg, fs)
    want = np.array([float(ref_fold(float(v), fs)) for v in vals.ravel()]).reshape(shape)
    ctx.close(got, want, f"array fold shape {shape}", rtol=0, atol=1e-9 * fs)
    ctx.equal(vals, before, "argument modified")
    ctx.outcome(want, shape)


def dft_body(ctx, n, k, phase):
    """The tone really shows up where folding says."""
    t = np.arange(n)
    x = np.cos(2 * np.pi * k * t / n + phase)
    mag = np.abs(np.fft.rfft(x)) / n
    want = int(ref_fold(k, n))
    got = ctx.call(fold_bin_to_nyquist, k, n)
    ctx.equal(float(got), float(want), f"fold_bin({k}, {n})")
    edge = want == 0 or 2 * want == n
    if not edge:
        ctx.close(mag[int(got)], 0.5, "tone amplitude at folded bin", rtol=1e-6)
    ctx.check(mag[int(got)] >= mag.max() - 1e-9, f"bin {k} of {n}: spectrum peak is not at folded bin {got}")
    ctx.outcome(n, want)


def families(tier):
    q = tier == "quick"
    N = range(1, 25 if q else 65)
    rates = [1.0, 2, 3.0, 0.5, 7.0, 0.1, 1e3, 44100, 800e6, 1e-3]
    return [
        Tree("bins", [("n", N), ("q", lambda c: range(-10 * c["n"], 10 * c["n"] + 1))], bin_body),
        Tree("frequencies", [("fs", rates), ("q", range(-60, 61)),
                             ("off", [0, 1e-4, -1e-4] if q else [0, 1e-6, -1e-6, 1e-4, -1e-4, 0.013])], freq_body),
        Tree("arrays", [("fs", rates), ("shape", [(1,), (5,), (2, 3), (3, 1, 2), (0,), (40,)]),
                        ("kind", ["array", "int", "list"])], array_body),
        Tree("sampled tone", [("n", range(3, 17 if q else 33)), ("k", lambda c: range(-2 * c["n"], 3 * c["n"])),
                              ("phase", [0.0, 0.7])], dft_body),
        Tree("long records", [("n", [1000, 4095, 4096, 65535, 65536, 2 ** 20, 2 ** 31 + 8]), ("q", lambda c: [m * c["n"] + d for m in range(-8, 9) for d in (-5, -4, -2, -1, 0, 1, 2, 4, 5)])], bin_body),
    ]
