"""S03 metrics do not depend on unit, offset, sampling-rate label, run order or array layout."""
import itertools
import numpy as np
from mc.core import Tree
from mc.ref import spectrum as R
from mc.checks.s01 import record, runs, METRICS
from adctoolbox.spectrum import compute_spectrum

ASSUMPTIONS = ["records from the S01 alphabet; a setting whose reference hangs on a rounding tie is not judged; polarity reversal not judged for phase-aligned averaging of several runs"]


def same(ctx, a, b, what, skip=(), tol=1e-6):
    for k in METRICS:
        if k not in skip:
            ctx.close(b["metrics"][k], a["metrics"][k], f"{what}: {k}", rtol=0, atol=tol)
    if "harmonics_dbc" not in skip:
        ctx.close(b["metrics"]["harmonics_dbc"], a["metrics"]["harmonics_dbc"], f"{what}: harmonics_dbc", rtol=0, atol=tol)


def tie(ctx, x, **kw):
    try:
        R.spectrum(x, **kw)
        return False
    except R.Tie:
        ctx.skip_ambiguous()
        return True


def unit_body(ctx, n, pos, kind, win, nf, coh, m, gain, off, rng):
    if gain < 0 and coh and m > 1 or abs(off) > 1e4 * abs(gain):
        return
    x = runs(n, pos, kind, m)
    kw = dict(win_type=win, nf_method=nf, coherent_averaging=coh)
    r0 = None if rng is None else (rng if not isinstance(rng, tuple) else rng)
    if tie(ctx, x, max_scale_range=r0, **kw):
        return
    a = ctx.call(compute_spectrum, x, max_scale_range=r0, **kw)
    y = x * gain + off
    if rng is None:
        r1 = None
    elif isinstance(rng, tuple):
        r1 = tuple(sorted(v * gain + off for v in rng))
    else:
        r1 = rng * abs(gain)
    b = ctx.call(compute_spectrum, y, max_scale_range=r1, **kw)
    same(ctx, a, b, f"x*{gain}+{off}")
    ctx.outcome(a["metrics"]["sndr_dbc"], gain, off)


def fs_body(ctx, n, pos, kind, win, osr, fs):
    x = record(n, pos, kind)
    if tie(ctx, x, win_type=win, osr=osr):
        return
    a = ctx.call(compute_spectrum, x, fs=1.0, win_type=win, osr=osr)
    b = ctx.call(compute_spectrum, x, fs=fs, win_type=win, osr=osr)
    same(ctx, a, b, f"fs={fs}", skip=("nsd_dbfs_hz",))
    ctx.close(b["metrics"]["nsd_dbfs_hz"], a["metrics"]["nsd_dbfs_hz"] - 10 * np.log10(fs), "NSD follows the sampling rate", rtol=0, atol=1e-6)
    ctx.close(b["plot_data"]["freq"], np.asarray(a["plot_data"]["freq"]) * fs, "frequency axis", rtol=1e-9)
    ctx.outcome(a["metrics"]["nsd_dbfs_hz"], fs)


def order_body(ctx, n, pos, kind, win, coh, perm):
    x = runs(n, pos, kind, len(perm))
    if tie(ctx, x, win_type=win, coherent_averaging=coh):
        return
    a = ctx.call(compute_spectrum, x, win_type=win, coherent_averaging=coh)
    b = ctx.call(compute_spectrum, x[list(perm)], win_type=win, coherent_averaging=coh)
    same(ctx, a, b, f"run order {perm}")
    c = ctx.call(compute_spectrum, np.ascontiguousarray(x[list(perm)].T), win_type=win, coherent_averaging=coh)
    same(ctx, a, c, "samples down the columns")
    f = ctx.call(compute_spectrum, np.asfortranarray(x), win_type=win, coherent_averaging=coh)
    same(ctx, a, f, "memory order")
    ctx.outcome(a["metrics"]["sndr_dbc"])


def run_offset_body(ctx, n, pos, kind, win, coh, osr, offs):
    """Every run has its own offset; the range is given, so that the level does not follow them."""
    x = runs(n, pos, kind, len(offs))
    kw = dict(win_type=win, coherent_averaging=coh, osr=osr, max_scale_range=1.5)
    if tie(ctx, x, **kw):
        return
    a = ctx.call(compute_spectrum, x, **kw)
    b = ctx.call(compute_spectrum, x + np.array(offs)[:, None], **kw)
    same(ctx, a, b, f"offsets {offs}")
    ctx.close(10 ** (np.asarray(b["plot_data"]["power_spectrum_db_plot"]) / 10), 10 ** (np.asarray(a["plot_data"]["power_spectrum_db_plot"]) / 10), "power of every bin", rtol=1e-6, atol=1e-12)
    ctx.outcome(a["metrics"]["sndr_dbc"], offs)


def layout_body(ctx, n, pos, kind, win, form):
    x = record(n, pos, kind)
    if tie(ctx, x, win_type=win):
        return
    a = ctx.call(compute_spectrum, x, win_type=win)
    y = {"list": x.tolist(), "row": x[None, :], "col": x[:, None], "strided": np.repeat(x, 2)[::2],
         "negative stride": x[::-1].copy()[::-1], "read only": x.copy(), "object free": np.array(x, dtype=np.longdouble)}[form]
    if form == "read only":
        y.setflags(write=False)
    same(ctx, a, ctx.call(compute_spectrum, y, win_type=win), form)
    ctx.outcome(a["metrics"]["sndr_dbc"], form)


def shift_body(ctx, n, pos, kind, shift, nf, osr):
    """Without a taper a cyclic shift or a time reversal moves only phases."""
    x = record(n, pos, kind)
    kw = dict(win_type="rectangular", nf_method=nf, osr=osr)
    if tie(ctx, x, **kw):
        return
    a = ctx.call(compute_spectrum, x, **kw)
    same(ctx, a, ctx.call(compute_spectrum, np.roll(x, shift), **kw), f"cyclic shift by {shift}")
    same(ctx, a, ctx.call(compute_spectrum, np.roll(x, shift)[::-1].copy(), **kw), "time reversal")
    ctx.outcome(a["metrics"]["snr_dbc"], shift)


def families(tier):
    q = tier == "quick"
    ns = [24, 33] if q else [16, 24, 33, 48, 65]
    pos = [3.0, 5.3] if q else [2.0, 3.0, 5.3, 7.0]
    kinds = ["noise", "harm"]
    wins = ["hann", "rectangular", "blackmanharris"] if q else ["hann", "rectangular", "hamming", "blackman", "blackmanharris", "flattop", "kaiser", "chebwin"]
    return [
        Tree("gain and offset", [("n", ns), ("pos", pos), ("kind", kinds), ("win", wins), ("nf", [0, 2] if q else [0, 1, 2, 3, 4]),
                                 ("coh", [False, True]), ("m", [1, 3]), ("gain", [1.0, 1e-3, 0.37, 4096.0, -1.0, -2.5] if q else [1.0, 1e-6, 1e-3, 0.37, 4096.0, 1e6, -1.0, -2.5]),
                                 ("off", [0.0, 0.75] if q else [0.0, 0.75, -3.0]), ("rng", [None, 1.5, (-1.0, 2.0)])], unit_body),
        Tree("sampling rate", [("n", ns), ("pos", pos), ("kind", kinds), ("win", wins), ("osr", [1, 2, 3]), ("fs", [2.0, 44.1e3, 1e9])], fs_body),
        Tree("run order", [("n", ns), ("pos", pos), ("kind", kinds), ("win", wins), ("coh", [False, True]),
                           ("perm", list(itertools.permutations(range(3))) + ([] if q else list(itertools.permutations(range(4)))))], order_body),
        Tree("offset of each run", [("n", ns), ("pos", pos), ("kind", kinds), ("win", wins), ("coh", [False, True]), ("osr", [1, 2]),
                                    ("offs", [(0.0, 5.0), (0.3, -0.2, 0.0), (-100.0, 0.0, 100.0), (0.5, 0.5, 0.0, -1.0)])], run_offset_body),
        Tree("array form", [("n", ns), ("pos", pos), ("kind", kinds), ("win", wins),
                            ("form", ["list", "row", "col", "strided", "negative stride", "read only", "object free"])], layout_body),
        Tree("cyclic shifts", [("n", ns), ("pos", pos), ("kind", kinds), ("shift", lambda c: range(c["n"])), ("nf", [0, 4] if q else range(5)), ("osr", [1, 2])], shift_body),
        Tree("long records", [("n", [1000, 4096] if q else [1000, 4096, 16384]), ("pos", [37.0, 101.3]), ("kind", kinds), ("win", ["hann", "rectangular"]), ("nf", [0, 3]), ("coh", [False, True]), ("m", [1, 9]), ("gain", [1e-3, 3e4]), ("off", [0.75]), ("rng", [None, (-1.0, 2.0)])], unit_body),
        Tree("long records, run order", [("n", [1000, 4096]), ("pos", [37.0, 101.3]), ("kind", kinds), ("win", ["hann", "rectangular"]), ("coh", [False, True]), ("perm", [tuple(range(9))[::-1], (3, 1, 4, 0, 5, 9, 2, 6, 8, 7, 11, 10)])], order_body),
    ]
