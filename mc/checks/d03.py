"""D03 resolution against number of bits kept."""
import numpy as np
from mc.core import Tree
from mc.ref import spectrum as R
from adctoolbox.calibration import calibrate_weight_sine
from adctoolbox.dout import analyze_enob_sweep

ASSUMPTIONS = ["weights come from the library's own calibration (decided by C01)"]


def bits_of(x, w):
    w = np.asarray(w, float)
    v = x * w.sum()
    out = np.zeros((len(x), len(w)), int)
    for j, wj in enumerate(w):
        out[:, j] = v >= wj
        v = v - out[:, j] * wj
    return out


LISTS = {"bin4": [8, 4, 2, 1], "bin6": [32, 16, 8, 4, 2, 1], "red6": [16, 9, 5, 3, 2, 1], "bin8": [128, 64, 32, 16, 8, 4, 2, 1]}


SHORT = sorted(LISTS)
LISTS.update(bin10=[2 ** i for i in range(9, -1, -1)], bin12=[2 ** i for i in range(11, -1, -1)], red14=[1024, 560, 310, 170, 96, 54, 30, 17, 10, 6, 4, 2, 1, 1])


def body(ctx, n, k, lst, freq, order, osr, win):
    t = np.arange(n)
    x = 0.5 + 0.48 * np.sin(2 * np.pi * ((k * t) % n) / n + 0.3)
    b = bits_of(x, LISTS[lst])
    m = b.shape[1]
    f = None if freq is None else k / n
    w = np.asarray(ctx.call(calibrate_weight_sine, b, freq=f, harmonic_order=order)["weight"])
    e, nb = ctx.call(analyze_enob_sweep, b, freq=f, harmonic_order=order, osr=osr, win_type=win, create_plot=False)
    ctx.equal([int(v) for v in nb], list(range(1, m + 1)), "bit counts")
    ctx.equal(len(e), m, "one figure per bit count")
    for j in range(1, m + 1):
        try:
            ref = R.spectrum(b[:, :j] @ w[:j], win_type=win, osr=osr)["metrics"]["enob"]
        except R.Tie:
            ctx.skip_ambiguous()
            continue
        ctx.close(e[j - 1], ref, f"resolution with {j} bits", rtol=0, atol=1e-6)
    if osr == 1 and lst.startswith("bin") and (freq or 5 * k < n):     # the search documents failures near a quarter of the rate
        ctx.check(all(e[j + 1] > e[j] - 0.2 for j in range(m - 1)), f"resolution grows with bits {list(e)}")
        ctx.check(abs(e[-1] - m) < 0.7, f"all {m} bits resolve {e[-1]}")
    ctx.outcome(e)


def families(tier):
    q = tier == "quick"
    return [Tree("sweep", [("n", [256] if q else [255, 256, 500]), ("k", [7, 31] if q else [7, 23, 31, 61]), ("lst", SHORT), ("freq", [None, "given"]), ("order", [1, 3]), ("osr", [1, 2]), ("win", ["hamming", "hann", "boxcar"])], body),
            Tree("long records", [("n", [2048, 4096]), ("k", [61, 127]), ("lst", ["bin10", "bin12", "red14"]), ("freq", [None, "given"]), ("order", [1, 5]), ("osr", [1, 4]), ("win", ["hamming", "boxcar"])], body)]
