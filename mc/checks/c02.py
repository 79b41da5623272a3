"""C02 calibration that searches the frequency and calibration over several records."""
import contextlib, io, math
import numpy as np
from mc.core import Tree
from mc.checks.c01 import LISTS, slice_bits, tone, exact_record, identities
from adctoolbox.calibration import calibrate_weight_sine

ASSUMPTIONS = ["a starting frequency within a quarter of a bin of the truth, or the library's own coarse estimate for tones of at least 5 cycles away from band edges and low-order aliases"]


def refine_body(ctx, n, pos, ph, lst, order, off):
    f = pos / n
    harm = ((2, 0.01), (3, 0.006))[:order - 1]
    B, w, amp = exact_record(n, f, ph, LISTS[lst], harm)
    T = np.arange(n)
    H = np.stack([fn(2 * np.pi * f * h * T) for h in range(1, order + 1) for fn in (np.cos, np.sin)], axis=1)
    full = np.column_stack([B, np.ones(n), H])
    if np.linalg.matrix_rank(full, tol=1e-4) < full.shape[1] - 1:
        return
    r = ctx.call(calibrate_weight_sine, B, freq=f + off / n, force_search=True, harmonic_order=order)
    ctx.close(r["refined_frequency"], f, "frequency found", rtol=0, atol=1e-7 / n)
    ctx.close(r["weight"], w / amp, "true weights", rtol=0, atol=1e-6)
    identities(ctx, r, [B], [float(r["refined_frequency"])], order, 1e-6)
    keep = ctx.call(calibrate_weight_sine, B, freq=f + off / n, harmonic_order=order)
    ctx.close(keep["refined_frequency"], f + off / n, "a given frequency is kept", rtol=0, atol=0)
    keep = ctx.call(calibrate_weight_sine, B, freq=f + off / n, force_search=False, harmonic_order=order)
    ctx.close(keep["refined_frequency"], f + off / n, "a given frequency is kept when told so", rtol=0, atol=0)
    ctx.outcome(lst, order)


def auto_body(ctx, n, pos, ph, lst, how):
    """Coarse estimate plus search on plain bits."""
    f = pos / n
    b, _ = slice_bits(tone(n, f, ph, 0.48), LISTS[lst])
    freq = {"none": None, "zero": 0.0, "zeros": [0.0]}[how]
    r = ctx.call(calibrate_weight_sine, b if how != "zeros" else [b], freq=freq)
    ctx.close(r["refined_frequency"], f, "frequency found", rtol=0, atol=0.02 / n)
    w = np.asarray(LISTS[lst], float)
    got = np.asarray(r["weight"]) * 0.48 * w.sum()
    ctx.check(np.abs(got - w).max() < 0.35, f"weights {got} want {w}")
    identities(ctx, r, [b], [float(r["refined_frequency"])], 1, 1e-8)
    base = ctx.call(calibrate_weight_sine, b, freq=f)
    ctx.check(r["snr_db"] > base["snr_db"] - 0.05, f"search leaves {r['snr_db']} dB, the true frequency {base['snr_db']} dB")
    ctx.outcome(r["weight"])


def settings_body(ctx, n, pos, ph, lst, order, rate, iters, tol):
    """Any step size and iteration limit that leaves room to converge gives the same answer."""
    f = pos / n
    B, w, amp = exact_record(n, f, ph, LISTS[lst], ((2, 0.01), (3, 0.006))[:order - 1])
    T = np.arange(n)
    H = np.stack([fn(2 * np.pi * f * h * T) for h in range(1, order + 1) for fn in (np.cos, np.sin)], axis=1)
    full = np.column_stack([B, np.ones(n), H])
    if np.linalg.matrix_rank(full, tol=1e-4) < full.shape[1] - 1:
        return
    off = 0.2
    r = ctx.call(calibrate_weight_sine, B, freq=f + off / n, force_search=True, harmonic_order=order, learning_rate=rate, max_iter=iters, reltol=tol)
    # with step size rate the distance shrinks by about 1 - rate in every round
    left = max(3 * off * (1 - 0.75 * rate) ** (iters - 1), 10 * tol / rate, 1e-7)
    got = (float(r["refined_frequency"]) - f) * n
    ctx.check(abs(got) <= min(left, off * 1.0001), f"{got} bins away after {iters} rounds, at most {left} expected")
    if left < 1e-4:
        ctx.close(r["weight"], w / amp, "true weights", rtol=0, atol=max(1e-6, 30 * left))
    ctx.outcome(lst, rate, iters)


def policy_body(ctx, n, pos, ph, lst, iters, rate):
    """No search when it is switched off, unless a placeholder of zero is left."""
    b, _ = slice_bits(tone(n, pos / n, ph, 0.48), LISTS[lst])
    c, _ = slice_bits(tone(n + 60, pos / n + 0.07, ph + 1.0, 0.45), LISTS[lst])
    for bits, fr in ((b, None), (b, 0.0), ([b, c], None), ([b, c], [pos / n, pos / n + 0.07])):
        r = ctx.call(calibrate_weight_sine, bits, freq=fr, force_search=False)
        s = ctx.call(calibrate_weight_sine, bits, freq=fr, force_search=False, max_iter=iters, learning_rate=rate)
        for k in ("refined_frequency", "weight", "offset", "snr_db"):
            ctx.close(s[k], r[k], f"search settings matter although no search was asked for: {k}", rtol=1e-12, atol=0)
    fr = [pos / n, 0.0]
    r = ctx.call(calibrate_weight_sine, [b, c], freq=fr, force_search=False, max_iter=iters, learning_rate=rate)
    s = ctx.call(calibrate_weight_sine, [b, c], freq=fr, force_search=True, max_iter=iters, learning_rate=rate)
    ctx.close(r["refined_frequency"], s["refined_frequency"], "search when a placeholder is left", rtol=1e-9, atol=1e-12)
    ctx.outcome(lst)


def several_body(ctx, lens, order_of, lst, how):
    """Coarse estimate plus search, every record with its own tone."""
    segs, fs = [], []
    for n, i in zip(lens, order_of):
        c, ph, amp = FAR[i]
        segs.append(slice_bits(tone(n, c / 512, ph, amp), LISTS[lst])[0])
        fs.append(c / 512)
    freq = {"none": None, "zero": 0.0, "zeros": [0.0] * len(segs), "array": np.zeros(len(segs))}[how]
    r = ctx.call(calibrate_weight_sine, segs, freq=freq)
    ctx.close((np.asarray(r["refined_frequency"]) - fs) * np.array(lens), np.zeros(len(segs)), "every record's own frequency (bins)", rtol=0, atol=0.02)
    w = np.asarray(LISTS[lst], float)
    got = np.asarray(r["weight"]) * FAR[order_of[0]][2] * w.sum()
    ctx.check(np.abs(got - w).max() < 0.35, f"weights {got} want {w}")
    identities(ctx, r, segs, list(r["refined_frequency"]), 1, 1e-8)
    ctx.outcome(r["weight"])


FAR = [(7, 0.3, 0.46), (31.37, -1.2, 0.40), (53.5, 2.2, 0.44), (67.8, 0.0, 0.47)]


def high_body(ctx, n, part, ph, lst, rev):
    """Tones in the upper half of the band: the most significant bit toggles most."""
    pos = round(part * n) + 0.37
    f = pos / n
    b, _ = slice_bits(tone(n, f, ph, 0.48), LISTS[lst])
    b = b[:, ::-1] if rev else b
    r = ctx.call(calibrate_weight_sine, b)
    ctx.close((float(r["refined_frequency"]) - f) * n, 0.0, "frequency found (bins)", rtol=0, atol=0.02)
    identities(ctx, r, [b], [float(r["refined_frequency"])], 1, 1e-8)
    base = ctx.call(calibrate_weight_sine, b, freq=f)
    ctx.close(r["weight"], base["weight"], "weights as at the true frequency", rtol=0, atol=0.05)
    ctx.check(r["snr_db"] > base["snr_db"] - 0.05, f"search leaves {r['snr_db']} dB, the true frequency {base['snr_db']} dB")
    ctx.outcome(r["weight"])


def silent(ctx, *args, **kw):
    with contextlib.redirect_stdout(io.StringIO()):
        return ctx.call(calibrate_weight_sine, *args, **kw)


def talk_body(ctx, case, freq, level):
    """Printing progress changes nothing."""
    b, _ = slice_bits(tone(512, 31.37 / 512, 0.4, 0.48), LISTS["bin6"])
    c, _ = slice_bits(tone(400, 21.6 / 400, 1.4, 0.48), LISTS["bin6"])
    bits = {"plain": b, "stuck": np.insert(b, 2, 1, axis=1), "twin": np.column_stack([b, b[:, 1]]), "sum": np.column_stack([b, b[:, 1] + b[:, 2]]), "two": [b, c]}[case]
    f = {"none": None, "given": [31.37 / 512, 21.6 / 400] if case == "two" else 31.37 / 512}[freq]
    want = silent(ctx, bits, freq=f, verbose=0)
    got = silent(ctx, bits, freq=f, verbose=level)
    for k in want:
        for x, y in zip(got[k] if isinstance(got[k], list) else [got[k]], want[k] if isinstance(want[k], list) else [want[k]]):
            ctx.close(np.asarray(x), np.asarray(y), f"{k} with progress printed", rtol=0, atol=0)
    ctx.outcome(case, want["weight"])


SETS = [(7, 0.3, 0.46, 0.5), (19, -1.2, 0.30, 0.55), (41, 2.2, 0.40, 0.45), (12.3, 0.0, 0.44, 0.5)]


def multi_body(ctx, lens, order_of, lst, order, mode):
    segs, fs, amps, dcs = [], [], [], []
    w = None
    for n, i in zip(lens, order_of):
        c, ph, amp, dc = SETS[i]
        f = c / 128
        harm = ((2, 0.01), (3, 0.006))[:order - 1]
        B, w, a = exact_record(n, f, ph, LISTS[lst], harm, amp, dc)
        segs.append(B)
        fs.append(f)
        amps.append(a)
        dcs.append(dc * float(np.sum(LISTS[lst])))
    if mode == "same":
        fs = [fs[0]] * len(fs)
        segs = [exact_record(n, fs[0], SETS[i][1], LISTS[lst], harm, SETS[i][2], SETS[i][3])[0] for n, i in zip(lens, order_of)]
        r = ctx.call(calibrate_weight_sine, segs, freq=fs[0], harmonic_order=order)
    elif mode == "given":
        r = ctx.call(calibrate_weight_sine, segs, freq=fs, harmonic_order=order)
    elif mode == "array":
        r = ctx.call(calibrate_weight_sine, segs, freq=np.array(fs), harmonic_order=order)
    else:
        d = {"search+": 0.2, "search-": -0.25}[mode]
        r = ctx.call(calibrate_weight_sine, segs, freq=[f + d * (-1) ** i / len(s) for i, (f, s) in enumerate(zip(fs, segs))], force_search=True, harmonic_order=order)
    ctx.close(np.atleast_1d(r["refined_frequency"]), np.array(fs), "every record's own frequency", rtol=0, atol=1e-8)
    ctx.close(r["weight"], w / amps[0], "shared true weights", rtol=0, atol=1e-6)
    identities(ctx, r, segs, list(np.atleast_1d(r["refined_frequency"])), order, 1e-6)
    for i, s in enumerate(segs):
        g = np.asarray(r["ideal"][i])
        ctx.close(np.asarray(r["error"][i]), np.zeros(len(s)), f"record {i}: nothing left over", rtol=0, atol=1e-6)
        ctx.close(g, (s @ w - dcs[i]) / amps[0], f"record {i}: ideal waveform", rtol=0, atol=1e-5)
    ctx.close(r["offset"], dcs[0] / amps[0], "offset", rtol=0, atol=1e-5)
    ctx.outcome(lens, order_of, lst)


def multi_bits_body(ctx, lens, order_of, lst, order):
    """Same records stacked in any order share one set of weights; a repeated record changes nothing."""
    segs, fs = [], []
    for n, i in zip(lens, order_of):
        c, ph, amp, dc = SETS[i]
        segs.append(slice_bits(tone(n, c / 128, ph, amp, dc), LISTS[lst])[0])
        fs.append(c / 128)
    r = ctx.call(calibrate_weight_sine, segs, freq=fs, harmonic_order=order)
    identities(ctx, r, segs, fs, order, 1e-8)
    one = ctx.call(calibrate_weight_sine, segs[0], freq=fs[0], harmonic_order=order)
    twice = ctx.call(calibrate_weight_sine, [segs[0], segs[0]], freq=[fs[0]] * 2, harmonic_order=order)
    identities(ctx, twice, [segs[0]] * 2, [fs[0]] * 2, order, 1e-8)
    ctx.check(np.abs(np.asarray(twice["weight"]) - np.asarray(one["weight"])).max() < 0.1 * np.abs(one["weight"]).max(), "a repeated record keeps the weights")
    ctx.outcome(r["weight"])


def families(tier):
    q = tier == "quick"
    phs = [0.0, 0.3, math.pi / 2, -2.0] if q else [0.0, 0.3, 1.0, math.pi / 2, 2.4, math.pi, -2.0, -1.0]
    lens = [(128, 128), (97, 150), (200, 80)] if q else [(128, 128), (97, 150), (200, 80), (128, 90, 110), (100, 101, 102)]
    def orders(c):
        import itertools
        return list(itertools.permutations(range(4), len(c["lens"])))
    return [
        Tree("refine", [("n", [128, 97] if q else [97, 128, 200]), ("pos", [7.0, 11.37, 29.0] if q else [5.6, 7.0, 11.37, 29.0, 36.2]), ("ph", phs), ("lst", ["bin4", "red6", "bad5", "one"]), ("order", [1, 2, 3]), ("off", [0.0, 0.1, -0.15, 0.25, -0.25])], refine_body),
        Tree("search from nothing", [("n", [512] if q else [512, 1000]), ("pos", [7.0, 31.37, 53.5, 67.8] if q else [7.0, 11.2, 23.6, 31.37, 53.5, 67.8, 89.0]), ("ph", phs), ("lst", ["bin6", "red6", "bin4"]), ("how", ["none", "zero", "zeros"])], auto_body),
        Tree("several records", [("lens", lens), ("order_of", orders), ("lst", ["bin4", "red6", "bad5"]), ("order", [1, 2, 3]), ("mode", ["same", "given", "array", "search+", "search-"])], multi_body),
        Tree("several bit records", [("lens", lens), ("order_of", orders), ("lst", ["bin4", "bin6", "red6", "bad5"]), ("order", [1, 3])], multi_bits_body),
        Tree("search settings", [("n", [128, 97]), ("pos", [7.0, 11.37] if q else [7.0, 11.37, 29.0]), ("ph", phs[:2] if q else phs[:4]), ("lst", ["bin4", "red6"]), ("order", [1, 3]), ("rate", [0.1, 0.3, 0.5, 0.8, 1.0]), ("iters", [1, 2, 3, 5, 10, 30, 300]), ("tol", [1e-12, 1e-6])], settings_body),
        Tree("search policy", [("n", [512, 300]), ("pos", [7.0, 31.37, 53.5]), ("ph", phs[:3]), ("lst", ["bin4", "red6"]), ("iters", [1, 3]), ("rate", [0.5, 1.0])], policy_body),
        Tree("several from nothing", [("lens", [(512, 512), (400, 700), (512, 300, 800)]), ("order_of", lambda c: orders(c)[::3] if q else orders(c)), ("lst", ["bin4", "bin6", "red6"]), ("how", ["none", "zero", "zeros", "array"])], several_body),
        Tree("high tones", [("n", [512, 1000]), ("part", [0.31, 0.36, 0.41, 0.43, 0.459, 0.474, 0.486, 0.49, 0.493]), ("ph", phs), ("lst", ["bin4", "bin6", "red6"]), ("rev", [False, True])], high_body),
        Tree("progress", [("case", ["plain", "stuck", "twin", "sum", "two"]), ("freq", ["none", "given"]), ("level", [1, 2, 3])], talk_body),
        Tree("long records", [("n", [4096, 8192]), ("pos", [61.0, 131.37, 307.5]), ("ph", phs[:2]), ("lst", ["bin6", "bin10", "red14"]), ("how", ["none", "zeros"])], auto_body),
        Tree("several long records", [("lens", [(1024, 800, 4096, 300)]), ("order_of", lambda c: [(0, 1, 2, 3), (2, 0, 3, 1), (3, 2, 1, 0)]), ("lst", ["bin6", "bin10", "red14"]), ("order", [1, 3]), ("mode", ["same", "given", "search+"])], multi_body),
    ]
