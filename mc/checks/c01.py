"""C01 weight calibration at a known frequency."""
import itertools, math
import numpy as np
from mc.core import Tree
from adctoolbox.calibration import calibrate_weight_sine
import adctoolbox.dout as D

ASSUMPTIONS = ["ground-truth records carry the analog remainder as one more column, so the weighted sum is the sine exactly",
               "plain bit records are judged by the stated identities and by least-squares optimality"]

LISTS = {
    "bin4": [8, 4, 2, 1], "bin6": [32, 16, 8, 4, 2, 1], "red6": [16, 9, 5, 3, 2, 1],
    "rad5": [1.8 ** i for i in (4, 3, 2, 1, 0)], "bad5": [16.7, 7.6, 4.2, 2.1, 0.9], "one": [1.0],
}


SHORT = sorted(LISTS)
LONG = {"bin10": [2 ** i for i in range(9, -1, -1)], "bin12": [2 ** i for i in range(11, -1, -1)], "red14": [1024, 560, 310, 170, 96, 54, 30, 17, 10, 6, 4, 2, 1, 0.5]}
LISTS.update(LONG)


def slice_bits(x, w):
    """Successive subtraction; x in 0..1 of the total weight; returns bits and the remainder."""
    w = np.asarray(w, float)
    v = np.asarray(x, float) * w.sum()
    out = np.zeros((len(v), len(w)), int)
    for j, wj in enumerate(w):
        out[:, j] = v >= wj
        v = v - out[:, j] * wj
    return out, v


def tone(n, f, ph, amp=0.46, dc=0.5, harm=()):
    t = np.arange(n)
    x = amp * np.sin(2 * np.pi * f * t + ph) + dc
    for h, a in harm:
        x = x + a * np.sin(2 * np.pi * f * h * t + 0.7 * h)
    return x


def exact_record(n, f, ph, w, harm=(), amp=0.46, dc=0.5):
    b, rest = slice_bits(tone(n, f, ph, amp, dc, harm), w)
    return np.column_stack([b, rest]), np.append(np.asarray(w, float), 1.0), amp * float(np.sum(w))


def identities(ctx, r, segs, freqs, order, tol=1e-9):
    """What every calibration result must satisfy; r holds one array per data set."""
    w = np.asarray(r["weight"])
    ctx.check(np.sum(w) >= 0, f"weights sum to {np.sum(w)}")
    ctx.equal((len(r["calibrated_signal"]), len(r["ideal"]), len(r["error"])), (len(segs),) * 3, "one waveform per data set")
    for k in ("snr_db", "enob", "refined_frequency"):
        ctx.equal(np.shape(r[k]), () if len(segs) == 1 else (len(segs),), f"shape of {k}")
    ctx.equal(np.shape(r["offset"]), (), "one offset")
    snr = np.atleast_1d(r["snr_db"])
    enob = np.atleast_1d(r["enob"])
    for i, (b, f) in enumerate(zip(segs, freqs)):
        c, g, e = (np.asarray(r[k][i]) for k in ("calibrated_signal", "ideal", "error"))
        ctx.close(c, b @ w, "calibrated = bits x weights", rtol=0, atol=tol)
        d = c - g - e
        ctx.close(d, np.full(len(d), d.mean()), "calibrated = ideal + error + constant", rtol=0, atol=tol)
        if i == 0:
            ctx.close(r["offset"], d.mean(), "the constant is the offset", rtol=0, atol=tol)
        t = np.arange(len(c))
        B = np.stack([fn(2 * np.pi * f * h * t) for h in range(1, order + 1) for fn in (np.cos, np.sin)], axis=1)
        q, rr = np.linalg.qr(B)
        if np.abs(np.diag(rr)).min() > 1e-6:
            ctx.close(q @ (q.T @ g), g, "ideal holds only the tone and its excluded harmonics", rtol=0, atol=max(tol, 1e-8))
            if i == 0:
                k = np.linalg.solve(rr, q.T @ g)
                ctx.close(math.hypot(k[0], k[1]), 1.0, "ideal has unit amplitude", rtol=0, atol=max(tol, 1e-8))
        pe = np.mean(e ** 2)
        if pe > 1e-18:
            s = 10 * math.log10(np.mean(g ** 2) / pe)
            ctx.close(snr[i], s, "signal to error ratio", rtol=0, atol=1e-6)
            ctx.close(enob[i], (s - 1.76) / 6.02, "effective bits", rtol=0, atol=1e-6)
        else:
            ctx.check(snr[i] > 150, f"ratio of a perfect fit {snr[i]}")


def truth_body(ctx, n, k, ph, lst, order, dist):
    f = k / n
    harm = () if not dist else ((2, 0.01), (3, 0.006))[:order - 1]
    B, w, amp = exact_record(n, f, ph, LISTS[lst], harm)
    if np.linalg.matrix_rank(np.column_stack([B, np.ones(n)])) < B.shape[1] + 1:
        return
    T = np.arange(n)
    H = np.stack([fn(2 * np.pi * f * h * T) for h in range(1, order + 1) for fn in (np.cos, np.sin)], axis=1)
    full = np.column_stack([B, np.ones(n), H])
    # the sine relation itself is the only dependency, otherwise the weights are not determined
    if np.linalg.matrix_rank(full, tol=1e-6) < full.shape[1] - 1:
        return
    r = ctx.call(calibrate_weight_sine, B, freq=f, harmonic_order=order)
    ctx.close(r["weight"], w / amp, "true weights", rtol=0, atol=1e-7)
    ctx.close(r["error"][0], np.zeros(n), "nothing left over", rtol=0, atol=1e-7)
    ctx.close(r["refined_frequency"], f, "frequency kept", rtol=0, atol=0)
    identities(ctx, r, [B], [f], order, 1e-7)
    g = (tone(n, f, ph, harm=harm) - 0.5) * float(np.sum(LISTS[lst])) / amp
    ctx.close(r["ideal"][0], g, "ideal waveform", rtol=0, atol=1e-6)
    ctx.close(r["offset"], 0.5 * np.sum(LISTS[lst]) / amp, "offset", rtol=0, atol=1e-6)
    ctx.outcome(n, k, lst, order)


def optimal(ctx, r, b, f, order):
    """Least squares: the error is orthogonal to every column, the constant, all excluded
    harmonics and one of the two quadratures, and no better choice of quadrature exists."""
    n = len(b)
    t = np.arange(n)
    e = np.asarray(r["error"][0])
    C = [np.cos(2 * np.pi * f * h * t) for h in range(1, order + 1)]
    S = [np.sin(2 * np.pi * f * h * t) for h in range(1, order + 1)]
    common = np.column_stack([b, np.ones(n)] + C[1:] + S[1:])
    ctx.close(common.T @ e, np.zeros(common.shape[1]), "error is orthogonal to bits, constant and harmonics", rtol=0, atol=1e-8 * n)
    d = [abs(C[0] @ e), abs(S[0] @ e)]
    ctx.check(min(d) < 1e-8 * n, f"error is orthogonal to one quadrature {d}")
    errs = []
    for one, other in ((C[0], S[0]), (S[0], C[0])):
        A = np.column_stack([common, other])
        x, *_ = np.linalg.lstsq(A, -one, rcond=None)
        errs.append((np.linalg.norm(A @ x + one), math.sqrt(1 + x[-1] ** 2)))
    (e1, m1), (e2, m2) = errs
    if abs(e1 - e2) < 1e-9 * max(e1, e2, 1e-12):
        ctx.skip_ambiguous()
        return
    em, mm = min(errs)
    ctx.close(np.linalg.norm(e), em / mm, "size of the error", rtol=1e-6, atol=1e-10)


def bits_body(ctx, n, k, ph, lst, order, amp):
    f = k / n
    b, _ = slice_bits(tone(n, f, ph, amp), LISTS[lst])
    if np.linalg.matrix_rank(np.column_stack([b, np.ones(n)])) < b.shape[1] + 1:
        return
    r = ctx.call(calibrate_weight_sine, b, freq=f, harmonic_order=order)
    identities(ctx, r, [b], [f], order)
    optimal(ctx, r, b, f, order)
    t = ctx.call(D.calibrate_weight_sine, b, freq=f, order=order)
    for a, key in zip(t, ("weight", "offset", "calibrated_signal", "ideal", "error", "refined_frequency")):
        ctx.close(np.asarray(a), np.asarray(r[key]), f"old tuple {key}", rtol=0, atol=0)
    ctx.outcome(r["weight"])


def same_up_to_sign(ctx, a, b, what, atol=1e-8):
    a, b = np.asarray(a), np.asarray(b)
    ctx.check(min(np.abs(a - b).max(), np.abs(a + b).max()) < atol, f"{what}: {a} vs {b}")


def shape_body(ctx, n, k, lst, op):
    f = k / n
    b, _ = slice_bits(tone(n, f, 0.4), LISTS[lst])
    m = b.shape[1]
    r = ctx.call(calibrate_weight_sine, b, freq=f)
    w = np.asarray(r["weight"])
    name, arg = op
    if name == "perm":
        p = list(itertools.permutations(range(m)))[arg % math.factorial(m)]
        q = ctx.call(calibrate_weight_sine, b[:, p], freq=f)
        ctx.close(q["weight"], w[list(p)], f"bit order {p}", rtol=0, atol=1e-8)
        ctx.close(q["snr_db"], r["snr_db"], "same quality", rtol=0, atol=1e-6)
    elif name == "flip":
        mask = np.array([(arg >> i) & 1 for i in range(m)])
        q = ctx.call(calibrate_weight_sine, b ^ mask, freq=f)
        same_up_to_sign(ctx, q["weight"], w * (1 - 2 * mask), f"inverted bits {mask}")
        ctx.check(np.sum(q["weight"]) >= 0, "positive sum")
        ctx.close(q["snr_db"], r["snr_db"], "same quality", rtol=0, atol=1e-6)
    elif name == "scale":
        s = np.array([10.0 ** ((arg * (i + 1)) % 5 - 2) * 3 for i in range(m)])
        q = ctx.call(calibrate_weight_sine, b * s, freq=f)
        same_up_to_sign(ctx, np.asarray(q["weight"]) * s, w, "column units", 1e-7)
    elif name == "dead":
        for v in (0, 1):
            bb = np.insert(b, arg % (m + 1), v, axis=1)
            q = ctx.call(calibrate_weight_sine, bb, freq=f)
            ctx.close(q["weight"], np.insert(w, arg % (m + 1), 0.0), f"stuck bit at {arg % (m + 1)}", rtol=0, atol=1e-8)
    elif name == "twin":
        i = arg % m
        for ratio in (1.0, 0.5, 0.25):
            bb = np.column_stack([b, b[:, i]])
            nom = np.append(np.ones(m), ratio)
            q = ctx.call(calibrate_weight_sine, bb, freq=f, nominal_weights=nom)
            want = np.append(w, 0.0)
            want[i], want[m] = w[i] / (1 + ratio), w[i] * ratio / (1 + ratio)
            ctx.close(q["weight"], want, f"twin of bit {i} shares its weight {ratio}:1", rtol=0, atol=1e-8)
            ctx.close(q["snr_db"], r["snr_db"], "same quality", rtol=0, atol=1e-6)
        for ratio, base in ((0.5, 2.0), (3.0, 0.25), (1.0, 1 << (m - 1 - i))):
            # nominal weights only matter as ratios
            at = (i * 3 + 1) % (m - i) + i + 1
            bb = np.insert(b, at, b[:, i], axis=1)
            nom = np.insert(np.full(m, base, float), at, ratio * base)
            q = ctx.call(calibrate_weight_sine, bb, freq=f, nominal_weights=nom)
            want = np.insert(w, at, 0.0)
            want[i], want[at] = w[i] / (1 + ratio), w[i] * ratio / (1 + ratio)
            ctx.close(q["weight"], want, f"twin of bit {i} at {at} shares its weight {ratio}:1", rtol=0, atol=1e-8)
        bb = np.insert(b, i + 1, b[:, i], axis=1)
        q = ctx.call(calibrate_weight_sine, bb, freq=f)
        want = np.insert(w, i + 1, w[i] / 3)
        want[i] = w[i] * 2 / 3
        ctx.close(q["weight"], want, f"twin of bit {i} shares its weight as the binary default does", rtol=0, atol=1e-8)
        bb = np.column_stack([b, b[:, i], b[:, i]])
        q = ctx.call(calibrate_weight_sine, bb, freq=f, nominal_weights=np.append(np.full(m, 4.0), [2.0, 1.0]))
        want = np.append(w, [w[i] * 2 / 7, w[i] / 7])
        want[i] = w[i] * 4 / 7
        ctx.close(q["weight"], want, f"two twins of bit {i} share its weight", rtol=0, atol=1e-8)
    elif name == "sum":
        i, j = arg % m, (arg + 1 + arg // m) % m
        if i == j:
            return
        q = ctx.call(calibrate_weight_sine, np.column_stack([b, b[:, i] + b[:, j]]), freq=f)
        ctx.close(q["calibrated_signal"][0], r["calibrated_signal"][0], f"a column that repeats bits {i} and {j} adds nothing", rtol=0, atol=1e-8)
        ctx.close(q["snr_db"], r["snr_db"], "same quality", rtol=0, atol=1e-6)
    elif name == "anti":
        i = arg % m
        for ratio in (0.5, 0.25, -0.5):
            bb = np.column_stack([b, 1 - b[:, i]])
            q = ctx.call(calibrate_weight_sine, bb, freq=f, nominal_weights=np.append(np.ones(m), ratio))
            want = np.append(w, 0.0)
            want[i], want[m] = w[i] / (1 - ratio), w[i] * ratio / (1 - ratio)
            same_up_to_sign(ctx, q["weight"], want, f"complement of bit {i} shares its weight {ratio}:1")
            ctx.close(q["snr_db"], r["snr_db"], "same quality", rtol=0, atol=1e-6)
    elif name == "shape":
        q = ctx.call(calibrate_weight_sine, {0: b.T, 1: [b], 2: b.astype(float), 3: b.astype(np.uint8), 4: np.asfortranarray(b)}[arg], freq=[f] if arg == 1 else f)
        ctx.close(q["weight"], w, f"layout {arg}", rtol=0, atol=1e-9)
        ctx.close(q["error"][0], r["error"][0], f"layout {arg} error", rtol=0, atol=1e-9)
    elif name == "layouts":
        parts = [b, b[::-1], b[: len(b) // 2]]
        want = ctx.call(calibrate_weight_sine, parts, freq=f)
        q = ctx.call(calibrate_weight_sine, [p.T if arg >> i & 1 else p for i, p in enumerate(parts)], freq=f)
        ctx.close(q["weight"], want["weight"], f"sets {arg:03b} laid out the other way", rtol=0, atol=1e-9)
        for i in range(3):
            ctx.close(q["error"][i], want["error"][i], f"sets {arg:03b} laid out the other way, error {i}", rtol=0, atol=1e-9)
    elif name == "nominal":
        q = ctx.call(calibrate_weight_sine, b, freq=f, nominal_weights=[(7 * i + arg) % 5 + 1 for i in range(m)])
        ctx.close(q["weight"], w, "nominal weights do not matter for independent bits", rtol=0, atol=1e-9)
    ctx.outcome(name, w)


def refuse_body(ctx, case):
    b, _ = slice_bits(tone(64, 5 / 64, 0.3), LISTS["bin4"])
    args, kw = {
        "hz": ((b,), dict(freq=5e6)), "above nyquist": ((b,), dict(freq=0.51)), "one of two": (([b, b],), dict(freq=[0.1, 0.6])),
        "empty list": (([],), dict(freq=0.1)), "empty set": (([b, np.zeros((0, 4))],), dict(freq=0.1)),
        "widths differ": (([b, b[:, :3]],), dict(freq=0.1)), "frequency count": (([b, b],), dict(freq=[0.1, 0.1, 0.1])),
        "nominal length": ((b,), dict(freq=0.1, nominal_weights=[1, 2, 3])),
    }[case]
    ctx.raises(ValueError, calibrate_weight_sine, *args, **kw)


def families(tier):
    q = tier == "quick"
    phs = [0.0, 0.3, math.pi / 2, math.pi, -2.0, 1e-3] if q else [0.0, 1e-6, 1e-3, 0.3, 1.0, math.pi / 2, 2.5, math.pi, -2.0, -math.pi / 2]
    ks = [3, 7, 29, 41] if q else [3, 7, 13, 19, 29, 41, 45]
    ops = ([("perm", i) for i in ((1, 5, 11, 23, 100) if q else range(0, 720, 7))] + [("flip", i) for i in (range(16) if q else range(64))] + [("scale", i) for i in range(1, 5)] + [("dead", i) for i in range(7)]
           + [("twin", i) for i in range(6)] + [("anti", i) for i in range(6)] + [("sum", i) for i in range(12)] + [("shape", i) for i in range(5)] + [("layouts", i) for i in range(1, 8)] + [("nominal", i) for i in range(3)])
    return [
        Tree("true weights", [("n", [128, 97] if q else [128, 97, 200]), ("k", ks), ("ph", phs), ("lst", SHORT), ("order", [1, 2, 3]), ("dist", [False, True])], truth_body),
        Tree("bit records", [("n", [128, 97] if q else [128, 97, 200]), ("k", ks), ("ph", phs), ("lst", SHORT), ("order", [1, 3]), ("amp", [0.46, 0.3, 0.6])], bits_body),
        Tree("rearranged", [("n", [128, 97]), ("k", [7, 29]), ("lst", ["bin4", "bin6", "red6", "bad5"]), ("op", ops)], shape_body),
        Tree("refused", [("case", ["hz", "above nyquist", "one of two", "empty list", "empty set", "widths differ", "frequency count", "nominal length"])], refuse_body),
        Tree("long records", [("n", [1024, 4096]), ("k", [61, 307, 401]), ("ph", phs[:4]), ("lst", sorted(LONG)), ("order", [1, 3, 5]), ("dist", [False, True])], truth_body),
        Tree("long bit records", [("n", [1024, 4096]), ("k", [61, 307, 401]), ("ph", phs[:4]), ("lst", sorted(LONG)), ("order", [1, 3]), ("amp", [0.46, 0.3])], bits_body),
    ]
