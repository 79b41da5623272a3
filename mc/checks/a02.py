"""A02 sine-histogram DNL/INL."""
import itertools, math
import numpy as np
from mc.core import Tree
from adctoolbox.aout import compute_inl_from_sine, analyze_inl_from_sine

ASSUMPTIONS = ["histogram family: every histogram within the bound, arcsine-corrected definition; converter family: dense uniform-phase sine, judged to the counting resolution"]


def reference(codes, clip):
    lo, hi = min(codes), max(codes)
    e = clip * (hi - lo)
    if abs(e - math.floor(e) - 0.5) < 1e-9:
        return None
    ex = int(math.floor(e + 0.5))
    cmax = hi - ex
    cmin = min(lo + ex, cmax)
    h = {c: 0 for c in range(cmin, cmax + 1)}
    for c in codes:
        h[min(max(c, cmin), cmax)] += 1
    tot, run, level = len(codes), 0, []
    for c in range(cmin, cmax + 1):
        run += h[c]
        level.append(-math.cos(math.pi * run / tot))
    w = [level[i + 1] - level[i] for i in range(len(level) - 2)]
    if not w or sum(w) < 1e-12:
        return None
    n = cmax - cmin + 1
    d = [x / sum(w) * n - 1 for x in w]
    mean = sum(d) / len(d)
    d = [max(x - mean, -1.0) for x in d]
    inl = list(itertools.accumulate(d))
    return np.array(inl), np.array(d), np.arange(cmin, cmax - 1)


def judge(ctx, data, codes, clip, **kw):
    ref = reference(codes, clip)
    if ref is None:
        return
    inl, dnl, code = ctx.call(compute_inl_from_sine, data, clip_percent=clip, **kw)
    ctx.equal([int(c) for c in code], [int(c) for c in ref[2]], "codes")
    ctx.close(dnl, ref[1], "DNL", rtol=0, atol=1e-9)
    ctx.close(inl, ref[0], "INL", rtol=0, atol=1e-8)
    r = ctx.call(analyze_inl_from_sine, data, clip_percent=clip, create_plot=False, **kw)
    ctx.close(r["inl"], ref[0], "analyze INL", rtol=0, atol=1e-8)
    ctx.close(r["dnl"], ref[1], "analyze DNL", rtol=0, atol=1e-9)
    ctx.equal([int(c) for c in r["code"]], [int(c) for c in ref[2]], "analyze codes")
    ctx.outcome(ref[1])


def hist_body(ctx, counts, off, clip, form):
    codes = [off + i for i, n in enumerate(counts) for _ in range(n)]
    if len(set(codes)) < 2:
        return
    a = np.array(codes)
    if form == "float":
        if max(codes) - min(codes) <= 2:
            return
        a = a.astype(float) + 0.2
    elif form == "2d":
        a = np.stack([a, a])
        codes = codes + codes
    judge(ctx, a, codes, clip)


def many_body(ctx, codes, shape, off, clip, form):
    """Converters of realistic size."""
    counts = [{"hash": (i * i * 7 + i * 13) % 6, "gaps": 0 if i % 37 in (5, 6) else 2, "bath": 1 + int(3 / math.sqrt(1.01 - (2 * i / (codes - 1) - 1) ** 2))}[shape] for i in range(codes)]
    hist_body(ctx, tuple(counts), off, clip, form)


def converter_body(ctx, bits, wide, width, amp, clip):
    """A converter with one code made wider/narrower: its DNL shows exactly there."""
    n = 2 ** bits
    th = np.arange(1, n) - n / 2.0
    th[wide:] += width
    fs = 1 << 17
    ph = (np.arange(fs) + 0.5) / fs
    a = (n / 2.0) * amp + abs(width)
    x = a * np.sin(2 * np.pi * ph)
    codes = np.searchsorted(th, x)
    inl, dnl, code = ctx.call(compute_inl_from_sine, codes, clip_percent=clip)
    code = list(map(int, code))
    # entry j is the width of code c = code[j] + 1, in units of the mean width of the judged codes
    lo, hi = code[0] + 1, code[-1] + 1
    wid = np.array([1 + (width if c == wide else 0.0) for c in range(lo, hi + 1)])
    want = wid / wid.mean() - 1
    scale = (len(code) + 2) / len(code)
    ctx.close(np.asarray(dnl), np.maximum(want * scale, -1), "DNL of a known converter", rtol=0, atol=0.02)
    ctx.outcome(bits, wide, width)


def volt_body(ctx, bits, shape, amp, fscale):
    n = 257
    t = np.arange(n)
    s = np.sin(2 * np.pi * 7 * t / n + 0.1)
    if shape == "peaks":
        # the record touches the two ends of the range exactly
        s, shape = np.r_[s, 1.0, -1.0], "bipolar"
    k = 2 ** bits
    if fscale is not None:
        v = (0.5 + 0.5 * amp * s) * fscale
        if np.ptp(v) > 2.0:
            return
        raw = v / fscale * k
    elif shape == "bipolar":
        v = amp * s
        raw = (v + 1) / 2 * k
        if v.min() >= -0.1 or np.ptp(v) > 2.0:
            return
    else:
        v = 0.5 + 0.5 * amp * s
        raw = v * k
    if np.any(np.abs(raw - np.floor(raw) - 0.5) < 1e-9):
        return ctx.skip_ambiguous()
    codes = [int(c) for c in np.clip(np.floor(raw + 0.5), 0, k - 1)]
    kw = {} if fscale is None else {"full_scale": fscale}
    judge(ctx, v, codes, 0.0, num_bits=bits, **kw)
    judge(ctx, v, codes, 0.03, num_bits=bits, **kw)
    if bits == 10 and fscale is None:
        judge(ctx, v, codes, 0.0)


def families(tier):
    q = tier == "quick"
    hs = [h for L in range(3, 6 if q else 7) for h in itertools.product(range(3), repeat=L)]
    if not q:
        hs += list(itertools.product(range(4), repeat=5))
    return [
        Tree("all histograms", [("counts", hs), ("off", [0, -2] if q else [0, -2, 500]), ("clip", [0.0, 0.2] if q else [0.0, 0.01, 0.2, 0.3]), ("form", ["int", "float", "2d"])], hist_body),
        Tree("known converters", [("bits", [3, 4] if q else [3, 4, 5]), ("wide", lambda c: range(2, 2 ** c["bits"] - 2)), ("width", [0.0, 0.5, -0.5, -1.0, 1.0]), ("amp", [1.05, 1.3]), ("clip", [0.0, 0.1])], converter_body),
        Tree("voltages", [("bits", [2, 3, 6, 10]), ("shape", ["bipolar", "unipolar", "peaks"]), ("amp", [0.3, 0.9, 1.0, 1.0001]), ("fscale", [None, 1.0, 1.8, 0.5])], volt_body),
        Tree("many codes", [("codes", [40, 256, 1024, 4096]), ("shape", ["hash", "gaps", "bath"]), ("off", [0, -2048, 60000]), ("clip", [0.0, 0.01, 0.2]), ("form", ["int", "float", "2d"])], many_body),
    ]
