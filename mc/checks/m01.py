"""M01 successive-approximation behavioural model."""
from fractions import Fraction as Fr
import itertools
import math
import numpy as np
from mc.core import Tree
from adctoolbox import (sar_convert, sar_reconstruct, sar_ideal_weights, sar_apply_cap_mismatch, sar_apply_mismatch)

ASSUMPTIONS = ["noise sources answer with enumerated constants through the public random-generator argument; "
               "ranges and weights are dyadic so thresholds are exact, plus off-threshold inputs for other ranges"]


class ConstRNG:
    """A random generator that always draws the same standard-normal value."""

    def __init__(self, c):
        self.c = float(c)

    def standard_normal(self, size=None, **k):
        return self.c if size is None else np.full(size, self.c)

    def normal(self, loc=0.0, scale=1.0, size=None):
        return loc + scale * self.standard_normal(size)


class StreamRNG:
    """A random generator whose standard-normal values come from an enumerated sequence."""

    def __init__(self, vals):
        self.vals, self.i = [float(v) for v in vals], 0

    def standard_normal(self, size=None, **k):
        n = 1 if size is None else int(np.prod(size))
        if self.i + n > len(self.vals):
            raise RuntimeError("more random values drawn than there are decisions")
        out = np.array(self.vals[self.i:self.i + n])
        self.i += n
        return float(out[0]) if size is None else out.reshape(size)

    def normal(self, loc=0.0, scale=1.0, size=None):
        return loc + scale * self.standard_normal(size)


def ref_code(v, w, noise=0):
    """v: Fraction input normalised to 0..1; w: Fraction weights; noise added in every comparison."""
    acc, out = Fr(0), []
    for x in w:
        b = 1 if v + noise >= acc + x else 0
        out.append(b)
        acc += x * b
    return out


def ideal_body(ctx, bits, red, rng):
    lo, hi = rng
    w = ctx.call(sar_ideal_weights, bits) if red is None else ctx.call(sar_ideal_weights, bits, redundant_bit=red)
    raw = [2 ** (bits - 1 - i) for i in range(bits)]
    if red is not None:
        raw.insert(red + 1, raw[red])
    den = sum(raw) + raw[-1]
    ctx.close(w, np.array(raw) / den, f"ideal weights {bits} bits, redundant {red}", rtol=1e-12)
    steps = 4 * den if red is None else 4 * den
    # quarter-step grid from one step below the range to one above; thresholds only where exact
    exact = den & (den - 1) == 0
    ks = [k for k in range(-4, steps + 5) if exact or k % 4]
    v = np.array([k / steps for k in ks])
    vin = lo + (hi - lo) * v
    codes = ctx.call(sar_convert, vin, w, quant_range=rng)
    ctx.equal(codes.shape, (len(ks), len(raw)), "codes shape")
    ctx.equal(codes.dtype, np.dtype(np.int8), "codes type")
    wf = [Fr(x, den) for x in raw]
    want = np.array([ref_code(Fr(k, steps), wf) for k in ks])
    ctx.equal(np.asarray(codes, int), want, f"codes {bits} bits redundant {red} range {rng}")
    rec = ctx.call(sar_reconstruct, codes, w, quant_range=rng)
    ctx.close(rec, lo + (hi - lo) * (want @ np.array(raw)) / den, "reconstruction", atol=1e-12 * (abs(lo) + abs(hi)))
    # quantiser properties over the covered range
    lsb = (hi - lo) / den
    e = vin - rec
    inside = [(Fr(k, steps) >= 0) and (Fr(k, steps) < 1) for k in ks]
    ctx.check(all(-1e-9 * lsb <= x < lsb * (1 + 1e-9) for x, i in zip(e, inside) if i), "quantisation error outside [0, 1 LSB)")
    ctx.check(np.all(np.diff(rec) >= -1e-9 * lsb), "transfer curve not monotonic")
    if rng == (0.0, 1.0):
        ctx.equal(ctx.call(sar_convert, vin, w), codes, "default range is 0..1")
        ctx.equal(ctx.call(sar_reconstruct, codes, w), rec, "default reconstruction range")
    for i in range(0, len(ks), 7):
        one = ctx.call(sar_convert, vin[i], w, quant_range=rng)
        ctx.equal(np.asarray(one, int).reshape(-1), want[i], "one sample alone converts as in the batch")
    ctx.outcome(bits, red, rng, want)


def custom_body(ctx, w, rng, c_samp, c_comp):
    """Any small array, offset by enumerated sampling and comparator noise answers."""
    lo, hi = rng
    wf = [Fr(x, 16) for x in w]
    wa = np.array([x / 16 for x in w])
    v = [Fr(k, 32) for k in range(-3, 36)]
    vin = np.array([float(lo + (hi - lo) * x) for x in v])
    keepv, keepw = vin.copy(), wa.copy()
    s_rms = 0.0 if c_samp is None else float((hi - lo) / 64)
    c_rms = 0.0 if c_comp is None else float((hi - lo) / 128)
    ns = Fr(0) if c_samp is None else Fr(1, 64)
    nc = Fr(0) if c_comp is None else Fr(1, 128)
    c = c_samp if c_samp is not None else c_comp
    if c_samp is not None and c_comp is not None and c_samp != c_comp:
        return          # one generator gives one answer; mixed answers are covered one at a time
    kw = {}
    if s_rms:
        kw["sampling_noise_rms"] = s_rms
    if c_rms:
        kw["comparator_noise_rms"] = c_rms
    if c is not None:
        kw["rng"] = ConstRNG(c)
    codes = ctx.call(sar_convert, vin, wa, quant_range=rng, **kw)
    cc = Fr(0) if c is None else Fr(c)
    want = np.array([ref_code(x + ns * cc, wf, nc * cc) for x in v])
    ctx.equal(np.asarray(codes, int), want, f"codes for weights {w}/16 range {rng} noise {c_samp},{c_comp}")
    rec = ctx.call(sar_reconstruct, codes, wa, quant_range=rng)
    ctx.close(rec, lo + (hi - lo) * (want @ wa), "reconstruction", atol=1e-12)
    other = np.arange(1, len(w) + 1) / 10
    ctx.close(ctx.call(sar_reconstruct, codes, other, quant_range=rng), lo + (hi - lo) * (want @ other),
              "reconstruction with other weights", atol=1e-12)
    ctx.equal(vin, keepv, "input modified")
    ctx.equal(wa, keepw, "weights modified")
    ctx.outcome(want)


def stream_body(ctx, w, rng, noise, mode):
    """One sample at a time: every decision meets its own noise value from the enumerated sequence."""
    lo, hi = rng
    noise = noise[:len(w)]
    wf = [Fr(x, 16) for x in w]
    wa = np.array([x / 16 for x in w])
    for k in range(1, 32, 3):
        v = Fr(k, 32)
        vin = np.array([float(lo + (hi - lo) * v)])
        if mode == "comparator":
            r = StreamRNG(noise)
            codes = ctx.call(sar_convert, vin, wa, quant_range=rng, comparator_noise_rms=float((hi - lo) / 64), rng=r)
            acc, want = Fr(0), []
            for x, z in zip(wf, noise):
                b = 1 if v + Fr(z, 64) >= acc + x else 0
                want.append(b)
                acc += x * b
        else:
            # several samples: every sample meets its own noise value
            r = StreamRNG(noise)
            vin = np.full(len(noise), vin[0])
            codes = ctx.call(sar_convert, vin, wa, quant_range=rng, sampling_noise_rms=float((hi - lo) / 64), rng=r)
            want = [ref_code(v + Fr(z, 64), wf) for z in noise]
        ctx.equal(np.asarray(codes, int).reshape(np.shape(want)), np.array(want), f"codes for {k}/32, {mode} noise {noise}")
        ctx.check(r.i == len(noise), f"{r.i} noise values drawn for {len(noise)} {mode} events")
    ctx.outcome(w, noise, mode)


def shape_body(ctx, shape, form):
    w = np.array([8, 4, 2, 1]) / 16
    n = int(np.prod(shape)) if shape else 1
    v = (np.arange(n) * 5 % 33 / 33).reshape(shape) if shape else np.float64(0.4)
    arg = v.tolist() if form == "list" else v
    codes = ctx.call(sar_convert, arg, w.tolist() if form == "list" else w)
    shp = shape if shape else (1,)
    ctx.equal(np.asarray(codes).shape, shp + (4,), "codes shape")
    want = np.array([ref_code(Fr(float(x)), [Fr(k, 16) for k in (8, 4, 2, 1)]) for x in np.ravel(v)]).reshape(shp + (4,))
    ctx.equal(np.asarray(codes, int), want, f"codes for shape {shape}")
    ctx.close(ctx.call(sar_reconstruct, codes, w), want @ w, "reconstruction shape")
    ctx.outcome(want)


def rng_body(ctx, seed, s_rms, c_rms):
    """Seeded noise is reproducible, and its absence makes the result independent of the generator."""
    w = ctx.call(sar_ideal_weights, 6)
    vin = np.linspace(0.01, 0.99, 257)
    kw = dict(sampling_noise_rms=s_rms, comparator_noise_rms=c_rms)
    a = ctx.call(sar_convert, vin, w, rng=np.random.default_rng(seed), **kw)
    b = ctx.call(sar_convert, vin, w, rng=np.random.default_rng(seed), **kw)
    ctx.equal(a, b, "same seed, same codes")
    clean = ctx.call(sar_convert, vin, w)
    if s_rms == 0 and c_rms == 0:
        ctx.equal(a, clean, "no noise requested but the generator mattered")
    else:
        ctx.check((a != clean).any(), "requested noise has no effect")
        o = ctx.call(sar_convert, vin, w, rng=np.random.default_rng(seed + 1000), **kw)
        ctx.check((o != a).any(), "noise does not come from the given generator")
        # independent draws per sample: a flat input between thresholds must not give one single code
        rms = math.hypot(s_rms, c_rms)
        flat = ctx.call(sar_convert, np.full(400, 0.5), w, rng=np.random.default_rng(seed), **kw)
        lv = np.unique(np.asarray(flat, int) @ (2 ** np.arange(5, -1, -1)))
        ctx.check(len(lv) >= 2, "noise is not drawn per sample")
        # size of the disturbance: mean absolute code shift of the order of the requested noise
        rec = ctx.call(sar_reconstruct, a, w) - ctx.call(sar_reconstruct, clean, w)
        ctx.check(0.3 * rms < np.sqrt(np.mean(rec ** 2)) < 3 * rms + 2 / 64, f"noise size {np.sqrt(np.mean(rec ** 2))} for requested {rms}")
    ctx.outcome(seed, s_rms, c_rms, a)


def rows_body(ctx, shape, kind, seed):
    """Every sample of a batch of records has noise of its own."""
    w = ctx.call(sar_ideal_weights, 6)
    kw = {kind: 0.3}
    c = np.asarray(ctx.call(sar_convert, np.full(shape, 0.5), w, rng=np.random.default_rng(seed), **kw), int)
    ctx.equal(c.shape, shape + (6,), "codes shape")
    for ax in range(len(shape)):
        if shape[ax] > 1:
            r = np.moveaxis(c, ax, 0).reshape(shape[ax], -1)
            ctx.check(len({tuple(v) for v in r.tolist()}) == shape[ax], f"records along axis {ax} share their noise")
    ctx.outcome(c)


def mismatch_body(ctx, w, sigma, c, units):
    wa = np.array(w, float) / sum(w)
    keep = wa.copy()
    u = None if units is None else np.array(([4, 1, 2, 9, 3] * 2)[:len(w)], float)
    kw = {} if u is None else {"cap_units": u}
    got = ctx.call(sar_apply_cap_mismatch, wa, sigma, rng=ConstRNG(c), **kw)
    n = np.array(w, float) / min(w) if u is None else u
    ctx.close(got, wa * (1 + c * sigma / np.sqrt(n)), f"unit-capacitor mismatch {w} sigma {sigma}", rtol=1e-10)
    ctx.equal(wa, keep, "nominal weights modified")
    leg = ctx.call(sar_apply_mismatch, wa, sigma, rng=ConstRNG(c))
    ctx.close(leg, wa * (1 + c * sigma), "per-weight mismatch", rtol=1e-10)
    a = ctx.call(sar_apply_cap_mismatch, wa, sigma, rng=np.random.default_rng(3), **kw)
    b = ctx.call(sar_apply_cap_mismatch, wa, sigma, rng=np.random.default_rng(3), **kw)
    ctx.equal(a, b, "same seed, same chip")
    if sigma and len(w) > 1:
        z = (a / wa - 1) * np.sqrt(n) / sigma
        ctx.check(len(np.unique(np.round(z, 6))) == len(w), "every capacitor must get its own deviation")
    ctx.outcome(got)


def refuse_body(ctx, case):
    w = np.array([8, 4, 2, 1]) / 16
    f = {
        "range reversed": (sar_convert, (np.zeros(3), w), {"quant_range": (1, 0)}),
        "range empty": (sar_convert, (np.zeros(3), w), {"quant_range": (1, 1)}),
        "range nan": (sar_convert, (np.zeros(3), w), {"quant_range": (0, float("nan"))}),
        "range inf": (sar_convert, (np.zeros(3), w), {"quant_range": (float("-inf"), 1)}),
        "range three": (sar_convert, (np.zeros(3), w), {"quant_range": (0, 1, 2)}),
        "rec range reversed": (sar_reconstruct, (np.zeros((3, 4)), w), {"quant_range": (1, 0)}),
        "rec range three": (sar_reconstruct, (np.zeros((3, 4)), w), {"quant_range": (0, 1, 2)}),
        "weights 2d": (sar_apply_cap_mismatch, (np.ones((2, 2)), 0.1), {}),
        "weights empty": (sar_apply_cap_mismatch, (np.array([]), 0.1), {}),
        "weights nan": (sar_apply_cap_mismatch, (np.array([1, np.nan]), 0.1), {}),
        "weights zero": (sar_apply_cap_mismatch, (np.array([1, 0.0]), 0.1), {}),
        "weights negative": (sar_apply_cap_mismatch, (np.array([1, -1.0]), 0.1), {}),
        "sigma negative": (sar_apply_cap_mismatch, (w, -0.1), {}),
        "sigma nan": (sar_apply_cap_mismatch, (w, float("nan")), {}),
        "units length": (sar_apply_cap_mismatch, (w, 0.1), {"cap_units": np.ones(3)}),
        "units zero": (sar_apply_cap_mismatch, (w, 0.1), {"cap_units": np.array([1, 1, 0, 1.])}),
        "units inf": (sar_apply_cap_mismatch, (w, 0.1), {"cap_units": np.array([1, 1, np.inf, 1.])}),
    }[case]
    ctx.raises(ValueError, f[0], *f[1], **f[2])
    ctx.outcome(case)


REFUSE = ["range reversed", "range empty", "range nan", "range inf", "range three", "rec range reversed", "rec range three",
          "weights 2d", "weights empty", "weights nan", "weights zero", "weights negative", "sigma negative", "sigma nan",
          "units length", "units zero", "units inf"]


def long_body(ctx, bits, red, rng):
    """Words of realistic width, in whole numbers; inputs around every power of two and spread over the range."""
    lo, hi = rng
    w = ctx.call(sar_ideal_weights, bits) if red is None else ctx.call(sar_ideal_weights, bits, redundant_bit=red)
    raw = [2 ** (bits - 1 - i) for i in range(bits)]
    if red is not None:
        raw.insert(red + 1, raw[red])
    den = sum(raw) + raw[-1]
    ctx.close(w, np.array(raw) / den, "ideal weights", rtol=1e-12)
    exact = den & (den - 1) == 0
    ks = {4 * v + d for e in range(bits + 1) for v in (2 ** e, den - 2 ** e, 3 * 2 ** e) for d in (-3, -2, -1, 0, 1, 2, 3)} | set(range(-2, 4 * den + 3, max(1, den // 500)))
    ks = sorted(k for k in ks if -4 <= k <= 4 * den + 4 and (exact or k % 4))
    vin = lo + (hi - lo) * (np.array(ks) / (4 * den))
    codes = np.asarray(ctx.call(sar_convert, vin, w, quant_range=rng), int)
    want = []
    for k in ks:
        acc, row = 0, []
        for x in raw:
            b = int(k >= acc + 4 * x)
            row.append(b)
            acc += 4 * x * b
        want.append(row)
    want = np.array(want)
    sure = np.ones(len(ks), bool) if lo in (0.0, -1.0) else np.array([k % 4 != 0 for k in ks])
    ctx.equal(codes[sure], want[sure], f"codes {bits} bits redundant {red} range {rng}")
    rec = ctx.call(sar_reconstruct, codes, w, quant_range=rng)
    ctx.close(rec, lo + (hi - lo) * (codes @ np.array(raw)) / den, "reconstruction", atol=1e-12 * (abs(lo) + abs(hi)))
    ctx.check(np.all(np.diff(codes @ np.array(raw)) >= 0) if red is None else True, "output does not fall when the input rises")
    ctx.outcome(bits, red, rng)


def families(tier):
    q = tier == "quick"
    mb = 7 if q else 11
    ranges = [(0.0, 1.0), (-1.0, 1.0), (0.5, 2.5), (-4.0, -2.0)]
    al = [0, 1, 3, 5, 8] if q else [0, 1, 2, 3, 5, 7, 8, 12]
    ws = [w for L in range(1, 4 if q else 5) for w in itertools.product(al, repeat=L)]
    mw = [w for L in range(1, 5) for w in itertools.product([1, 2, 4, 8], repeat=L)]
    return [
        Tree("ideal arrays", [("bits", range(1, mb + 1)), ("red", lambda c: [None] + list(range(c["bits"]))), ("rng", ranges)], ideal_body),
        Tree("custom arrays", [("w", ws), ("rng", [(0.0, 1.0), (-1.0, 1.0)]), ("c_samp", [None, 0, 1, -2]),
                               ("c_comp", [None, 0, 1, -3])], custom_body),
        Tree("noise sequences", [("w", [(8, 4, 2, 1), (8, 5, 3, 1), (6, 6, 3, 2)]), ("rng", [(0.0, 1.0), (-1.0, 1.0)]),
                                 ("noise", list(itertools.product([0, 2, -3] if q else [0, 2, -3, 5, -1], repeat=4))), ("mode", ["comparator", "sampling"])], stream_body),
        Tree("shapes", [("shape", [(), (1,), (7,), (2, 3), (3, 1), (2, 2, 3), (1, 40)]), ("form", ["array", "list"])], shape_body),
        Tree("seeded noise", [("seed", range(3 if q else 20)), ("s_rms", [0.0, 0.02, 0.05]), ("c_rms", [0.0, 0.02, 0.05])], rng_body),
        Tree("mismatch", [("w", mw), ("sigma", [0.0, 0.01, 0.5]), ("c", [0, 1, -2]), ("units", [None, "given"])], mismatch_body),
        Tree("batches with noise", [("shape", [(3, 64), (64, 3), (2, 3, 40), (4, 64, 1)]), ("kind", ["sampling_noise_rms", "comparator_noise_rms"]), ("seed", range(2))], rows_body),
        Tree("refused", [("case", REFUSE)], refuse_body),
        Tree("long words", [("bits", [8, 10, 12, 14, 16]), ("red", lambda c: [None, 0, 3, c["bits"] - 1]), ("rng", ranges)], long_body),
    ]
