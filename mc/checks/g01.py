"""G01 deterministic impairments of the signal generator, alone and chained."""
import numpy as np
from mc.core import Tree
from mc.ref import siggen as R
from adctoolbox.siggen import ADC_Signal_Generator

ASSUMPTIONS = ["records of 1..24 samples in depth, longer ones for single impairments; chains of up to 2 (3) impairments; inputs chosen off the quantiser "
               "decision thresholds (a sample within 1e-9 of one is not judged)"]

GENS = {
    "mid": dict(Fs=1e6, Fin=1.037e5, A=0.43, DC=0.5),
    "bip": dict(Fs=1e6, Fin=3.119e5, A=0.81, DC=0.0),
    "off": dict(Fs=800e6, Fin=97.13e6, A=0.31, DC=0.37),
    "neg": dict(Fs=1.0, Fin=0.0713, A=0.27, DC=-0.21),
}

# (method, parameters, reference, threshold step sizes used for the tie guard: list of (offset key, step))
OPS = [
    ("apply_quantization_noise", {}, R.quantize), ("apply_quantization_noise", dict(n_bits=1), R.quantize),
    ("apply_quantization_noise", dict(n_bits=3, quant_range=(-0.5, 0.5)), R.quantize),
    ("apply_quantization_noise", dict(n_bits=6, quant_range=(0.2, 0.7)), R.quantize),
    ("apply_static_nonlinearity", {}, R.nonlin), ("apply_static_nonlinearity", dict(k2=0.1), R.nonlin),
    ("apply_static_nonlinearity", dict(k3=-0.2), R.nonlin), ("apply_static_nonlinearity", dict(k4=0.3), R.nonlin),
    ("apply_static_nonlinearity", dict(k5=0.4), R.nonlin), ("apply_static_nonlinearity", dict(k2=0.01, k3=0.02, k4=0.03, k5=-0.04), R.nonlin),
    ("apply_static_nonlinearity_hd", {}, R.nonlin_hd), ("apply_static_nonlinearity_hd", dict(hd2_dB=-40), R.nonlin_hd),
    ("apply_static_nonlinearity_hd", dict(hd3_dB=-30.0), R.nonlin_hd), ("apply_static_nonlinearity_hd", dict(hd4_dB=-50), R.nonlin_hd),
    ("apply_static_nonlinearity_hd", dict(hd5_dB=-35), R.nonlin_hd), ("apply_static_nonlinearity_hd", dict(hd2_dB=-60, hd3_dB=0, hd5_dB=-20), R.nonlin_hd),
    ("apply_memory_effect", {}, R.memory), ("apply_memory_effect", dict(memory_strength=0.2), R.memory), ("apply_memory_effect", dict(memory_strength=0), R.memory),
    ("apply_incomplete_sampling", {}, R.sampling), ("apply_incomplete_sampling", dict(T_track=3e-10, tau_nom=2e-10, coeff_k=1.5), R.sampling),
    ("apply_incomplete_sampling", dict(tau_nom=1e-7, coeff_k=0), R.sampling),
    ("apply_ra_gain_error", {}, R.gain_error), ("apply_ra_gain_error", dict(relative_gain=1.05, msb_bits=2, lsb_bits=5), R.gain_error),
    ("apply_ra_gain_error", dict(mode="residue_path"), R.gain_error), ("apply_ra_gain_error", dict(relative_gain=0.5, msb_bits=3, mode="residue_path"), R.gain_error),
    ("apply_ra_gain_error_dynamic", {}, R.gain_error_dyn), ("apply_ra_gain_error_dynamic", dict(relative_gain=0.9, coeff_3=0.7, msb_bits=3, lsb_bits=6), R.gain_error_dyn),
    ("apply_ra_gain_error_dynamic", dict(mode="residue_path"), R.gain_error_dyn),
    ("apply_ra_gain_error_dynamic", dict(relative_gain=1.2, coeff_3=50.0, msb_bits=2, mode="residue_path"), R.gain_error_dyn),
    ("apply_reference_error", {}, R.reference), ("apply_reference_error", dict(settling_tau=0.5, droop_strength=0.3), R.reference),
    ("apply_reference_error", dict(droop_strength=0), R.reference),
    ("apply_am_tone", {}, R.am_tone), ("apply_am_tone", dict(am_tone_freq=1.3e4, am_tone_depth=0.6), R.am_tone), ("apply_am_tone", dict(am_tone_depth=0), R.am_tone),
    ("apply_clipping", {}, R.clip), ("apply_clipping", dict(percentile_clip=20.0), R.clip), ("apply_clipping", dict(percentile_clip=0), R.clip), ("apply_clipping", dict(percentile_clip=45.0), R.clip),
    ("apply_noise_shaping", {}, R.shaping), ("apply_noise_shaping", dict(n_bits=4, order=2), R.shaping), ("apply_noise_shaping", dict(n_bits=3, order=3, quant_range=(-1, 1)), R.shaping),
    ("apply_noise_shaping", dict(n_bits=5, order=4), R.shaping), ("apply_noise_shaping", dict(n_bits=5, order=5), R.shaping),
    ("apply_noise_shaping", dict(n_bits=4, ntf=[1, -0.5, 0.25]), R.shaping), ("apply_noise_shaping", dict(n_bits=4, order=9, ntf=([1, -1], [1, -0.4])), R.shaping),
    ("apply_noise_shaping", dict(n_bits=4, ntf=([1, -1], [1, -0.5, 0.1, 0.05])), R.shaping), ("apply_noise_shaping", dict(n_bits=5, ntf=([2, -1, 0.3], [2, 0.4])), R.shaping),
    ("apply_quantization_noise", dict(n_bits=28), R.quantize), ("apply_quantization_noise", dict(n_bits=20, quant_range=(-2, 2)), R.quantize),
    ("apply_incomplete_sampling", dict(T_track=0.0), R.sampling), ("apply_reference_error", dict(settling_tau=0.2), R.reference),
    ("apply_reference_error", dict(settling_tau=20.0, droop_strength=0.05), R.reference),
]


def make(g, n):
    p = GENS[g]
    return ADC_Signal_Generator(N=n, Fs=p["Fs"], Fin=p["Fin"], A=p["A"], DC=p["DC"]), p


def near_threshold(op, p, x):
    """A decision threshold within rounding distance of a sample makes both codes right."""
    meth, kw, ref = op
    steps = []
    if ref is R.quantize or ref is R.shaping:
        lo, hi = kw.get("quant_range", (0.0, 1.0))
        steps = [(lo, (hi - lo) / 2 ** kw.get("n_bits", 10))]
    elif ref is R.memory:
        steps = [(0.0, 1 / 16), (0.0, 1 / 4096)]
    elif ref in (R.gain_error, R.gain_error_dyn):
        steps = [(p["DC"], 2.0 ** -kw.get("msb_bits", 4)), (p["DC"], 2.0 ** -kw.get("msb_bits", 4) / 1), (p["DC"], 2.0 ** -kw.get("lsb_bits", 12))]
    for off, st in steps:
        for v in x:
            r = (v - off) / st
            d = abs(r - round(r))
            if d < 1e-7 and not (v - off == 0):
                return True
    return False


def run_op(ctx, gen, p, op, x, arr):
    """One step: real applier on arr (None = clean), reference on x. Returns (array, list) or None on a tie."""
    meth, kw, ref = op
    if near_threshold(op, p, x):
        ctx.skip_ambiguous()
        return None
    keep = None if arr is None else arr.copy()
    got = ctx.call(getattr(gen, meth), arr, **kw) if arr is not None else ctx.call(getattr(gen, meth), **kw)
    want = ref(p, x, **kw)
    ctx.close(got, want, f"{meth}({kw})", rtol=1e-8, atol=1e-10)
    if keep is not None:
        ctx.equal(arr, keep, f"{meth} modified its input")
        ctx.check(got is not arr and not np.shares_memory(got, arr), f"{meth} returned its input array")
    return np.asarray(got, float), [float(v) for v in got]


def single_body(ctx, g, n, op, src):
    gen, p = make(g, n)
    base = R.clean(p, n)
    ctx.close(ctx.call(gen.get_clean_signal), base, "clean sine", rtol=1e-9, atol=1e-10)
    if src == "clean":
        x, arr = [float(v) for v in ctx.call(gen.get_clean_signal)], None
    elif src == "ramp":
        x = [p["DC"] + p["A"] * (2 * (i + 0.377) / n - 1) for i in range(n)]
        arr = np.array(x)
    else:
        x = [p["DC"] + 1.5 * p["A"] * (((i * 7919 + 13) % 101) / 101 - 0.4987) for i in range(n)]
        arr = np.array(x)
    r = run_op(ctx, gen, p, OPS[op], x, arr)
    if r is not None:
        ctx.outcome(OPS[op][0], r[0])
    ctx.close(ctx.call(gen.get_clean_signal), base, "clean sine after use", rtol=1e-9, atol=1e-10)


def chain_body(ctx, g, n, ops):
    """Histories: chained appliers act exactly as the composition of the single effects, without hidden state."""
    gen, p = make(g, n)
    x, arr = [float(v) for v in ctx.call(gen.get_clean_signal)], None
    for o in ops:
        r = run_op(ctx, gen, p, OPS[o], x, arr)
        if r is None:
            return
        arr, x = r
    ctx.outcome(x)
    # an applier on the clean signal afterwards is not influenced by what was done before
    again = ctx.call(getattr(gen, OPS[ops[0]][0]), **OPS[ops[0]][1])
    fresh = ctx.call(getattr(make(g, n)[0], OPS[ops[0]][0]), **OPS[ops[0]][1])
    ctx.equal(again, fresh, "result depends on earlier calls")
    ctx.equal((gen.N, gen.Fs, gen.Fin, gen.A, gen.DC), (n, p["Fs"], p["Fin"], p["A"], p["DC"]), "generator parameters changed")


def refuse_body(ctx, case):
    gen, p = make("mid", 8)
    if case.startswith("order"):
        ctx.raises(ValueError, gen.apply_noise_shaping, order=int(case[5:]))
    else:
        m = gen.apply_ra_gain_error if case == "mode" else gen.apply_ra_gain_error_dynamic
        ctx.raises(ValueError, m, mode="other")


def families(tier):
    q = tier == "quick"
    O = range(len(OPS))
    chain_ops = [1, 2, 5, 6, 9, 15, 17, 20, 23, 25, 27, 29, 31, 34, 37, 40, 45] if q else list(O)
    ch = [(a, b) for a in chain_ops for b in chain_ops]
    if not q:
        third = [2, 9, 17, 20, 27, 31, 34, 37, 40]
        ch += [(a, b, c) for a in third for b in third for c in third]
    return [
        Tree("single", [("g", list(GENS)), ("n", [1, 2, 3, 8, 24] if q else [1, 2, 3, 5, 8, 16, 24, 65]), ("op", O),
                        ("src", ["clean", "ramp", "hash"])], single_body),
        Tree("chains", [("g", ["mid", "bip"] if q else list(GENS)), ("n", [7]), ("ops", ch)], chain_body),
        Tree("refused", [("case", ["order0", "order6", "order-1", "mode", "mode-dynamic"])], refuse_body),
        Tree("long records", [("g", list(GENS)), ("n", [1000, 8192]), ("op", O), ("src", ["clean", "hash"])], single_body),
    ]
