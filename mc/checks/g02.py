"""G02 random impairments of the signal generator."""
import numpy as np
from mc.core import Tree
from adctoolbox.siggen import ADC_Signal_Generator

ASSUMPTIONS = ["seeds of the global generator enumerated; statistical limits are at least five standard deviations wide"]
N = 4096
P = dict(Fs=1e6, Fin=1e6 * 389 / N, A=0.43, DC=0.5)


def gen(n=N):
    return ADC_Signal_Generator(N=n, **P)


def call(ctx, seed, meth, g, *a, **k):
    np.random.seed(seed)
    return np.asarray(ctx.call(getattr(g, meth), *a, **k))


ZERO = [("apply_thermal_noise", "noise_rms"), ("apply_jitter", "jitter_rms"), ("apply_am_noise", "strength"),
        ("apply_drift", "drift_scale"), ("apply_glitch", "glitch_prob"), ("apply_glitch", "glitch_amplitude")]


def other_input(kind, g):
    c = g.get_clean_signal()
    if kind == "clean":
        return None
    if kind == "ramp":
        return np.linspace(-0.3, 0.9, len(c))
    return c + 0.01 * np.cos(0.31 * np.arange(len(c)))


def zero_body(ctx, which, seed, src, n):
    """No strength, no change - whatever the generator draws; input untouched."""
    meth, par = ZERO[which]
    g = gen(n)
    x = other_input(src, g)
    keep = None if x is None else x.copy()
    y = call(ctx, seed, meth, g, x, **{par: 0.0})
    base = g.get_clean_signal() if x is None else x
    ctx.close(y, base, f"{meth}({par}=0) must be the input", rtol=0, atol=1e-9)
    if keep is not None:
        ctx.equal(x, keep, f"{meth} modified its input")
        ctx.check(not np.shares_memory(x, y), f"{meth} returned its input array")
    ctx.outcome(meth, src, n)


STRONG = [("apply_thermal_noise", dict(noise_rms=1e-3)), ("apply_thermal_noise", {}), ("apply_jitter", dict(jitter_rms=2e-9)),
          ("apply_jitter", {}), ("apply_am_noise", dict(strength=0.02)), ("apply_am_noise", {}), ("apply_drift", dict(drift_scale=1e-3)),
          ("apply_drift", {}), ("apply_glitch", dict(glitch_prob=0.05, glitch_amplitude=0.3)), ("apply_glitch", dict(glitch_prob=0.5, glitch_amplitude=-0.2))]


def repro_body(ctx, which, seed, src):
    meth, kw = STRONG[which]
    g = gen()
    x = other_input(src, g)
    keep = None if x is None else x.copy()
    a = call(ctx, seed, meth, g, x, **kw)
    b = call(ctx, seed, meth, gen(), None if x is None else x.copy(), **kw)
    ctx.equal(a, b, f"{meth}: same seed must give the same signal")
    if keep is not None:
        ctx.equal(x, keep, f"{meth} modified its input")
    base = g.get_clean_signal() if x is None else x
    ctx.equal(a.shape, base.shape, "length")
    if kw or meth != "apply_glitch":
        ctx.check((a != base).any(), f"{meth} has no effect")
        c = call(ctx, seed + 77, meth, g, x, **kw)
        ctx.check((a != c).any(), f"{meth} draws the same noise for every seed")
    ctx.outcome(meth, a[:8])


def thermal_body(ctx, seed, rms, src):
    g = gen()
    x = other_input(src, g)
    base = g.get_clean_signal() if x is None else x
    e = call(ctx, seed, "apply_thermal_noise", g, x, noise_rms=rms) - base
    ctx.check(abs(e.std() / rms - 1) < 0.08, f"noise rms {e.std()} requested {rms}")
    ctx.check(abs(e.mean()) < 6 * rms / np.sqrt(N), "noise has an offset")
    ac = base - base.mean()
    ctx.check(abs(e @ ac) / np.linalg.norm(ac) < 6 * rms, "noise correlates with the signal")
    r1 = (e[1:] @ e[:-1]) / (e @ e)
    ctx.check(abs(r1) < 0.1, "noise is not white")
    e2 = call(ctx, seed, "apply_thermal_noise", g, x, noise_rms=2 * rms) - base
    ctx.close(e2, 2 * e, "noise must scale with the requested rms", rtol=1e-6, atol=1e-12)
    ctx.outcome(e[:4])


def jitter_body(ctx, seed, tj, src):
    g = gen()
    x = None if src == "clean" else g.get_clean_signal()
    y = call(ctx, seed, "apply_jitter", g, x, jitter_rms=tj)
    e = y - g.get_clean_signal()
    w = 2 * np.pi * P["Fin"]
    want = P["A"] * w * tj / np.sqrt(2)
    spl = 0.0 if src == "clean" else 0.03 * want + 2e-4
    core = e[8:-8]
    rms = np.sqrt(np.mean(core ** 2))
    ctx.check(abs(rms - want) < 0.1 * want + spl, f"jitter error rms {rms} want {want}")
    slope = np.cos(w * np.arange(N) / P["Fs"])
    steep, flat = np.abs(slope) > 0.9, np.abs(slope) < 0.1
    ctx.check(np.sqrt(np.mean(e[steep] ** 2)) > 5 * np.sqrt(np.mean(e[flat] ** 2)) - 3 * spl, "jitter must act through the slope")
    if src != "clean":
        a = call(ctx, seed, "apply_jitter", g, None, jitter_rms=tj)
        ctx.close(y[8:-8], a[8:-8], "chained jitter equals jitter of the clean sine", rtol=0, atol=max(2e-3 * P["A"], 0.05 * want))
        # earlier errors survive: an added offset and gain pass through
        z = call(ctx, seed, "apply_jitter", g, 2 * g.get_clean_signal() + 0.3, jitter_rms=tj)
        ctx.close(z, 2 * y + 0.3, "chained jitter must be linear in its input", rtol=1e-7, atol=1e-9)
    ctx.outcome(rms)


def am_body(ctx, seed, s, src):
    g = gen()
    x = other_input(src, g)
    base = g.get_clean_signal() if x is None else x
    y = call(ctx, seed, "apply_am_noise", g, x, strength=s)
    ac = base - P["DC"]
    sel = np.abs(ac) > 1e-3
    env = (y - P["DC"])[sel] / ac[sel] - 1
    ctx.check(abs(env.std() / s - 1) < 0.08, f"modulation rms {env.std()} requested {s}")
    ctx.check(abs(env.mean()) < 6 * s / np.sqrt(sel.sum()), "modulation has an offset")
    r1 = (env[1:] @ env[:-1]) / (env @ env)
    ctx.check(abs(r1) < 0.12, "modulation is not white")
    ctx.outcome(env[:4])


def drift_body(ctx, seed, s, src):
    g = gen()
    x = other_input(src, g)
    base = g.get_clean_signal() if x is None else x
    d = call(ctx, seed, "apply_drift", g, x, drift_scale=s) - base
    d2 = call(ctx, seed, "apply_drift", g, x, drift_scale=2 * s) - base
    ctx.close(d2, 2 * d, "drift must scale with the requested step", rtol=1e-5, atol=1e-9)
    ctx.check(np.abs(np.diff(d)).max() < s, "drift must be slow: one step larger than the random-walk step")
    ctx.check(np.ptp(d) > s, "drift wanders less than one step over the whole record")
    ctx.outcome(d[::1000])


def glitch_body(ctx, seed, p, a, src):
    g = gen()
    x = other_input(src, g)
    base = g.get_clean_signal() if x is None else x
    e = call(ctx, seed, "apply_glitch", g, x, glitch_prob=p, glitch_amplitude=a) - base
    hit = np.abs(e) > abs(a) / 2
    ctx.close(e[hit], np.full(hit.sum(), a), "glitch height", rtol=1e-9, atol=1e-12)
    ctx.close(e[~hit], np.zeros((~hit).sum()), "samples without a glitch must be unchanged", rtol=0, atol=1e-12)
    sd = np.sqrt(N * p * (1 - p))
    ctx.check(abs(hit.sum() - N * p) <= 6 * sd + 1e-9, f"{hit.sum()} glitches, expected {N * p}")
    ctx.outcome(int(hit.sum()))


BELL = [("apply_thermal_noise", "noise_rms", [50e-6, 0.1]), ("apply_jitter", "jitter_rms", [1e-12, 2e-8]), ("apply_am_noise", "strength", [0.01, 0.5, 1.5])]
LONG = 65536


def bell_body(ctx, which, level, seed):
    """Thermal noise, jitter and amplitude noise are normally distributed, read off a ramp."""
    meth, par, _ = BELL[which]
    g = gen(LONG)
    x = P["DC"] + 0.1 + np.arange(LONG) * 1e-3
    y = call(ctx, seed, meth, g, x, **{par: level})
    if meth == "apply_am_noise":
        e = (y - P["DC"]) / (x - P["DC"]) - 1
    else:
        e = (y - x) / (1e-3 * P["Fs"] if meth == "apply_jitter" else 1.0)
    if meth == "apply_jitter" and level < 1e-11:
        e = e[:2000]        # near the start the ramp is small enough for the rounding to vanish
    u = e / level
    n = len(u)
    ctx.check(abs(u.std() - 1) < 6 / np.sqrt(2 * n), f"{meth}: rms {u.std()} of the requested one")
    ctx.check(abs(u.mean()) < 6 / np.sqrt(n), f"{meth}: offset {u.mean()}")
    for lim, share in ((0.5, 0.617075), (1.0, 0.317311), (2.0, 0.0455003), (3.0, 0.0026998)):
        got, sd = np.mean(np.abs(u) > lim), np.sqrt(share * (1 - share) / n)
        ctx.check(abs(got - share) < 6 * sd + 2 / n, f"{meth}: a share of {got} lies beyond {lim} sigma, {share} expected")
    ctx.check(abs(np.mean(u > 0) - 0.5) < 3 / np.sqrt(n), f"{meth}: lopsided")
    ctx.outcome(meth, level, u[:2])


def families(tier):
    q = tier == "quick"
    seeds = range(4 if q else 40)
    srcs = ["clean", "ramp", "multi"]
    return [
        Tree("bell shape", [("which", range(len(BELL))), ("level", lambda c: BELL[c["which"]][2]), ("seed", seeds)], bell_body),
        Tree("zero strength", [("which", range(len(ZERO))), ("seed", seeds), ("src", srcs), ("n", [16, 100, N])], zero_body),
        Tree("reproducible", [("which", range(len(STRONG))), ("seed", seeds), ("src", srcs)], repro_body),
        Tree("thermal", [("seed", seeds), ("rms", [50e-6, 1e-3, 0.2]), ("src", srcs)], thermal_body),
        Tree("jitter", [("seed", seeds), ("tj", [1e-9, 1e-8, 5e-8]), ("src", ["clean", "chained"])], jitter_body),
        Tree("am noise", [("seed", seeds), ("s", [0.001, 0.01, 0.3]), ("src", srcs)], am_body),
        Tree("drift", [("seed", seeds), ("s", [5e-5, 1e-2]), ("src", srcs)], drift_body),
        Tree("glitch", [("seed", seeds), ("p", [0.0, 0.01, 0.3, 1.0]), ("a", [0.1, -0.5]), ("src", srcs)], glitch_body),
    ]
