"""S09 performance versus oversampling ratio: every point of the sweep judges exactly its band."""
import itertools, math
import numpy as np
from mc.core import Tree
from mc.checks.s01 import record
from mc.ref.spectrum import dft, inband_count
from adctoolbox.fundamentals import fit_sine_4param
from adctoolbox.oversampling import perfosr
from adctoolbox.spectrum import sweep_performance_vs_osr

ASSUMPTIONS = ["signal/error separation taken from the library's own sine fit (decided by F04); error spectrum scaled as in the MATLAB original"]


def reference(x, osrs):
    f = fit_sine_4param(x)
    n = len(x)
    e = x - np.asarray(f["fitted_signal"])
    w = 0.5 - 0.5 * np.cos(2 * np.pi * np.arange(n) / n)
    e = e * w / math.sqrt(np.mean(w ** 2))
    p = np.abs(dft(e)) ** 2 / n ** 2 * 4
    s = f["amplitude"] ** 2 / 2
    sndr = [10 * math.log10(s / p[:inband_count(n, o)].sum()) for o in osrs]
    sfdr = [10 * math.log10(s / p[:inband_count(n, o)].max()) for o in osrs]
    return np.array(sndr), np.array(sfdr)


def judge(ctx, x, osr):
    n = len(x)
    want_osr = np.array([n / 2 / k for k in range(n // 2, 0, -1)]) if osr is None else np.array(osr, float)
    keep = None if osr is None else np.array(osr, float)
    s, f = ctx.call(reference, x, want_osr)
    r = ctx.call(sweep_performance_vs_osr, x, osr=keep, create_plot=False)
    ctx.close(r["osr"], want_osr, "OSR axis", rtol=1e-12)
    ctx.close(r["sndr"], s, "SNDR", rtol=0, atol=1e-6)
    ctx.close(r["sfdr"], f, "SFDR", rtol=0, atol=1e-6)
    ctx.close(r["enob"], (s - 1.76) / 6.02, "ENOB", rtol=0, atol=1e-6)
    if osr is not None:
        ctx.equal(keep, np.array(osr, float), "OSR list modified")
    t = ctx.call(perfosr, x, osr=keep)
    for a, b, name in zip(t, (want_osr, s, f, (s - 1.76) / 6.02), ("osr", "sndr", "sfdr", "enob")):
        ctx.close(a, b, f"perfosr {name}", rtol=1e-12, atol=1e-6)
    o = np.argsort(want_osr)
    ctx.check(np.all(np.diff(np.asarray(r["sndr"])[o]) > -1e-9), "SNDR falls when the band is narrowed")
    ctx.outcome(s[:4])


def default_body(ctx, n, pos, kind):
    judge(ctx, record(n, pos, kind), None)


def list_body(ctx, n, pos, kind, osr):
    judge(ctx, record(n, pos, kind), osr)


def refuse_body(ctx, case):
    x = record(32, 5.0, "noise")
    kw = {"h0": dict(harmonic=0), "h2.5": dict(harmonic=2.5), "smooth0": dict(smooth=0), "osr0": dict(osr=[0, 1]), "osr-": dict(osr=[2, -1])}[case]
    ctx.raises(ValueError, perfosr, x, **kw)


def families(tier):
    q = tier == "quick"
    lists = [p for s in ((1, 2), (1, 2, 4), (1, 1.5, 3, 8)) for p in itertools.permutations(s)] + [(4,), (1,), (2, 2, 1, 1), (1, 64, 1000), (3, 3.0000001, 16 / 3), ()]
    lists = [l for l in lists if l]
    return [
        Tree("whole sweep", [("n", [24, 33, 64] if q else list(range(24, 97))), ("pos", [3.0, 5.3, 7.0]), ("kind", ["noise", "harm", "quiet"])], default_body),
        Tree("chosen ratios", [("n", [32, 45] if q else [24, 32, 33, 45, 64]), ("pos", [3.0, 5.3, 7.0]), ("kind", ["noise", "harm"]), ("osr", lists)], list_body),
        Tree("refused", [("case", ["h0", "h2.5", "smooth0", "osr0", "osr-"])], refuse_body),
        Tree("long records", [("n", [500, 1001, 2048]), ("pos", [17.0, 40.3]), ("kind", ["noise", "harm"])], default_body),
        Tree("long records, chosen ratios", [("n", [1000, 4096, 65536]), ("pos", [17.0, 40.3]), ("kind", ["noise", "harm"]), ("osr", [(1, 2, 4, 8, 16, 32, 64, 128, 256), (100, 1, 10), (1.0, 7.3, 500)])], list_body),
    ]
