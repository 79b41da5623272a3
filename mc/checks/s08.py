"""S08 brick-wall band filter: exact projection on the chosen bins, column by column."""
import itertools
import numpy as np
from mc.core import Tree
from adctoolbox.oversampling import ifilter
from adctoolbox.spectrum import extract_freq_components

ASSUMPTIONS = ["band edges that fall on half a bin may go either way and are not judged"]


def bins(n, bands):
    keep = set()
    for lo, hi in bands:
        a, b = sorted((lo * n, hi * n))
        for v in (a, b):
            if abs(v - np.floor(v) - 0.5) < 1e-9 and (v != n / 2 or a == v):
                return None
        a, b = int(np.floor(a + 0.5)), int(np.floor(b + 0.5)) if b != n / 2 else n // 2
        keep |= {min(i % n, n - i % n) for i in range(a, b + 1)}
    return {k for k in keep if k <= n // 2}


def project(x, keep):
    n = len(x)
    t = np.arange(n)
    y = np.zeros(n)
    for k in keep:
        c, s = np.cos(2 * np.pi * ((k * t) % n) / n), np.sin(2 * np.pi * ((k * t) % n) / n)
        w = 1 if k == 0 or 2 * k == n else 2
        y += w / n * ((x @ c) * c + (x @ s) * s)
    return y


def data(n, m):
    return np.random.RandomState(n * 31 + m).randn(n, m) + 0.4


def band_body(ctx, n, bands, layout):
    keep = bins(n, bands)
    if keep is None:
        return ctx.skip_ambiguous()
    x = data(n, 3)
    b = np.array(bands)
    if layout == "vector":
        arg, want = x[:, 0], project(x[:, 0], keep)[:, None]
    elif layout == "tall":
        arg, want = x, np.stack([project(x[:, j], keep) for j in range(3)], axis=1)
    else:
        arg, want = x.T.copy(), np.stack([project(x[:, j], keep) for j in range(3)], axis=1)
    before = np.array(arg, copy=True)
    for fn in (ifilter, extract_freq_components):
        y = ctx.call(fn, arg, b)
        ctx.close(y, want, "filtered signal", rtol=0, atol=1e-10)
        ctx.equal(arg, before, "input modified")
    again = ctx.call(ifilter, y, b)
    ctx.close(again, want, "filtering twice changes nothing", rtol=0, atol=1e-10)
    ctx.outcome(n, sorted(keep))


def parts_body(ctx, n, cuts):
    """Disjoint bands that cover everything split the signal exactly."""
    x = data(n, 2)
    edges = [0] + list(cuts) + [n // 2 + 1]
    tot = 0
    for a, b in zip(edges, edges[1:]):
        y = ctx.call(ifilter, x, np.array([[a / n, min((b - 1) / n, 0.5)]]))
        tot = tot + y
    ctx.close(tot, x, "bands add up to the signal", rtol=0, atol=1e-10)
    ctx.outcome(n, cuts)


def one_body(ctx, n, k):
    """A flat band vector of two numbers selects one band; one bin wide keeps exactly that tone."""
    t = np.arange(n)
    tone = lambda j: np.cos(2 * np.pi * ((j * t) % n) / n + (0.0 if 2 * j == n or j == 0 else 0.6))
    x = sum(tone(j) for j in range(n // 2 + 1))
    f = min(k / n, 0.5)
    y = ctx.call(ifilter, x, [f, f])
    ctx.close(y[:, 0], tone(k), "single bin", rtol=0, atol=1e-10)
    ctx.outcome(n, k)


def refuse_body(ctx, case):
    x = np.arange(16.0)
    arg = {"complex": (x + 1j, [[0, 0.1]]), "three": (x, [[0, 0.1, 0.2]]), "neg": (x, [[-0.1, 0.2]]), "high": (x, [[0.1, 0.6]]), "flat3": (x, [0.1, 0.2, 0.3])}[case]
    for fn in (ifilter, extract_freq_components):
        ctx.raises(ValueError, fn, *arg)


def families(tier):
    q = tier == "quick"
    grid = [0.0, 0.07, 0.2, 0.31, 0.44, 0.5] if q else [0.0, 0.03, 0.07, 0.125, 0.2, 0.26, 0.31, 0.37, 0.44, 0.5]
    one = [((a, b),) for a in grid for b in grid]
    two = [(p[0], r[0]) for p in one for r in one if p[0][0] <= p[0][1] and r[0][0] <= r[0][1] and p[0][0] <= r[0][0]]
    return [
        Tree("bands", [("n", [4, 7, 8, 15, 16, 21, 30] if q else list(range(4, 40))), ("bands", one + two[::3 if q else 1]), ("layout", ["vector", "tall", "wide"])], band_body),
        Tree("partitions", [("n", list(range(4, 14)) if q else list(range(4, 19))), ("cuts", lambda c: [s for r in range(0, 4) for s in itertools.combinations(range(1, c["n"] // 2 + 1), r)])], parts_body),
        Tree("single bins", [("n", list(range(4, 40)) if q else list(range(4, 129))), ("k", lambda c: range(c["n"] // 2 + 1))], one_body),
        Tree("refused", [("case", ["complex", "three", "neg", "high", "flat3"])], refuse_body),
        Tree("long records", [("n", [500, 513, 1024]), ("bands", [((0.0, 0.01),), ((0.07, 0.0713),), ((0.0, 0.5),), ((0.1, 0.2), (0.3, 0.31), (0.4003, 0.41), (0.45, 0.4501)), ((0.3, 0.1), (0.05, 0.06), (0.301, 0.33))]), ("layout", ["vector", "tall", "wide"])], band_body),
        Tree("long records, one bin", [("n", [500, 1024, 2049]), ("k", lambda c: [0, 1, 7, c["n"] // 5, c["n"] // 4, c["n"] // 2 - 1, c["n"] // 2])], one_body),
    ]
