"""S04 averaging over runs."""
import itertools, math
import numpy as np
from mc.core import Tree
from mc.ref import spectrum as R, tones
from mc.checks.s01 import record, runs, METRICS
from mc.checks.s03 import same, tie
from adctoolbox.spectrum import compute_spectrum, analyze_spectrum

ASSUMPTIONS = ["phase-aligned averaging of differently timed runs is judged for untapered records whose content is the tone and its harmonics "
               "plus a disturbance that is absent at those bins"]
db = lambda v: 10 * math.log10(v)


def power_body(ctx, n, pos, kind, win, m):
    x = runs(n, pos, kind, m)
    singles = [10 ** (np.asarray(ctx.call(compute_spectrum, r, max_scale_range=1.0, win_type=win)["plot_data"]["power_spectrum_db_plot"]) / 10) for r in np.atleast_2d(x)]
    a = ctx.call(compute_spectrum, x, max_scale_range=1.0, win_type=win)
    got = 10 ** (np.asarray(a["plot_data"]["power_spectrum_db_plot"]) / 10)
    want = np.mean(singles, axis=0)
    big = want > 1e-12
    ctx.close(got[big], want[big], "spectrum of several runs is the mean of the runs' power spectra", rtol=1e-7)
    ctx.outcome(n, pos, m)


def repeat_body(ctx, n, pos, kind, win, coh, nf, reps):
    """Averaging copies of one run adds no information."""
    x = record(n, pos, kind)
    kw = dict(win_type=win, coherent_averaging=coh, nf_method=nf)
    if tie(ctx, x, **kw):
        return
    a = ctx.call(compute_spectrum, x, **kw)
    b = ctx.call(compute_spectrum, np.stack([x] * reps), **kw)
    same(ctx, a, b, f"{reps} copies of one run")
    ctx.outcome(a["metrics"]["snr_dbc"], reps)


def coherent_body(ctx, n, k, hs, shifts, silent):
    """Runs that differ only in start time align: levels as in one run, alternating disturbance cancels."""
    t = np.arange(n)
    comps = [(k, 0.8, 0.3)] + [(h * k, a, p) for h, a, p in ((2, 0.05, 1.0), (3, 0.02, 0.2), (5, 0.008, -1.0)) if h in hs]
    x, p = tones.build(n, comps)
    if max(p, key=p.get) != k or p[k] < 0.3 or min(p.get(k - 1, 0), p.get(k + 1, 0)) > 1e-6 * p[k]:
        return
    orders = {h * k % n for h in range(1, n + 1)} | {(-h * k) % n for h in range(1, n + 1)}
    free = [b for b in range(1, (n + 1) // 2) if b not in orders]
    rows = [np.roll(x, s) for s in shifts]
    z = ctx.call(compute_spectrum, np.stack(rows + [np.zeros(n)] * silent), max_scale_range=1.0, win_type="rectangular",
                 side_bin=0, coherent_averaging=True)
    m = z["metrics"]
    ctx.close(m["sig_pwr_dbfs"], db(p[k]), "fundamental level after alignment", rtol=0, atol=1e-5)
    seen = set()
    for h in range(2, 6):
        b = R.fold(h * k, n)
        if b in (0, k) or (h * k * 2) % n == 0:
            continue
        if p.get(b, 0) > 1e-9:
            ctx.close(m["harmonics_dbc"][h - 2], db(p[b] / p[k]), f"harmonic {h} after alignment", rtol=0, atol=1e-5)
        else:
            ctx.check(m["harmonics_dbc"][h - 2] < -90, f"harmonic {h} appears after alignment: {m['harmonics_dbc'][h - 2]}")
    if free and len(shifts) == 2 and shifts[0] == shifts[1]:
        d = 0.1 * np.sin(2 * np.pi * free[len(free) // 2] * t / n + 0.7)
        y = np.stack([rows[0] + d, rows[1] - d])
        c = ctx.call(compute_spectrum, y, max_scale_range=1.0, win_type="rectangular", side_bin=0, coherent_averaging=True)["metrics"]
        w = ctx.call(compute_spectrum, y, max_scale_range=1.0, win_type="rectangular", side_bin=0)["metrics"]
        e = ctx.call(compute_spectrum, np.stack(rows), max_scale_range=1.0, win_type="rectangular", side_bin=0, coherent_averaging=True)["metrics"]
        ctx.close(10 ** (-c["sndr_dbc"] / 10), 10 ** (-e["sndr_dbc"] / 10), "disturbance of opposite sign cancels", rtol=1e-6, atol=1e-14)
        rest = sum(v for b, v in p.items() if b != k) + 0.01
        ctx.close(w["sndr_dbc"], db(p[k] / rest), "power averaging keeps the disturbance", rtol=0, atol=1e-6)
    ctx.outcome(n, k, hs, shifts)


def phases_body(ctx, n, k, hs, shifts, win):
    """Every harmonic keeps its phase relative to the tone: the complex average is that of the record started at the tone's crest."""
    comps = [(1, 0.8, 0.3)] + [(h, a, p) for h, a, p in ((2, 0.05, 1.0), (3, 0.02, 0.2), (5, 0.008, -1.0)) if h in hs]
    x, p = tones.build(n, [(h * k, a, ph) for h, a, ph in comps])
    reach = {}
    for h in range(1, n + 1):
        reach.setdefault(R.fold(h * k, n), []).append(h)
    if max(p, key=p.get) != k or p[k] < 0.3 or min(p.get(k - 1, 0), p.get(k + 1, 0)) > 1e-6 * p[k]:
        return
    wide = 0 if win == "rectangular" else 2
    clear = lambda b, h: not any(g != h and abs(R.fold(g * k, n) - b) <= wide for g, _, _ in comps) and b > wide and 2 * (b + wide) < n
    if not clear(k, 1):
        return
    z = np.asarray(ctx.call(compute_spectrum, np.stack([np.roll(x, s) for s in shifts]), max_scale_range=1.0, win_type=win, coherent_averaging=True)["plot_data"]["complex_spectrum"])
    t = np.arange(n)
    tau = (math.pi / 2 - 0.3) * n / (2 * math.pi * k)
    w = R.window(win, n)
    ref = R.dft(((sum(a * np.cos(2 * np.pi * h * k * (t + tau) / n + ph - math.pi / 2) for h, a, ph in comps)) * w)[None, :])[0]
    for h, a, ph in comps:
        b = R.fold(h * k, n)
        if reach[b][0] != h or not clear(b, h):
            continue
        d = np.angle(z[b] / ref[b])
        ctx.check(abs(d) < 1e-5, f"phase of harmonic {h} (bin {b}): {np.angle(z[b]):.6f} instead of {np.angle(ref[b]):.6f}")
    ctx.outcome(n, k, hs, shifts, win)


def explicit_body(ctx, n, k, m, win, coh, osr, silent):
    """All bins of the averaged spectrum against an explicit transform of every run."""
    t = np.arange(n)
    rows = [0.8 * np.sin(2 * np.pi * k * (t + 3 * r) / n + 0.3) + 0.03 * np.sin(4 * np.pi * k * (t + 3 * r) / n) + 0.02 * (((t + 7 * r) ** 2 * 5 + 3 * t) % 17 - 8) / 17 for r in range(m)]
    x = np.stack(rows + [np.zeros(n)] * silent)
    try:
        want = R.average(R.prepare(x, 1.0), R.window(win, n), osr, coh)
    except R.Tie:
        ctx.skip_ambiguous()
        return
    got = ctx.call(compute_spectrum, x, max_scale_range=1.0, win_type=win, coherent_averaging=coh, osr=osr)["plot_data"]["power_spectrum_db_plot"]
    big = want > 1e-12
    ctx.close(10 ** (np.asarray(got)[big] / 10), want[big], "averaged spectrum", rtol=1e-6)
    ctx.outcome(n, k, m, win, coh)


def families(tier):
    q = tier == "quick"
    subs = [s for r in range(4) for s in itertools.combinations((2, 3, 5), r)]
    ns = [24, 33] if q else [16, 24, 33, 64]

    def shifts(c):
        n = c["n"]
        one = list(range(n))
        two = [(a, b) for a in (0, 1, n // 3) for b in (range(n) if not q else range(0, n, 2))]
        three = [(0, a, b) for a in (1, 5) for b in (range(n) if not q else range(0, n, 3))]
        return [(a,) for a in one] + two + [(a, a) for a in range(2, n)] + three
    return [
        Tree("explicit transform", [("n", [16, 21, 24] if q else [15, 16, 20, 21, 24, 30, 36]), ("k", lambda c: range(1, (c["n"] + 1) // 2)), ("m", [1, 2, 3]),
                                    ("win", ["rectangular", "hann", "blackman"]), ("coh", [False, True]), ("osr", [1, 2]), ("silent", [0, 1])], explicit_body),
        Tree("mean of power spectra", [("n", ns), ("pos", [3.0, 5.3]), ("kind", ["noise", "harm"]), ("win", ["hann", "rectangular", "flattop"]), ("m", [1, 2, 3, 4])], power_body),
        Tree("copies of one run", [("n", ns), ("pos", [3.0, 5.3]), ("kind", ["noise", "harm"]), ("win", ["hann", "rectangular", "flattop"]),
                                   ("coh", [False, True]), ("nf", [2, 3, 4]), ("reps", [2, 3, 5])], repeat_body),
        Tree("aligned runs", [("n", [15, 16, 21, 24] if q else [15, 16, 20, 21, 24, 27, 32]), ("k", lambda c: range(1, (c["n"] + 1) // 2)), ("hs", subs if not q else subs[::2] + [subs[-1]]), ("shifts", shifts), ("silent", [0, 1])], coherent_body),
        Tree("phases", [("n", [15, 16, 21, 24] if q else [15, 16, 20, 21, 24, 27, 32, 100, 1001]), ("k", lambda c: range(1, (c["n"] + 1) // 2, 1 + c["n"] // 50)), ("hs", subs),
                        ("shifts", lambda c: [(s,) for s in range(0, c["n"], 1 + c["n"] // 30)] + [(0, 3), (1, 5, 2)]), ("win", ["rectangular", "hann"])], phases_body),
        Tree("long records", [("n", [1000, 4096]), ("pos", [37.0, 101.3]), ("kind", ["noise", "harm"]), ("win", ["hann", "rectangular", "flattop"]), ("m", [2, 9, 40])], power_body),
        Tree("many copies", [("n", [24, 1000]), ("pos", [3.0, 5.3]), ("kind", ["noise", "harm"]), ("win", ["hann", "rectangular"]), ("coh", [False, True]), ("nf", [2, 3, 4]), ("reps", [9, 11])], repeat_body),
        Tree("many aligned runs", [("n", [256, 255, 1000]), ("k", [1, 7, 37, 61, 101]), ("hs", subs), ("shifts", lambda c: [tuple((i * i * 17 + i) % c["n"] for i in range(m)) for m in (5, 9, 24)]), ("silent", [0, 1, 5])], coherent_body),
        Tree("explicit transform, longer", [("n", [255, 600, 1024]), ("k", [1, 7, 37, 61, 101, 127]), ("m", [1, 5, 9]), ("win", ["rectangular", "hann", "blackman"]), ("coh", [False, True]), ("osr", [1, 2]), ("silent", [0, 3])], explicit_body),
    ]
