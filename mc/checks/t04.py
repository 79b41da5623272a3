"""T04 predicted interleaving spurs against the spectrum of the interleaved record itself."""
import math
import numpy as np
from mc.core import Tree
from mc.checks.t02 import params, capture
from adctoolbox.timeinterleave import predict_spurs

ASSUMPTIONS = ["entries of one kind that fall on the same frequency add up to the tone seen there"]


def body(ctx, m, k, cyc, mask, rot, amp, fs, full, how):
    n = m * k
    o, g, s = params(m, mask, rot)
    o = o * amp
    p = {"offset": o, "gain": g, "skew": s / fs, "A": amp}
    f = cyc / n * fs
    kw = {}
    if how == "arg":
        kw["fin"] = f
    elif how == "both":
        p["fin"] = f * 1.37
        kw["fin"] = f
    else:
        p["fin"] = f
    r = ctx.call(predict_spurs, p, fs, full_scale=full, **kw)
    ctx.equal(len(r), 2 * (m - 1), "number of spurs")
    fr = [e["freq_hz"] for e in r]
    ctx.check(fr == sorted(fr), "sorted by frequency")
    ctx.equal(sorted((e["kind"], e["k"]) for e in r), sorted((kd, i) for kd in ("offset", "gain_skew") for i in range(1, m)), "one entry per kind and index")
    t = np.arange(n)
    off = capture(n, m, cyc, o, g * 0, s, 0.0, 0.0)
    tone = capture(n, m, cyc, o * 0, g, s, amp, 0.4)
    for kind, x in (("offset", off), ("gain_skew", tone)):
        pred = {}
        for e in r:
            if e["kind"] != kind:
                continue
            b = (e["k"] * k if kind == "offset" else cyc + e["k"] * k) % n
            b = min(b, n - b)
            ctx.check(abs(e["freq_hz"] - b / n * fs) < 1e-9 * fs, f"{kind} {e['k']} at {e['freq_hz']}, want {b / n * fs}")
            pred.setdefault(b, []).append(e["amp"])
            if e["amp"] > 1e-14 * amp:
                ctx.close(e["dbfs"], 20 * math.log10(e["amp"] / full), "dBFS", rtol=0, atol=1e-9)
                ctx.close(e["dbc"], 20 * math.log10(e["amp"] / (amp * g.mean())), "dBc", rtol=0, atol=1e-9)
        own = min(cyc % n, n - cyc % n)
        for b, a in pred.items():
            if kind == "gain_skew" and (len(a) > 1 or b == own or b == 0 or 2 * b == n):
                continue
            z = abs(np.sum(x * np.exp(-2j * np.pi * ((b * t) % n) / n))) / n
            if 2 * b != n:
                z *= 2
            ctx.close(sum(a), z, f"{kind} spur at bin {b}", rtol=0, atol=1e-9 * amp)
    ctx.outcome(m, k, cyc, mask)


def zero_body(ctx, m, rot, fs):
    """A frequency of zero is a frequency like any other, not a missing one: the skew then plays no part."""
    o, g, s = params(m, 7, rot)
    p = {"offset": o, "gain": g, "skew": s / fs, "A": 2.0, "fin": 0.137 * fs}
    r = ctx.call(predict_spurs, p, fs, fin=0.0)
    for e in r:
        if e["kind"] == "gain_skew":
            b = e["k"] / m
            ctx.check(abs(e["freq_hz"] - min(b, 1 - b) * fs) < 1e-9 * fs, f"spur {e['k']} at {e['freq_hz']}")
            z = abs(sum(g[i] * np.exp(-2j * np.pi * e["k"] * i / m) for i in range(m))) / m
            ctx.close(e["amp"], 2.0 * z, f"spur {e['k']}", rtol=0, atol=1e-12)
    ctx.outcome(m, rot)


def refuse_body(ctx, case, size):
    p = {"offset": np.zeros(3), "gain": np.ones(3), "skew": np.zeros(3), "fin": 0.1}
    if case == "fin":
        del p["fin"]
    else:
        p[case] = np.full(size, 0.5)
    ctx.raises(ValueError, predict_spurs, p, 1.0)


def silent_body(ctx, m, fs):
    r = ctx.call(predict_spurs, {"offset": np.zeros(m), "gain": np.ones(m), "skew": np.zeros(m), "fin": 0.1 * fs}, fs)
    for e in r:
        ctx.check(e["amp"] < 1e-15, "matched channels make no spurs")
        ctx.check(e["dbfs"] < -290 and e["dbc"] < -290, "silent spur level")
    ctx.outcome(m)


def families(tier):
    q = tier == "quick"
    return [
        Tree("spurs", [("m", [1, 2, 3, 4, 5] if q else [1, 2, 3, 4, 5, 6, 7, 8]), ("k", [8, 11] if q else [8, 11, 16]), ("cyc", lambda c: range(1, (c["m"] * c["k"] + 1) // 2)), ("mask", range(8)), ("rot", range(2 if q else 4)), ("amp", [1.0, 500.0, 1e-7]), ("fs", [1.0, 8e8]), ("full", [1.0, 512.0]), ("how", ["params", "arg", "both"])], body),
        Tree("refused", [("case", ["offset", "skew", "fin"]), ("size", [0, 1, 2, 4, 6])], refuse_body),
        Tree("input at zero frequency", [("m", range(2, 9)), ("rot", range(4)), ("fs", [1.0, 8e8])], zero_body),
        Tree("matched channels", [("m", range(1, 9)), ("fs", [1.0, 8e8])], silent_body),
        Tree("many channels", [("m", [12, 16, 32]), ("k", [8, 16]), ("cyc", lambda c: [1, 3, 7, c["k"] + 3, 3 * c["k"] - 1, c["m"] * c["k"] // 2 - 3]), ("mask", range(8)), ("rot", [0, 3]), ("amp", [1.0, 500.0]), ("fs", [1.0, 2e11]), ("full", [1.0, 512.0]), ("how", ["params", "arg"])], body),
    ]
