"""A01 ramp-histogram DNL/INL is exact for every histogram."""
import itertools
from fractions import Fraction as Fr
import numpy as np
from mc.core import Tree
from adctoolbox.aout import compute_inl_from_ramp, analyze_inl_from_ramp

ASSUMPTIONS = ["all histograms of up to 6 codes with small counts, and code ranges of converter size; exact rational reference"]


def reference(counts, cmin, endpoint, excl):
    code = list(range(cmin, cmin + len(counts)))
    if excl and len(code) > 2:
        code, counts = code[1:-1], counts[1:-1]
    if sum(counts) == 0:
        return None
    mean = Fr(sum(counts), len(counts))
    dnl = [Fr(c) / mean - 1 for c in counts]
    raw = [Fr(0)]
    for d in dnl:
        raw.append(raw[-1] + d)
    k = len(raw)
    e = endpoint.lower()
    if e == "none":
        inl = raw
    elif e in ("endpoint", "endpoints"):
        inl = [r - (raw[0] + (raw[-1] - raw[0]) * Fr(i, k - 1)) for i, r in enumerate(raw)]
    else:
        xs = [Fr(i) for i in range(k)]
        mx, my = sum(xs) / k, sum(raw) / k
        b = sum((x - mx) * (y - my) for x, y in zip(xs, raw)) / sum((x - mx) ** 2 for x in xs)
        inl = [y - my - b * (x - mx) for x, y in zip(xs, raw)]
    return dict(code=code, counts=list(counts), dnl=dnl, inl=inl, raw=raw, missing=[c for c, n in zip(code, counts) if n == 0], mean=mean)


def f(v):
    return np.array([float(x) for x in v])


def judge(ctx, codes, counts, cmin, endpoint, excl, **kw):
    ref = reference(counts, cmin, endpoint, excl)
    if ref is None:
        ctx.raises(ValueError, compute_inl_from_ramp, codes, endpoint=endpoint, exclude_endpoints=excl, **kw)
        return
    for fn, more in ((compute_inl_from_ramp, {}), (analyze_inl_from_ramp, {"create_plot": False})):
        r = ctx.call(fn, codes, endpoint=endpoint, exclude_endpoints=excl, **kw, **more)
        ctx.equal(list(map(int, r["code"])), ref["code"], "codes")
        ctx.equal(list(map(int, r["counts"])), ref["counts"], "counts")
        ctx.close(r["dnl"], f(ref["dnl"]), "DNL", rtol=0, atol=1e-10)
        ctx.equal(list(map(int, r["transition_code"])), list(range(ref["code"][0], ref["code"][-1] + 2)), "transitions")
        ctx.close(r["raw_inl"], f(ref["raw"]), "raw INL", rtol=0, atol=1e-10)
        ctx.close(r["inl"], f(ref["inl"]), f"INL ({endpoint})", rtol=0, atol=1e-9)
        ctx.equal(list(map(int, r["missing_codes"])), ref["missing"], "missing codes")
        ctx.close(r["ideal_count"], float(ref["mean"]), "ideal count")
        for k, v in (("dnl_min", min(ref["dnl"])), ("dnl_max", max(ref["dnl"])), ("dnl_pp", max(ref["dnl"]) - min(ref["dnl"])),
                     ("inl_min", min(ref["inl"])), ("inl_max", max(ref["inl"])), ("inl_pp", max(ref["inl"]) - min(ref["inl"]))):
            ctx.close(r[k], float(v), k, rtol=0, atol=1e-9)
        ctx.equal((int(r["code_min"]), int(r["code_max"])), (cmin, cmin + len(counts) - 1), "code range")
    ctx.outcome([str(d) for d in ref["dnl"]])


def hist_body(ctx, counts, cmin, endpoint, excl, order):
    codes = [c for i, n in enumerate(counts) for c in [cmin + i] * n]
    if order == "down":
        codes = codes[::-1]
    elif order == "interleaved":
        codes = codes[::2] + codes[1::2]
    if not codes:
        ctx.raises(ValueError, compute_inl_from_ramp, codes)
        return
    judge(ctx, np.array(codes), counts, cmin, endpoint, excl, code_min=cmin, code_max=cmin + len(counts) - 1)


def many_body(ctx, codes, shape, cmin, endpoint, excl, order):
    """Converters of realistic size."""
    counts = [{"even": 3, "hash": (i * i * 7 + i * 13) % 6, "gaps": 0 if i % 37 in (5, 6) else 2, "ramp": 1 + 5 * i // codes, "sparse": 1 if i % 7 == 3 else 40}[shape] for i in range(codes)]
    hist_body(ctx, tuple(counts), cmin, endpoint, excl, order)


def range_body(ctx, counts, how, form, cmin):
    """Range taken from bits, from explicit limits, or from the data."""
    codes = [c for i, n in enumerate(counts) for c in [cmin + i] * n]
    if not codes:
        return
    a = {"int": np.array(codes), "list": codes, "float": np.array(codes, float), "2d": np.array(codes + codes).reshape(2, -1), "int8": np.array(codes, np.int8)}[form]
    cn = [2 * c for c in counts] if form == "2d" else list(counts)
    if how == "bits":
        kw = dict(num_bits=2, code_min=cmin)
        full = cn + [0] * (4 - len(cn))
        if len(cn) > 4 and any(cn[4:]):
            ctx.raises(ValueError, compute_inl_from_ramp, a, **kw)
            return
        full = full[:4]
    elif how == "limits":
        kw, full = dict(code_min=cmin, code_max=cmin + 6), cn + [0] * (7 - len(cn))
    else:
        kw, full = dict(code_min=cmin), cn[:max(codes) - cmin + 1]
    if cmin == 0 and kw["code_min"] == 0:
        del kw["code_min"]
    judge(ctx, a, full, cmin, "endpoints", True, **kw)


def refuse_body(ctx, case):
    c = np.array([0, 1, 1, 2, 3])
    a, kw = {"frac": (np.array([0, 1.5, 2]), {}), "nearly": (np.array([0, 1 + 1e-9, 2]), {}), "nearly far up": (np.array([0, 1, 2000.0001]), {}), "nan": (np.array([0, np.nan]), {}), "inf": (np.array([0, np.inf]), {}), "below": (c, dict(code_min=1)), "above": (c, dict(code_max=2)),
             "bits0": (c, dict(num_bits=0)), "bits-": (c, dict(num_bits=-1)), "bits1.5": (c, dict(num_bits=1.5)), "min float": (c, dict(code_min=0.0)), "max float": (c, dict(code_max=3.0)),
             "crossed": (c, dict(code_min=4, code_max=3)), "endpoint": (c, dict(endpoint="line")), "endpoint type": (c, dict(endpoint=None)), "empty": (np.array([]), {}), "few bits": (c, dict(num_bits=1))}[case]
    ctx.raises(ValueError, compute_inl_from_ramp, a, **kw)
    ctx.raises(ValueError, analyze_inl_from_ramp, a, create_plot=False, **kw)
    ctx.raises(ValueError, analyze_inl_from_ramp, c, input_type="voltage", create_plot=False)


def families(tier):
    q = tier == "quick"
    top = 3 if q else 4
    hs = [h for L in range(2, 6) for h in itertools.product(range(top if L < 5 else 3), repeat=L)]
    if not q:
        hs += list(itertools.product(range(3), repeat=6))
    return [
        Tree("all histograms", [("counts", hs), ("cmin", [0, -3, 5] if q else [0, -3, 1, 100]), ("endpoint", ["endpoints", "fit", "none"]), ("excl", [True, False]),
                                ("order", ["up", "down", "interleaved"] if not q else ["up", "interleaved"])], hist_body),
        Tree("range sources", [("counts", [h for L in range(2, 6) for h in itertools.product(range(3), repeat=L)]), ("how", ["bits", "limits", "data"]), ("form", ["int", "list", "float", "2d", "int8"]), ("cmin", [0, 3, -2, 100])], range_body),
        Tree("endpoint names", [("counts", [(1, 2, 3, 1), (2, 0, 5, 1, 1)]), ("cmin", [0]), ("endpoint", ["endpoint", "ENDPOINTS", "Fit", "None"]), ("excl", [True, False]), ("order", ["up"])], hist_body),
        Tree("refused", [("case", ["frac", "nearly", "nearly far up", "nan", "inf", "below", "above", "bits0", "bits-", "bits1.5", "min float", "max float", "crossed", "endpoint", "endpoint type", "empty", "few bits"])], refuse_body),
        Tree("many codes", [("codes", [40, 256, 1024] if q else [40, 256, 1024, 4096]), ("shape", ["even", "hash", "gaps", "ramp", "sparse"]), ("cmin", [0, -512, 30000, -70000]), ("endpoint", ["endpoints", "fit", "none"]), ("excl", [True, False]), ("order", ["up", "interleaved"])], many_body),
    ]
