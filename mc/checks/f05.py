"""F05 input validation."""
import itertools
import re
import warnings
import numpy as np
from mc.core import Tree
from adctoolbox.fundamentals import validate_aout_data, validate_dout_data

ASSUMPTIONS = ["records of up to 4 samples / 3x3 bit matrices over a value alphabet, with the minimum length lowered "
               "accordingly; the default minimum of 100 at lengths around it",
               "whole-number records at the limits of six storage types; bit records of up to 1000 samples and 20 bits"]
NAN, INF = float("nan"), float("inf")


def run(ctx, fn, data, **kw):
    """-> ('ok', warning texts) or ('refused', message)"""
    ctx.calls += 1
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        try:
            fn(data, **kw)
        except ValueError as e:
            return "refused", str(e)
    return "ok", [str(w.message) for w in rec]


def aout_body(ctx, vals, layout, minimum):
    a = np.array(vals, float)
    n = len(vals)
    if layout == "row":
        d = a.reshape(1, -1)
    elif layout == "col":
        d = a.reshape(-1, 1)
    elif layout == "pair":
        d = np.column_stack([a, a])
    elif layout == "list":
        d = list(vals)
    else:
        d = a
    size = max(np.shape(d)) if np.ndim(d) > 1 else n
    ok = n > 0 and all(np.isfinite(v) for v in vals) and size >= minimum and max(vals) > min(vals)
    res, info = run(ctx, validate_aout_data, d, min_samples=minimum)
    ctx.equal(res, "ok" if ok else "refused", f"analog data {vals} as {layout}, minimum {minimum} ({info})")
    if ok:
        ctx.equal(bool(info), (max(vals) - min(vals)) < 1e-10, f"low-amplitude warning for {vals}")
    ctx.outcome(ok, info if not ok else len(info))


def dout_body(ctx, rows, cols, bits, minimum, cast):
    m = np.array(bits, dtype=float).reshape(rows, cols)
    if cast == "int":
        if not np.isfinite(m).all():
            ctx.skip_ambiguous()
            return
        if not (m == np.round(m)).all():
            ctx.skip_ambiguous()
            return
        m = m.astype(np.int64)
    d = m.tolist() if cast == "list" else m
    ok = rows >= minimum and all(v in (0, 1) for v in bits)
    res, info = run(ctx, validate_dout_data, d, min_samples=minimum)
    ctx.equal(res, "ok" if ok else "refused", f"bits {m.tolist()} minimum {minimum} ({info})")
    if ok:
        lo = [j for j in range(cols) if not m[:, j].any()]
        hi = [j for j in range(cols) if m[:, j].all()]
        n_want = (1 if lo else 0) + (1 if hi else 0) + (1 if cols > rows else 0)
        ctx.equal(len(info), n_want, f"warnings for {m.tolist()}: {info}")
        for idx, word in ((lo, "0"), (hi, "1")):
            if idx:
                ctx.check(any(f"at {word}" in s and all(str(j) in s.split(":")[-1] for j in idx)
                              and not any(str(j) in s.split(":")[-1] for j in range(cols) if j not in idx)
                              for s in info), f"stuck bits {idx} at {word} not named: {info}")
    ctx.outcome(ok, info)


def type_body(ctx, which, kind):
    fn = validate_aout_data if which == "aout" else validate_dout_data
    n = 120
    base = np.tile([0.0, 1.0], n // 2)
    mat = np.column_stack([base, 1 - base])
    data = base if which == "aout" else mat
    ok = True
    if kind == "string":
        data, ok = np.array(["0", "1"] * 60), False
    elif kind == "complex":
        data, ok = data.astype(complex), False
    elif kind == "object":
        data, ok = np.array([None] * n, dtype=object), False
    elif kind == "empty":
        data, ok = np.zeros((0,) if which == "aout" else (0, 3)), False
    elif kind == "nobits":
        data, ok = np.zeros((120, 0)), False
    elif kind == "3d":
        data, ok = np.stack([mat, mat]), False
    elif kind == "1d":
        data, ok = base, which == "aout"
    elif kind == "2d":
        data, ok = mat, True
    elif kind == "float32":
        data = data.astype(np.float32)
    elif kind == "int8":
        data = data.astype(np.int8)
    elif kind == "uint8":
        data = data.astype(np.uint8)
    elif kind.startswith("len"):
        k = int(kind[3:])
        data, ok = data[:k], k >= 100
    res, info = run(ctx, fn, data)
    ctx.equal(res, "ok" if ok else "refused", f"{which} {kind}: {info}")
    ctx.outcome(which, kind, res)


def bad_pos_body(ctx, which, pos, value):
    """One bad sample anywhere in an otherwise good record must be noticed."""
    n = 104
    base = np.tile([0.0, 1.0], n // 2)
    d = base.copy() if which == "aout" else np.column_stack([base, 1 - base, np.roll(np.repeat([0., 1.], n // 2), 3)])
    d.reshape(-1)[pos] = value
    ok = np.isfinite(value) and (which == "aout" or value in (0.0, 1.0))
    res, info = run(ctx, validate_aout_data if which == "aout" else validate_dout_data, d)
    ctx.equal(res, "ok" if ok else "refused", f"{which}: value {value} at position {pos}: {info}")
    ctx.outcome(which, value, res)


def integer_body(ctx, kind, low, high, n):
    """Converter codes stored as whole numbers: neither refused nor called too small unless they never change."""
    info = np.iinfo(kind)
    pick = {"min": info.min, "min+1": info.min + 1, "mid": (info.min + info.max) // 2, "mid+1": (info.min + info.max) // 2 + 1, "max-1": info.max - 1, "max": info.max}
    lo, hi = pick[low], pick[high]
    d = np.full(n, lo, dtype=kind)
    d[1::3] = hi
    res, note = run(ctx, validate_aout_data, d)
    ctx.equal(res, "ok" if lo != hi else "refused", f"{kind} codes between {lo} and {hi}: {note}")
    if lo != hi:
        ctx.equal(note, [], f"warnings for {kind} codes between {lo} and {hi}")
    ctx.outcome(kind, lo == hi)


def wide_body(ctx, rows, cols, kind, value, first, count):
    """A block of stuck bits anywhere in a record of realistic size: exactly these are named."""
    n = np.arange(rows)
    m = np.column_stack([((n >> (j % 5)) + j // 5) & 1 for j in range(cols)])
    stuck = [j for j in range(first, min(first + count, cols))]
    m[:, stuck] = value
    res, note = run(ctx, validate_dout_data, m.astype(kind))
    ctx.equal(res, "ok", f"{rows}x{cols} bits as {kind}: {note}")
    ctx.equal(len(note), 1 if stuck else 0, f"warnings with bits {stuck} stuck at {value}: {note}")
    if stuck:
        named = [int(t) for t in re.findall(r"\d+", note[0].split(":")[-1])]
        ctx.equal(named, stuck, f"bits named in {note[0]!r}")
        ctx.check(f"at {value}" in note[0], f"level named in {note[0]!r}")
    ctx.outcome(cols, value, len(stuck))


def families(tier):
    q = tier == "quick"
    alpha = [0.0, 1.0, -2.5, 1e-11, 3e-9, NAN, INF, -INF]
    balpha = [0, 1, 2, NAN] if q else [0, 1, 2, -1, 0.5, NAN]
    dims = [(1, 1), (1, 2), (2, 1), (2, 2), (3, 1), (1, 3), (3, 2), (2, 3)]

    def mats(c):
        k = c["rows"] * c["cols"]
        al = balpha if k <= 4 else [0, 1, 2] if q else [0, 1, 2, -1]
        return list(itertools.product(al, repeat=k))
    return [
        Tree("analog values", [("vals", [v for L in range(0, 4 if q else 5) for v in itertools.product(alpha, repeat=L)]),
                               ("layout", ["vector", "row", "col", "pair", "list"]), ("minimum", [1, 3])], aout_body),
        Tree("bit matrices", [("rows", [1, 2, 3]), ("cols", lambda c: [b for a, b in dims if a == c["rows"]]),
                              ("bits", mats), ("minimum", [1, 2]), ("cast", ["float", "int", "list"])], dout_body),
        Tree("types and lengths", [("which", ["aout", "dout"]),
                                   ("kind", lambda c: ["string", "complex", "object", "empty", "3d", "1d", "2d", "float32", "int8",
                                                       "uint8", "len99", "len100", "len101"]
                                    + (["nobits"] if c["which"] == "dout" else []))], type_body),
        Tree("integer records", [("kind", ["int8", "uint8", "int16", "uint16", "int32", "uint32"]), ("low", ["min", "min+1", "mid", "mid+1", "max-1", "max"]),
                                 ("high", ["min", "min+1", "mid", "mid+1", "max-1", "max"]), ("n", [100, 300])], integer_body),
        Tree("wide bit records", [("rows", [100, 256, 512, 1000]), ("cols", [1, 2, 8, 12, 16, 20]), ("kind", ["int8", "uint8", "int64", "float32"]),
                                  ("value", [0, 1]), ("first", lambda c: sorted({0, 1, 7, c["cols"] - 1} & set(range(c["cols"])))), ("count", [0, 1, 2, 3])], wide_body),
        Tree("one bad sample", [("which", ["aout", "dout"]), ("pos", lambda c: range(104 if c["which"] == "aout" else 312)),
                                ("value", [0.0, NAN, INF, -INF, 0.5])], bad_pos_body),
    ]
