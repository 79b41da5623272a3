"""T01 splitting into channels and stitching back lose and move nothing."""
import numpy as np
from mc.core import Tree
from adctoolbox.timeinterleave import deinterleave, interleave

ASSUMPTIONS = []


def make(n, dtype):
    v = np.arange(n) * 3 + 1
    if dtype == "complex128":
        return v + 1j * v[::-1]
    if dtype == "bool":
        return v % 2 == 0
    return v.astype(dtype)


def split_body(ctx, m, k, dtype, layout):
    x = make(m * k, dtype)
    keep = x.copy()
    arg = x.tolist() if layout == "list" else (np.repeat(x, 2)[::2] if layout == "strided" else x)
    c = np.asarray(ctx.call(deinterleave, arg, m))
    ctx.equal(c.shape, (m, k), "shape")
    for i in range(m):
        for j in range(k):
            ctx.check(c[i, j] == keep[j * m + i], f"channel {i} sample {j}")
    y = np.asarray(ctx.call(interleave, c))
    ctx.equal(y.shape, (m * k,), "stitched length")
    ctx.check(np.array_equal(y, keep), "stitching undoes splitting")
    ctx.check(np.array_equal(x, keep), "input untouched")
    if layout == "plain":
        ctx.equal(str(c.dtype), str(keep.dtype), "kind of number kept")
    z = np.asarray(ctx.call(interleave, [list(r) for r in c] if layout == "list" else np.ascontiguousarray(c)))
    ctx.check(np.array_equal(z, keep), "stitching separate channels")
    ctx.outcome(m, k)


def stitch_body(ctx, m, k, dtype):
    c = make(m * k, dtype).reshape(m, k)
    x = np.asarray(ctx.call(interleave, c))
    for n in range(m * k):
        ctx.check(x[n] == c[n % m, n // m], f"sample {n}")
    ctx.check(np.array_equal(np.asarray(ctx.call(deinterleave, x, m)), c), "splitting undoes stitching")
    ctx.outcome(m, k)


def refuse_body(ctx, n, m):
    if m > 0 and n % m == 0:
        r = ctx.call(deinterleave, np.arange(n), m)
        ctx.equal(np.asarray(r).shape, (m, n // m), "shape")
    else:
        ctx.raises(ValueError, deinterleave, np.arange(n), m)
    ctx.outcome(n, m)


def dim_body(ctx, shape, fn):
    ctx.raises(ValueError, deinterleave if fn == "split" else interleave, *((np.zeros(shape), 1) if fn == "split" else (np.zeros(shape),)))


def families(tier):
    q = tier == "quick"
    ms, ks = (range(1, 7), [0, 1, 2, 3, 5]) if q else (range(1, 13), range(0, 10))
    dts = ["float64", "int64", "uint8", "float32", "complex128", "bool"]
    return [
        Tree("split", [("m", ms), ("k", ks), ("dtype", dts), ("layout", ["plain", "list", "strided"])], split_body),
        Tree("stitch", [("m", ms), ("k", ks), ("dtype", dts)], stitch_body),
        Tree("lengths", [("n", range(0, 13 if q else 40)), ("m", range(-2, 14 if q else 41))], refuse_body),
        Tree("dimensions", [("shape", [(), (2, 2), (2, 3, 2)]), ("fn", ["split"])], dim_body),
        Tree("dimensions of channels", [("shape", [(), (4,), (2, 3, 2)]), ("fn", ["stitch"])], dim_body),
        Tree("many channels", [("m", [16, 37, 64, 128]), ("k", [1, 64, 101, 500]), ("dtype", ["float64", "int64", "complex128"]), ("layout", ["plain", "list"])], split_body),
    ]
