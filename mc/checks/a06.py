"""A06 static nonlinearity extraction."""
import math
import numpy as np
from mc.core import Tree
from mc.checks.s01 import record
from adctoolbox.fundamentals import fit_sine_4param
from adctoolbox.aout import fit_static_nonlin

ASSUMPTIONS = ["coherent records of a whole number of cycles; the fundamental gain of the cubic term is absorbed by the sine fit, as documented"]


def ls(x, y, order):
    """Least squares in an orthogonal (Chebyshev) basis, converted to monomials."""
    from numpy.polynomial import chebyshev as C
    V = C.chebvander(x, order)
    w, *_ = np.linalg.lstsq(V, y, rcond=None)
    return C.cheb2poly(w)


def model_body(ctx, n, k, ph, amp, dc, k2, k3, order):
    t = np.arange(n)
    x = amp * np.sin(2 * np.pi * ((k * t) % n) / n + ph)
    a2, a3 = k2 / amp, k3 / amp ** 2
    y = x + a2 * x ** 2 + a3 * x ** 3 + dc
    g = 1 + 0.75 * a3 * amp ** 2
    r = ctx.call(fit_static_nonlin, y, order)
    ctx.equal(len(r), 4, "four results")
    # one refinement step leaves a frequency bias that falls with the number of cycles
    tol = 5e-3 if k < 10 or n < 200 else 1e-3
    scale2, scale3 = 1 / amp, 1 / amp ** 2
    if order == 2:
        ctx.check(math.isnan(r[1]), f"cubic term from a quadratic fit: {r[1]}")
    if k3 == 0 or order >= 3:
        ctx.close(r[0], a2 / g, "quadratic coefficient", rtol=0, atol=tol * scale2)
        if order >= 3:
            ctx.close(r[1], a3 / g ** 2, "cubic coefficient", rtol=0, atol=tol * scale3)
    ctx.close(r[2], x * g + dc + a2 * amp ** 2 / 2, "fitted sine", rtol=0, atol=2e-2 * amp)
    tx, ty = r[3]
    ctx.close(tx, np.linspace(np.min(r[2]), np.max(r[2]), len(tx)), "transfer axis", rtol=1e-9, atol=1e-9 * amp)
    if k3 == 0 or order >= 3:
        u = (np.asarray(tx) - dc - a2 * amp ** 2 / 2) / g
        ctx.close(ty, u + a2 * u ** 2 + a3 * u ** 3 + dc, "transfer curve", rtol=0, atol=3e-3 * amp)
    ctx.outcome(k2, k3, order, n, k)


def data_body(ctx, n, pos, kind, gain, order):
    x = record(n, pos, kind) * gain
    fit = ctx.call(fit_sine_4param, x)
    s = np.asarray(fit["fitted_signal"])
    xi, yi = s - s.mean(), x - x.mean()
    top = np.abs(xi).max()
    c = ls(xi / top, yi, order)
    r = ctx.call(fit_static_nonlin, x, order)
    k1 = c[1] / top
    ctx.close(r[0], c[2] / top ** 2 / k1, "quadratic coefficient", rtol=1e-5, atol=1e-9 / top)
    if order >= 3:
        ctx.close(r[1], c[3] / top ** 3 / k1, "cubic coefficient", rtol=1e-5, atol=1e-9 / top ** 2)
    else:
        ctx.check(math.isnan(r[1]), "no cubic coefficient from a quadratic fit")
    ctx.close(r[2], s, "fitted sine", rtol=1e-9, atol=1e-12 * gain)
    tx, ty = np.asarray(r[3][0]), np.asarray(r[3][1])
    want = sum(ci * ((tx - s.mean()) / top) ** i for i, ci in enumerate(c)) + x.mean()
    ctx.close(ty, want, "transfer curve", rtol=1e-6, atol=1e-7 * gain)
    z = ctx.call(fit_static_nonlin, x.reshape(1, -1), order)
    ctx.close(z[0], r[0], "shape of the input does not matter", rtol=1e-9)
    ctx.outcome(r[0])


def refuse_body(ctx, case):
    x = record(32, 3.0, "noise")
    a = {"order1": (x, 1), "order2.0": (x, 2.0), "short": (x[:4], 3), "flat": (np.zeros(32), 2), "tiny": (1e-12 * np.sin(np.arange(64.0)), 2)}[case]
    ctx.raises(ValueError, fit_static_nonlin, *a)


def families(tier):
    q = tier == "quick"
    kk = [0.0, 0.01, -0.05, 0.1]
    return [
        Tree("known curves", [("n", [256, 301] if q else [128, 256, 301, 1024]), ("k", [5, 17, 61]), ("ph", [0.0, 1.0] if q else [0.0, 1.0, 2.5, -2.0]), ("amp", [0.45, 1.0, 500.0]), ("dc", [0.0, 0.5]), ("k2", kk), ("k3", [0.0, 0.02, -0.04]), ("order", [2, 3, 4])], model_body),
        Tree("any record", [("n", [48, 65] if q else [33, 48, 65, 96]), ("pos", [3.0, 5.3, 7.0]), ("kind", ["noise", "harm", "loud"]), ("gain", [1.0, 1e-3, 2048.0]), ("order", [2, 3, 4, 5])], data_body),
        Tree("refused", [("case", ["order1", "order2.0", "short", "flat", "tiny"])], refuse_body),
        Tree("long records", [("n", [4096, 10001, 65536]), ("k", [61, 313]), ("ph", [0.0, 1.0]), ("amp", [0.45, 2000.0]), ("dc", [0.5]), ("k2", [0.0, 0.01, -0.05]), ("k3", [0.0, -0.04]), ("order", [2, 3, 5])], model_body),
        Tree("long records, any", [("n", [1000, 8192]), ("pos", [17.0, 40.3]), ("kind", ["noise", "harm"]), ("gain", [1.0, 2048.0]), ("order", [2, 3, 7, 10])], data_body),
    ]
