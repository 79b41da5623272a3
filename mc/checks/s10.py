"""S10 in-band noise of a noise transfer function equals the band integral of its squared magnitude."""
import itertools, math
import numpy as np
from scipy import signal
from mc.core import Tree
from adctoolbox.oversampling import ntfperf, ntf_analyzer

ASSUMPTIONS = ["the library integrates on a 65536-point grid: judged to 40/points-in-band dB"]


def integral(num, den, lo, hi):
    """2 * integral of |H|^2 over [lo, hi] by Gauss-Legendre pieces (direct evaluation of the polynomials)."""
    g, w = np.polynomial.legendre.leggauss(40)
    tot = 0.0
    pieces = 24
    for i in range(pieces):
        a, b = lo + (hi - lo) * i / pieces, lo + (hi - lo) * (i + 1) / pieces
        f = (a + b) / 2 + (b - a) / 2 * g
        z = np.exp(2j * np.pi * f)
        tot += (b - a) / 2 * np.sum(w * np.abs(np.polyval(num, z) / np.polyval(den, z)) ** 2)
    return 2 * tot


def body(ctx, zeros, poles, gain, band, form):
    lo, hi = band
    num = gain * np.atleast_1d(np.real(np.poly(zeros)))
    den = np.atleast_1d(np.real(np.poly(poles)))
    want = -10 * math.log10(integral(num, den, lo, hi))
    arg = (num, den) if form == "tuple" else signal.TransferFunction(num, den, dt=1)
    pts = (hi - lo) * 2 * 65536
    for fn in (ntf_analyzer, ntfperf):
        got = ctx.call(fn, arg, lo, hi)
        ctx.close(got, want, "noise suppression", rtol=0, atol=40 / pts + 1e-4)
    ctx.outcome(got)


def split_body(ctx, zeros, poles, cut):
    """Powers of adjacent bands add; a stronger numerator raises the noise by its gain."""
    num, den = np.atleast_1d(np.real(np.poly(zeros))), np.atleast_1d(np.real(np.poly(poles)))
    pw = lambda a, b, g=1.0: 10 ** (-ctx.call(ntfperf, (g * num, den), a, b) / 10)
    ctx.close(pw(0, cut) + pw(cut, 0.5), pw(0, 0.5), "bands add up", rtol=1e-3)
    ctx.close(pw(0, cut, 3.0), 9 * pw(0, cut), "gain", rtol=1e-9)
    ctx.outcome(cut)


def families(tier):
    q = tier == "quick"
    al = [0.0, 1.0, -1.0, 0.5]
    zs = [z for L in range(0, 4 if not q else 3) for z in itertools.combinations_with_replacement(al, L)] + [(1, 1, 1)] + \
         [(np.exp(1j * a), np.exp(-1j * a)) for a in (0.1, 0.5, 1.5)]
    ps = [(), (0.0,), (0.3,), (-0.6,), (0.5 + 0.4j, 0.5 - 0.4j)]
    bands = [(0, 0.5), (0, 0.25), (0, 1 / 64), (0.1, 0.2), (0.24, 0.26), (0.4, 0.5), (1 / 128, 1 / 8)]
    return [
        Tree("transfer functions", [("zeros", zs), ("poles", lambda c: [tuple(p) + (0.0,) * max(0, len(c["zeros"]) - len(p)) for p in ps]), ("gain", [1.0, 2.0]), ("band", bands), ("form", ["tuple", "object"])], body),
        Tree("adjacent bands", [("zeros", zs), ("poles", lambda c: [tuple(p) + (0.0,) * max(0, len(c["zeros"]) - len(p)) for p in ps]), ("cut", [0.05, 0.125, 0.3])], split_body),
    ]
