"""S05 oversampling: exactly the in-band part of the record is judged."""
import math
import numpy as np
from mc.core import Tree
from mc.ref import tones, spectrum as R
from mc.checks.s01 import record
from adctoolbox.spectrum import compute_spectrum

ASSUMPTIONS = ["exact-bin tones, no taper, for the band-edge family; total harmonic distortion is not band limited by this library and is not part of the claim"]
db = lambda v: 10 * math.log10(v)


def edge_body(ctx, n, osr, k, j, jamp):
    """One tone k in band, one tone j anywhere, plus a fixed in-band disturbance at bin 1 or 2."""
    edge = n / (2 * osr)
    if k > edge - 1e-9 or abs(edge - round(edge)) < 1e-7 and abs(edge - round(edge)) > 1e-10:
        return
    d = 1 if k != 1 and j != 1 else (2 if k != 2 and j != 2 else 3)
    if d > edge or 2 * d >= n or 2 * j == n or 2 * k == n:
        return
    x, p = tones.build(n, [(k, 0.5, 0.3), (j, jamp, 1.0), (d, 0.01, 0.2)], dc=0.2)
    inb = {b: v for b, v in p.items() if b <= edge + 1e-9}
    top = max(inb, key=inb.get)
    if top != k:
        sig = inb[top]
    sig = inb[top]
    if min(p.get(top - 1, 0), p.get(top + 1, 0)) > 1e-6 * sig:
        return
    rest = [v for b, v in inb.items() if b != top]
    r = ctx.call(compute_spectrum, x, fs=2.0, max_scale_range=1.0, win_type="rectangular", side_bin=0, osr=osr, max_harmonic=2, nf_method=4)
    m = r["metrics"]
    ctx.equal(int(r["plot_data"]["fundamental_bin"]), top, "strongest in-band tone")
    ctx.close(m["sig_pwr_dbfs"], db(sig), "signal power", rtol=0, atol=1e-6)
    if sum(rest) > 1e-10:
        ctx.close(m["sndr_dbc"], db(sig / sum(rest)), "SNDR over the band", rtol=0, atol=1e-6)
        ctx.close(m["sfdr_dbc"], db(sig / max(rest)), "SFDR over the band", rtol=0, atol=1e-6)
    h2 = R.fold(2 * top, n)
    noise = sum(v for b, v in inb.items() if b not in (top, h2))
    if noise > 1e-10:
        ctx.close(m["snr_dbc"], db(sig / noise), "SNR over the band", rtol=0, atol=1e-6)
        ctx.close(m["noise_floor_dbfs"], db(noise), "noise floor over the band", rtol=0, atol=1e-6)
        ctx.close(m["nsd_dbfs_hz"], db(noise) - 10 * math.log10(1.0 / osr), "density over the band", rtol=0, atol=1e-6)
    ctx.outcome(n, osr, k, j)


def narrow_body(ctx, n, osr, amp, j):
    """A band that holds the first bin only."""
    if not 1 <= n / (2 * osr) < 2:
        return
    x, p = tones.build(n, [(1, amp, 0.3), (j, 0.4, 1.0)], dc=0.2)
    r = ctx.call(compute_spectrum, x, fs=2.0, max_scale_range=1.0, win_type="rectangular", side_bin=0, osr=osr, max_harmonic=2)
    ctx.equal(int(r["plot_data"]["fundamental_bin"]), 1, "only in-band tone")
    ctx.close(r["metrics"]["sig_pwr_dbfs"], db(p[1]), "signal power", rtol=0, atol=1e-6)
    ctx.outcome(n, osr, j)


def oob_body(ctx, n, pos, osr, nf, win, j):
    """A tone beyond the band (and beyond the reach of the taper) changes no in-band figure."""
    lobe = R.MAINLOBE[win] + 1
    edge = int(math.floor(n / (2 * osr) + 1e-9))
    if j <= edge + lobe or 2 * j >= n - 2 * lobe:
        return
    x = record(n, pos, "noise")
    y = x + 0.3 * np.sin(2 * np.pi * ((j * np.arange(n)) % n) / n)
    kw = dict(max_scale_range=1.0, win_type=win, osr=osr, nf_method=nf, max_harmonic=2)
    try:
        ra, rb = R.spectrum(x, **kw), R.spectrum(y, **kw)
    except R.Tie:
        return ctx.skip_ambiguous()
    a = ctx.call(compute_spectrum, x, **kw)
    b = ctx.call(compute_spectrum, y, **kw)
    for k in ("sndr_dbc", "enob", "sfdr_dbc", "snr_dbc", "sig_pwr_dbfs", "noise_floor_dbfs", "nsd_dbfs_hz"):
        ctx.close(b["metrics"][k], a["metrics"][k], f"{k} with an out-of-band tone", rtol=0, atol=1e-5)
    ctx.outcome(a["metrics"]["sndr_dbc"], j)


def families(tier):
    q = tier == "quick"
    osrs = [1, 1.25, 1.5, 2, 2.5, 3, 4, 16 / 3, 8]
    return [
        Tree("one-bin band", [("n", [12, 16, 21, 24, 64, 1024]), ("osr", lambda c: [c["n"] / 2, c["n"] / 2.5, c["n"] / 3.9]), ("amp", [0.5, 0.01]), ("j", lambda c: [2, 3, c["n"] // 3])], narrow_body),
        Tree("band edge", [("n", [16, 21, 24] if q else list(range(12, 41))), ("osr", lambda c: osrs + [c["n"] / (2 * (b + e)) for b in (3, c["n"] // 4, c["n"] // 2 - 1) for e in (-0.3, -1e-2, -1e-4, -1e-6, 1e-6, 1e-4, 1e-2, 0.3)]), ("k", lambda c: range(1, int(c["n"] / (2 * c["osr"])) + 1)),
                           ("j", lambda c: [b for b in range(1, (c["n"] + 1) // 2) if b != c["k"]]), ("jamp", [0.03, 0.9])], edge_body),
        Tree("out-of-band tone", [("n", [48, 65] if q else [48, 65, 96, 128]), ("pos", [3.0, 4.3]), ("osr", [2, 3, 4]), ("nf", range(5)), ("win", ["rectangular", "hann", "blackman", "flattop"]),
                                  ("j", lambda c: range(2, c["n"] // 2))], oob_body),
        Tree("long records", [("n", [1000, 1024, 4096]), ("osr", lambda c: [1, 4, 16, 50, 64] + [c["n"] / (2 * (b + e)) for b in (9, c["n"] // 8) for e in (-1e-3, -1e-5, 0.0, 1e-5, 1e-3)]), ("k", lambda c: sorted({3, 5, int(c["n"] / (2 * c["osr"]))})),
                              ("j", lambda c: sorted({b for e in [int(c["n"] / (2 * c["osr"]))] for b in (e - 1, e, e + 1, e + 2, c["n"] // 3, c["n"] // 2 - 2) if 0 < b < c["n"] // 2 and b != c["k"]})), ("jamp", [0.03, 0.9])], edge_body),
    ]
