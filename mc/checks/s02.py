"""S02 known tones are read back with their true levels."""
import itertools, math
import numpy as np
from mc.core import Tree
from mc.ref import tones
from mc.ref.spectrum import MAINLOBE, fold
from adctoolbox.spectrum import compute_spectrum

ASSUMPTIONS = ["tones sit on exact bins; windowed cases keep every tone at least a main lobe clear of the others, DC and Nyquist; "
               "Kaiser and Chebyshev windows judged to 0.01 dB, the others to 1e-6 dB"]
H = {2: (0.06, 0.4), 3: (0.03, 1.1), 4: (0.011, 2.0), 5: (0.017, -0.7)}
db = lambda v: 10 * math.log10(v)


def expect(ctx, n, k, hs, spur, dc, fs_range, win, side, maxh=5, lobe=0, tol=1e-6):
    amp, ph = 0.8, 0.3
    comps = [(k, amp, ph)] + [(h * k, H[h][0], H[h][1]) for h in hs] + ([(spur[0], spur[1], 0.9)] if spur else [])
    x, p = tones.build(n, comps, dc)
    p = {b: v / fs_range ** 2 for b, v in p.items()}
    sig = p.get(k, 0)
    if max(p, key=p.get) != k or sig < 0.05:
        return False
    if lobe == 0 and min(p.get(k - 1, 0), p.get(k + 1, 0)) > 1e-6 * sig:
        return False  # looks like a tone between bins
    rest = {b: v for b, v in p.items() if b != k}
    hb = {h: fold(h * k, n) for h in range(2, maxh + 1)}
    r = ctx.call(compute_spectrum, x, max_scale_range=fs_range, win_type=win, side_bin=side, max_harmonic=maxh, nf_method=3)
    m = r["metrics"]
    ctx.close(m["sig_pwr_dbfs"], db(sig), "signal power", rtol=0, atol=tol)
    bad = sum(rest.values())
    if bad > 1e-12:
        ctx.close(m["sndr_dbc"], db(sig / bad), "SNDR", rtol=0, atol=tol)
        ctx.close(m["sfdr_dbc"], db(sig / max(rest.values())), "SFDR", rtol=0, atol=tol)
    elif tol < 1e-3:
        ctx.check(m["sndr_dbc"] > 180 and m["sfdr_dbc"] > 180, f"pure tone: SNDR {m['sndr_dbc']}, SFDR {m['sfdr_dbc']}")
    ctx.close(m["enob"], (m["sndr_dbc"] - 1.76) / 6.02, "ENOB from SNDR", rtol=1e-9)
    lev = {}
    for h in range(2, maxh + 1):
        b = hb[h]
        hidden = b <= lobe or abs(b - k) <= 2 * lobe
        want = 0.0 if hidden else p.get(b, 0.0)
        got = m["harmonics_dbc"][h - 2]
        if want > 1e-10:
            ctx.close(got, db(want / sig), f"harmonic {h}", rtol=0, atol=tol)
            lev[b] = want
        elif tol < 1e-3:
            ctx.check(got < db(1e-10 / sig), f"harmonic {h} absent but reported at {got} dBc")
    if lev:
        ctx.close(m["thd_dbc"], db(sum(lev.values()) / sig), "THD", rtol=0, atol=tol)
    elif tol < 1e-3:
        ctx.check(m["thd_dbc"] < db(1e-10 / sig), f"no harmonics but THD {m['thd_dbc']}")
    noise = sum(v for b, v in rest.items() if b not in hb.values())
    if noise > 1e-10 and tol < 1e-3 and lobe == 0:
        ctx.close(m["snr_dbc"], db(sig / noise), "SNR without harmonics", rtol=0, atol=tol)
        ctx.close(m["noise_floor_dbfs"], db(noise), "noise floor", rtol=0, atol=tol)
    ctx.equal(int(r["plot_data"]["fundamental_bin"]), k, "fundamental bin")
    ctx.close(r["plot_data"]["fundamental_bin_fractional"], k, "fundamental position", rtol=0, atol=0.51 if lobe else 1e-6)
    ctx.outcome(n, k, hs, spur)
    return True


def rect_body(ctx, n, k, hs, spur, dc, rng, side):
    sp = None if spur is None else (spur, 0.02)
    if not expect(ctx, n, k, hs, sp, dc, rng, "rectangular", side):
        ctx.outcome("fundamental cancelled or not a clean line")


def clear(n, k, hs, spur, lobe, maxh=5):
    pts = [0, n / 2] + [k] + [fold(h * k, n) for h in range(2, maxh + 1)] + ([spur] if spur is not None else [])
    pts = sorted(pts)
    return all(b - a > 2 * lobe for a, b in zip(pts, pts[1:]))


def win_body(ctx, win, n, k, hs, spur, side):
    lobe = MAINLOBE[win]
    approx = win in ("kaiser", "chebwin")
    if not clear(n, k, hs, spur, lobe + (2 if approx else 0), 3):
        ctx.outcome("tones overlap")
        return
    expect(ctx, n, k, hs, None if spur is None else (spur, 0.02), 0.1, 1.0, win, None if side == "auto" else lobe,
           maxh=3, lobe=lobe, tol=0.01 if approx else 1e-6)


def families(tier):
    q = tier == "quick"
    subs = [tuple(s) for r in range(5) for s in itertools.combinations((2, 3, 4, 5), r)]
    free = lambda c: [None] + [b for b in range(1, (c["n"] - 1) // 2 + 1) if b != c["k"] and (not q or b % 3 == c["k"] % 3)]
    lob = lambda c: MAINLOBE[c["win"]]
    return [
        Tree("every bin, rectangular", [("n", list(range(6, 24)) if q else list(range(4, 41))),
                                        ("k", lambda c: list(range(1, c["n"] // 2 + 1))), ("hs", subs), ("spur", free),
                                        ("dc", [0.0, -0.4] if not q else [0.3]), ("rng", [1.0, 2.5] if not q else [2.5]), ("side", [0, None] if not q else [0])], rect_body),
        Tree("every bin, every window", [("win", list(MAINLOBE)), ("n", lambda c: [40, 45, 64, 128, 129] if q else list(range(24, 97)) + [128, 129, 256, 257]),
                                         ("k", lambda c: list(range(1 + lob(c), c["n"] // 2 - lob(c), 1 if not q else max(1, c["n"] // 24)))),
                                         ("hs", [(), (2,), (3,), (2, 3)]),
                                         ("spur", lambda c: [None] + list(range(2 + lob(c), c["n"] // 2, max(3, c["n"] // (6 if q else 12))))),
                                         ("side", ["auto", "lobe"])], win_body),
        Tree("long records", [("win", list(MAINLOBE)), ("n", [1024, 1000, 4096, 16384] if q else [1000, 1023, 1024, 4096, 5000, 16384, 65536]), ("k", lambda c: [c["n"] // 100 + 3, c["n"] // 9, c["n"] // 3 + 2, c["n"] // 2 - c["n"] // 50]), ("hs", [(), (2,), (2, 3)]),
                              ("spur", lambda c: [None, c["n"] // 5 + 1, c["n"] // 2 - c["n"] // 30]), ("side", ["auto", "lobe"])], win_body),
    ]
