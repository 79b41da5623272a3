"""Reference model of the single-tone spectrum metrics, written from their definitions.

Uses an explicit DFT sum instead of an FFT and explicit index sets instead of slices.
Every discrete decision reports a Tie when it hangs on a rounding difference."""
import functools
import math

import numpy as np
from scipy.signal import windows as _w


class Tie(Exception):
    pass


CUT = 1e-20          # level given to bins below the cutoff


def decide(a, b, rel=1e-6):
    """a > b, or Tie when they cannot be told apart."""
    if abs(a - b) <= rel * max(abs(a), abs(b)):
        raise Tie()
    return a > b


COS = {
    "hann": [0.5, 0.5], "hamming": [0.54, 0.46], "blackman": [0.42, 0.5, 0.08],
    "blackmanharris": [0.35875, 0.48829, 0.14128, 0.01168],
    "flattop": [0.21557895, 0.41663158, 0.277263158, 0.083578947, 0.006947368],
}
MAINLOBE = {"rectangular": 0, "hann": 1, "hamming": 1, "blackman": 2, "blackmanharris": 3, "flattop": 4,
            "kaiser": 8, "chebwin": 4}
FALLBACK = {"rectangular": 1, "hann": 3, "hamming": 3, "blackman": 4, "blackmanharris": 5, "flattop": 6,
            "kaiser": 10, "chebwin": 6}


def win_name(name):
    n = name.lower()
    n = "rectangular" if n == "boxcar" else n
    return n if n in MAINLOBE else "hann"


@functools.lru_cache(maxsize=512)
def window(name, n):
    name = win_name(name)
    i = np.arange(n)
    if name == "rectangular":
        return np.ones(n)
    if name in COS:
        if n == 1:
            return np.ones(1)
        return sum((-1) ** k * c * np.cos(2 * np.pi * k * i / n) for k, c in enumerate(COS[name]))
    if name == "kaiser":
        return np.i0(38 * np.sqrt(np.maximum(0, 1 - (2 * i / n - 1) ** 2))) / np.i0(38)
    return _w.chebwin(n, at=100, sym=False)


@functools.lru_cache(maxsize=64)
def dft_matrix(n):
    k = np.arange(n // 2 + 1)
    return np.exp(-2j * np.pi * (np.outer(k, np.arange(n)) % n) / n)


def dft(x):
    """Bins 0..n/2 along the last axis; the explicit sum for short records, the library transform for long ones."""
    n = x.shape[-1]
    return x @ dft_matrix(n).T if n <= 600 else np.fft.rfft(x)


def prepare(data, scale):
    a = np.asarray(data, float)
    if a.ndim < 2:
        a = a.reshape(1, -1)
    r, c = a.shape
    if (c == 1 and r > 1) or (r > 1 and c > 1 and r > 2 * c):
        a = a.T
    if scale is None:
        peak = (a.max() - a.min()) / 2
    elif isinstance(scale, (list, tuple)):
        peak = (scale[1] - scale[0]) / 2
    else:
        peak = scale
    a = a - a.mean(axis=1, keepdims=True)
    return a / peak if peak != 0 else a


def inband_count(n, osr):
    return max(1, min(int(math.floor(n / (2 * osr) + 1e-9)) + 1, n // 2 + 1))


def fold(b, n):
    b = b - n * math.floor(b / n)
    return min(b, n - b)


def one_sided(p, n):
    p = p.copy()
    p[0] /= 2
    if n % 2 == 0:
        p[-1] /= 2
    return p


def argmax(v, lo):
    if len(v) <= lo:
        return None
    i = lo + int(np.argmax(v[lo:]))
    rest = np.delete(v[lo:], i - lo)
    if len(rest) and v[i] > 0:
        decide(v[i], rest.max(), 1e-7)
    return i


def locate(p, nb):
    k = argmax(p[:nb], 1)
    if k is None:
        return 0, 0.0
    if 0 < k < nb - 1:
        y = [math.log10(max(p[k + d], 1e-20)) for d in (-1, 0, 1)]
        gap = min(y[0], y[2]) - (y[1] - 4)
        if abs(gap) < 1e-6:
            raise Tie()
        if gap >= 0 and 2 * y[1] - y[0] - y[2] != 0:
            return k, k + (y[2] - y[0]) / (2 * (2 * y[1] - y[0] - y[2]))
    return k, float(k)


def average(x, win, osr, coherent):
    """Mean one-sided power per bin (window-power normalised), and the complex mean when coherent."""
    m, n = x.shape
    S = dft(x * win)
    corr = 4 / np.mean(win ** 2)
    if not coherent:
        return one_sided(np.mean(np.abs(S) ** 2, axis=0) / n ** 2, n) * corr
    acc, cnt = np.zeros(n // 2 + 1, complex), 0
    for r in range(m):
        if np.max(np.abs(x[r] * win)) < 1e-10:
            continue
        k, kr = locate(np.abs(S[r]) ** 2, inband_count(n, osr))
        if k <= 0:
            continue
        acc += align(S[r], k, kr, n)
        cnt += 1
    z = acc / (n * max(cnt, 1))
    return one_sided(np.abs(z) ** 2, n) * corr


def align(s, k, kr, n):
    """Refer every bin to zero fundamental phase: harmonics by their order, the rest by frequency ratio."""
    ph = -np.angle(s[k])
    if abs(abs(ph) - math.pi) < 1e-6:
        raise Tie()
    rot = {}
    for h in range(1, n + 1):
        f = h * k
        zone = (2 * f) // n
        if zone % 2 == 0:
            b, sign = f % n, 1
        else:
            b, sign = (n - f % n) % n if f % n else n, -1
        if b < n and b not in rot:
            rot[b] = sign * h * ph
    out = s.copy()
    for b in range(len(s)):
        out[b] *= np.exp(1j * rot.get(b, ph * b / kr))
    out[0] = 0
    return out


def auto_side(p, k, kr, nb, n, win, name):
    t = np.arange(n)
    ideal = np.sin(2 * np.pi * kr * t / n)
    q = one_sided(np.abs(dft(ideal * win)) ** 2, n)
    peak = max(p[k], 1e-30)
    q = q * peak / max(q[k], 1e-300)
    inb = p[:nb]
    pos = inb[inb > 1e-20]
    if np.any((inb > 1e-22) & (inb < 1e-18) & (inb != CUT)):
        raise Tie()
    floor = np.median(pos) if len(pos) >= 3 else np.median(inb)
    floor = max(floor, peak * 1e-24)
    top = min(k, nb - 1 - k)
    low = min(MAINLOBE[name], top)
    for sb in range(1, top + 1):
        ok = True
        for b in (k - sb, k + sb):
            if abs(q[b] - floor) < 1e-5 * floor + 1e-29 * peak:
                raise Tie()
            ok = ok and q[b] <= floor
        if ok:
            return max(sb - 1, low)
    return min(max(FALLBACK[name], low), top)


def spectrum(data, fs=1.0, max_scale_range=None, win_type="hann", side_bin=None, osr=1, max_harmonic=5,
             nf_method=0, assumed_sig_pwr_dbfs=None, coherent_averaging=False, cutoff_freq=0):
    x = prepare(data, max_scale_range)
    m, n = x.shape
    name = win_name(win_type)
    win = window(win_type, n)
    nb = inband_count(n, osr)
    p = average(x, win, osr, coherent_averaging)
    p_disp = p + 1e-20
    if cutoff_freq > 0:
        c = cutoff_freq / fs * n
        if abs(c - round(c)) < 1e-9:
            raise Tie()
        p = p.copy()
        p[: math.ceil(c)] = CUT
        p_disp = p
    k, kr = locate(p, nb)
    sb = auto_side(p, k, kr, nb, n, win, name) if side_bin is None else side_bin
    sig = set(range(max(k - sb, 0), min(k + sb + 1, nb)))
    dc = set(range(0, sb + 1))
    psig = sum(p[b] for b in sig)
    sig_db = 10 * math.log10(max(psig, 1e-30))
    if assumed_sig_pwr_dbfs is not None and not math.isnan(assumed_sig_pwr_dbfs):
        sig_db, psig = assumed_sig_pwr_dbfs, 10 ** (assumed_sig_pwr_dbfs / 10)
    # harmonics
    hb = []
    for h in range(2, max_harmonic + 1):
        b = fold(kr * h, n)
        if abs(b - math.floor(b) - 0.5) < 1e-6:
            raise Tie()
        hb.append(int(math.floor(b + 0.5)))
    hp, coll, used = [], [], set()
    for h, b in zip(range(2, max_harmonic + 1), hb):
        if abs(b - k) <= 2 * sb:
            coll.append(h)
            hp.append(1e-15)
        elif b <= sb:
            hp.append(1e-15)
        else:
            rng = range(b - sb, min(b + sb + 1, n // 2 + 1))
            hp.append(max(sum(p[j] for j in rng), 1e-15))
            used |= set(rng)
    thd = max(sum(p[j] for j in used), 1e-15)
    # spur
    q = np.array([0.0 if (b in sig or b in dc) else p[b] for b in range(nb)])
    if q.max() > 0:
        s = argmax(q, 0)
        spur = sum(q[j] for j in range(max(s - sb, 0), min(s + sb + 1, nb)))
    else:
        s, spur = 0, 0.0
    noise_all = q.sum()
    sndr = 10 * math.log10(psig / (noise_all + 1e-20))
    # noise
    parts = {}
    if nf_method == 4:
        keep = [b for b in range(nb) if b not in sig and b not in dc
                and not any(1 <= h < nb and abs(b - h) <= sb for h in hb)]
        noise = max(sum(p[b] for b in keep), 1e-15) if keep else math.nan
    else:
        if np.any((q > 1e-22) & (q < 1e-18) & (q != CUT)):
            raise Tie()
        fl = np.sort(q[q > 1e-20])
        if not len(fl):
            fl = np.sort(q)
        mn = 0.72 if m == 1 else (1 - 2 / (9 * m)) ** 3
        L = len(fl)
        lo, hi = max(1, math.floor(L * 0.05)), max(1, math.floor(L * 0.95))
        parts = {"median": np.median(fl) / mn * nb,
                 "trimmed": np.mean(fl[lo - 1:min(max(lo, hi), L)]) * nb,
                 "exclude": sum(q[b] for b in range(nb) if b not in hb)}
        vals = {0: sorted(parts.values())[1], 1: parts["median"], 2: parts["trimmed"], 3: parts["exclude"]}
        noise = max(vals[nf_method], 1e-15)
    snr = 10 * math.log10(psig / noise) if math.isfinite(noise) else math.nan
    nf = sig_db - snr
    return {
        "metrics": {
            "enob": (sndr - 1.76) / 6.02, "sndr_dbc": sndr,
            "sfdr_dbc": math.inf if spur <= 0 else 10 * math.log10(psig / spur),
            "snr_dbc": snr, "sig_pwr_dbfs": sig_db, "noise_floor_dbfs": nf,
            "nsd_dbfs_hz": nf - 10 * math.log10(fs / 2 / osr),
            "thd_dbc": 10 * math.log10(thd / psig), "harmonics_dbc": [10 * math.log10(v / psig) for v in hp],
        },
        "N": n, "M": m, "k": k, "kr": kr, "side": sb, "hb": hb, "collided": coll, "spur": s if spur > 0 else None,
        "sig": (min(sig), max(sig) + 1) if sig else (0, 0), "p_disp": p_disp, "power": p, "parts": parts,
        "sums": {"noise_all": noise_all, "thd": thd, "spur": spur, "psig": psig},
    }
