"""Reference models of the deterministic impairments: plain per-sample loops."""
import math


def clean(g, n):
    return [g["A"] * math.sin(2 * math.pi * g["Fin"] * (i / g["Fs"])) + g["DC"] for i in range(n)]


def quantize(g, x, n_bits=10, quant_range=(0.0, 1.0)):
    lo, hi = quant_range
    lsb = (hi - lo) / 2 ** n_bits
    return [min(max(math.floor((v - lo) / lsb), 0), 2 ** n_bits - 1) * lsb + lo for v in x]


def nonlin(g, x, k2=0, k3=0, k4=0, k5=0):
    out = []
    for v in x:
        a = v - g["DC"]
        out.append(a + k2 * a ** 2 + k3 * a ** 3 + k4 * a ** 4 + k5 * a ** 5 + g["DC"])
    return out


def nonlin_hd(g, x, **hd):
    """A harmonic at r dB below the carrier: x^n gives A^n / 2^(n-1) at the nth harmonic."""
    k = {}
    for n in (2, 3, 4, 5):
        db = hd.get(f"hd{n}_dB")
        k[f"k{n}"] = 0.0 if db is None else 10 ** (db / 20) * g["A"] / (g["A"] ** n / 2 ** (n - 1))
    return nonlin(g, x, **k)


def memory(g, x, memory_strength=0.009):
    out = []
    for i, v in enumerate(x):
        msb = math.floor(v * 16) / 16
        lsb = math.floor((v - msb) * 4096) / 4096
        prev = math.floor(x[i - 1] * 16) / 16          # first sample sees the last one (periodic record)
        out.append(msb + lsb + memory_strength * prev)
    return out


def sampling(g, x, T_track=None, tau_nom=40e-12, coeff_k=0.15):
    T = 0.2 / g["Fs"] if T_track is None else T_track
    out, prev = [], 0.0
    for v in x:
        a = v - g["DC"]
        prev = a + (prev - a) * math.exp(-T / (tau_nom * (1 + coeff_k * a * a)))
        out.append(prev + g["DC"])
    return out


def gain_error(g, x, relative_gain=0.99, msb_bits=4, lsb_bits=12, mode="coarse_path"):
    out = []
    for v in x:
        a = v - g["DC"]
        m = math.floor(a * 2 ** msb_bits) / 2 ** msb_bits
        l = math.floor((a - m) * 2 ** lsb_bits) / 2 ** lsb_bits
        out.append((m * relative_gain + l if mode == "coarse_path" else m + l * relative_gain) + g["DC"])
    return out


def gain_error_dyn(g, x, relative_gain=1, coeff_3=0.15, msb_bits=4, lsb_bits=12, mode="coarse_path"):
    out, st = [], 0.0
    for v in x:
        a = v - g["DC"]
        m = math.floor(a * 2 ** msb_bits) / 2 ** msb_bits
        l = math.floor((a - m) * 2 ** lsb_bits) / 2 ** lsb_bits
        G = relative_gain + coeff_3 * st * st
        if mode == "coarse_path":
            y = st = m * G + l
        else:
            st = l * G
            y = m + st
        out.append(y + g["DC"])
    return out


def reference(g, x, settling_tau=2.0, droop_strength=0.01):
    out, d = [], 0.0
    for v in x:
        a = v - g["DC"]
        d = d * math.exp(-1 / settling_tau) + droop_strength * abs(a)
        out.append(a * (1 - d) + g["DC"])
    return out


def am_tone(g, x, am_tone_freq=500e3, am_tone_depth=0.05):
    return [(v - g["DC"]) * (1 + am_tone_depth * math.sin(2 * math.pi * am_tone_freq * (i / g["Fs"]))) + g["DC"]
            for i, v in enumerate(x)]


def percentile(x, p):
    """Linear interpolation between order statistics."""
    s = sorted(x)
    h = (len(s) - 1) * p / 100
    i = min(int(math.floor(h)), len(s) - 1)
    j = min(i + 1, len(s) - 1)
    return s[i] + (h - i) * (s[j] - s[i])


def clip(g, x, percentile_clip=1.0):
    lo, hi = percentile(x, percentile_clip), percentile(x, 100 - percentile_clip)
    return [min(max(v, lo), hi) for v in x]


def shaping(g, x, n_bits=10, quant_range=(0.0, 1.0), order=1, ntf=None):
    if ntf is None:
        num, den = [1.0], [1.0]
        for _ in range(order):
            num = [a - b for a, b in zip(num + [0.0], [0.0] + num)]
    elif isinstance(ntf, tuple):
        num, den = list(ntf[0]), list(ntf[1])
    else:
        num, den = list(ntf), [1.0]
    e = [q - v for q, v in zip(quantize(g, x, n_bits, quant_range), x)]
    y = []
    for n in range(len(e)):
        s = sum(b * e[n - k] for k, b in enumerate(num) if n >= k)
        s -= sum(a * y[n - k] for k, a in enumerate(den) if k and n >= k)
        y.append(s / den[0])
    return [v + s for v, s in zip(x, y)]
