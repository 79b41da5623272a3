"""Records made of exact-bin tones, with the power in every bin known from the amplitudes alone."""
import math

import numpy as np


def build(n, comps, dc=0.0):
    """comps: (frequency in cycles per record, amplitude, phase).  Returns record and {bin: power / full-scale sine}."""
    t = np.arange(n)
    x = np.full(n, float(dc))
    for f, a, ph in comps:
        x = x + a * np.sin(2 * np.pi * ((f * t) % n) / n + ph)
    return x, powers(n, comps)


def powers(n, comps):
    z = {}
    for f, a, ph in comps:
        b = f % n
        v = a * complex(math.cos(ph), math.sin(ph))
        if 2 * b > n:
            b, v = n - b, -v.conjugate()
        z[b] = z.get(b, 0) + v
    p = {}
    for b, v in z.items():
        if b == 0:
            continue  # mean is removed
        p[b] = 2 * v.imag ** 2 if 2 * b == n else abs(v) ** 2
    return p
