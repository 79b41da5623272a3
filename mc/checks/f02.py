"""F02 coherent frequency planning."""
from fractions import Fraction as Fr
import math
import numpy as np
from mc.core import Tree
from adctoolbox import find_coherent_frequency

ASSUMPTIONS = ["targets on a quarter-bin grid; where the target is half way between bins (the window centre "
               "is a rounding tie) either equally near plan is accepted"]


def ref_plan(tbin, n, odd, radius):
    """All correct answers: set of bins, or None when nothing is eligible."""
    t = Fr(tbin)
    lo = math.floor(t)
    centres = {lo} if t - lo < Fr(1, 2) else {lo + 1} if t - lo > Fr(1, 2) else {lo, lo + 1}
    ans = set()
    for c in centres:
        el = [b for b in range(max(1, c - radius), c + radius + 1)
              if math.gcd(b, n) == 1 and (b % 2 == 1 or not odd)]
        if not el:
            ans.add(None)
        else:
            d = min(abs(b - t) for b in el)
            ans |= {b for b in el if abs(b - t) == d}
    return ans


def body(ctx, n, q, odd, radius, scale):
    t = Fr(q, 4)
    fs = n * scale                   # scale is a power of two: target/fs*n is exact
    fin_t = float(t) * scale
    ans = ref_plan(t, n, odd, radius)
    kw = {} if (odd and radius == 200) else {"force_odd": odd, "search_radius": radius}
    if ans == {None}:
        ctx.raises(ValueError, find_coherent_frequency, fs, fin_t, n, **kw)
        return
    if None in ans:                      # eligibility depends on how the half-bin target rounds
        ctx.skip_ambiguous()
        return
    fin, b = ctx.call(find_coherent_frequency, fs, fin_t, n, **kw)
    ctx.check(int(b) in ans, f"bin for target {float(t)} of {n}, odd={odd}, radius={radius}: got {b} want {sorted(ans)}")
    ctx.check(b == int(b), "bin must be an integer")
    ctx.close(fin, int(b) * fs / n, "planned frequency must be bin*fs/n", rtol=1e-12)
    ctx.outcome(n, int(b))


def rate_body(ctx, fs, n, frac, odd):
    """Engineering rates: the plan is coherent, eligible and nearest (ties either way)."""
    fin_t = frac * fs
    fin, b = ctx.call(find_coherent_frequency, fs, fin_t, n, force_odd=odd)
    t = fin_t / fs * n
    el = [x for x in range(max(1, int(t) - 200), int(t) + 201)
          if math.gcd(x, n) == 1 and (x % 2 == 1 or not odd)]
    d = min(abs(x - t) for x in el)
    ctx.check(math.gcd(int(b), n) == 1 and b > 0, f"bin {b} is not coherent with {n}")
    ctx.check(not odd or b % 2 == 1, f"bin {b} is even")
    ctx.check(abs(b - t) <= d + 1e-6, f"bin {b} is not the nearest eligible to {t}")
    ctx.close(fin, b * fs / n, "planned frequency must be bin*fs/n", rtol=1e-12)
    ctx.outcome(int(b))


def families(tier):
    q = tier == "quick"
    return [
        Tree("plans", [("n", range(1, 31 if q else 67)), ("q", lambda c: range(-8, 6 * c["n"] + 5)),
                       ("odd", [True, False]), ("radius", [200, 0, 1, 2, 5]),
                       ("scale", [1.0] if q else [1.0, 2.0 ** 20])], body),
        Tree("engineering rates", [("fs", [1.0, 1e3, 44100.0, 100e6, 800e6, 1.25e9]),
                                   ("n", [64, 100, 1000, 1024, 1536, 8192, 3 * 5 * 7 * 11, 65536]),
                                   ("frac", [i / 40 + 0.0031 for i in range(0, 60 if q else 160)]),
                                   ("odd", [True, False])], rate_body),
    ]
