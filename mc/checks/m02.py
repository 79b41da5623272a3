"""M02 capacitor array to bit weights, against exact nodal analysis."""
from fractions import Fraction as Fr
import itertools
import numpy as np
from mc.core import Tree
from adctoolbox.fundamentals import convert_cap_to_weight
from adctoolbox.common import convert_cap_to_weight as common_conv

ASSUMPTIONS = ["all arrays of up to 4 (5) stages over a small capacitance alphabet, binary arrays of up to 16 (20); zero bridge = direct connection; "
               "the reference solves the charge-conservation equations in exact rational arithmetic"]


def solve(A, b):
    n = len(A)
    M = [list(map(Fr, r)) + [Fr(x)] for r, x in zip(A, b)]
    for c in range(n):
        p = next((r for r in range(c, n) if M[r][c] != 0), None)
        if p is None:
            return None
        M[c], M[p] = M[p], M[c]
        M[c] = [x / M[c][c] for x in M[c]]
        for r in range(n):
            if r != c and M[r][c] != 0:
                M[r] = [x - M[r][c] * y for x, y in zip(M[r], M[c])]
    return [M[i][n] for i in range(n)]


def nodal(cd, cb, cp):
    """Output-node voltage per unit step of each bit bottom plate; capacitance seen at the output."""
    n = len(cd)
    node = [0] * n
    for i in range(1, n):
        node[i] = node[i - 1] + (1 if cb[i - 1] > 0 else 0)
    m = node[-1] + 1
    G = [[Fr(0)] * m for _ in range(m)]
    for i in range(n):
        G[node[i]][node[i]] += Fr(cd[i]) + Fr(cp[i])
        if i + 1 < n and cb[i] > 0:
            a, b = node[i], node[i + 1]
            c = Fr(cb[i])
            G[a][a] += c
            G[b][b] += c
            G[a][b] -= c
            G[b][a] -= c
    w = []
    for i in range(n):
        rhs = [Fr(0)] * m
        rhs[node[i]] += Fr(cd[i])
        s = solve(G, rhs)
        if s is None:
            return None
        w.append(s[m - 1])
    # capacitance seen by a test source at the output node
    if m == 1:
        ct = G[0][0]
    else:
        s = solve([r[:m - 1] for r in G[:m - 1]], [-r[m - 1] for r in G[:m - 1]])
        ct = G[m - 1][m - 1] + sum(G[m - 1][j] * s[j] for j in range(m - 1))
    if cb[-1] > 0:
        ct = ct * Fr(cb[-1]) / (ct + Fr(cb[-1]))
    return w, ct


def body(ctx, cd, cb, cp):
    ref = nodal(cd, cb, cp)
    if ref is None:
        ctx.skip_ambiguous()          # a floating node: no electrical answer
        return
    w, ct = ref
    args = [np.array(x, float) for x in (cd, cb, cp)]
    keep = [a.copy() for a in args]
    gw, gct = ctx.call(convert_cap_to_weight, *args)
    ctx.close(gw, [float(x) for x in w], f"weights of Cd={cd} Cb={cb} Cp={cp}", rtol=1e-10)
    ctx.close(gct, float(ct), f"total capacitance of Cd={cd} Cb={cb} Cp={cp}", rtol=1e-10)
    for a, k in zip(args, keep):
        ctx.equal(a, k, "argument modified")
    cw, cct = ctx.call(common_conv, list(cd), list(cb), list(cp))
    ctx.close(cw, gw, "list input through the compatibility path", rtol=1e-12)
    sw, sct = ctx.call(convert_cap_to_weight, *[a * 2.5e-15 for a in args])
    ctx.close(sw, gw, "weights must not depend on the capacitance unit", rtol=1e-9)
    ctx.close(sct, gct * 2.5e-15, "capacitance must scale with the unit", rtol=1e-9, atol=0)
    ctx.outcome(gw, gct)


def len_body(ctx, a, b, c):
    if a == b == c:
        r = ctx.call(convert_cap_to_weight, np.ones(a), np.zeros(b), np.zeros(c))
        ctx.equal(len(r[0]), a, "one weight per bit")
    else:
        ctx.raises(ValueError, convert_cap_to_weight, np.ones(a), np.zeros(b), np.zeros(c))
    ctx.outcome(a, b, c)


def families(tier):
    q = tier == "quick"
    P = itertools.product
    out = []
    for n in (1, 2, 3) if q else (1, 2, 3, 4):
        cdv = [0, 1, 2, 4] if n <= 3 else [0, 1, 3]
        cbv = [0, 1, 3] if n <= 3 else [0, 2]
        cpv = [0, 1, 0.5] if n <= 3 else [0, 1]
        out.append(Tree(f"{n} stages", [("cd", list(P(cdv, repeat=n))), ("cb", list(P(cbv, repeat=n))),
                                        ("cp", list(P(cpv, repeat=n)))], body))
    bigs = [8, 10, 16] if q else [6, 8, 10, 12, 16, 20]
    out.append(Tree("binary arrays", [
        ("cd", [tuple(2 ** (i % s) for i in range(n)) for n in bigs for s in (3, 4, n)]),
        ("cb", lambda c: [tuple((1 if (i % s) == s - 1 and i < len(c["cd"]) - 1 else 0) * r for i in range(len(c["cd"])))
                          for s in (3, 4, 5, 50) for r in (1, 8 / 7)]),
        ("cp", lambda c: [tuple(x for _ in c["cd"]) for x in (0, 0.1)])], body))
    out.append(Tree("lengths", [("a", range(1, 4)), ("b", range(1, 4)), ("c", range(1, 4))], len_body))
    return out
