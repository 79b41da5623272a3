"""P01 analyses have no memory and no side effects: all ordered pairs of calls."""
import contextlib
import copy
import inspect
import io
import math
import os
import pickle
import random
import warnings
import numpy as np
import matplotlib
import matplotlib.pyplot as plt
from mc.core import LEAF_TIMEOUT_S, Tree, Violation, die_with_parent
from mc.ref import registry as R

ASSUMPTIONS = ["histories are all adjacent ordered pairs of the listed calls (each with up to three inputs), each started in a fresh process",
               "the state watched besides results and arguments: numpy and Python random state, floating-point error and print settings, warning filters, plot settings, open figures, working directory and environment"]


def in_child(fn):
    """Run fn in a forked child and return its (picklable) result."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            die_with_parent(LEAF_TIMEOUT_S)
            try:
                out = ("ok", fn())
            except Violation as e:
                out = ("violation", str(e))
            except BaseException as e:      # noqa: BLE001
                out = ("raised", f"{type(e).__name__}: {e}")
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise RuntimeError("child ended without a result")
    return pickle.loads(data)


def invoke(name, v):
    fn, args, kw = R.CALC[name](v)
    return fn(*args, **kw)


def world():
    s = np.random.get_state()
    return {"numpy random state": (s[0], s[1].tobytes(), s[2:]), "random state": random.getstate(), "floating-point error handling": np.geterr(),
            "print settings": str(np.get_printoptions()), "warning filters": list(warnings.filters), "plot settings": dict(matplotlib.rcParams),
            "open figures": plt.get_fignums(), "working directory": os.getcwd(), "environment": dict(os.environ), "interactive plotting": matplotlib.is_interactive()}


_BASE = {}


def quietly(name, v):
    warnings.simplefilter("ignore")
    with contextlib.redirect_stdout(io.StringIO()):
        try:
            return R.plain(invoke(name, v))
        except Exception as e:      # noqa: BLE001
            return f"raised {type(e).__name__}"


def baseline():
    if not _BASE:
        for n in R.CALC:
            for v in range(6):
                st, out = in_child(lambda: quietly(n, v))
                if st != "ok":
                    raise RuntimeError(f"{n} {v}: {out}")
                _BASE[n, v] = out
    return _BASE


def once(name, v, before, where):
    """One judged call: same result as in a fresh process, arguments and surroundings untouched."""
    fn, args, kw = R.CALC[name](v)
    keep = copy.deepcopy((args, kw))
    try:
        out = fn(*args, **kw)
        got = R.plain(out)
    except Exception as e:      # noqa: BLE001
        out, got = None, f"raised {type(e).__name__}"
    d = R.differ(got, _BASE[name, v])
    if d:
        raise Violation(f"{name}[{v}] {where} gives another result than in a fresh process: {d}")
    d = R.differ(R.plain([args, kw]), R.plain(list(keep)))
    if d:
        raise Violation(f"{name}[{v}] changed its arguments: {d}")
    now = world()
    for k in now:
        if now[k] != before[k]:
            raise Violation(f"{name}[{v}] {where} changed the {k}")
    return out


def pair_body(ctx, a, va, others):
    def history():
        warnings.simplefilter("ignore")
        n = 0
        with contextlib.redirect_stdout(io.StringIO()):
            before = world()
            R.scribble(once(a, va, before, "first"))
            for b in R.CALC:
                for vb in others:
                    R.scribble(once(b, vb, before, f"after {a}[{va}]"))
                    R.scribble(once(a, va, before, f"after {b}[{vb}]"))
                    n += 2
        return n
    st, out = in_child(history)
    if st != "ok":
        ctx.fail(str(out))
    ctx.calls += out + 1
    ctx.asserts += 3 * (out + 1)
    ctx.outcome(a, va, _BASE[a, va] if not isinstance(_BASE[a, va], dict) else sorted(_BASE[a, va]))


ALTS = {"win_type": ["hann", "hamming", "blackman", "blackmanharris", "flattop", "kaiser", "chebwin", "boxcar"], "nf_method": [1, 2], "frequency": [0.11, 0.2], "norm_freq": [0.11, 0.2], "frequency_estimate": [0.11, 0.2],
        "frequency_hint": [0.11, 0.2], "full_scale": [3.0], "max_scale_range": [[-2.0, 2.0], 3.0], "nominal_weights": [], "endpoint": ["fit", "none"],
        "osr": [2], "skew_method": ["farrow", "fft"], "method": [], "freq": [0.13], "fit_polynomial_order": [2], "resolution": [5, 9],
        "code_min": [0], "code_max": [300], "n_bins": [6], "lag": [2], "n_harmonics": [2], "cutoff_freq": [0.05], "harmonic": [2, 6]}
DRAW = {"create_plot", "ax", "axes", "show_title", "show_label", "plot_harmonics_up_to", "disp", "title", "show_plot", "verbose", "rng", "sampling_noise_rms", "comparator_noise_rms"}      # drawing, reports and random noise


def changes(name, v):
    """The call with one thing changed: the data (same shape) or one parameter."""
    fn, args, kw = R.CALC[name](v)
    out = []
    for i, x in enumerate(args):
        if isinstance(x, np.ndarray) and x.ndim:
            out.append((f"argument {i} rolled", args[:i] + (np.roll(x, 3, axis=-1 if x.ndim == 1 else 0),) + args[i + 1:], kw))
            step = next((s for s in (3, 5, 7) if math.gcd(s, len(x)) == 1), 1)
            if len(x) > 16 and step > 1:
                out.append((f"argument {i} stirred", args[:i] + (x[step * np.arange(len(x)) % len(x)],) + args[i + 1:], kw))
            if x.dtype.kind == "f":
                out.append((f"argument {i} scaled", args[:i] + (0.75 * x,) + args[i + 1:], kw))
        elif isinstance(x, float):
            out.append((f"argument {i} scaled", args[:i] + (1.25 * x,) + args[i + 1:], kw))
        elif isinstance(x, int) and not isinstance(x, bool):
            out.append((f"argument {i} plus one", args[:i] + (x + 1,) + args[i + 1:], kw))
    for i, (k, par) in enumerate(inspect.signature(fn).parameters.items()):
        if i < len(args) or k in DRAW or par.kind in (par.VAR_KEYWORD, par.VAR_POSITIONAL):
            continue
        cur = kw.get(k, par.default)
        if k in ALTS:
            alts = ALTS[k]
        elif isinstance(cur, bool):
            alts = [not cur]
        elif isinstance(cur, int):
            alts = [cur + 1]
        elif isinstance(cur, float):
            alts = [1.5 * cur + (cur == 0) * 0.01]
        else:
            alts = []
        out += [(f"{k}={a!r}", args, {**kw, k: a}) for a in alts if R.differ(R.plain([a]), R.plain([cur]))]
    return out


def attempt(fn, args, kw):
    try:
        return R.plain(fn(*args, **kw))
    except Exception as e:              # noqa: BLE001
        return f"raised {type(e).__name__}"


def change_body(ctx, op, v, which):
    def fresh():
        warnings.simplefilter("ignore")
        with contextlib.redirect_stdout(io.StringIO()):
            return attempt(fn, args, kw)

    def after():
        warnings.simplefilter("ignore")
        with contextlib.redirect_stdout(io.StringIO()):
            R.scribble(invoke(op, v))
            keep, before = copy.deepcopy((args, kw)), world()
            x = fn(*args, **kw) if not failed else attempt(fn, args, kw)
            first = R.plain(x)
            d = R.differ(R.plain([args, kw]), R.plain(list(keep)))
            if d:
                raise Violation(f"changed its arguments: {d}")
            now = world()
            for k in now:
                if now[k] != before[k]:
                    raise Violation(f"changed the {k}")
            R.scribble(x)
            return first, R.plain(invoke(op, v))
    fn = R.CALC[op](v)[0]
    what, args, kw = changes(op, v)[which]
    st, want = in_child(fresh)
    failed = isinstance(want, str) and want.startswith("raised")
    st, out = in_child(after)
    ctx.check(st == "ok", f"{op}[{v}] then with {what}: {out}")
    ctx.calls += 3
    ctx.asserts += 4
    for got, ref, where in ((out[0], want, f"with {what} after the plain call"), (out[1], _BASE[op, v], f"after the call with {what}")):
        d = R.differ(got, ref)
        if d:
            ctx.fail(f"{op}[{v}] {where} gives another result than in a fresh process: {d}")
    ctx.outcome(op, v, what, failed)


def swap_body(ctx, op, v, which):
    """One change of the call, then every other change, back and forth."""
    fn = R.CALC[op](v)[0]
    ch = changes(op, v)

    def history():
        warnings.simplefilter("ignore")
        n = 0
        with contextlib.redirect_stdout(io.StringIO()):
            for j in range(len(ch)):
                for k in (which, j, which):
                    what, args, kw = ch[k]
                    args, kw = copy.deepcopy((args, kw))
                    want = fresh(op, v, k)
                    try:
                        x = fn(*args, **kw)
                        got = R.plain(x)
                    except Exception as e:      # noqa: BLE001
                        x, got = None, f"raised {type(e).__name__}"
                    d = R.differ(got, want)
                    if d:
                        raise Violation(f"{op}[{v}] with {what}, called between {ch[which][0]} and {ch[j][0]}, gives another result than in a fresh process: {d}")
                    R.scribble(x)
                    n += 1
        return n
    st, out = in_child(history)
    if st != "ok":
        ctx.fail(str(out))
    ctx.calls += out
    ctx.asserts += out
    ctx.outcome(op, v, which)


_FRESH = {}


def fresh(op, v, k):
    return _FRESH[op, v, k]


def fill(ops, vs):
    for op in ops:
        for v in vs:
            fn = R.CALC[op](v)[0]
            for k, (_, args, kw) in enumerate(changes(op, v)):
                def go():
                    warnings.simplefilter("ignore")
                    with contextlib.redirect_stdout(io.StringIO()):
                        return attempt(fn, *copy.deepcopy((args, kw)))
                if (op, v, k) not in _FRESH:
                    st, out = in_child(go)
                    if st != "ok":
                        raise RuntimeError(f"{op} {v} {k}: {out}")
                    _FRESH[op, v, k] = out


def length_body(ctx, op, v, turn):
    """Long and short records in turn."""
    def history():
        warnings.simplefilter("ignore")
        with contextlib.redirect_stdout(io.StringIO()):
            before = world()
            for w in (v, *turn, v, *turn):
                R.scribble(once(op, w, before, f"between records of different lengths {turn}"))
        return 2 + 2 * len(turn)
    st, out = in_child(history)
    if st != "ok":
        ctx.fail(str(out))
    ctx.calls += out
    ctx.asserts += 3 * out
    ctx.outcome(op, v, turn)


def triple_body(ctx, a, b):
    def history():
        warnings.simplefilter("ignore")
        with contextlib.redirect_stdout(io.StringIO()):
            before = world()
            for c in R.CALC:
                for name in (a, b, c):
                    R.scribble(once(name, 0, before, f"in {a}, {b}, {c}"))
        return 3 * len(R.CALC)
    st, out = in_child(history)
    if st != "ok":
        ctx.fail(str(out))
    ctx.calls += out
    ctx.asserts += 3 * out
    ctx.outcome(a, b)


def families(tier):
    q = tier == "quick"
    baseline()
    vs = [0] if q else [0, 1, 2]
    fill(R.CALC, vs)
    return [
        Tree("pairs of calls", [("a", list(R.CALC)), ("va", [0, 1, 2]), ("others", [(0, 1, 2)])], pair_body),
        Tree("one thing changed", [("op", list(R.CALC)), ("v", [0, 1, 2]), ("which", lambda c: range(len(changes(c["op"], c["v"]))))], change_body),
        Tree("two things changed in turn", [("op", list(R.CALC)), ("v", vs), ("which", lambda c: range(len(changes(c["op"], c["v"]))))], swap_body),
        Tree("long and short records", [("op", list(R.CALC)), ("v", [3, 4, 5]), ("turn", [(), (0,), (3,), (4,), (5,), (1, 5), (2, 4)])], length_body),
    ] + ([] if q else [Tree("triples of calls", [("a", list(R.CALC)), ("b", list(R.CALC))], triple_body)])
