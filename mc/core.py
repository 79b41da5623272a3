"""Bounded exhaustive explorer.

A check is a list of *families*.  Each family fixes an alphabet and a bound and
is explored completely:

``Tree``   a choice tree.  Every path root -> leaf is one behaviour: a sequence
           of choices (input shape, configuration, operation, environment
           answer).  The body executes the real code for that behaviour and
           compares it with a reference model.  Option lists may depend on the
           choices already made, so the tree is explored, not a product listed.
``Graph``  explicit-state breadth-first search.  A state is a value that can be
           materialised; every enabled operation is executed with the real code
           from every reachable state and the successor compared with the model.

Counts reported: states (distinct tree nodes / distinct canonical graph states),
transitions (calls into the code under test), traces_validated_against_impl
(complete behaviours whose observations all agreed with the reference model).
"""
import contextlib
import ctypes
import hashlib
import io
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import resource
import signal
import sys
import time
import traceback
import warnings

import numpy as np

LEAF_TIMEOUT_S = 120
LEAF_MEMORY = 3 << 30      # bytes one worker may add to what it starts with


class Violation(Exception):
    pass


class LeafTimeout(BaseException):
    pass


def _on_alarm(signum, frame):
    raise LeafTimeout()


def _canon(v):
    """Digest-friendly form of an observed value (rounded, order-stable)."""
    if isinstance(v, dict):
        return ("d",) + tuple((str(k), _canon(v[k])) for k in sorted(v, key=str))
    if isinstance(v, (list, tuple)):
        return ("l",) + tuple(_canon(x) for x in v)
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            return ("l",) + tuple(_canon(x) for x in v.tolist())
        return ("a", v.shape) + tuple(_canon(x) for x in v.ravel()[:64].tolist())
    if isinstance(v, complex):
        return (_canon(v.real), _canon(v.imag))
    if isinstance(v, (float, np.floating)):
        f = float(v)
        return f"{f:.5g}" if np.isfinite(f) else str(f)
    if isinstance(v, np.generic):
        return v.item()
    return v if isinstance(v, (int, str, bool, type(None))) else repr(type(v))


class Ctx:
    """What a body uses to run the real code and to judge it."""

    def __init__(self):
        self.calls = 0
        self.asserts = 0
        self.ambiguous = 0
        self.outcomes = set()

    # -- executing the code under test ---------------------------------
    def call(self, fn, *a, **k):
        self.calls += 1
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with contextlib.redirect_stdout(io.StringIO()):
                return fn(*a, **k)

    def raises(self, exc, fn, *a, **k):
        """The call must be refused with one of the given exception types."""
        try:
            r = self.call(fn, *a, **k)
        except exc as e:
            self.asserts += 1
            self.outcome("raised", type(e).__name__)
            return e
        self.fail(f"call was accepted but must be refused: returned {_short(r)}")

    # -- judging ---------------------------------------------------------
    def fail(self, msg):
        raise Violation(msg)

    def check(self, cond, msg):
        self.asserts += 1
        if not cond:
            raise Violation(msg)

    def equal(self, got, want, msg):
        self.asserts += 1
        if isinstance(want, np.ndarray) or isinstance(got, np.ndarray):
            g, w = np.asarray(got), np.asarray(want)
            if g.shape != w.shape or not np.array_equal(g, w):
                raise Violation(f"{msg}: got {_short(g)} want {_short(w)}")
        elif got != want:
            raise Violation(f"{msg}: got {_short(got)} want {_short(want)}")

    def close(self, got, want, msg, rtol=1e-9, atol=1e-12):
        """Same shape, same non-finite pattern, equal within tolerance."""
        self.asserts += 1
        g = np.asarray(got)
        w = np.asarray(want)
        if g.dtype.kind not in "fc":
            g = g.astype(float)
        if w.dtype.kind not in "fc":
            w = w.astype(float)
        if g.shape != w.shape:
            raise Violation(f"{msg}: shape {g.shape} want {w.shape}")
        fg, fw = np.isfinite(g), np.isfinite(w)
        bad = fg != fw
        both = fg & fw
        bad = bad | (both & (np.abs(np.where(both, g, 0) - np.where(both, w, 0))
                             > atol + rtol * np.abs(np.where(both, w, 0))))
        nf = ~fg & ~fw
        if nf.any():
            bad = bad | (nf & ~((g == w) | (np.isnan(g) & np.isnan(w))))
        if bad.any():
            i = tuple(int(x) for x in np.argwhere(np.atleast_1d(bad))[0])
            raise Violation(f"{msg}: got {_short(g)} want {_short(w)}"
                            f" (first difference at {i}: {np.atleast_1d(g)[i]!r} vs {np.atleast_1d(w)[i]!r})")

    def outcome(self, *vals):
        """Record an observed outcome, to show that the exploration is not vacuous."""
        self.outcomes.add(hashlib.blake2b(repr(_canon(vals)).encode(), digest_size=8).hexdigest())

    def skip_ambiguous(self):
        """The reference decision sits on a rounding tie: both answers are right."""
        self.ambiguous += 1


def _short(v):
    if isinstance(v, np.ndarray):
        s = np.array2string(v, threshold=12, edgeitems=4, precision=12)
    else:
        s = repr(v)
    return s if len(s) < 400 else s[:400] + "..."


class Tree:
    def __init__(self, name, dims, body, note=""):
        """dims: list of (name, options) or (name, callable(partial cfg) -> options)."""
        self.name, self.dims, self.body, self.note = name, dims, body, note

    def options(self, d, cfg):
        o = self.dims[d][1]
        return list(o(cfg) if callable(o) else o)

    def leaves(self):
        """All complete choice sequences in simplest-first order, and the node count."""
        self.nodes = 1
        out = []

        def rec(d, path, cfg):
            if d == len(self.dims):
                out.append(tuple(path))
                return
            for i, o in enumerate(self.options(d, cfg)):
                self.nodes += 1
                cfg[self.dims[d][0]] = o
                path.append(i)
                rec(d + 1, path, cfg)
                path.pop()
            cfg.pop(self.dims[d][0], None)

        rec(0, [], {})
        return out

    def cfg(self, path):
        cfg = {}
        for d, i in enumerate(path):
            cfg[self.dims[d][0]] = self.options(d, cfg)[i]
        return cfg

    def run_leaf(self, ctx, path):
        self.body(ctx, **self.cfg(path))


class Graph:
    """Explicit-state BFS.  init: list of states; ops(state): list of ops;
    step(ctx, state, op) -> successor (runs the real code, compares with the model);
    canon(state): hashable key."""

    def __init__(self, name, init, ops, step, canon, depth, note=""):
        self.name, self.init, self.ops, self.step, self.canon = name, init, ops, step, canon
        self.depth, self.note = depth, note


def jsonable(v):
    if isinstance(v, dict):
        return {str(k): jsonable(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [jsonable(x) for x in v]
    if isinstance(v, np.ndarray):
        return jsonable(v.tolist())
    if isinstance(v, np.generic):
        return jsonable(v.item())
    if isinstance(v, (int, float, str, bool, type(None))):
        return v
    return repr(v)


# ---------------------------------------------------------------- execution
_FAMS = None


def _exec_leaf(fam, path, ctx):
    """Run one behaviour; returns None or a message."""
    if hasattr(signal, "SIGALRM"):
        signal.signal(signal.SIGALRM, _on_alarm)
        signal.alarm(LEAF_TIMEOUT_S)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            fam.run_leaf(ctx, path)
        return None
    except Violation as e:
        return str(e)
    except LeafTimeout:
        return f"no answer within {LEAF_TIMEOUT_S} s"
    except (Exception, SystemExit) as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = "; ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb[-4:])
        return f"unexpected {type(e).__name__}: {e} [{where}]"
    finally:
        if hasattr(signal, "SIGALRM"):
            signal.alarm(0)
        plt = sys.modules.get("matplotlib.pyplot")
        if plt is not None and plt.get_fignums():
            plt.close("all")


def _work(job):
    fi, paths = job
    fam = _FAMS[fi]
    ctx = Ctx()
    bad = []
    done = outside = 0
    for p in paths:
        before = ctx.calls
        m = _exec_leaf(fam, p, ctx)
        if m is None and ctx.calls == before:
            outside += 1          # the choices name no behaviour of the code (stated domain)
        elif m is None:
            done += 1
        else:
            bad.append((p, m))
            if len(bad) >= 3:
                break
    return fi, done, bad, ctx.calls, ctx.asserts, ctx.ambiguous, ctx.outcomes, outside


def die_with_parent(seconds=0):
    """In a forked child: end when the parent ends, and after the given time."""
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)
    if seconds:
        signal.signal(signal.SIGALRM, signal.SIG_DFL)
        signal.alarm(seconds)


def _worker(conn, ppid):
    die_with_parent()
    if os.getppid() != ppid:
        os._exit(0)
    with open("/proc/self/statm") as f:
        now = int(f.read().split()[0]) * os.sysconf("SC_PAGE_SIZE")
    resource.setrlimit(resource.RLIMIT_AS, (now + LEAF_MEMORY, resource.getrlimit(resource.RLIMIT_AS)[1]))
    while True:
        job = conn.recv()
        try:
            out = (True, _work(job))
        except BaseException:              # noqa: BLE001
            out = (False, traceback.format_exc())
        conn.send(out)


def _pool(jobs, workers):
    """Yield the results of all jobs; every worker has a pipe of its own, so that stopping early cannot block."""
    ctx = mp.get_context("fork")
    procs = {}
    todo = list(enumerate(jobs))[::-1]
    try:
        for _ in range(workers):
            mine, theirs = ctx.Pipe()
            p = ctx.Process(target=_worker, args=(theirs, os.getpid()))
            p.start()
            theirs.close()
            procs[mine] = p
            mine.send(todo.pop()[1])
        busy = set(procs)
        while busy:
            for c in mp.connection.wait(list(busy)):
                try:
                    ok, r = c.recv()
                except EOFError:
                    raise RuntimeError("a worker process died") from None
                if not ok:
                    raise RuntimeError(r)
                if todo:
                    c.send(todo.pop()[1])
                else:
                    busy.discard(c)
                yield r
    finally:
        for p in procs.values():
            p.kill()
        for p in procs.values():
            p.join()


class Result:
    def __init__(self):
        self.states = self.calls = self.traces = self.asserts = self.ambiguous = self.outside = 0
        self.outcomes = set()
        self.violations = []      # (family, path/history, cfg, message)
        self.samples = []
        self.per_family = {}


def explore(families, workers=None, known=lambda fam, cfg, msg: None, stop_on_violation=True):
    global _FAMS
    _FAMS = families
    res = Result()
    workers = workers or min(8, os.cpu_count() or 1)
    jobs = []
    for fi, fam in enumerate(families):
        if isinstance(fam, Graph):
            continue
        leaves = fam.leaves()
        if not leaves:
            raise RuntimeError(f"family {fam.name} is empty")
        res.states += fam.nodes
        res.per_family[fam.name] = {"nodes": fam.nodes, "leaves": len(leaves), "judged": 0, "ties": 0, "outside": 0}
        step = max(1, min(400, len(leaves) // (workers * 6) or 1))
        jobs += [(fi, leaves[i:i + step]) for i in range(0, len(leaves), step)]
        for idx in sorted({0, len(leaves) // 2, len(leaves) - 1}):
            res.samples.append({"family": fam.name, "choices": jsonable(fam.cfg(leaves[idx]))})
    bad = []
    if jobs:
        if workers > 1 and len(jobs) > 1:
            for r in _pool(jobs, min(workers, len(jobs))):
                _acc(res, families, r, bad)
                if stop_on_violation and any(not known(families[f].name, families[f].cfg(p), m) for f, p, m in bad):
                    break
        else:
            for j in jobs:
                _acc(res, families, _work(j), bad)
                if stop_on_violation and bad:
                    break
    bad.sort(key=lambda b: (b[0], b[1]))
    for f, p, m in bad:
        res.violations.append((families[f].name, list(p), families[f].cfg(p), m))
    for fam in families:
        if isinstance(fam, Graph):
            _run_graph(fam, res)
    return res


def _acc(res, families, r, bad):
    fi, done, b, calls, asserts, amb, outs, outside = r
    res.outside += outside
    fam = res.per_family[families[fi].name]
    fam["judged"] += done
    fam["ties"] += amb
    fam["outside"] += outside
    res.traces += done
    res.calls += calls
    res.asserts += asserts
    res.ambiguous += amb
    res.outcomes |= outs
    bad += [(fi, p, m) for p, m in b]


def _run_graph(fam, res):
    """BFS; a state is reached by its shortest history."""
    seen = {}
    frontier = []
    for s in fam.init:
        k = fam.canon(s)
        if k not in seen:
            seen[k] = True
            frontier.append((s, []))
    edges = 0
    ctx = Ctx()
    maxd = 0
    for depth in range(fam.depth):
        nxt = []
        for s, hist in frontier:
            for op in fam.ops(s):
                edges += 1
                box = {}

                class _One:
                    def run_leaf(self, c, path):
                        box["s"] = fam.step(c, s, op)
                m = _exec_leaf(_One(), (), ctx)
                if m is not None:
                    res.violations.append((fam.name, hist + [op], {"state": fam.canon(s), "op": op}, m))
                    if len(res.violations) >= 3:
                        return
                    continue
                res.traces += 1
                k = fam.canon(box["s"])
                ctx.outcome(k)
                if k not in seen:
                    seen[k] = True
                    maxd = depth + 1
                    nxt.append((box["s"], hist + [op]))
        frontier = nxt
        if not frontier:
            break
    res.states += len(seen)
    res.calls += ctx.calls
    res.asserts += ctx.asserts
    res.ambiguous += ctx.ambiguous
    res.outcomes |= ctx.outcomes
    res.per_family[fam.name] = {"graph_states": len(seen), "edges": edges, "deepest_new_state": maxd,
                                "fixpoint": not frontier}
    res.samples.append({"family": fam.name, "first_states": [jsonable(k) for k in list(seen)[:3]]})
