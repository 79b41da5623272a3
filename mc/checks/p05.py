"""P05 two analyses running at the same time: every preemption point."""
import contextlib
import io
import os
import sys
import threading
import warnings
import adctoolbox
from mc.checks import p01
from mc.core import Tree, Violation
from mc.ref import registry as R

ASSUMPTIONS = ["one preemption: the first analysis is stopped before a source line of the package, the second runs to its end in another thread, the first goes on",
               "preemption points are the first and the last visit of every source line the first analysis executes (all visits, up to a limit, in the thorough tier)"]
PKG = os.path.dirname(os.path.abspath(adctoolbox.__file__)) + os.sep


class Stopper:
    """Runs a function and calls `action` before the n-th executed package line (n None: only record the lines)."""

    def __init__(self, n=None, action=None):
        self.n, self.action, self.i, self.seen = n, action, 0, []

    def glob(self, frame, event, arg):
        return self.line if frame.f_code.co_filename.startswith(PKG) else None

    def line(self, frame, event, arg):
        if event == "line":
            if self.n is None:
                self.seen.append((frame.f_code.co_filename, frame.f_lineno))
            elif self.i == self.n:
                self.where = f"{os.path.basename(frame.f_code.co_filename)}:{frame.f_lineno}"
                sys.settrace(None)
                self.action()
                return None
            self.i += 1
        return self.line

    def run(self, fn, args, kw):
        sys.settrace(self.glob)
        try:
            return fn(*args, **kw)
        finally:
            sys.settrace(None)


def points(lines, every):
    if every and len(lines) <= every:
        return range(len(lines))
    first, last = {}, {}
    for i, ln in enumerate(lines):
        first.setdefault(ln, i)
        last[ln] = i
    return sorted(set(first.values()) | set(last.values()))


def schedule_body(ctx, a, va, b, every):
    name_b, vb = (a, (va + 1) % 3) if b == "itself" else (a, "same shape") if b == "same shape" else (b, 1)
    if b == "same shape":
        ch = p01.changes(a, va)
        alt = next((i for s in ("stirred", "rolled", "") for i, c in enumerate(ch) if s in c[0] and not str(p01._FRESH[a, va, i]).startswith("raised")), None)
        if alt is None:
            return

    def explore():
        warnings.simplefilter("ignore")
        with contextlib.redirect_stdout(io.StringIO()):
            fn, args, kw = R.CALC[a](va)
            st = Stopper()
            st.run(fn, args, kw)
            n = 0
            if b == "same shape":
                base = p01._FRESH[a, va, alt]
                same = R.CALC[a](va)[0]
                other_call = lambda: same(*p01.changes(a, va)[alt][1], **p01.changes(a, va)[alt][2])
            else:
                base = p01._BASE[name_b, vb]
                other_call = lambda: p01.invoke(name_b, vb)
            for pt in points(st.seen, every):
                box = {}

                def other():
                    try:
                        box["r"] = R.plain(other_call())
                    except Exception as e:          # noqa: BLE001
                        box["e"] = e

                def action():
                    t = threading.Thread(target=other)
                    t.start()
                    t.join()
                fn, args, kw = R.CALC[a](va)
                s = Stopper(pt, action)
                try:
                    out = R.plain(s.run(fn, args, kw))
                except Exception as e:              # noqa: BLE001
                    raise Violation(f"{a}[{va}] stopped before {getattr(s, 'where', '?')} for {name_b}[{vb}] failed: {type(e).__name__}: {e}")
                if "e" in box:
                    raise Violation(f"{name_b}[{vb}] run while {a}[{va}] was at {s.where} failed: {box['e']!r}")
                if not box:                          # the repeated call took a shorter way and never came to this point
                    box["r"] = base
                    s.where = "its end"
                for got, want, who in ((out, p01._BASE[a, va], "the stopped analysis"), (box["r"], base, "the other analysis")):
                    d = R.differ(got, want)
                    if d:
                        raise Violation(f"{a}[{va}] stopped before {s.where} while {name_b}[{vb}] ran: {who} gives another result: {d}")
                n += 1
            return n, len(st.seen)
    st, out = p01.in_child(explore)
    if st != "ok":
        ctx.fail(str(out))
    ctx.calls += 2 * out[0] + 1
    ctx.asserts += 2 * out[0]
    ctx.outcome(a, va, b, out[0], out[1])


def families(tier):
    q = tier == "quick"
    p01.baseline()
    p01.fill(R.CALC, [0] if q else [0, 1, 2])
    ops = list(R.CALC)
    out = [Tree("with itself", [("a", ops), ("va", [0] if q else [0, 1, 2]), ("b", ["itself", "same shape"]), ("every", [0 if q else 1500])], schedule_body)]
    out.append(Tree("with another", [("a", ops), ("va", [0]), ("b", ["analyze_spectrum", "fit_sine_4param"] if q else
                                                              ["analyze_spectrum", "fit_sine_4param", "calibrate_weight_sine", "analyze_error_by_phase", "compute_inl_from_sine", "extract_mismatch_sine", "siggen quantise"]), ("every", [0])], schedule_body))
    return out
