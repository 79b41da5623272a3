"""P03 dashboards: every panel shows what its own analysis shows."""
import contextlib
import importlib
import io
import logging
import os
import shutil
import tempfile
import warnings
import numpy as np
import matplotlib.pyplot as plt
import adctoolbox as A
import adctoolbox.aout as ao
from adctoolbox.toolset import generate_aout_dashboard, generate_dout_dashboard
from mc.checks.p02 import bystander, figure_state
from mc.core import Tree
from mc.ref import registry as R
from mc.ref.drawn import cell, content

ASSUMPTIONS = ["the panels are compared with the stand-alone analysis drawn into one set of axes, called with the documented parameters",
               "pictures are written as PNG and PDF into a scratch directory"]
logging.getLogger("matplotlib.font_manager").setLevel(logging.ERROR)
BIG = importlib.import_module("adctoolbox.toolset.generate_aout_dashboard_3x4").generate_aout_dashboard


def aout_panels(x, fs, freq, res, big):
    nf = None if freq is None else freq / fs
    out = [(A.analyze_spectrum, (x,), dict(fs=fs)), (A.analyze_spectrum_polar, (x,), dict(fs=fs)), (A.analyze_error_by_value, (x,), {}),
           (A.analyze_error_by_phase, (x,), {}), (A.analyze_decomposition_time, (x,), {}), (A.analyze_decomposition_polar, (x,), {}),
           (A.analyze_error_pdf, (x,), dict(resolution=res)), (A.analyze_error_autocorr, (x,), dict(frequency=nf))]
    if big:
        out += [(A.analyze_error_spectrum, (x,), dict(fs=fs)), (A.analyze_error_envelope_spectrum, (x,), dict(fs=fs)),
                (ao.analyze_phase_plane, (x,), dict(fs=fs)), (ao.analyze_error_phase_plane, (x,), dict(fs=fs))]
    return out


def dout_panels(b, freq, w):
    cal = A.calibrate_weight_sine(b, freq=freq)
    w = 2.0 ** np.arange(b.shape[1])[::-1] if w is None else np.asarray(w)
    return [(A.analyze_spectrum, (b @ w,), {}), (A.analyze_spectrum, (cal["calibrated_signal"],), {}), (A.analyze_bit_activity, (b,), {}),
            (A.analyze_overflow, (b, cal["weight"]), {}), (A.analyze_enob_sweep, (b,), dict(freq=cal["refined_frequency"])), (A.analyze_weight_radix, (cal["weight"],), {})]


def alone(fn, args, kw):
    fig = plt.figure()
    polar = "polar" in fn.__name__
    ax = fig.add_subplot(1, 1, 1, projection="polar" if polar else None)
    fn(*args, **kw, ax=ax, create_plot=True)
    out = [content(a, False) for a in fig.axes]
    plt.close(fig)
    return out


def quiet():
    st = contextlib.ExitStack()
    st.enter_context(contextlib.redirect_stdout(io.StringIO()))
    st.enter_context(warnings.catch_warnings())
    warnings.simplefilter("ignore")
    return st


def judge_panels(ctx, fig, panels):
    cells = {}
    for a in fig.axes:
        cells.setdefault(cell(a), []).append(a)
    ctx.equal(sorted(k for k in cells if k is not None), list(range(len(panels))), "panels drawn")
    for i, p in enumerate(panels):
        want = alone(*p)
        got = [content(a, False) for a in cells[i]]
        d = R.differ(R.plain(got), R.plain(want))
        ctx.check(d is None, f"panel {i + 1} does not show its stand-alone analysis: {d}")
        ctx.check(any(f"({i + 1})" in a.get_title() for a in cells[i]), f"panel {i + 1} is not numbered {i + 1}")


def body_panels(ctx, board, v, par, env):
    plt.close("all")
    try:
        with quiet():
            user = None
            if env != "nothing open":
                user, _ = bystander()
                keep = figure_state(user)
            if board == "digital":
                b, w = R.bits(v)
                freq = {"plain": None, "freq": R.bfreq(v), "weights": None, "both": R.bfreq(v)}[par]
                w = w * 1.5 if par in ("weights", "both") else None
                kw = {k: x for k, x in (("freq", freq), ("weights", w)) if x is not None}
                fig, axes = ctx.call(generate_dout_dashboard, b, **kw)
                panels = dout_panels(b, freq, w)
            else:
                x = R.rec(v)
                fs, freq, res = {"plain": (1.0, None, 12), "freq": (1.0, R.freq(v), 12), "weights": (1e3, None, 8), "both": (1e6, R.freq(v) * 1e6, 10)}[par]
                kw = {} if par == "plain" else dict(fs=fs, resolution=res) if freq is None else dict(fs=fs, freq=freq, resolution=res)
                fn = BIG if board == "analog 12" else generate_aout_dashboard
                data = list(x) if par == "weights" else x.reshape(1, -1) if par == "freq" else x
                fig, axes = ctx.call(fn, data, **kw)
                panels = aout_panels(x, fs, freq, res, board == "analog 12")
            ctx.equal(len(axes), len(panels), "number of axes returned")
            ctx.check(fig.number in plt.get_fignums(), "the figure was closed although it was not saved")
            if user is not None:
                ctx.check(user.number in plt.get_fignums() and figure_state(user) == keep, "a figure of the user changed")
            ctx.equal(len(plt.get_fignums()), 1 + (user is not None), "figures open afterwards")
            judge_panels(ctx, fig, panels)
            ctx.outcome(board, v, par, env)
    finally:
        plt.close("all")


def body_save(ctx, board, where, show, env):
    if show and board == "analog 8":
        return
    plt.close("all")
    tmp = tempfile.mkdtemp(prefix="mc-dash-", dir=os.environ.get("MPLCONFIGDIR"))
    old = os.getcwd()
    try:
        with quiet():
            os.chdir(tmp)
            rel = {"plain": "a.png", "parents": "x/y/z.png", "existing": "a.png", "pdf": "d/a.pdf", "relative": "r.png", "path object": "p.png"}[where]
            if where == "existing":
                with open("a.png", "wb") as f:
                    f.write(b"old")
            with open("other.txt", "w") as f:
                f.write("keep")
            user = None
            if env != "nothing open":
                user, _ = bystander()
                keep = figure_state(user)
            path = rel if where == "relative" else os.path.join(tmp, rel)
            if where == "path object":
                import pathlib
                path = pathlib.Path(path)
            kw = dict(output_path=path)
            if show:
                kw["show"] = True
            if board == "digital":
                fig, _ = ctx.call(generate_dout_dashboard, R.bits(0)[0], freq=R.bfreq(0), **kw)
            else:
                fig, _ = ctx.call(BIG if board == "analog 12" else generate_aout_dashboard, R.rec(0), **kw)
            found = sorted(os.path.relpath(os.path.join(d, f), tmp) for d, _, fs in os.walk(tmp) for f in fs)
            ctx.equal(found, sorted([rel, "other.txt"]), "files after saving")
            with open(os.path.join(tmp, rel), "rb") as f:
                head = f.read(8)
            ctx.check(head.startswith(b"%PDF" if rel.endswith("pdf") else b"\x89PNG"), "the file is not the requested picture")
            with open("other.txt") as f:
                ctx.equal(f.read(), "keep", "other file")
            if not (show and board == "digital"):
                ctx.check(fig.number not in plt.get_fignums(), "the saved figure was left open")
            if user is not None:
                ctx.check(user.number in plt.get_fignums() and figure_state(user) == keep, "a figure of the user changed")
            ctx.outcome(board, where, show, env)
    finally:
        os.chdir(old)
        plt.close("all")
        shutil.rmtree(tmp)


def families(tier):
    q = tier == "quick"
    boards = ["analog 8", "analog 12", "digital"]
    return [
        Tree("panels", [("board", boards), ("v", [0, 1, 2]), ("par", ["plain", "freq", "weights", "both"]), ("env", ["nothing open", "user figure open"])], body_panels),
        Tree("saving", [("board", boards), ("where", ["plain", "parents", "existing"] if q else ["plain", "parents", "existing", "pdf", "relative", "path object"]),
                        ("show", [False] if q else [False, True]), ("env", ["user figure open"] if q else ["nothing open", "user figure open"])], body_save),
    ]
