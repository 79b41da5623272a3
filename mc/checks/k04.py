"""K04 every bundled example runs from a fresh copy and keeps to its own output folder."""
import os
import re
import runpy
import shutil
import sys
import warnings
from mc import box as B, core
from mc.main import SRC
from mc.core import Tree

B.load(SRC)
import numpy as np                              # noqa: E402
import matplotlib.pyplot as plt                 # noqa: E402
from matplotlib import font_manager             # noqa: E402,F401
import scipy.signal, scipy.optimize, scipy.interpolate, scipy.stats, scipy.linalg   # noqa: E402,E401,F401
import adctoolbox, adctoolbox.toolset           # noqa: E402,E401,F401

core.LEAF_TIMEOUT_S = 600
ASSUMPTIONS = ["examples run with a fixed random state, without a display, as an unprivileged user on a scratch copy; file-system changes outside it are refused and reported",
               "what the pictures show is judged by the properties of the functions that draw them"]
EXAMPLES = os.path.join(B.PKG, "examples")
ALL = sorted(os.path.relpath(os.path.join(d, f), EXAMPLES) for d, _, fs in os.walk(EXAMPLES) for f in fs if f.endswith(".py") and not f.startswith("_"))
SLOW = {"exp_ti02_autocorr_background_skew_calibration.py", "exp_t02_aout_dashboard_batch.py", "exp_d16_sar_unit_cap_mismatch_mc.py"}
LONG = ("exp_t04", "exp_a03", "exp_g03", "exp_a22", "exp_a42", "exp_d18", "exp_a25", "exp_a24", "exp_a21", "exp_d03", "exp_s08")
PATH = re.compile(r"(/[^\s\[\]'\"]+\.(?:png|pdf|svg|csv|npz|npy|txt))")


def start(path):
    def go():
        np.random.seed(1)
        sys.path.insert(0, os.path.dirname(path))
        sys.argv = [path]
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            runpy.run_path(path, run_name="__main__")
        plt.close("all")
    return go


def body(ctx, example, where):
    box = B.fresh()
    try:
        root = os.path.join(box, "copy")
        shutil.copytree(EXAMPLES, root)
        for d in ("home", "work"):
            os.mkdir(os.path.join(box, d))
        path = os.path.join(root, example)
        own = os.path.dirname(path)
        out = os.path.relpath(os.path.join(own, "output"), box)
        if where == "finished before":
            os.mkdir(os.path.join(own, "output"))
            with open(os.path.join(own, "output", "older.txt"), "w") as h:
                h.write("keep")
        before = B.snap(box)
        for turn in range(2 if where == "twice" else 1):
            ctx.calls += 1
            r = B.run(start(path), box, cwd=own if where != "elsewhere" else os.path.join(box, "work"))
            ctx.check(not r["escapes"], f"{example} reaches outside its place: {r['escapes'][:2]}")
            ctx.check(B.code(r) == 0, f"{example} ends with {r['end']} {r['value']}: {r['err'][-200:]}")
            after = B.snap(box)
            ctx.check(all(after.get(k) == v for k, v in before.items()), f"{example} changed a file that is not its own")
            new = [k for k in after if k not in before]
            ctx.check(all(k == out or k.startswith(out + "/") for k in new), f"{example} writes outside its output folder: {[k for k in new if not k.startswith(out)][:3]}")
            for p in PATH.findall(r["out"]):
                k = os.path.relpath(p, box)
                if k.startswith("copy/"):
                    ctx.check(after.get(k, ("missing",))[0] == "file" and len(after[k][1]) > 0, f"{example} announces {os.path.basename(p)}, which does not exist")
            for k in new:
                if k.endswith(".png"):
                    ctx.check(after[k][1][:4] == b"\x89PNG" and after[k][1][-8:-4] == b"IEND", f"{os.path.basename(k)} is not a complete picture")
        ctx.outcome(example, sorted(new))
    finally:
        B.drop(box)


def families(tier):
    q = tier == "quick"
    todo = [e for e in ALL if not (q and os.path.basename(e) in SLOW)]
    todo.sort(key=lambda e: (os.path.basename(e) not in SLOW, not os.path.basename(e).startswith(LONG)))
    if not todo:
        raise RuntimeError("no examples found")
    return [Tree("examples", [("where", ["elsewhere"] if q else ["elsewhere", "twice", "finished before"]), ("example", todo)], body)]
