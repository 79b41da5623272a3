"""What is visible in axes, as plain numbers and strings."""
import numpy as np
from matplotlib.patches import Rectangle


def content(ax, limits=True):
    out = {"labels": [ax.get_xlabel(), ax.get_ylabel()], "scales": [ax.get_xscale(), ax.get_yscale()], "kind": ax.name,
           "lines": [np.asarray(ln.get_xydata(), float) for ln in ax.lines if len(ln.get_xydata())],
           "bars": [np.array([p.get_x(), p.get_y(), p.get_width(), p.get_height()], float) for p in ax.patches if isinstance(p, Rectangle)],
           "points": [np.asarray(np.ma.filled(np.ma.asarray(c.get_offsets(), float), np.nan)) for c in ax.collections],
           "texts": [t.get_text() for t in ax.texts],
           "legend": [t.get_text() for t in ax.get_legend().get_texts()] if ax.get_legend() else []}
    if limits:
        out["limits"] = [np.array(ax.get_xlim(), float), np.array(ax.get_ylim(), float)]
    return out


def cell(ax):
    """Index of the grid cell that an axes (or the axes it was split from) occupies."""
    spec = ax.get_subplotspec()
    return None if spec is None else spec.get_topmost_subplotspec().num1
