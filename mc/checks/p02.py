"""P02 drawing never changes the numbers and touches only what it was given."""
import contextlib
import inspect
import io
import warnings
import numpy as np
import matplotlib.pyplot as plt
from mc.checks.p01 import world
from mc.core import Tree
from mc.ref import registry as R

ASSUMPTIONS = ["a figure is watched through its axes and their artists' data, texts, titles, labels, limits and scales",
               "axes handed over are Cartesian or polar as the analysis documents; two-panel analyses get a two-panel figure"]


def axes_state(ax, place=True):
    st = [ax.get_title(), ax.get_xlabel(), ax.get_ylabel(), tuple(np.round(ax.get_xlim(), 9)), tuple(np.round(ax.get_ylim(), 9)),
          ax.get_xscale(), ax.get_yscale(), ax.name, tuple(np.round(ax.get_position().bounds, 6)) if place else None, len(ax.get_children())]
    st += [("line", np.asarray(ln.get_xydata(), float).tobytes(), str(ln.get_color()), ln.get_linestyle()) for ln in ax.lines]
    st += [("text", t.get_text(), t.get_position()) for t in ax.texts]
    st += [("patch", type(p).__name__) for p in ax.patches]
    st += [("collection", np.asarray(np.ma.filled(c.get_offsets(), np.nan), float).tobytes()) for c in ax.collections]
    return st


def figure_state(fig):
    return [len(fig.axes), fig._suptitle.get_text() if getattr(fig, "_suptitle", None) else "", len(fig.texts)] + [axes_state(a) for a in fig.axes]


def bystander():
    fig, ax = plt.subplots(1, 2)
    ax[0].plot([0, 1, 2], [3, 1, 2], "r--")
    ax[0].set_title("mine")
    ax[1].bar([0, 1], [2, 3])
    ax[1].set_xlim(-3, 7)
    ax[1].set_yscale("log")
    fig.suptitle("keep me")
    return fig, ax


# settings of the drawing alone
DRESS = [dict(title="my own title"), dict(col_title="my own title"), dict(show_title=False), dict(show_label=False), dict(plot_harmonics_up_to=0), dict(plot_harmonics_up_to=5), dict(n_cycles=2.0),
         dict(fixed_radial_range=100.0), dict(logscale=False), dict(smooth=True), dict(alpha=0.5)]


def dresses(op):
    known = inspect.signature(R.PLOT[op][0]).parameters
    return [{}] + [d for d in DRESS if all(k in known for k in d)]


def run(ctx, op, v, **extra):
    fn, make, switch, _, _ = R.PLOT[op]
    args, kw = make(v)
    extra = {**_DRESS, **extra}
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return R.plain(ctx.call(fn, *args, **{**kw, **{switch if k == "on" else k: val for k, val in extra.items()}}))


def same(ctx, a, b, what):
    d = R.differ(a, b)
    ctx.check(d is None, f"{what}: {d}")


_DRESS = {}


def shown(fig, text):
    return any(text in a.get_title() or any(text in t.get_text() for t in a.texts) for a in fig.axes) or bool(getattr(fig, "_suptitle", None)) and text in fig._suptitle.get_text()


def body(ctx, op, v, scene, dress):
    before = {k: x for k, x in world().items() if k != "open figures"}
    _DRESS.clear()
    _DRESS.update(dress)
    scene_body(ctx, op, v, scene)
    now = world()
    for k in before:
        ctx.check(now[k] == before[k], f"drawing changed the {k}")


def scene_body(ctx, op, v, scene):
    polar = R.PLOT[op][4]
    plt.close("all")
    try:
        if scene == "off, nothing open":
            run(ctx, op, v, on=False)
            ctx.equal(plt.get_fignums(), [], "figures opened although drawing is off")
            ctx.outcome(op, v, scene)
            return
        fa, aa = bystander()
        if polar and scene == "on, user axes current":
            aa[0].remove()
            aa[0] = fa.add_subplot(1, 2, 1, projection="polar")
        keep = figure_state(fa)
        if scene == "off, user figure open":
            plt.sca(aa[0])
            run(ctx, op, v, on=False)
            ctx.equal(plt.get_fignums(), [fa.number], "figures opened or closed although drawing is off")
            ctx.check(plt.gca() is aa[0], "current axes changed although drawing is off")
            ctx.check(figure_state(fa) == keep, "user figure changed although drawing is off")
            ctx.outcome(op, v, scene)
            return
        want = run(ctx, op, v, on=False)
        sub = dict(projection="polar") if polar else {}
        if scene.startswith("on, axes given"):
            way = "axes" if "two panels" in scene else "ax"
            if way not in inspect.signature(R.PLOT[op][0]).parameters:
                return
            fb, ab = plt.subplots(2, 2, subplot_kw=sub)
            other = [axes_state(ab[1, 0], False), axes_state(ab[1, 1], False)]
            target = ab[0, 0]
            if scene.endswith("user figure current"):
                plt.sca(aa[1])
            else:
                plt.sca(ab[1, 0])
            empty = axes_state(target, False)
            if way == "axes":
                got = run(ctx, op, v, on=True, axes=ab[0])
            else:
                got = run(ctx, op, v, on=True, ax=target)
            same(ctx, got, want, "results differ when drawing into given axes")
            ctx.equal(plt.get_fignums(), sorted([fa.number, fb.number]), "figures opened or closed although axes were given")
            ctx.check([axes_state(ab[1, 0], False), axes_state(ab[1, 1], False)] == other, "other axes of the figure changed")
            ctx.check(figure_state(fa) == keep, "another figure of the user changed")
            ctx.check(any(axes_state(a, False) != empty for a in fb.axes if a not in (ab[1, 0], ab[1, 1])), "nothing was drawn into the given axes")
            for k in ("title", "col_title"):
                if k in _DRESS:
                    ctx.check(shown(fb, _DRESS[k]), "the title asked for is not shown")
        else:
            fc, ac = bystander()        # not current: must survive whatever the analysis draws into
            keep_c = figure_state(fc)
            if scene == "on, new figure":
                plt.close(fa)
                fd = plt.figure()
                if polar:
                    fd.add_subplot(projection="polar")
            else:
                fd = fa
                plt.figure(fa.number)
                plt.sca(aa[0])
            side = axes_state(aa[1], False) if fd is fa else None
            got = run(ctx, op, v, on=True)
            same(ctx, got, want, "results differ when drawing")
            ctx.check(fc.number in plt.get_fignums() and fd.number in plt.get_fignums(), "a user figure was closed")
            ctx.check(figure_state(fc) == keep_c, "a figure of the user that was not current changed")
            if side is not None:
                ctx.check(axes_state(aa[1], False) == side, "axes of the user other than the current ones changed")
            drawn = [f for f in plt.get_fignums() if f != fc.number and plt.figure(f).axes]
            ctx.check(drawn, "nothing was drawn")
        ctx.outcome(op, v, scene)
    finally:
        plt.close("all")


SCENES = ["off, nothing open", "off, user figure open", "on, axes given, user figure current", "on, axes given, neighbour current",
          "on, axes given, two panels, user figure current", "on, axes given, two panels, neighbour current", "on, new figure", "on, user axes current"]


def report_body(ctx, op, v, level):
    """Progress reports come only when asked for and change no number."""
    fn, args, kw = R.CALC[op](v)
    def once(**extra):
        out = io.StringIO()
        with contextlib.redirect_stdout(out), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            r = R.plain(ctx.call(fn, *args, **{**kw, **extra}))
        return r, out.getvalue()
    quiet, said = once(verbose=0)
    ctx.equal(said, "", f"{op} printed although not asked to")
    same(ctx, quiet, once(verbose=level)[0], f"{op} with reports of level {level}")
    same(ctx, quiet, once()[0], f"{op} without the setting")
    ctx.outcome(op, v, level)


TALK = [n for n in R.CALC if "verbose" in inspect.signature(R.CALC[n](0)[0]).parameters]


def families(tier):
    return [Tree("reports", [("op", TALK), ("v", range(6)), ("level", [True, 1, 2, 3])], report_body),
            Tree("scenes", [("op", list(R.PLOT)), ("v", [0, 1, 2]), ("scene", SCENES), ("dress", lambda c: dresses(c["op"]))], body),
            Tree("scenes with long records", [("op", list(R.PLOT)), ("v", [3] if tier == "quick" else [3, 4, 5]), ("scene", SCENES), ("dress", [{}])], body)]
