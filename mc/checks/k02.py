"""K02 skill installer: complete transition relation over destination states and command lines."""
import os
import re
import itertools
from mc import box as B
from mc.main import SRC
from mc.core import Tree

B.load(SRC)
import adctoolbox.skill_cli  # noqa: E402,F401
import adctoolbox._bundled_skills  # noqa: E402,F401
from mc.ref import skills as K  # noqa: E402

ASSUMPTIONS = ["every pair (destination state, command line) is executed once from a materialised state, so longer histories are chains of covered steps",
               "commands run in a scratch copy of the package as an unprivileged user; file-system changes outside it are refused and reported"]
SRC_TREES = K.source_trees()


def common(ctx, b, r):
    ctx.equal(r["escapes"], [], "changes outside the destination area")
    ctx.check(K.source_trees() == SRC_TREES, "the bundled skills themselves were changed")
    after = B.snap(b.box)
    keep, now = b.rest(b.before), b.rest(after)
    ctx.check(now == keep, f"unrelated files changed: {sorted(set(now.items()) ^ set(keep.items()))[:4]}")
    return after


def want_status(ctx, b, kinds, r):
    ctx.equal(r["end"], "return", f"status ended with {r['value']}")
    rows = r["value"]
    ctx.equal([x["name"] for x in rows], K.SKILLS, "status names")
    for i, x in enumerate(rows):
        k = kinds[i]
        ctx.equal(bool(x["installed"]), k != "missing", f"installed for {k}")
        ctx.equal(x["mode"], K.MODE.get(k, "copy"), f"mode for {k}")
        ctx.equal(bool(x["synced"]), k in K.SYNCED, f"synced for {k}")
        ctx.equal(os.path.realpath(x["source"]), os.path.join(K.SOURCE, K.SKILLS[i]), "source")
        ctx.equal(os.path.normpath(x["target"]), os.path.join(b.dest, K.SKILLS[i]), "target")


def step_body(ctx, user, contrib, names, which, force, editable):
    kinds = (user, contrib)
    b = K.Box(kinds)
    try:
        argv = list(names) + {"": [], "dev": ["--dev"], "all": ["--all"]}[which] + {"": [], "force": ["--force"], "upgrade": ["--upgrade"]}[force] + (["--editable"] if editable else []) + ["--dest", b.dest]
        ctx.calls += 1
        r = b.run(argv)
        after = common(ctx, b, r)
        ask = K.requested(names, which == "dev", which == "all")
        ok = ask is not None and (force or all(kinds[i] == "missing" for i in ask))
        ctx.equal(B.code(r), 0 if ok else 1, f"exit status of {argv} on {kinds}: {r['end']} {r['value']} {r['err'][-200:]}")
        for i in (0, 1):
            if ok and i in ask:
                want = K.installed(i, editable, b.src)
                ctx.check(b.slot(after, i) == want, f"{K.SKILLS[i]} is not the installed skill after {argv}")
            else:
                ctx.check(b.slot(after, i) == b.slot(b.before, i), f"{K.SKILLS[i]} was changed by {argv} on {kinds}")
        if not ok:
            ctx.check("[Error]" in r["err"] and "[Error]" not in r["out"], "a refused install says so on the error stream")
        else:
            for i in (0, 1):
                ctx.equal((os.path.join(b.dest, K.SKILLS[i]) + "\n") in r["out"], i in ask, "installed paths are listed")
        ctx.calls += 1
        new = [("link" if editable else "copy") if ok and i in ask else kinds[i] for i in (0, 1)]
        want_status(ctx, b, new, b.status())
        ctx.outcome(kinds, ok, ask, editable)
    finally:
        b.close()


def status_body(ctx, user, contrib, names, which):
    kinds = (user, contrib)
    b = K.Box(kinds)
    try:
        argv = ["--status"] + list(names) + {"": [], "dev": ["--dev"], "all": ["--all"]}[which] + ["--dest", b.dest]
        ctx.calls += 1
        r = b.run(argv)
        after = common(ctx, b, r)
        ctx.check(after == b.before, "asking for the status changed files")
        ask = K.requested(names, which == "dev", which == "all")
        ctx.equal(B.code(r), 0 if ask is not None else 1, f"exit status {r['end']} {r['value']}")
        if ask is None:
            ctx.check("[Error]" in r["err"], "unknown name reported")
            return
        ctx.equal(re.findall(r"^- (\S+)", r["out"], re.M), [K.SKILLS[i] for i in ask], "skills listed")
        yn = {True: "yes", False: "no"}
        ctx.equal(re.findall(r"installed: (\S+)", r["out"]), [yn[kinds[i] != "missing"] for i in ask], "installed column")
        ctx.equal(re.findall(r"mode: (\S+)", r["out"]), [K.MODE.get(kinds[i], "copy") for i in ask], "mode column")
        ctx.equal(re.findall(r"synced: (\S+)", r["out"]), [yn[kinds[i] in K.SYNCED] for i in ask], "synced column")
        ctx.outcome(kinds, ask)
    finally:
        b.close()


def history_body(ctx, ops):
    """Histories of whole commands from an empty destination, against the same model."""
    b = K.Box(None)
    try:
        kinds = ["missing", "missing"]
        for ask, force, editable in ops:
            argv = [["user"], ["contributor"], ["contributor", "user"]][ask] + (["--force"] if force else []) + (["--editable"] if editable else []) + ["--dest", b.dest]
            want = [[0], [1], [1, 0]][ask]
            ctx.calls += 1
            r = b.run(argv)
            ok = force or all(kinds[i] == "missing" for i in want)
            ctx.equal(r["escapes"], [], "changes outside the destination area")
            ctx.equal(B.code(r), 0 if ok else 1, f"exit status {r['end']} {r['value']}")
            if ok:
                for i in want:
                    kinds[i] = "link" if editable else "copy"
            after = B.snap(b.box)
            for i in (0, 1):
                ctx.check(b.slot(after, i) == ({} if kinds[i] == "missing" else K.installed(i, kinds[i] == "link", b.src)), f"{K.SKILLS[i]} should be {kinds[i]} after {argv}")
        ctx.check(K.source_trees() == SRC_TREES, "the bundled skills themselves were changed")
        ctx.outcome(kinds)
    finally:
        b.close()


def dest_body(ctx, form, names, force, editable):
    """How the destination is written on the command line."""
    b = K.Box(None)
    try:
        cwd = os.path.join(b.box, "work")
        os.mkdir(cwd)
        real = os.path.join(b.box, "real")
        os.mkdir(real)
        os.symlink(real, os.path.join(b.box, "lnk"))
        with open(os.path.join(b.box, "plain"), "w") as h:
            h.write("x")
        arg, where = {"absolute": (os.path.join(b.box, "a"), "a"), "nested": (os.path.join(b.box, "p/q/r"), "p/q/r"), "relative": ("rel/x", "work/rel/x"), "dot": (".", "work"),
                      "parent": ("../up", "up"), "home": ("~/skills", "home/skills"), "link": (os.path.join(b.box, "lnk"), "real"), "space": ("with space", "work/with space"),
                      "slash": (os.path.join(b.box, "a") + "/", "a"), "file": (os.path.join(b.box, "plain"), None), "below file": (os.path.join(b.box, "plain", "x"), None)}[form]
        before = B.snap(b.box)
        ctx.calls += 1
        r = b.run(names + (["--force"] if force else []) + (["--editable"] if editable else []) + ["--dest", arg], cwd=cwd)
        ctx.equal(r["escapes"], [], "changes outside the destination area")
        after = B.snap(b.box)
        if where is None:
            ctx.check(B.code(r) != 0, "a destination that is a file cannot be used")
            ctx.check(after == before, "a refused install changed files")
            return
        ctx.equal(B.code(r), 0, f"exit status {r['end']} {r['value']} {r['err'][-200:]}")
        ask = K.requested(names, False, False)
        want = dict(before)
        parts = where.split("/")
        for j in range(1, len(parts) + 1):
            want["/".join(parts[:j])] = ("dir",)
        for i in ask:
            for k, v in K.installed(i, editable, b.src).items():
                want[where + "/" + K.SKILLS[i] + ("/" + k if k else "")] = v
        ctx.check(after == want, f"destination {form}: {sorted(set(after) ^ set(want))[:5]}")
        ctx.calls += 1
        st = b.run(["--status", "--dest", arg], cwd=cwd)
        ctx.check(("installed: yes" in st["out"]) == (0 in ask) and ("synced: yes" in st["out"]) == (0 in ask), "status under the same destination")
        ctx.outcome(form, ask, editable)
    finally:
        b.close()


def usage_body(ctx, argv, dest):
    """Command lines that must not install anything."""
    b = K.Box(("stale", "missing"))
    try:
        ctx.calls += 1
        r = b.run(list(argv) + (["--dest", b.dest] if dest else []))
        after = common(ctx, b, r)
        ctx.check(after == b.before, f"{argv} changed files")
        if "--list" in argv:
            ctx.equal(B.code(r), 0, "listing")
            ctx.equal(re.findall(r"^- (\S+)", r["out"], re.M), K.SKILLS, "names listed")
        elif "-h" in argv or "--help" in argv:
            ctx.equal(B.code(r), 0, "help")
        else:
            ctx.check(B.code(r) not in (0, None), f"{argv} must be refused: {r['end']} {r['value']}")
        ctx.outcome(argv, dest)
    finally:
        b.close()


def self_body(ctx, how, names, force, editable):
    """The destination is the bundled skills directory itself."""
    b = K.Box(None)
    try:
        d = {"plain": K.SOURCE, "dots": os.path.join(K.SOURCE, "..", "skills"), "link": os.path.join(b.box, "lnk")}[how]
        if how == "link":
            os.symlink(K.SOURCE, d)
        before = B.snap(b.box)
        ctx.calls += 1
        r = b.run(names + (["--force"] if force else []) + (["--editable"] if editable else []) + ["--dest", d])
        ctx.check(K.source_trees() == SRC_TREES, "the bundled skills themselves were changed")
        ctx.check(B.snap(b.box) == before, "files changed")
        ctx.check(B.code(r) != 0, "installing the skills over themselves must be refused")
        ctx.outcome(how, force, editable)
    finally:
        b.close()


NAMES = [[], ["user"], ["contributor"], ["user", "contributor"], ["bogus"]]
MORE = [["user-guide"], ["adctoolbox-user-guide"], ["dev"], ["contributor-guide"], ["adctoolbox-contributor-guide"], ["contributor", "user"], ["user", "user-guide"], ["user", "user"], ["user", "bogus"],
        ["bogus", "user"], ["User"], [""], ["adctoolbox"], ["../outside"], ["notes.txt"], ["other-skill"]]


def families(tier):
    q = tier == "quick"
    few = ["missing", "copy", "link", "stale", "other link", "file"]
    ops = list(itertools.product(range(3), [False, True], [False, True]))
    return [
        Tree("installs", [("user", K.KINDS), ("contrib", few if q else K.KINDS), ("names", NAMES[:4]), ("which", [""]), ("force", ["", "force"]), ("editable", [False, True])], step_body),
        Tree("selection", [("user", ["missing", "stale"]), ("contrib", ["missing", "link"]), ("names", NAMES + MORE), ("which", ["", "dev", "all"]), ("force", ["", "force", "upgrade"]), ("editable", [False, True] if not q else [False])], step_body),
        Tree("status", [("user", K.KINDS), ("contrib", K.KINDS), ("names", NAMES + MORE if not q else NAMES[:3] + [["bogus"], ["user", "user"], ["user", "user-guide"]]), ("which", ["", "dev", "all"] if not q else ["", "all"])], status_body),
        Tree("histories", [("ops", list(itertools.product(ops, repeat=2 if q else 3)))], history_body),
        Tree("destinations", [("form", ["absolute", "nested", "relative", "dot", "parent", "home", "link", "space", "slash", "file", "below file"]), ("names", [[], ["contributor"], ["user", "dev"]]), ("force", [False, True]), ("editable", [False, True])], dest_body),
        Tree("usage", [("argv", [[], ["user"], ["--status"], ["--force"], ["--bogus"], ["--list"], ["--list", "user"], ["--list", "--force"], ["--help"], ["--dev", "--all", "--list"]]), ("dest", lambda c: [False, True] if ("--list" in c["argv"] or "--bogus" in c["argv"] or "--help" in c["argv"]) else [False])], usage_body),
        Tree("over itself", [("how", ["plain", "dots", "link"]), ("names", [[], ["contributor"], ["user", "dev"]]), ("force", [False, True]), ("editable", [False, True])], self_body),
    ]
