"""K01 copying the examples: every destination state, spelling and failing step."""
import os
from mc import box as B
from mc.main import SRC
from mc.core import Tree


def prepare(pkg):
    """Compiled files at several depths, as an installed package has them."""
    ex = os.path.join(pkg, "examples")
    first = sorted(d for d in os.listdir(ex) if os.path.isdir(os.path.join(ex, d)))[0]
    for d in (ex, os.path.join(ex, first)):
        os.mkdir(os.path.join(d, "__pycache__"))
        for n in ("__pycache__/a.cpython-312.pyc", "b.pyc", "__pycache__/note.txt"):
            with open(os.path.join(d, n), "wb") as h:
                h.write(b"\0compiled")
    with open(os.path.join(ex, first, "data.bin"), "wb") as h:
        h.write(bytes(range(256)) * 17)
    with open(os.path.join(ex, ".hidden"), "w") as h:
        h.write("dot file")
    os.mkdir(os.path.join(ex, "zz_empty_dir"))


B.load(SRC, prepare)
import adctoolbox.cli as cli  # noqa: E402

ASSUMPTIONS = ["commands run on a scratch copy of the package as an unprivileged user; file-system changes outside it are refused and reported",
               "what a failed copy leaves inside its own new directory is not judged"]
SOURCE = os.path.join(B.PKG, "examples")
SRC_TREE = B.snap(SOURCE)
WANT = {k: v for k, v in SRC_TREE.items() if not any(p == "__pycache__" or p.endswith(".pyc") for p in k.split("/"))}


class Box:
    def __init__(self):
        self.box = B.fresh()
        for d in ("home", "work", "outside"):
            os.mkdir(os.path.join(self.box, d))
        for n in ("work/keep.txt", "outside/precious.txt"):
            with open(os.path.join(self.box, n), "w") as h:
                h.write("precious")

    def put(self, path, kind):
        p = os.path.join(self.box, path)
        if kind in ("missing", "no parent"):
            if kind == "missing":
                os.makedirs(os.path.dirname(p), exist_ok=True)
            return
        if kind == "parent is a file":
            os.makedirs(os.path.dirname(os.path.dirname(p)), exist_ok=True)
            with open(os.path.dirname(p), "w") as h:
                h.write("x")
            return
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if kind == "file":
            with open(p, "w") as h:
                h.write("mine")
        elif kind == "empty directory":
            os.mkdir(p)
        elif kind == "own work":
            os.mkdir(p)
            os.mkdir(os.path.join(p, "01_basic"))
            with open(os.path.join(p, "01_basic", "exp_b01_environment_check.py"), "w") as h:
                h.write("edited by the user")
        elif kind == "link":
            os.symlink(os.path.join(self.box, "outside"), p)
        elif kind == "dangling":
            os.symlink(os.path.join(self.box, "outside", "nothing"), p)
        else:
            raise RuntimeError(kind)

    def run(self, args, fault=None):
        return B.run(cli.copy_examples, self.box, cwd=os.path.join(self.box, "work"), fault=fault, argv=["adctoolbox-get-examples"] + args)


SPELL = {"default": ([], "work/adctoolbox_examples"), "name": (["mine"], "work/mine"), "nested": (["a/b/c"], "work/a/b/c"), "dots": (["../up"], "up"), "space": (["my copy"], "work/my copy"),
         "absolute": (None, "else/where"), "tilde": (["~x"], "work/~x"), "slash": (["mine/"], "work/mine"), "unicode": (["über"], "work/über")}
KINDS = ["missing", "no parent", "file", "empty directory", "own work", "link", "dangling", "parent is a file"]


def tree_with(before, where, tree):
    want = dict(before)
    parts = where.split("/")
    for j in range(1, len(parts) + 1):
        want["/".join(parts[:j])] = ("dir",)
    for k, v in tree.items():
        want[where + "/" + k] = v
    return want


def start(spell, kind):
    args, where = SPELL[spell]
    if kind in ("parent is a file", "no parent") and spell not in ("nested", "absolute"):
        return None
    if kind == "dangling" and spell == "slash":
        return None
    b = Box()
    if args is None:
        args = [os.path.join(b.box, where)]
    b.put(where, kind)
    return b, args, where, B.snap(b.box)


def copy_body(ctx, spell, kind, twice):
    s = start(spell, kind)
    if s is None:
        return
    b, args, where, before = s
    try:
        ctx.calls += 1
        r = b.run(args)
        ctx.equal(r["escapes"], [], "changes outside the destination")
        ctx.check(B.snap(SOURCE) == SRC_TREE, "the packaged examples were changed")
        after = B.snap(b.box)
        if kind in ("missing", "no parent"):
            ctx.equal(B.code(r), 0, f"exit status {r['end']} {r['value']} {r['out'][-200:]}")
            ctx.check(after == tree_with(before, where, WANT), f"copied tree differs: {sorted(set(after) ^ set(tree_with(before, where, WANT)))[:5]}")
            ctx.check("[Error]" not in r["out"] + r["err"], "no error is reported")
        else:
            ctx.equal(B.code(r), 1, f"exit status on {kind}: {r['end']} {r['value']}")
            ctx.check(after == before, f"files changed although the destination is taken ({kind})")
            ctx.check("[Error]" in r["out"] + r["err"] and "[Success" not in r["out"], "the refusal is reported")
        if twice:
            # the user edits a copied file and runs the command again
            f = os.path.join(b.box, where, "01_basic", "exp_b01_environment_check.py")
            if kind in ("missing", "no parent"):
                with open(f, "w") as h:
                    h.write("edited")
            mid = B.snap(b.box)
            ctx.calls += 1
            r = b.run(args)
            ctx.equal(B.code(r), 1, "second run is refused")
            ctx.check(B.snap(b.box) == mid, "second run changed files")
        ctx.outcome(spell, kind)
    finally:
        B.drop(b.box)


def fault_body(ctx, spell, kind, mode, part):
    i = part
    while True:
        b, args, where, before = start(spell, kind)
        try:
            ctx.calls += 1
            r = b.run(args, fault=(i, mode))
            if r["end"] != "crash" and r["changes"] <= i:
                break
            ctx.equal(r["escapes"], [], "changes outside the destination")
            ctx.check(B.snap(SOURCE) == SRC_TREE, f"the packaged examples were changed ({mode} at change {i})")
            after = B.snap(b.box)
            parts = where.split("/")
            mine = {"/".join(parts[:j]) for j in range(1, len(parts) + 1)}
            other = {k: v for k, v in after.items() if k not in mine and not k.startswith(where + "/")}
            ctx.check(other == {k: v for k, v in before.items() if k not in mine}, f"unrelated files changed ({mode} at change {i})")
            if r["end"] != "crash":
                if B.code(r) == 0:
                    ctx.check(B.sub(after, where) == {"": ("dir",), **WANT}, f"success reported for an incomplete copy ({mode} at change {i})")
                else:
                    ctx.equal(B.code(r), 1, f"exit status when change {i} fails: {r['end']} {r['value']}")
                    ctx.check("[Error]" in r["out"] + r["err"] and "[Success" not in r["out"], "the failure is reported")
            ctx.outcome(spell, mode, i)
        finally:
            B.drop(b.box)
        i += PARTS
        if i > 2000:
            raise RuntimeError("unexpected number of changes")


PARTS = 8


def usage_body(ctx, args):
    b = Box()
    try:
        before = B.snap(b.box)
        ctx.calls += 1
        r = b.run(args)
        ctx.check(B.snap(b.box) == before, f"{args} changed files")
        ctx.equal(B.code(r), 0 if "-h" in args or "--help" in args else 2, f"exit status of {args}")
        ctx.outcome(args)
    finally:
        B.drop(b.box)


def taken_body(ctx, args, kind):
    """Destinations that always exist."""
    b = Box()
    try:
        if kind:
            b.put("work/adctoolbox_examples", kind)
        before = B.snap(b.box)
        ctx.calls += 1
        r = b.run([a.replace("BOX", b.box).replace("PKG", B.PKG) for a in args])
        ctx.equal(B.code(r), 1, f"exit status of {args}: {r['end']} {r['value']}")
        ctx.check(B.snap(b.box) == before and B.snap(SOURCE) == SRC_TREE, f"{args} changed files")
        ctx.outcome(args)
    finally:
        B.drop(b.box)


def families(tier):
    q = tier == "quick"
    return [
        Tree("destinations", [("spell", sorted(SPELL)), ("kind", KINDS), ("twice", [False, True])], copy_body),
        Tree("failing steps", [("spell", ["default", "nested"] if q else ["default", "nested", "absolute", "space"]), ("kind", lambda c: ["missing"] if c["spell"] in ("default", "space") else ["no parent"]), ("mode", ["fail", "stop"] if q else ["fail", "stop", "torn"]), ("part", range(PARTS))], fault_body),
        Tree("usage", [("args", [["-h"], ["--help"], ["--bogus"], ["a", "b"], ["a", "--force"]])], usage_body),
        Tree("existing", [("args", [["."], [".."], ["BOX/outside"], ["PKG/examples"], ["../outside"], ["keep.txt"]]), ("kind", ["", "own work"])], taken_body),
    ]
