"""Directory model of the skill installer, shared by K02 and K03."""
import os
import shutil
from mc import box as B

SKILLS = ["adctoolbox-user-guide", "adctoolbox-contributor-guide"]
ALIAS = {"user": 0, "user-guide": 0, SKILLS[0]: 0, "dev": 1, "contributor": 1, "contributor-guide": 1, SKILLS[1]: 1}
SOURCE = os.path.join(B.PKG, "_bundled_skills", "skills")


def source_trees():
    return [B.snap(os.path.join(SOURCE, s)) for s in SKILLS]


KINDS = ["missing", "copy", "link", "stale", "short", "extra", "file", "other link", "file link", "dangling", "empty", "retyped", "deep stale", "hidden extra"]
SYNCED = {"copy", "link"}
MODE = {"missing": "missing", "link": "editable-link", "other link": "editable-link", "file link": "editable-link", "dangling": "editable-link", "file": "non-directory"}


def first_file(tree, deep=False):
    return sorted(k for k, v in tree.items() if v[0] == "file" and (os.sep in k) == deep)[0]


def make(kind, path, i, src, outside):
    """Put one skill directory into the given condition."""
    real = os.path.join(SOURCE, SKILLS[i])
    if kind == "missing":
        return
    if kind in ("copy", "stale", "short", "extra", "retyped", "deep stale", "hidden extra"):
        shutil.copytree(real, path)
        f = os.path.join(path, first_file(src[i], deep=kind == "deep stale"))
        if kind in ("stale", "deep stale"):
            with open(f, "rb") as h:
                data = h.read()
            with open(f, "wb") as h:          # same size and times, one byte differs
                h.write(bytes([data[0] ^ 1]) + data[1:])
            st = os.stat(os.path.join(real, os.path.relpath(f, path)))
            os.utime(f, ns=(st.st_atime_ns, st.st_mtime_ns))
        elif kind == "short":
            os.remove(f)
        elif kind == "extra":
            os.mkdir(os.path.join(path, "mine"))
            with open(os.path.join(path, "mine", "keep.md"), "w") as h:
                h.write("mine")
        elif kind == "hidden extra":
            with open(os.path.join(path, ".extra"), "w") as h:
                h.write("mine")
        elif kind == "retyped":
            os.remove(f)
            os.mkdir(f)
    elif kind == "link":
        os.symlink(real, path)
    elif kind == "file":
        with open(path, "w") as h:
            h.write("a file")
    elif kind == "empty":
        os.mkdir(path)
    else:
        os.symlink({"other link": outside, "file link": os.path.join(outside, "note.txt"), "dangling": os.path.join(outside, "nothing")}[kind], path)


class Box:
    """dest with two skill slots and a neighbour, an outside directory that links may point to."""

    def __init__(self, kinds, dest="dest"):
        self.src = source_trees()
        self.box = B.fresh()
        os.mkdir(os.path.join(self.box, "home"))
        self.outside = os.path.join(self.box, "outside")
        os.mkdir(self.outside)
        for n in ("note.txt", "SKILL.md"):
            with open(os.path.join(self.outside, n), "w") as h:
                h.write("precious")
        self.dest = os.path.join(self.box, dest)
        if kinds is not None:
            os.makedirs(os.path.join(self.dest, "other-skill", "references"))
            for n in ("other-skill/SKILL.md", "other-skill/references/a.md", "notes.txt", SKILLS[0] + ".bak"):
                with open(os.path.join(self.dest, n), "w") as h:
                    h.write("precious " + n)
            for i, k in enumerate(kinds):
                make(k, os.path.join(self.dest, SKILLS[i]), i, self.src, self.outside)
        self.before = B.snap(self.box)

    def run(self, argv, cwd=None, fault=None):
        import adctoolbox.skill_cli as cli
        return B.run(lambda: cli.main(argv), self.box, cwd=cwd, fault=fault)

    def status(self, dest=None):
        import adctoolbox.skill_cli as cli
        r = B.run(lambda: cli.skill_status(install_all=True, dest=dest or self.dest), self.box)
        return r

    def slot(self, tree, i):
        return B.sub(tree, os.path.relpath(os.path.join(self.dest, SKILLS[i]), self.box))

    def rest(self, tree):
        """Everything in the box that is not one of the two skill slots."""
        pre = [os.path.relpath(os.path.join(self.dest, s), self.box) for s in SKILLS]
        return {k: v for k, v in tree.items() if not any(k == p or k.startswith(p + "/") for p in pre)}

    def close(self):
        B.drop(self.box)


def requested(names, dev, all_):
    """Skills asked for, in order; None when a name is unknown."""
    if all_:
        return [0, 1]
    if dev:
        return [0, 1]
    if not names:
        return [0]
    out = []
    for n in names:
        if n not in ALIAS:
            return None
        if ALIAS[n] not in out:
            out.append(ALIAS[n])
    return out


def installed(i, editable, src):
    if editable:
        return {"": ("link", os.path.join(SOURCE, SKILLS[i]))}
    return {"": ("dir",), **src[i]}
