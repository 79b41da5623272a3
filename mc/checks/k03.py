"""K03 every failing or interrupted file-system step of a skill install."""
import os
from mc import box as B
from mc.main import SRC
from mc.core import Tree

B.load(SRC)
import adctoolbox.skill_cli  # noqa: E402,F401
import adctoolbox._bundled_skills  # noqa: E402,F401
from mc.ref import skills as K  # noqa: E402

ASSUMPTIONS = ["faults are placed at every creation, removal or renaming of a file, directory or link: the step fails (disk full), the process ends before it, or ends just after creating a file empty",
               "metadata changes (times, permissions) are not fault points"]
SRC_TREES = K.source_trees()


def judge(ctx, b, argv, ask, editable, kinds, fault, r, start):
    what = f"{argv} on {kinds}, {fault[1]} at change {fault[0]}"
    ctx.equal(r["escapes"], [], f"changes outside the destination area: {what}")
    ctx.check(K.source_trees() == SRC_TREES, f"the bundled skills themselves were changed: {what}")
    after = B.snap(b.box)
    ctx.check({k: v for k, v in b.rest(after).items() if k != "dest"} == {k: v for k, v in b.rest(b.before).items() if k != "dest"}, f"unrelated files changed: {what}")
    unfinished = 0
    done = []
    for i in (0, 1):
        now, old = b.slot(after, i), b.slot(start, i)
        if i not in ask:
            ctx.check(now == old, f"{K.SKILLS[i]} was not asked for but changed: {what}")
            continue
        complete = now == K.installed(i, editable, b.src)
        done.append(complete)
        if not complete and now != old:
            unfinished += 1
    ctx.check(unfinished <= 1, f"more than one skill left unfinished: {what}")
    if r["end"] != "crash":
        if B.code(r) == 0:
            ctx.check(all(done), f"success reported for an incomplete install: {what}")
    ctx.calls += 1
    st = b.status()
    ctx.equal(st["end"], "return", f"status after {what}: {st['value']}")
    for i, row in enumerate(st["value"]):
        now = b.slot(after, i)
        same = now in (K.installed(i, False, b.src), K.installed(i, True, b.src))
        ctx.equal(bool(row["synced"]), same, f"{K.SKILLS[i]} synced after {what}")
        ctx.equal(bool(row["installed"]), bool(now), f"{K.SKILLS[i]} installed after {what}")
    return after


def fault_body(ctx, user, contrib, names, force, editable, mode, again):
    kinds = (user, contrib)
    ask = K.requested(names, False, False)
    if not force and any(kinds[i] != "missing" for i in ask):
        return
    i = 0
    while True:
        b = K.Box(kinds)
        try:
            argv = names + (["--force"] if force else []) + (["--editable"] if editable else []) + ["--dest", b.dest]
            ctx.calls += 1
            r = b.run(argv, fault=(i, mode))
            if r["end"] != "crash" and r["changes"] <= i:
                ctx.equal(B.code(r), 0, "run without a fault")
                break           # all fault points visited
            after = judge(ctx, b, argv, ask, editable, kinds, (i, mode), r, b.before)
            redo = names + ["--force"] + (["--editable"] if editable else []) + ["--dest", b.dest]
            if again:
                # the repair is interrupted as well
                ctx.calls += 1
                r2 = b.run(redo, fault=(again - 1, mode))
                judge(ctx, b, redo, ask, editable, kinds, (i, mode), r2, after)
            ctx.calls += 1
            r = b.run(redo)
            ctx.equal(B.code(r), 0, f"rerun with --force after {mode} at change {i}: {r['end']} {r['value']} {r['err'][-200:]}")
            after = B.snap(b.box)
            for s in ask:
                ctx.check(b.slot(after, s) == K.installed(s, editable, b.src), f"rerun did not complete {K.SKILLS[s]} after {mode} at change {i}")
            ctx.outcome(kinds, names, force, editable, mode, i)
        finally:
            b.close()
        i += 1
        if i > 400:
            raise RuntimeError("unexpected number of changes")


def families(tier):
    q = tier == "quick"
    kinds = ["missing", "copy", "link", "extra", "file", "other link", "dangling"]
    kq = ["missing", "stale", "link", "other link"]
    return [
        Tree("one fault", [("user", kinds if not q else kq + ["extra", "file"]), ("contrib", kinds if not q else kq), ("names", [["user"], ["contributor"], ["user", "contributor"], ["contributor", "user"]] if not q else [["user"], ["contributor", "user"]]),
                           ("force", [False, True]), ("editable", [False, True]), ("mode", ["fail", "stop", "torn"]), ("again", [0])], fault_body),
        Tree("repair interrupted", [("user", ["missing", "stale"]), ("contrib", ["missing", "link"]), ("names", [["user", "contributor"]]), ("force", [True]), ("editable", [False]),
                                    ("mode", ["stop", "fail"] if q else ["fail", "stop", "torn"]), ("again", [1, 4, 9] if q else list(range(1, 16)))], fault_body),
    ]
