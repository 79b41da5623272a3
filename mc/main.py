"""Run one check:  python -m mc.main <PROPERTY> [quick|thorough]
   Replay one behaviour:  python -m mc.main --replay <file>"""
import importlib
import json
import os
import re
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")
SRC = os.path.join(REPO, "python", "src")
# the largest bounds of these take seconds: both tiers explore them in full
FULL = set("A01 A02 A03 A04 A05 A06 A07 C01 C02 C03 D02 D03 F01 F02 F03 F05 G01 G02 K01 M01 M02 "
           "P04 P08 S04 S05 S06 S07 S08 S09 S10 T01 T03 T05".split())


def _load(pid, tier):
    sys.path.insert(0, SRC)
    mod = importlib.import_module(f"mc.checks.{pid.lower()}")
    return mod, mod.families("thorough" if pid in FULL else tier)


def _known_findings(pid):
    """Lines 'known: property=<id> family=<name> match=<regex> :: <what fails>'."""
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) family=(\S+) match=(.*?) :: (.*)$", line.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    return out


def run(pid, tier):
    from mc import core
    t0 = time.time()
    mod, fams = _load(pid, tier)
    known = _known_findings(pid)

    def kf(fam, cfg, msg):
        for f, rx, what in known:
            if f == fam and rx.search(json.dumps(core.jsonable(cfg), sort_keys=True) + " " + msg):
                return what
        return None

    res = core.explore(fams, workers=getattr(mod, "WORKERS", None), known=kf)
    new, seen_known = [], []
    for v in res.violations:
        w = kf(v[0], v[2], v[3])
        (seen_known.append(w) if w else new.append(v))
    for w in sorted(set(seen_known)):
        print(f"KNOWN-FINDING: property={pid} {w}")
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "model_checking",
        "coverage": {
            "states": res.states, "transitions": res.calls,
            "traces_validated_against_impl": res.traces,
            "oracle_assertions": res.asserts, "distinct_outcomes": len(res.outcomes),
            "rounding_ties_not_judged": res.ambiguous, "leaves_outside_domain": res.outside,
            "families": res.per_family, "samples": res.samples[:12],
            "exhaustive": not new,
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 3), "violations": len(new),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{pid} {tier}: states={res.states} transitions={res.calls} traces={res.traces} "
          f"assertions={res.asserts} outcomes={len(res.outcomes)} ties={res.ambiguous} wall={ev['wall_s']}s")
    if new:
        fam, path, cfg, msg = new[0]
        rp = os.path.join(VERIF, "evidence", f"{pid}.replay.json")
        with open(rp, "w") as f:
            json.dump({"property": pid, "tier": tier, "family": fam, "path": core.jsonable(path),
                       "choices": core.jsonable(cfg), "message": msg}, f, indent=1)
        for fam, path, cfg, msg in new[:3]:
            print(f"  {fam} {json.dumps(core.jsonable(cfg))[:600]}\n    {msg}")
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    return 0


def replay(path):
    from mc import core
    r = json.load(open(path))
    mod, fams = _load(r["property"], r["tier"])
    fam = next(f for f in fams if f.name == r["family"])
    ctx = core.Ctx()
    if isinstance(fam, core.Graph):
        res = core.Result()
        core._run_graph(fam, res)
        msg = res.violations[0][3] if res.violations else None
    else:
        print("choices:", json.dumps(core.jsonable(fam.cfg(tuple(r["path"])))))
        msg = core._exec_leaf(fam, tuple(r["path"]), ctx)
    print("recorded:", r["message"])
    print("replayed:", msg or "no violation")
    return 1 if msg else 0


if __name__ == "__main__":
    try:
        if sys.argv[1] == "--replay":
            sys.exit(replay(sys.argv[2]))
        tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
        sys.exit(run(sys.argv[1], tier))
    except Exception:
        traceback.print_exc()
        sys.exit(2)
