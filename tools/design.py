"""Write DESIGN.md from tools/design_head.md, the property list and tools/planted.md."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
man = {c["property"]: c for c in json.load(open(ROOT + "/MANIFEST.json"))["checks"]}
out = [open(ROOT + "/tools/design_head.md").read(), "## Properties\n"]
cost = {}
if os.path.exists(ROOT + "/tools/cost.json"):
    cost = json.load(open(ROOT + "/tools/cost.json"))
for line in open(ROOT + "/properties.jsonl"):
    p = json.loads(line)
    pid = p["id"]
    c = cost.get(pid, {})
    out.append(f"### {pid} {p['title']}\n\n"
               f"* Enumerated: {p['quantifier']['text']}.\n"
               f"* Oracle: {man[pid]['technique'].split('oracle: ')[1]}.\n"
               f"* Why tests cannot settle it: {p['why_tests_cant']}.\n"
               + "".join(f"* {t} tier as last measured: {v['leaves']} behaviours, {v['calls']} calls, {v['wall']} s.\n" for t, v in c.items()))
if os.path.exists(ROOT + "/tools/planted.md"):
    out.append(open(ROOT + "/tools/planted.md").read())
open(ROOT + "/DESIGN.md", "w").write("\n".join(out))
