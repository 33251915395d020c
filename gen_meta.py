#!/opt/venv/bin/python
"""writes properties.jsonl and MANIFEST.json from one table"""
import json
import os

ROOT = os.path.dirname(os.path.abspath(__file__))
P = []
NA = []


def prop(id, title, statement, over, quant, why, files, mech, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                  note=note))


exec(open(os.path.join(ROOT, "meta_table.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}) + "\n")

na = {i for i, _ in NA}
json.dump({
    "version": 1,
    "setup_cmd": "true",
    "checks": [{
        "property": p["id"],
        "quick_cmd": "./run.py %s --tier quick" % p["id"],
        "thorough_cmd": "./run.py %s --tier thorough" % p["id"],
        "technique": "symbolic execution of the repository's JAX/Python code with an SMT solver (z3) deciding every "
                     "obligation within bounds",
        "level": "other",
        "level_note": p["note"]} for p in P if p["id"] not in na],
    "not_applicable": [{"property": i, "reason": r} for i, r in NA],
    "notes": "No hooks in /repo. Each run executes /repo's current sources symbolically; evidence lists functions, "
             "bounds, queries and solver time. Counterexamples are replayed on the unpatched code before being reported.",
}, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)

# harness and seeded tables of DESIGN.md
import sys
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
from vp import worker  # noqa: E402
f = os.path.join(ROOT, "DESIGN.md")
txt = open(f).read()
head, tail = txt.split("## 8. Harnesses and bounds")
rows = []
for s in worker.load_checks().values():
    rows.append((s.prop, "* `%s`%s: %s" % (s.name, " (thorough only)" if "quick" not in s.tiers else "", s.bounds)))
out = "## 8. Harnesses and bounds\n\n(generated by `gen_meta.py` from the harness declarations)\n"
for p in P:
    hs = [r for q, r in rows if q == p["id"]]
    if hs:
        out += "\n### %s %s\n\n%s\n" % (p["id"], p["title"], "\n".join(hs))
a, b = head.split("passes without it)") 
end = b[b.index("\nBeyond these"):]
tab = "\n\n| id | property | what it breaks | needs |\n|---|---|---|---|\n"
sd = os.path.join(ROOT, "seeded")
for d in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, d, "meta.json")))
    tab += "| %s | %s (caught) | %s | %s |\n" % (d, m["property"], m["what_it_breaks"].replace("|", "\\|"), m["needs"].replace("|", "\\|"))
open(f, "w").write(a + "passes without it)" + tab + end + out)
