"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import ast, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
checks, na = [], []
for p in props:
    f = f"{V}/mc/checks/{p['id'].lower()}.py"
    if not os.path.exists(f):
        na.append({"property": p["id"], "reason": "check not built yet"})
        continue
    doc = " ".join((ast.get_docstring(ast.parse(open(f).read())) or "").split())
    checks.append({
        "property": p["id"],
        "quick_cmd": f"./check {p['id']} quick",
        "thorough_cmd": f"./check {p['id']} thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": "stateless bounded model checking of the real code (exhaustive choice-sequence exploration against a reference model)",
        "level": "model_checking",
        "level_note": f"{doc} Exhaustive within the bounds reported in the evidence file; says nothing about values or depths outside the stated alphabet. Trusts the Python reference model in mc/checks/{p['id'].lower()}.py and the explorer mc/core.py.",
    })
m = {"version": 1, "setup_cmd": "./setup.sh",
     "hooks": {"guard": "none", "enable": "no hooks: the checks drive the unmodified code in /repo/src through its own interfaces", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "Checks import /repo/src directly, so every run sees the current working tree. ./check <id> quick|thorough; ./check replay <file> replays a recorded counterexample."}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")
