"""Regenerates /verif/seeded/<id>/ from notes/seeds/*.py (each defines SEEDS: id, property, needs, breaks, edits[(file, old, new)], demo).
Development tool only."""
import glob, json, os, subprocess, sys, tempfile, shutil, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
only = set(sys.argv[1:])
seeds = []
for f in sorted(glob.glob(f"{V}/notes/seeds/*.py")):
    seeds += runpy.run_path(f)["SEEDS"]
assert len({s["id"] for s in seeds}) == len(seeds)
for s in seeds:
    if only and s["id"] not in only:
        continue
    d = f"{V}/seeded/{s['id']}"
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="mkseed.", dir="/tmp")
    diff = ""
    try:
        files = []
        for path, old, new in s["edits"]:
            for side in "ab":
                os.makedirs(os.path.dirname(f"{tmp}/{side}/{path}"), exist_ok=True)
            if path not in files:
                shutil.copy(f"/repo/{path}", f"{tmp}/a/{path}"); shutil.copy(f"/repo/{path}", f"{tmp}/b/{path}")
                files.append(path)
            t = open(f"{tmp}/b/{path}").read()
            assert t.count(old) == 1, (s["id"], path, t.count(old), old)
            open(f"{tmp}/b/{path}", "w").write(t.replace(old, new))
        for path in files:
            diff += f"diff --git a/{path} b/{path}\n" + subprocess.run(["diff", "-u", f"a/{path}", f"b/{path}"], cwd=tmp, capture_output=True, text=True).stdout
    finally:
        shutil.rmtree(tmp)
    open(f"{d}/patch.diff", "w").write(diff)
    open(f"{d}/demo.sh", "w").write('#!/bin/bash\n# run with cwd = the repository\nexport PYTHONPATH="$PWD/src:$(cd "$(dirname "$0")" && pwd)" PYTHONDONTWRITEBYTECODE=1 TZ=UTC PYTHONWARNINGS=ignore\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(f"{d}/demo.sh", 0o755)
    open(f"{d}/demo.py", "w").write(s["demo"].lstrip("\n"))
    if "demo_e2e" in s["demo"]:
        shutil.copy(f"{V}/mc/e2e.py", f"{d}/demo_e2e.py")
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
print("ok")
