"""mut.py FILE 'old' 'new' CHECK [tier]: run one check against a scratch copy of /repo with one textual change."""
import os, shutil, subprocess, sys
f, old, new, chk = sys.argv[1:5]
tier = sys.argv[5] if len(sys.argv) > 5 else "quick"
d = f"/tmp/w/mut{os.getpid()}"
subprocess.run(["cp", "-a", os.environ.get("MUT_BASE", "/repo"), d], check=True)
try:
    p = os.path.join(d, f)
    s = open(p).read()
    assert s.count(old) >= 1, "text not found"
    open(p, "w").write(s.replace(old, new, 1))
    r = subprocess.run(["/verif/check", chk, tier], env={**os.environ, "VERIF_REPO": d}, capture_output=True, text=True)
    lines = [l for l in r.stdout.splitlines() if "VIOLATION" in l or "OK tier" in l or "harness" in l or l.startswith("    ")]
    print(r.returncode, *[l[:300] for l in lines[:3]], sep="\n  ")
finally:
    shutil.rmtree(d)
