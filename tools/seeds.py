"""seeds.py FILE: plant every bug described in FILE (python: SEEDS = [dict(id, prop, edits=[(file, old, new)], demo, needs, breaks)])."""
import sys, subprocess, os, runpy
W = "/tmp/seedwork"
only = sys.argv[2:] 
for s in runpy.run_path(sys.argv[1])["SEEDS"]:
    if only and s["id"] not in only: continue
    if not only and os.path.exists(f"/verif/seeded/{s['id']}"): continue
    subprocess.run(["git", "checkout", "-q", "--", "."], cwd=W)
    ok = True
    for f, old, new in s["edits"]:
        p = os.path.join(W, f); t = open(p).read()
        n = t.count(old)
        if n != 1:
            print(s["id"], "edit matches", n, "times:", old[:60]); ok = False; break
        open(p, "w").write(t.replace(old, new))
    if not ok: continue
    open("/tmp/seeddemo/main.rs", "w").write(s["demo"])
    subprocess.run(["bash", "/verif/tools/mkseed.sh", s["id"], s["prop"]], env={**os.environ, "NEEDS": s["needs"], "BREAKS": s["breaks"]})
