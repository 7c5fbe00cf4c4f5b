import os, sys, time, json
sys.path.insert(0, "/verif/analyzer")
from interp import *
p = Program(sys.argv[1])
flt = sys.argv[2] if len(sys.argv) > 2 else ""
for name, key in p.roots:
    if flt not in name: continue
    it = Interp(p, {'joinlin': True} if os.environ.get('JL') else {}); t = time.time(); it.deadline = t + float(sys.argv[3]) if len(sys.argv) > 3 else None
    o = it.run(key)
    print(f"{name}: paths={o['paths']} ends={o['ends']} splits={o['splits']} dead={o['dead']} div={o['diverged']} allowedpanic={o['allowed_panics']} {time.time()-t:.2f}s lp={LPSTAT}")
    for k, v in o["oblig"].items(): print("    ", k, v)
    for v in o["violations"][:int(sys.argv[4]) if len(sys.argv)>4 else 2]: print("   VIOL", v["obligation"], v["at"], json.dumps(v["witness"])[:600]); print("      ", v["stack"][-4:]); print("      ", v["trace"][-12:])
    from collections import Counter
    for k, c in Counter(o["undecided"]).most_common(8): print("   UNDEC", c, k)
