#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--only REGEX] [--keep] [-v]

Decides one property statically on the current /repo tree:
  1. type-check /repo and the specification crate with the MIR-dumping compiler driver
     (once per build profile: overflow checks and debug assertions on / off),
  2. abstractly interpret the MIR of every specification harness of the property, or
     evaluate the structural rules of the property on the crate's typed item graph,
  3. print VIOLATION for every definite violation, write evidence/<id>.json.
Exit 0: no violation found; 1: violation; 2: the tree could not be analysed."""
import sys, os, json, time, re, subprocess, shutil, tempfile, argparse, multiprocessing as mp
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "analyzer"))
import props

def sh(cmd, env=None, cwd=None, log=None):
    r = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout

def driver():
    b = os.path.join(HERE, ".build", "driver", "release", "mirdump")
    lib = os.path.join(HERE, ".build", "native", "release", "liblp.so")
    if not os.path.exists(b) or not os.path.exists(lib):
        rc, out = sh(["bash", os.path.join(HERE, "tools", "setup.sh")])
        if rc or not os.path.exists(b):
            print(out); print("cannot build the compiler driver"); sys.exit(2)
    return b

def extract(drv, work, profile):
    """fresh compile of /repo + spec through the driver; returns directory with mono.json, items.json"""
    out = os.path.join(work, profile)
    os.makedirs(out)
    spec = os.path.join(work, "spec")
    if not os.path.exists(spec):
        shutil.copytree(os.path.join(HERE, "spec"), spec, ignore=shutil.ignore_patterns("target"))
        if os.environ.get("VERIF_REPO"):  # development only: analyse another tree
            p = os.path.join(spec, "Cargo.toml"); t = open(p).read()
            open(p, "w").write(t.replace('path = "/repo"', f'path = "{os.environ["VERIF_REPO"]}"'))
    env = dict(os.environ)
    rc, sr = sh(["rustc", "+nightly", "--print", "sysroot"])
    env.update(MIRDUMP_SPEC="spec", MIRDUMP_ITEMS="succinct", MIRDUMP_OUT=out,
               CARGO_TARGET_DIR=os.path.join(out, "t"),
               LD_LIBRARY_PATH=os.path.join(sr.strip(), "lib"), RUSTC_WRAPPER=drv, RUSTUP_TOOLCHAIN="nightly",
               RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0 -Zinline-mir=no --cap-lints=allow",
               CARGO_INCREMENTAL="0")
    cmd = ["cargo", "check", "--offline", "--quiet"] + (["--release"] if profile == "release" else [])
    rc, log = sh(cmd, env, spec)
    shutil.rmtree(os.path.join(out, "t"), ignore_errors=True)
    if rc or not os.path.exists(os.path.join(out, "mono.json")):
        print(log[-6000:]); print(f"the tree does not compile with the specification crate ({profile})")
        sys.exit(2)
    return out

# ---------------------------------------------------------------- jobs
PROG = {}
def run_job(job):
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (3500 << 20, 3500 << 20))
    import interp
    t0 = time.time()
    opts = dict(job.get("opts") or {})
    it = interp.Interp(PROG[job["profile"]], opts)
    it.deadline = t0 + job["timeout"]
    try:
        o = it.run(job["key"])
    except MemoryError:
        o = it.out; o["undecided"].append(("memory budget exhausted", job["root"]))
    except Exception as e:
        import traceback
        o = it.out; o["undecided"].append((f"analyzer error {type(e).__name__}: {e}", job["root"]))
        o["error"] = traceback.format_exc()[-1500:]
    o["fns"] = sorted(o["fns"]); o["calls"] = []
    from collections import Counter
    o["nund"] = len(o["undecided"])
    o["undecided"] = [[k[0], k[1], c] for k, c in Counter(o["undecided"]).most_common(6)]
    o["nviol"] = len(o["violations"]); o["violations"] = o["violations"][:3]
    o["wall"] = time.time() - t0; o["job"] = {k: job[k] for k in ("profile", "root")}
    return o

def short(root): return root.replace("spec::", "")

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only"); ap.add_argument("-v", action="store_true"); ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--keep", action="store_true"); ap.add_argument("--mono")
    a = ap.parse_args()
    t0 = time.time()
    pid = a.id; P = props.PROPS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    drv = driver()
    os.makedirs(os.path.join(HERE, ".build"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    work = tempfile.mkdtemp(prefix=f"run-{pid}-", dir=os.path.join(HERE, ".build"))
    try:
        res = analyse(a, pid, P, drv, work, t0)
    finally:
        if not a.keep: shutil.rmtree(work, ignore_errors=True)
    sys.exit(report(a, pid, P, res, t0, seed))

def analyse(a, pid, P, drv, work, t0):
    profiles = P.get("profiles", ("debug", "release"))
    dirs = {}
    for pr in profiles: dirs[pr] = extract(drv, work, pr)
    out = {"jobs": [], "struct": []}
    if P.get("structural"):
        import structural
        for pr in profiles:
            items = json.load(open(os.path.join(dirs[pr], "items.json")))
            for rule in P["structural"]:
                out["struct"].append(dict(structural.RULES[rule](items), profile=pr))
    if P.get("harness", True):
        import interp
        jobs = []
        for pr in profiles:
            PROG[pr] = p = interp.Program(os.path.join(dirs[pr], "mono.json"))
            for root, key in p.roots:
                j = props.plan(pid, P, root, pr, a.tier)
                if j is None: continue
                if a.only and not re.search(a.only, root): continue
                j.update(profile=pr, root=root, key=key); jobs.append(j)
        if not jobs and not a.only:
            print(f"no harness found for {pid}"); sys.exit(2)
        jobs.sort(key=lambda j: (0, j["cost"]) if j["cost"] < 40 else (1, -j["cost"]))
        total = P.get("budget", {}).get(a.tier, 400 if a.tier == "quick" else 800)
        end = t0 + total
        ks = known()
        out["planned"] = len(jobs)
        ctx = mp.get_context("fork")
        # one process per job: the analyzer keeps hash-consed global tables
        running = []; pending = list(jobs)
        while pending or running:
            while pending and len(running) < a.jobs:
                j = pending.pop(0)
                left = end - time.time()
                if left < 2:
                    out["jobs"].append(skipped(j)); continue
                j["timeout"] = min(j.get("timeout", 1e9), left)
                q = ctx.SimpleQueue() if False else None
                r, w = ctx.Pipe(False)
                pr = ctx.Process(target=child, args=(w, j)); pr.start(); w.close()
                running.append((pr, r, j, time.time() + j["timeout"] + 20))
            nxt = []
            from multiprocessing.connection import wait
            wait([x[1] for x in running], timeout=1)
            for pr, r, j, dl in list(running):
                dl = min(dl, end + 20)
                if r.poll():
                    try: o = r.recv()
                    except EOFError: o = skipped(j, "analysis process died")
                    pr.join(); r.close()
                    out["jobs"].append(o)
                    if a.v: show(o)
                    if not out.get("stopped") and any(not is_known(ks, pid, short(o["job"]["root"]), v) for v in o["violations"]):
                        # a definite violation decides the check: finish what runs, start nothing more
                        out["stopped"] = len(pending); pending = []; end = min(end, time.time() + 20)
                elif time.time() > dl or not pr.is_alive() and not r.poll():
                    pr.kill(); pr.join(); r.close(); out["jobs"].append(skipped(j, "time budget exhausted"))
                else: nxt.append((pr, r, j, dl))
            running = nxt
    return out

def skipped(j, why="not started: time budget exhausted"):
    return {"job": {"profile": j["profile"], "root": j["root"]}, "paths": 0, "ends": 0, "splits": 0, "dead": 0, "oblig": {}, "violations": [],
            "undecided": [[why, j["root"], 1]], "nund": 1, "nviol": 0, "wall": 0, "fns": [], "unmodelled": {}, "diverged": 0, "allowed_panics": 0}

def child(w, j):
    try: w.send(run_job(j))
    except BaseException as e:
        w.send(skipped(j, f"analyzer error {e!r}"))
    w.close()

def show(o):
    print(f"  {o['job']['profile']:8}{short(o['job']['root']):44} paths={o['paths']} ends={o['ends']} undecided={o['nund']} viol={o['nviol']} {o['wall']:.1f}s", flush=True)
    for v in o["violations"][:2]:
        print("     VIOL", v["obligation"], "|", v["at"]); print("        ", json.dumps(v["witness"])[:500]); print("        ", v["stack"][-5:]); print("        ", [str(x)[:150] for x in v["trace"][-6:]])
    for u in o["undecided"][:6]: print("     UNDEC", [str(x)[:260] for x in u])
    if o.get("error"): print(o["error"])

def known():
    ks = []
    try:
        for l in open(os.path.join(HERE, "known_findings.txt")):
            m = re.match(r"finding: property=(\S+) root=(\S+) obligation=(.*?) construct=(\S+) :: (.*)", l.strip())
            if m: ks.append(m.groups())
    except FileNotFoundError: pass
    return ks

def is_known(ks, pid, harness, v):
    for k in ks:
        if k[0] == pid and k[1] == harness and k[2] == v["obligation"] and k[3] in v["at"]: return k
    return None

def report(a, pid, P, res, t0, seed):
    ob = ok = und = paths = splits = 0
    fns = set(); viol = []; samples = []; undec = []; vac = []
    for o in res["jobs"]:
        paths += o["paths"]; splits += o["splits"]
        fns.update(f for f in o["fns"] if not f.startswith("spec::"))
        for k, c in o["oblig"].items():
            ob += c["ok"] + c["fail"] + c["undecided"]; ok += c["ok"]; und += c["undecided"]
            if len(samples) < 12: samples.append({"harness": short(o["job"]["root"]), "profile": o["job"]["profile"], "obligation": k, **c})
        for v in o["violations"]:
            viol.append({"harness": short(o["job"]["root"]), "profile": o["job"]["profile"], **v})
        for u in o["undecided"]: undec.append({"harness": short(o["job"]["root"]), "profile": o["job"]["profile"], "why": u[0], "at": u[1], "count": u[2]})
        if o["ends"] == 0 and not o["allowed_panics"] and not o["violations"] and not o["undecided"]: vac.append(short(o["job"]["root"]))
    for s in res["struct"]:
        ob += s["obligations"]; ok += s["discharged"]
        viol += [{"harness": s["rule"], "profile": s["profile"], **v} for v in s["violations"]]
        undec += [{"harness": s["rule"], "profile": s["profile"], **u} for u in s.get("undecided", [])]
        samples += s.get("samples", [])[:6]
        fns.update(s.get("functions", []))
    ks = known(); hits = {}; fresh = []
    for v in viol:
        k = is_known(ks, pid, v["harness"], v)
        if k: hits[k] = v
        else: fresh.append(v)
    for k in ks:
        if k in hits: print(f"KNOWN-FINDING: property={pid} {k[4]}")
    rc = 0
    if fresh:
        rp = os.path.join(HERE, "evidence", f"{pid}.violation.json")
        json.dump(fresh, open(rp, "w"), indent=1, default=str)
        seen = set()
        for v in fresh:
            key = (v["obligation"], v["at"])
            if key in seen: continue
            seen.add(key)
            print(f"  {v['obligation']}\n    at {v['at']}\n    harness {v['harness']} [{v['profile']}]")
            for s in (v.get("stack") or [])[-5:]: print(f"      in {s}")
            if v.get("witness"): print(f"    witness {json.dumps(v['witness'].get('values', v['witness']))[:400]}")
            if len(seen) >= 6: break
        print(f"VIOLATION property={pid} replay={rp}")
        rc = 1
    njobs = len(res["jobs"])
    complete = not undec and not vac
    level = P.get("level", "proof")
    cov = {"obligations": ob, "discharged": ok,
           "checker_cmd": f"python3 /verif/check.py {pid} --tier {a.tier}",
           "trusted_base": ["rustc front end (name resolution, types, trait selection)", "/verif/driver/src/items.rs (item facts)", "/verif/analyzer/structural.py (rules)"] if not P.get("harness", True) else ["rustc front end and MIR construction", "/verif/driver (MIR dump)", "/verif/analyzer (abstract domains and transfer functions)",
                            "/verif/analyzer/models.py (models of Vec, slices, VecDeque, io::Error, integer intrinsics)", "/verif/spec (specification harnesses)"],
           "rule": P["rule"], "harnesses": njobs, "partitions_analysed": paths, "partition_refinements": splits,
           "functions_analysed": len(fns), "functions": sorted(fns)[:400],
           "undecided_obligations": und, "undecided": undec[:40], "vacuous_harnesses": vac,
           "stopped_early_with_harnesses_left": res.get("stopped", 0),
           "bounds": P.get("bounds", "none"), "samples": samples, "explanation": P["rule"] + " Bounds: " + P.get("bounds", "none") + f" Complete: {complete}."}
    json.dump({"property": pid, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": seed, "level": level,
               "coverage": cov, "wall_s": round(time.time() - t0, 2)},
              open(os.path.join(HERE, "evidence", f"{pid}.json"), "w"), indent=1, default=str)
    print(f"{pid} [{a.tier}] harnesses={njobs} obligations={ob} discharged={ok} undecided={sum(u.get('count', 1) for u in undec)} vacuous={len(vac)} "
          f"violations={len(fresh)} known={len(hits)} functions={len(fns)} wall={time.time()-t0:.1f}s")
    if undec:
        from collections import Counter
        for (h, w), c in Counter((u["harness"], u["why"][:120]) for u in undec).most_common(8): print(f"  not decided ({c}): {h}: {w}")
    if vac: print("  vacuous:", vac[:8])
    return rc

if __name__ == "__main__": main()
