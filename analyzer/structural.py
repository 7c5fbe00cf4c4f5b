"""Structural rules over the typed items of the crate (items.json of the compiler driver)."""
import collections

def result(rule, obligations, violations, functions, samples):
    return {"rule": rule, "obligations": obligations, "discharged": obligations - len(violations), "violations": violations,
            "functions": sorted(functions), "samples": samples[:12]}
def viol(what, at, fn=None): return {"obligation": what, "at": at, "function": fn or ""}

def no_unsafe(d):
    """U01: every expression of every body is none of the operations which only unsafe code may perform."""
    v = [viol(f"unsafe operation: {o['what']} in {o['fn']}", o["at"], o["fn"]) for o in d["unsafe_ops"]]
    v += [viol(f"{o['what']} {o['name']}", o["at"], o["name"]) for o in d["unsafe_items"]]
    v += [viol(f"unsafe code in the exported macro {m['name']}", m["at"], m["name"]) for m in d["macros"] if m["unsafe"] and m["exported"]]
    s = [f"{d['bodies']} bodies, {d['exprs']} expressions, {d['calls']} calls examined"]
    s += [f"macro {m['name']}: {m['tokens']} tokens, no unsafe" for m in d["macros"]]
    return result("unsafe-operation census over typed HIR, impls, attributes and macro bodies",
                  d["exprs"] + len(d["macros"]) + len(d["adts"]), v, [f["name"] for f in d["fns"]], s)

GLOBAL = ("std::env::", "std::time::", "std::fs::", "std::net::", "std::process::", "std::thread::", "std::sync::", "core::sync::", "std::io::stdin",
          "alloc::sync::atomic", "std::os::", "std::hash::random")
def pure(d):
    """U02: no global mutable state, no interior mutability reachable from a public type, no reading of the environment; auto traits hold."""
    v = []; n = 0; s = []
    for x in d["statics"]:
        n += 1
        if x["mut"] or not x["freeze"]: v.append(viol(f"global mutable state: static {x['name']}: {x['ty']}", x["at"], x["name"]))
    for a in d["adts"]:
        if not a["public"]: continue
        n += 3
        if a["cells"]: v.append(viol(f"interior mutability in {a['name']}: {a['cells'][0]}", a["at"], a["name"]))
        for t in ("send", "sync"):
            if a[t] == "no": v.append(viol(f"{a['name']} over thread-safe parts is not {t.capitalize()}", a["at"], a["name"]))
        s.append(f"{a['name']}: no interior mutability; Send {a['send']}; Sync {a['sync']}")
    for f in d["fns"]:
        for c in f["calls"]:
            n += 1
            if not c["local"] and c["def"].startswith(GLOBAL) and not c["def"].startswith("std::sync::Arc"):
                v.append(viol(f"{f['name']} uses process-global state: {c['def']}", c["at"], f["name"]))
            if "LocalKey" in c["def"]: v.append(viol(f"{f['name']} uses thread-local state: {c['def']}", c["at"], f["name"]))
    return result("no statics with mutation, no UnsafeCell inside public types, no environment calls, auto traits hold", n, v, [f["name"] for f in d["fns"]], s)

INDEX = ("RankSupport", "BitRankSupport", "Select1Support", "Select0Support", "SelectSupport")
def immutable_index(d):
    """R03: no exported way to change part of an index (or the store in it) while it exists."""
    ix = {a["name"]: a for a in d["adts"] if a["public"] and a["types"] and any(t.split("::")[-1] in INDEX for t in a["traits"])}
    v = []; n = 0; s = []
    for a in ix.values():
        for f in a["fields"]:
            n += 1
            if f["public"]: v.append(viol(f"field {f['name']} of {a['name']} is public", a["at"], a["name"]))
        n += 1
        if a["cells"]: v.append(viol(f"interior mutability in {a['name']}: {a['cells'][0]}", a["at"], a["name"]))
        s.append(f"{a['name']}: {len(a['fields'])} fields, none reachable from outside")
    by = collections.defaultdict(lambda: {"mut": [], "calls": [], "builds": set()})
    for f in d["fns"]:
        b = by[f["root"]]
        b["mut"] += f["mutates"]; b["calls"] += f["calls"]; b["builds"] |= set(f["builds"])
        if not f["closure"]: b["f"] = f
    for name in ix:
        direct = {}
        for r, b in by.items():
            f = b.get("f")
            if f is None or name not in f["in_mut"]: continue
            m = [x for x in b["mut"] if x["adt"] == name]
            if m: direct[r] = m[0]
        grew = True
        while grew:
            grew = False
            for r, b in by.items():
                f = b.get("f")
                if f is None or r in direct or name not in f["in_mut"]: continue
                for c in b["calls"]:
                    if c["def"] in direct: direct[r] = direct[c["def"]]; grew = True; break
        for r, b in by.items():
            f = b.get("f")
            if f is None: continue
            if name in f["in_mut"]:
                n += 1
                if f["exported"] and r in direct:
                    m = direct[r]
                    v.append(viol(f"{r} can change field {m['field']} of an existing {name} ({m['how']})", m["at"], r))
                else: s.append(f"{r}: cannot change a field of {name} from outside")
            if name in f["in_value"] and name in f["out_value"] and f["exported"]:
                n += 1
                m = [x for x in b["mut"] if x["adt"] == name]
                if m: v.append(viol(f"{r} hands back a {name} with field {m[0]['field']} changed", m[0]["at"], r))
                elif name in b["builds"]: v.append(viol(f"{r} hands back a {name} put together from parts of another", f["at"], r))
            if name in f["in_shared"]: n += 1
    return result("fields private, no interior mutability, no exported function mutates a field of an index through &mut or by value", n, v,
                  [r for r, b in by.items() if b.get("f") and any(x in b["f"][k] for x in ix for k in ("in_mut", "in_value", "in_shared", "out_value"))], s)
RULES = {"no_unsafe": no_unsafe, "pure": pure, "immutable_index": immutable_index}
