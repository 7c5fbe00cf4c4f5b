"""Forward abstract interpretation of the MIR of one harness, path-partitioned."""
import json, sys, time
from ops import *
import join as joins

class Agg:
    __slots__ = ("v", "f")
    def __init__(self, v, f): self.v = v; self.f = tuple(f)
    def __repr__(self): return f"<{self.v}:{','.join(map(repr, self.f))}>"
UNIT = Agg(0, ())
class Ptr:
    """obj: object id; path: access path; meta: slice length (Lin) or None"""
    __slots__ = ("obj", "path", "meta")
    def __init__(self, obj, path=(), meta=None): self.obj = obj; self.path = path; self.meta = meta
    def __repr__(self): return f"&{self.obj}{self.path}{'' if self.meta is None else self.meta}"
class Arr:
    """array or heap buffer contents"""
    __slots__ = ("c", "len")
    def __init__(self, c, ln): self.c = c; self.len = ln
    def __repr__(self): return f"arr({self.len})"
class Vec_:
    __slots__ = ("c", "len", "cap", "ety")
    def __init__(self, c, ln, cap, ety): self.c = c; self.len = ln; self.cap = cap; self.ety = ety
    def __repr__(self): return f"vec(len={self.len})"
class SIter(Agg):
    """slice iterator: container slice pointer, start, end"""
    __slots__ = ("sl",)
    def __init__(self, sl, i, j): self.v = 0; self.f = (i, j); self.sl = sl
class OIter(Agg):
    """owning iterator over the elements start..end of a container of its own"""
    __slots__ = ("sl",)
    def __init__(self, sl, i, j): self.v = 0; self.f = (i, j); self.sl = sl
def SIter_(): return SIter
class Fn:
    __slots__ = ("key",)
    def __init__(self, key): self.key = key
    def __repr__(self): return f"fn {self.key}"
class StrV:
    __slots__ = ("s",)
    def __init__(self, s): self.s = s
    def __repr__(self): return f"{self.s!r}"
class Opq:
    __slots__ = ("why",)
    def __init__(self, why): self.why = why
    def __repr__(self): return f"?{self.why}"
class IoErr:
    """std::io::Error: kind or os code"""
    __slots__ = ("tag",)
    def __init__(self, tag): self.tag = tag
    def __repr__(self): return f"ioerr({self.tag})"
class DynPtr:
    __slots__ = ("p", "ty")
    def __init__(self, p, ty): self.p = p; self.ty = ty

# contents: persistent update chains
class CBase:
    __slots__ = ("id", "ety", "len")
    def __init__(self, i, ety): self.id = i; self.ety = ety
class CFill:
    __slots__ = ("v",)
    def __init__(self, v): self.v = v
class CStore:
    __slots__ = ("prev", "i", "v")
    def __init__(self, prev, i, v): self.prev = prev; self.i = i; self.v = v
class CCat:
    """prev below `at`, rest (shifted by off: rest index = j - at + off) from there"""
    __slots__ = ("prev", "at", "rest", "off")
    def __init__(self, prev, at, rest, off): self.prev = prev; self.at = at; self.rest = rest; self.off = off
class CList:
    __slots__ = ("vs",)
    def __init__(self, vs): self.vs = vs

class Frame:
    __slots__ = ("fn", "fid", "bb", "si", "dest", "ret")
    def __init__(self, fn, fid, dest, ret):
        self.fn = fn; self.fid = fid; self.bb = 0; self.si = 0; self.dest = dest; self.ret = ret
    def copy(self):
        f = Frame.__new__(Frame)
        f.fn = self.fn; f.fid = self.fid; f.bb = self.bb; f.si = self.si; f.dest = self.dest; f.ret = self.ret
        return f

class Panic(Exception):
    def __init__(self, msg): self.msg = msg
class Diverge(Exception): pass

class Program:
    def __init__(self, path):
        m = json.load(open(path))
        self.types = m["types"]; self.fns = m["fns"]; self.roots = m["roots"]
        for k, f in self.fns.items(): f["key"] = k
    def ty(self, i): return self.types[i]
    def isint(self, i): return self.types[i]["k"] in ("int", "uint")

class Outcome:
    pass

_consts = {}
fresh_id = [0]
def fresh():
    fresh_id[0] += 1
    return fresh_id[0]

class Interp:
    def __init__(self, prog, opts=None):
        self.p = prog
        self.opts = opts or {}
        self.out = {"paths": 0, "dead": 0, "panics": {}, "oblig": {}, "undecided": [], "unmodelled": {},
                    "violations": [], "ends": 0, "allowed_panics": 0, "splits": 0, "fns": set(), "calls": set(),
                    "diverged": 0}
        import models
        self.models = models
        self.deadline = None; self.wit_spent = 0; self.wit_end = 0
        self.maxpaths = self.opts.get("maxpaths", self.opts.get("paths", 5000000))

    # ------------------------------------------------------------ running
    def run(self, rootkey):
        st = State()
        fn = self.p.fns[rootkey]
        st.frames.append(Frame(fn, 0, None, None))
        self.stops = {}; self.halt = False
        self.explore([st], None)
        return self.out

    def explore(self, work, stop):
        """analyse the given states; those reaching `stop` are returned"""
        mine = self.stops.get(stop)
        if stop is not None:
            mine = []
            outer = self.stops.get(stop)
            self.stops[stop] = mine
        while work and not self.halt:
            st = work.pop()
            if self.deadline and time.time() > self.deadline:
                self.undecided(st, "time budget exhausted"); self.out["timeout"] = True
                self.halt = True; break
            try:
                self.run_path(st)
            except Split as s:
                self.out["splits"] += 1
                jp = None
                if s.join and len(s.alts) == 2 and not self.opts.get("nojoin"):
                    jp = joins.join_point(st.frames[-1], st.frames)
                alts = []
                for a in s.alts:
                    s2 = st.copy()
                    if s2.assume(a):
                        s2.trace = (st.trace, (self.where(st), a))
                        alts.append(s2)
                    else: self.out["dead"] += 1
                if jp is not None and len(alts) == 2:
                    parts = [joins.lin_part(x) for x in alts]
                    got = [self.explore([x], jp) for x in alts]
                    work.extend(self.join_all(st, s.alts, parts, got, jp))
                else: work.extend(reversed(alts))
            except Dead:
                self.out["dead"] += 1
            except Undecided as u:
                self.undecided(st, str(u))
            except RecursionError:
                self.undecided(st, "recursion")
            if self.out["paths"] > self.maxpaths:
                self.undecided(st, "path budget exhausted"); self.halt = True
            if self.opts.get("stop_first") and self.out["violations"]: self.halt = True
        if stop is not None:
            if outer is None: del self.stops[stop]
            else: self.stops[stop] = outer
        return mine

    def join_all(self, parent, alts, parts, got, jp):
        As, Bs = got
        out = []; Bs = list(Bs)
        for A in As:
            done = None
            for k, Bx in enumerate(Bs):
                j = joins.join(A, Bx, alts[:1], (parent, parts[0], parts[1]), bool(self.opts.get("joinlin")) and alts[1] == bnot(alts[0]))
                if j is not None:
                    j.trace = parent.trace
                    done = j; del Bs[k]; self.out["joins"] = self.out.get("joins", 0) + 1
                    break
            out.append(done or A)
        out += Bs
        sink = self.stops.get(jp)
        if sink is not None:          # an enclosing branch joins at the same point
            sink.extend(out); return []
        return out

    def undecided(self, st, why):
        self.out["paths"] += 1
        self.out["undecided"].append((why, self.where(st)))

    def where(self, st):
        if not st.frames: return "end"
        f = st.frames[-1]
        blk = f.fn["body"]["blocks"][f.bb]
        if f.si < len(blk["s"]):
            s = blk["s"][f.si]
            at = s[3] if s[0] == "=" else blk["at"]
        else: at = blk["at"]
        return f"{f.fn['name']} ({at})"
    def stack(self, st):
        out = []
        for f in st.frames:
            blk = f.fn["body"]["blocks"][f.bb]
            out.append(f"{f.fn['name']} @ {blk['at']}")
        return out

    def run_path(self, st):
        while True:
            f = st.frames[-1]
            body = f.fn["body"]
            blk = body["blocks"][f.bb]
            ss = blk["s"]
            while f.si < len(ss):
                self.statement(st, f, ss[f.si])
                f.si += 1
            st.nsteps += 1
            if st.nsteps >= (st.info.get("fuel") or 1 << 60):
                # no branch of the path is left open: the same steps follow for every input of the partition
                self.out["paths"] += 1
                self.obligation(st, F, "the operation comes to an end", self.where(st)); return
            if st.nsteps > self.opts.get("maxsteps", 400000):
                raise Undecided("step budget on one path")
            try:
                if self.terminator(st, f, blk["t"]): return
                if self.stops and st.frames:
                    g = st.frames[-1]
                    q = self.stops.get((len(st.frames), g.fid, g.bb))
                    if q is not None:
                        q.append(st); return
            except Panic as p:
                self.panic(st, p.msg)
                return
            except Diverge:
                self.out["diverged"] += 1; self.out["paths"] += 1
                return

    def panic(self, st, msg):
        self.out["paths"] += 1
        w = self.where(st)
        if st.mode == "allow":
            self.out["allowed_panics"] += 1
            o = self.out["oblig"].setdefault("rejected by a panic", {"ok": 0, "fail": 0, "undecided": 0}); o["ok"] += 1
            return
        k = f"no panic: {msg}"
        self.obligation(st, F, k, w)

    # ------------------------------------------------------------ obligations
    def obligation(self, st, cond, msg, where):
        o = self.out["oblig"].setdefault(msg, {"ok": 0, "fail": 0, "undecided": 0})
        if cond == T:
            o["ok"] += 1; return
        if st.taint:
            o["undecided"] += 1
            self.out["undecided"].append((f"{msg}: depends on {st.taint}", where)); return
        w = self.witness(st)
        if w is None:
            o["undecided"] += 1
            self.out["undecided"].append((f"{msg}: no consistent witness", where)); return
        if w is False:
            # partition is empty after all
            self.out["dead"] += 1
            return
        o["fail"] += 1
        self.out["violations"].append({"obligation": msg, "at": where, "stack": self.stack(st), "witness": w, "trace": self.trace(st)})
        if self.deadline:  # the verdict is known: look for further violations a little longer only
            self.deadline = min(self.deadline, time.time() + (15 if len(self.out["violations"]) >= 3 else 60))

    def trace(self, st):
        t = st.trace; out = []
        while t:
            out.append((t[1][0], self.showb(t[1][1]))); t = t[0]
        return list(reversed(out))[-60:]
    def showb(self, b):
        if b < 2: return str(bool(b))
        a = atomname(B.var[b])
        if B.lo[b] == 0 and B.hi[b] == 1: return a
        if B.lo[b] == 1 and B.hi[b] == 0: return "not " + a
        return f"[{len(support(b))} atoms]"

    def witness(self, st, depth=0):
        """a concrete point of the abstract state; False if empty; None if neither is established"""
        cond = st.pc
        forced = self.literals(st, st.lits)
        unsure = False; t0 = t1 = time.time()
        if depth == 0: self.wit_end = t0 + (4 if self.wit_spent < 40 else 1)
        for tries in range(400 if depth == 0 else 4):
            if tries and time.time() > self.wit_end: break
            asg = anysat(cond)
            if asg is None: return None if unsure else False
            w, core = self.cube(st, asg, forced, depth)
            if depth == 0:
                self.wit_spent += time.time() - t1; t1 = time.time()
                # a single refuted atom is progress: at most one such round per atom
                if w is False and len(core) == 1 and self.wit_spent < 40: self.wit_end = max(self.wit_end, t1 + 2)
            if w: return w
            if w is None:
                unsure = True
                if tries >= 6 and depth == 0: break
            if not core: return None if unsure else False
            c = T
            for a in core: c = band(c, lit(a, asg[a]))
            cond = band(cond, bnot(c))
        return None

    def literals(self, st, lits):
        """what the chosen values of atoms over linear forms say about those forms"""
        out = {}
        for a, v in lits.items():
            k = B.atoms[a]
            if k[0] == "ge": out[a] = (st.norm(k[1] if v else -k[1] - 1),)
            if k[0] == "lb":
                L = st.norm(k[1])
                e = div_lin(st, L, 1 << k[2]) if k[2] else L
                e = st.norm(e - div_lin(st, L, 1 << (k[2] + 1)) * 2)
                out[a] = (e - (1 if v else 0), K(1 if v else 0) - e)
        return out

    def cube(self, st, asg, forced, depth):
        """a point under one assignment of the boolean part: (witness or None or False,
        the linear atoms that the answer depends on)"""
        chosen = self.literals(st, asg)
        lits = dict(asg); lits.update(st.lits)
        cons = list(st.cons)
        for cs in forced.values(): cons += cs
        base = list(cons)
        for cs in chosen.values(): cons += cs
        seen = set(); todo = set()
        for c in cons: todo.update(c.vars())
        for v in list(st.bnd): todo.add(v)
        for v, R in st.sub.items(): todo.update(st.norm(R).vars())
        todo = list(todo)
        monos = []; inds = []; defs = []
        while todo:
            v = todo.pop()
            if v in seen: continue
            seen.add(v)
            inf = Vars.info[v]
            if inf[0] == "mono":
                monos.append(v)
                for u in inf[1:3]: todo.extend(st.norm(V(u)).vars())
            if inf[0] == "ind": inds.append(v)
            for D in Vars.defs[v]:
                D = st.norm(D)
                if D.t: defs.append(D); todo.extend(D.vars())
                elif D.c < 0: return False, ()
        bb = {v: st.bnd[v] for v in seen if v in st.bnd}
        cons += defs
        cons += list(st.cuts(cons))
        core = [a for a in chosen if a not in forced]
        def ev_in(p):
            def ev(L):
                L = st.norm(L); s = L.c
                for u, k in L.t: s += k * p.get(u, max(Vars.lo[u] or 0, 0))
                return s
            return ev
        def real(ev, a):
            k = B.atoms[a]
            return ev(k[1]) >= 0 if k[0] == "ge" else bool((ev(k[1]) >> k[2]) & 1)
        # first: the indicator variables as the boolean part has them
        p = None
        bb1 = dict(bb); known = True
        for v in inds:
            b = Vars.info[v][1]
            for a in support(b):
                if islinatom(a) and a not in lits:
                    k = B.atoms[a]
                    d = st.decide_ge(k[1]) if k[0] == "ge" else None
                    if d is None: known = False; break
                    lits[a] = d
            if not known: break
            val = 1 if evalbdd(b, lits) else 0
            bb1[v] = (val, val)
        if known: p = int_point(cons, bb1, 40)
        if not p and (inds or not known):
            # then: a boolean part to go with the indicator variables of a point
            q = int_point(cons, bb, 60)
            if q is False: return False, self.shrink(base + defs, chosen, core, bb)
            if q is None: return None, core
            ev = ev_in(q)
            cond = st.pc
            for v in inds:
                b = Vars.info[v][1]
                cond = band(cond, b if q.get(v, 0) == 1 else bnot(b))
                if cond == F: break
            for a in support(cond):
                if cond != F and B.atoms[a][0] in ("ge", "lb"): cond = band(cond, lit(a, real(ev, a)))
            if cond == F: return None, core
            lits = anysat(cond); lits.update(st.lits); p = q
        if p is False: return False, self.shrink(base + defs, chosen, core, bb)
        if p is None: return None, core
        ev = ev_in(p)
        for v in monos:
            inf = Vars.info[v]
            if ev(V(inf[1])) * ev(V(inf[2])) != p.get(v, 0):
                # products are only bounded by the polyhedron: fix one factor and retry
                if depth >= 3: return None, core
                for u in inf[1:3]:
                    U = st.norm(V(u))
                    if not U.t: continue
                    x = ev(U); lo, hi = st.interval(U)
                    tried = set()
                    for val in (x, lo, 1, 2, 3, hi):
                        if val is None or val in tried: continue
                        tried.add(val)
                        s2 = st.copy()
                        if not s2.add_eq(U - val): continue
                        w = self.witness(s2, depth + 1)
                        if w: return w, core
                return None, core
        if not self.consistent(st, p, lits, ev, seen): return None, core
        out = {}
        for v in list(seen) + list(st.sub):
            if Vars.info[v][0] == "base":
                out[f"{Vars.name[v]}#{v}"] = int(ev(V(v)))
        bits = {atomname(a): bool(v) for a, v in list(lits.items())[:80]}
        return {"values": out, "bits": bits}, core

    def shrink(self, base, chosen, core, bb):
        """a smaller set of chosen atoms that is already contradictory"""
        keep = list(core)
        if len(core) > 60: return keep
        for a in list(core):
            if time.time() > self.wit_end: break
            less = [x for x in keep if x != a]
            cons = list(base)
            for x in less: cons += chosen[x]
            if int_point(cons, bb, 4) is False: keep = less
        return keep

    def consistent(self, st, p, lits, ev, seen):
        """the point and the bit assignment satisfy the abstract state, atom by atom"""
        def real(a):
            k = B.atoms[a]
            if k[0] == "ge": return ev(k[1]) >= 0
            if k[0] == "lb": return bool((ev(k[1]) >> k[2]) & 1)
            return lits.get(a, False)
        def val(b):
            while b > 1: b = B.hi[b] if real(B.var[b]) else B.lo[b]
            return b == 1
        for a, v in lits.items():
            if real(a) != v: return False
        if not val(st.pc): return False
        for c in st.cons:
            if ev(c) < 0: return False
        for v in list(seen) + list(st.sub):
            inf = Vars.info[v]
            if inf[0] == "mono" and ev(V(v)) != ev(V(inf[1])) * ev(V(inf[2])): return False
            if inf[0] == "ind" and ev(V(v)) != (1 if val(inf[1]) else 0): return False
            if inf[0] == "div" and ev(V(v)) != ev(inf[1]) // inf[2]: return False
            lo, hi = st.bounds(v) if v not in st.sub else (None, None)
            x = ev(V(v))
            if (lo is not None and x < lo) or (hi is not None and x > hi): return False
        return True

    # ------------------------------------------------------------ values
    def const(self, st, c):
        if "int" in c:
            v = int(c["int"]); t = self.p.types[c["ty"]]
            if t["k"] == "bool": return T if v else F
            if t["k"] == "int":
                n = t["bits"]
                if v >= 1 << (n - 1): v -= 1 << n
            return K(v)
        if "agg" in c: return Agg(c["variant"], [self.const(st, x) for x in c["agg"]])
        if "fn" in c: return Fn(c["fn"])
        if "zst" in c: return UNIT
        if "arr" in c:
            vs = [self.const(st, x) for x in c["arr"]]
            return Arr(CList(vs), K(len(vs)))
        if "str" in c: 
            return Ptr(self.const_obj(st, c, StrV(c["str"])), (), K(len(c["str"])))
        if "ref" in c:
            v = self.const(st, c["ref"])
            o = self.const_obj(st, c, v)
            if isinstance(v, Arr):
                t = self.p.types[c["ty"]]
                if t.get("elem") is not None and self.p.types[t["elem"]]["k"] == "slice":
                    return Ptr(o, (("s", ZERO),), v.len)
            return Ptr(o)
        return Opq(c.get("opaque", "const"))
    def const_obj(self, st, c, v):
        o = ("const", id(c))
        if o not in st.mem: st.mem[o] = v
        return o

    def operand(self, st, f, o):
        k = o[0]
        if k == "c": return self.const(st, o[1])
        if k == "rc": return T if o[2] else F
        return self.load(st, self.place(st, f, o[1]))

    def place(self, st, f, pl):
        """abstract address of a place"""
        loc, proj = pl
        p = Ptr((f.fid, loc))
        for e in proj:
            if e == "*":
                v = self.load(st, p)
                if not isinstance(v, (Ptr, DynPtr)): raise Undecided(f"deref of {v!r}")
                p = v.p if isinstance(v, DynPtr) else v
            elif e[0] == "f":
                b = self.peek(st, p)
                if isinstance(b, (Ptr, DynPtr)):      # Box / Unique / NonNull internals
                    continue
                p = Ptr(p.obj, p.path + (("f", e[1]),))
            elif e[0] == "d":
                pass
            elif e[0] == "i":
                i = to_lin(st, self.load(st, Ptr((f.fid, e[1]))))
                p = self.elem(p, i)
            elif e[0] == "ci":
                if e[3]:
                    n = self.length(st, p)
                    p = self.elem(p, n - e[1])
                else: p = self.elem(p, K(e[1]))
            elif e[0] == "ss":
                n = self.length(st, p)
                to = (n - e[2]) if e[3] else K(e[2])
                p = self.subslice(p, K(e[1]), to - e[1])
            elif e[0] == "oc": pass
            else: raise Undecided(f"projection {e}")
        return p

    def elem(self, p, i):
        if p.path and p.path[-1][0] == "s":
            return Ptr(p.obj, p.path[:-1] + (("i", p.path[-1][1] + i),))
        return Ptr(p.obj, p.path + (("i", i),))
    def nth(self, st, p, i):
        """the i-th element from a thin pointer"""
        if not (p.path and p.path[-1][0] == "s"):
            if p.path and p.path[-1][0] == "i" and not isinstance(self.peek(st, p), (Arr, Vec_)):
                return Ptr(p.obj, p.path[:-1] + (("i", st.norm(p.path[-1][1] + i)),))
            if not isinstance(self.peek(st, p), (Arr, Vec_)):
                if i == 0: return p
                raise Undecided("pointer arithmetic")
        return self.elem(p, K(i))
    def offset(self, st, p, n, whole):
        """a thin element pointer, n elements on"""
        last = p.path[-1] if p.path else None
        if last and last[0] == "s": return Ptr(p.obj, p.path[:-1] + (("i", st.norm(last[1] + n)),))
        inner = self.peek(st, p)
        if isinstance(inner, (Arr, Vec_)) and not whole: return Ptr(p.obj, p.path + (("i", st.norm(n)),))
        if last and last[0] == "i": return Ptr(p.obj, p.path[:-1] + (("i", st.norm(last[1] + n)),))
        if st.norm(n) is ZERO: return p
        raise Undecided("pointer arithmetic")
    def subslice(self, p, off, ln):
        if p.path and p.path[-1][0] == "s":
            return Ptr(p.obj, p.path[:-1] + (("s", p.path[-1][1] + off),), ln)
        return Ptr(p.obj, p.path + (("s", off),), ln)
    def length(self, st, p):
        if p.meta is not None: return st.norm(p.meta)
        v = self.peek(st, p)
        if isinstance(v, (Arr, Vec_)): return st.norm(v.len)
        raise Undecided("length")

    def peek(self, st, p):
        try: return self.load(st, p)
        except Undecided: return None

    def load(self, st, p):
        try: v = st.mem[p.obj]
        except KeyError: v = self.unwritten(st, p)
        for e in p.path:
            if e[0] == "f":
                if isinstance(v, Agg):
                    if e[1] >= len(v.f): raise Undecided("field of another variant")
                    v = v.f[e[1]]
                elif isinstance(v, (Ptr, DynPtr)): pass
                elif isinstance(v, Opq): return v
                else: raise Undecided(f"field of {v!r}")
            elif e[0] == "i":
                if isinstance(v, SliceV): v = self.read(st, v.v.c, st.norm(v.off + e[1]), v.v)
                elif isinstance(v, (Arr, Vec_)): v = self.read(st, v.c, e[1], v)
                else: raise Undecided(f"index of {v!r}")
            elif e[0] == "s":
                return SliceV(v, e[1], p.meta)
        return v

    def unwritten(self, st, p):
        """values of types without contents need not be written before they are read"""
        for f in reversed(st.frames):
            if p.obj == (f.fid, p.obj[1]) and isinstance(p.obj[1], int):
                ls = f.fn["body"]["locals"]
                v = self.unit_value(ls[p.obj[1]]) if p.obj[1] < len(ls) else None
                if v is not None: return v
        raise Undecided(f"read of uninitialised {p.obj}")
    def unit_value(self, ty):
        if isinstance(ty, list): ty = ty[0]
        t = self.p.types[ty]
        if t["size"] != 0: return None
        if t["k"] == "enum":
            i = [k for k, x in enumerate(t["variants"]) if not x["fields"]]
            return Agg(i[0], ()) if len(i) == 1 else None
        if t["k"] == "tuple": fs = [self.unit_value(x) for x in t["fields"]]
        elif t["k"] == "struct": fs = [self.unit_value(x) for _, x in t["variants"][0]["fields"]]
        else: return None
        return None if any(x is None for x in fs) else Agg(0, fs)

    def store(self, st, p, val):
        if not p.path:
            st.mem[p.obj] = val; return
        root = st.mem.get(p.obj)
        st.mem[p.obj] = self.update(st, root, p.path, val)
    def update(self, st, v, path, val):
        if not path: return val
        e = path[0]
        if e[0] == "f":
            if v is None:      # partially initialised aggregate
                v = Agg(0, ())
            if isinstance(v, (Ptr, DynPtr)): return self.update(st, v, path[1:], val)
            if not isinstance(v, Agg): raise Undecided(f"field store into {v!r}")
            fs = list(v.f)
            while len(fs) <= e[1]: fs.append(None)
            fs[e[1]] = self.update(st, fs[e[1]], path[1:], val)
            return Agg(v.v, fs)
        if e[0] == "i":
            i = st.norm(e[1])
            if len(path) > 1:
                old = self.read(st, v.c, i, v)
                val = self.update(st, old, path[1:], val)
            c = self.write(st, v.c, i, val)
            if isinstance(v, Vec_): return Vec_(c, v.len, v.cap, v.ety)
            if isinstance(v, Arr): return Arr(c, v.len)
            raise Undecided(f"index store into {v!r}")
        raise Undecided("store through slice")

    def write(self, st, c, i, val):
        if isinstance(c, CList) and not i.t and 0 <= i.c < len(c.vs):
            vs = list(c.vs); vs[i.c] = val; return CList(vs)
        if isinstance(c, CStore) and st.norm(c.i) is i:
            return CStore(c.prev, i, val)
        return CStore(c, i, val)

    def read(self, st, c, i, holder=None):
        i = st.norm(i)
        while True:
            if isinstance(c, CStore):
                r = st.branch(b_eq(st.norm(c.i), i))
                if r: return c.v
                c = c.prev
            elif isinstance(c, CFill): return c.v
            elif isinstance(c, CCat):
                if st.branch(b_ge(i - st.norm(c.at))):
                    i = st.norm(i - c.at + c.off); c = c.rest
                else: c = c.prev
            elif isinstance(c, CList):
                k = enum_value(st, i, 4000)
                if k is None: raise Undecided("index into literal array")
                if not (0 <= k < len(c.vs)): raise Undecided("literal array index")
                return c.vs[k]
            elif isinstance(c, CBase):
                return self.base_elem(st, c, i)
            else: raise Undecided(f"content {c!r}")

    def base_elem(self, st, c, i):
        rd = st.reads.get(c.id, ())
        for (j, key, val) in rd:
            if st.norm(j) is i: return val
        for (j, key, val) in rd:
            if st.branch(b_eq(st.norm(j), i)): return val
        val = self.any(st, c.ety, True, f"elem{c.id}", key=(c.id, i))
        st.reads[c.id] = rd + ((i, i, val),)
        return val

    _keyed = {}
    def any(self, st, ty, word, name, key=None):
        """arbitrary value of a type"""
        if key is not None:
            k = (key, ty)
            if k in self._keyed: return self._keyed[k]
            v = self._any(st, ty, word, f"{name}")
            if not has_ptr(v): self._keyed[k] = v      # what it points to lives in this state only
            return v
        return self._any(st, ty, word, name)
    def _any(self, st, ty, word, name):
        t = self.p.types[ty]; k = t["k"]
        if k == "bool": return atom(("b", name, fresh()))
        if k in ("uint", "int"):
            n = t["bits"]
            if word: 
                u = fresh()
                return Bits([atom(("w", name, u, i)) for i in range(n)])
            lo, hi = trange(n, k == "int")
            return newvar(name, lo, hi)
        if k == "tuple": return Agg(0, [self._any(st, x, word, name + f".{i}") for i, x in enumerate(t["fields"])])
        if k == "struct":
            if t["def"].endswith("vec::Vec"):
                return self.any_vec(st, t["args"][0], name)
            if t["def"].endswith("PhantomData"): return UNIT
            if t["def"].endswith("boxed::Box"):
                o = ("any", fresh())
                st.mem[o] = self._any(st, t["args"][0], word, name)
                return Ptr(o)
            return Agg(0, [self._any(st, x, word, f"{name}.{n}") for n, x in t["variants"][0]["fields"]])
        if k == "array":
            return Arr(CBase(fresh(), t["elem"]), K(int(t["len"])))
        if k in ("ref", "ptr"):
            e = self.p.types[t["elem"]]
            o = ("any", fresh())
            if e["k"] == "slice":
                ln = newvar(name + ".len", 0, max_len(self, e["elem"]))
                st.mem[o] = Arr(CBase(fresh(), e["elem"]), ln)
                return Ptr(o, (("s", ZERO),), ln)
            st.mem[o] = self._any(st, t["elem"], word, name)
            return Ptr(o)
        if k == "float": return Opq("float")
        raise Undecided(f"any of type {t['name']}")
    def any_vec(self, st, ety, name):
        ln = newvar(name + ".len", 0, max_len(self, ety))
        cap = newvar(name + ".cap", 0, max_len(self, ety))
        st.add_ge(cap - ln)
        return Vec_(CBase(fresh(), ety), ln, cap, ety)

    # ------------------------------------------------------------ statements
    def statement(self, st, f, s):
        k = s[0]
        if k == "=":
            v = self.rvalue(st, f, s[2])
            pl = s[1]
            if not pl[1]: st.mem[(f.fid, pl[0])] = v
            else: self.store(st, self.place(st, f, pl), v)
        elif k == "sd":
            p = self.place(st, f, s[1])
            v = self.peek(st, p)
            self.store(st, p, Agg(s[2], v.f if isinstance(v, Agg) else ()))
        elif k == "dead": st.mem.pop((f.fid, s[1]), None)
        elif k == "assume":
            b = self.operand(st, f, s[1])
            if not st.branch(b): raise Dead()
        elif k == "copyno":
            src, dst, n = (self.operand(st, f, o) for o in s[1:4])
            n = enum_value(st, to_lin(st, n), 256)
            if n is None: raise Undecided("copy of unbounded length")
            vals = [self.load(st, self.nth(st, src, i)) for i in range(n)]
            for i, v in enumerate(vals): self.store(st, self.nth(st, dst, i), v)
        else: raise Undecided(f"statement {k}")

    def inttype(self, ty):
        t = self.p.types[ty]
        if t["k"] in ("uint", "int"): return t["bits"], t["k"] == "int"
        if t["k"] == "char": return 32, False
        return None

    def rvalue(self, st, f, r):
        k = r[0]
        if k == "use": return self.operand(st, f, r[1])
        if k == "bin" or k == "cbin":
            a = self.operand(st, f, r[2]); b = self.operand(st, f, r[3])
            return self.binop(st, r[1], a, b, r[4], k == "cbin")
        if k == "un":
            a = self.operand(st, f, r[2])
            return self.unop(st, r[1], a, r[3])
        if k == "cast": return self.cast(st, f, r)
        if k == "ref" or k == "addr": 
            p = self.place(st, f, r[2])
            return self.mkref(st, p)
        if k == "agg": return self.agg(st, f, r)
        if k == "discr":
            p = self.place(st, f, r[1])
            v = self.load(st, p)
            return self.discr(st, v, r[2])
        if k == "len": return self.length(st, self.place(st, f, r[1]))
        if k == "repeat":
            v = self.operand(st, f, r[1])
            return Arr(CFill(v), K(int(r[2])))
        raise Undecided(f"rvalue {k}")

    def mkref(self, st, p):
        if p.path and p.path[-1][0] == "s": return p
        return p

    def discr(self, st, v, ty):
        t = self.p.types[ty]
        if isinstance(v, Agg):
            if t["k"] == "enum":
                d = int(t["variants"][v.v]["discr"])
                # ordering-like negative discriminants
                return K(self.signed_discr(t, d))
            return ZERO
        if isinstance(v, IoErr) or isinstance(v, Opq): raise Undecided(f"discriminant of {v!r}")
        raise Undecided(f"discriminant of {v!r}")
    def signed_discr(self, t, d): return d

    def agg(self, st, f, r):
        kind, v, ty, ops = r[1], r[2], r[3], r[4]
        vals = [self.operand(st, f, o) for o in ops]
        if kind == "array": return Arr(CList(vals), K(len(vals)))
        if kind == "rawptr":
            p, meta = vals
            if isinstance(p, Ptr):
                if isinstance(meta, Agg): return p
                path = p.path
                if path and path[-1][0] == "i": path = path[:-1] + (("s", path[-1][1]),)
                return Ptr(p.obj, path, to_lin(st, meta))
            raise Undecided("raw pointer aggregate")
        if kind in ("tuple", "closure"): return Agg(0, vals)
        if kind == "adt":
            return Agg(v, vals)
        raise Undecided(f"aggregate {kind}")

    def binop(self, st, op, a, b, ty, checked):
        t = self.p.types[ty]
        it = self.inttype(ty)
        if isinstance(a, int) and isinstance(b, int) and t["k"] == "bool":
            r = {"BitAnd": band, "BitOr": bor, "BitXor": bxor,
                 "Eq": lambda x, y: bnot(bxor(x, y)), "Ne": bxor,
                 "Lt": lambda x, y: band(bnot(x), y), "Le": lambda x, y: bor(bnot(x), y),
                 "Gt": lambda x, y: band(x, bnot(y)), "Ge": lambda x, y: bor(x, bnot(y))}.get(op)
            if r is None: raise Undecided(f"bool {op}")
            return r(a, b)
        if it is None:
            if op == "Offset" and isinstance(a, Ptr):
                e = self.p.types[t["elem"]]
                return self.offset(st, a, to_lin(st, b), e["k"] == "array")
            if isinstance(a, (Ptr,)) and isinstance(b, Ptr) and op in ("Eq", "Ne"):
                raise Undecided("pointer comparison")
            if op in ("Eq", "Ne") and isinstance(a, Agg) and isinstance(b, Agg) and not a.f and not b.f:
                r = T if a.v == b.v else F
                return r if op == "Eq" else bnot(r)
            raise Undecided(f"{op} on {t['name']}")
        n, sg = it
        if op in ("Add", "Sub", "AddUnchecked", "SubUnchecked"):
            r, ov = add(st, a, b, n, sg, op.startswith("Sub"))
            return Agg(0, (r, ov)) if checked else r
        if op in ("Mul", "MulUnchecked"):
            r, ov = mul(st, a, b, n, sg, checked)
            return Agg(0, (r, ov)) if checked else r
        if op in ("Div", "Rem"):
            q, m = divrem(st, a, b, n, sg)
            return q if op == "Div" else m
        if op in ("BitAnd", "BitOr", "BitXor"):
            return bitop(st, {"BitAnd": "and", "BitOr": "or", "BitXor": "xor"}[op], a, b, n, sg)
        if op in ("Shl", "Shr", "ShlUnchecked", "ShrUnchecked"):
            s = amount_mod(st, b, n)
            return (shl if op.startswith("Shl") else shr)(st, a, s, n, sg)
        if op == "Eq": return cmp_eq(st, a, b, n, sg)
        if op == "Ne": return bnot(cmp_eq(st, a, b, n, sg))
        if op == "Ge": return cmp_ge(st, a, b, n, sg)
        if op == "Lt": return bnot(cmp_ge(st, a, b, n, sg))
        if op == "Le": return cmp_ge(st, b, a, n, sg)
        if op == "Gt": return bnot(cmp_ge(st, b, a, n, sg))
        if op == "Cmp":
            if st.branch(cmp_eq(st, a, b, n, sg)): return Agg(1, ())
            return Agg(2, ()) if st.branch(cmp_ge(st, a, b, n, sg)) else Agg(0, ())
        raise Undecided(f"binop {op}")

    def unop(self, st, op, a, ty):
        t = self.p.types[ty]
        if op == "Not":
            if t["k"] == "bool": return bnot(a)
            n, sg = self.inttype(ty)
            return bitnot(st, a, n, sg)
        if op == "Neg":
            n, sg = self.inttype(ty)
            return wrap(st, -to_lin(st, a, sg), n, sg)[0]
        if op == "PtrMetadata":
            if isinstance(a, Ptr):
                return st.norm(a.meta) if a.meta is not None else UNIT
        raise Undecided(f"unop {op}")

    def cast(self, st, f, r):
        kind, o, tf, tt = r[1], r[2], r[3], r[4]
        v = self.operand(st, f, o)
        if kind.startswith("IntToInt"):
            return self.int_cast(st, v, tf, tt)
        if kind.startswith("Transmute"):
            a, b = self.p.types[tf], self.p.types[tt]
            if self.inttype(tf) and self.inttype(tt): return self.int_cast(st, v, tf, tt)
            if a["k"] in ("ptr", "ref") and b["k"] in ("ptr", "ref"): return v
            if isinstance(v, Ptr):
                if self.inttype(tt): return K(1 << 12)      # an address: only null/alignment checks look at it
                return v
            x, y = (self.p.types[t["elem"]] if t["k"] == "array" else None for t in (a, b))
            if self.inttype(tf) and y is not None and y["k"] == "uint" and y["bits"] == 8:
                n = self.inttype(tf)[0]
                w = to_bits(st, v, n).b
                return Arr(CList([Bits(w[i:i + 8]) for i in range(0, n, 8)]), K(n // 8))
            if self.inttype(tt) and x is not None and x["k"] == "uint" and x["bits"] == 8:
                w = ()
                off = ZERO
                if isinstance(v, SliceV): v, off = v.v, v.off
                for i in range(self.inttype(tt)[0] // 8): w += tuple(to_bits(st, self.read(st, v.c, st.norm(off + i)), 8).b)
                return Bits(w)
            if self.inttype(tf) and b["k"] == "enum": return self.to_enum(st, v, tf, tt)
            if self.inttype(tf) and b["k"] == "struct": return self.wrap_int(v, tt)
            if self.inttype(tt) and isinstance(v, Agg):
                w = v
                if a["k"] == "enum":
                    if not w.f:
                        if any(x["fields"] for x in a["variants"]): return ZERO
                        return self.discr(st, w, tf)
                while isinstance(w, Agg) and len(w.f) == 1: w = w.f[0]
                if not isinstance(w, Agg): return w
            if a["k"] == b["k"] == "struct": return v
            raise Undecided(f"transmute {a['name']} -> {b['name']}")
        if "Unsize" in kind:
            e = self.p.types[self.p.types[tt]["elem"]] if self.p.types[tt].get("elem") is not None else None
            if e is not None and e["k"] == "slice":
                arr = self.load(st, v)
                return Ptr(v.obj, v.path + (("s", ZERO),), arr.len)
            src = self.p.types[tf].get("elem")
            if isinstance(v, Ptr):
                return DynPtr(v, src)
            return v
        if kind.startswith("PtrToPtr") or "PointerCoercion" in kind or kind == "BoxDerefTransmute": return v
        if "ReifyFnPointer" in kind: return v
        raise Undecided(f"cast {kind}")

    def wrap_int(self, v, ty):
        """a newtype (of any depth) around an integer"""
        t = self.p.types[ty]
        if t["k"] == "struct" and len(t["variants"][0]["fields"]) == 1:
            return Agg(0, (self.wrap_int(v, t["variants"][0]["fields"][0][1]),))
        return v
    def to_enum(self, st, v, tf, tt):
        n, sg = self.inttype(tf); t = self.p.types[tt]; vs = t["variants"]
        if not any(x["fields"] for x in vs):
            for i, x in enumerate(vs):
                d = int(x["discr"]) & ((1 << n) - 1)
                if sg and d >= 1 << (n - 1): d -= 1 << n
                if st.branch(cmp_eq(st, v, K(d), n, sg)): return Agg(i, ())
            raise Dead()
        if len(vs) == 2 and t.get("def", "").endswith("option::Option"):     # zero is the niche of a nonzero integer
            if st.branch(cmp_eq(st, v, ZERO, n, sg)): return Agg(0, ())
            return Agg(1, (self.wrap_int(v, vs[1]["fields"][0][1]),))
        raise Undecided("transmute to enum")
    def int_cast(self, st, v, tf, tt):
        a, b = self.p.types[tf], self.p.types[tt]
        if isinstance(v, Agg):       # field-less enum
            v = self.discr(st, v, tf)
        if b["k"] == "char" : n, sg = 32, False
        else: n, sg = self.inttype(tt)
        if a["k"] == "bool": return ind(st.simp(v)) if v > 1 else K(v)
        m, sf = self.inttype(tf) if self.inttype(tf) else (64, True)
        if isinstance(v, Bits):
            if n > m: return Bits(list(v.b) + [v.b[-1] if sf else F] * (n - m))
            return Bits(v.b[:n])
        L = st.norm(v)
        lo, hi = trange(n, sg)
        a_, b_ = st.interval(L)
        if a_ is not None and b_ is not None and a_ >= lo and b_ <= hi: return L
        if st.branch(b_ge(K(hi) - L)) and st.branch(b_ge(L - lo)): return L
        return mod_wrap(st, L, n, sg)

    # ------------------------------------------------------------ terminators
    def terminator(self, st, f, t):
        k = t[0]
        if k == "goto":
            self.goto(st, f, t[1]); return False
        if k == "switch":
            v = self.operand(st, f, t[1])
            ty = self.p.types[t[4]]
            if isinstance(v, int):
                try: b = st.branch(v)
                except Split as s:
                    s.join = self.opts.get("joinlin") or not any(islinatom(a) for a in support(s.alts[0]))
                    raise
                x = 1 if b else 0
                for val, tgt in t[2]:
                    if int(val) == x:
                        self.goto(st, f, tgt); return False
                self.goto(st, f, t[3]); return False
            n, sg = self.inttype(t[4])
            for val, tgt in t[2]:
                c = int(val)
                if sg and c >= 1 << (n - 1): c -= 1 << n
                if st.branch(cmp_eq(st, v, K(c), n, sg)):
                    self.goto(st, f, tgt); return False
            self.goto(st, f, t[3]); return False
        if k == "return":
            return self.ret(st, f)
        if k == "assert":
            c = self.operand(st, f, t[1])
            if not t[2]: c = bnot(c)
            if st.branch(c):
                self.goto(st, f, t[5]); return False
            raise Panic(f"assertion `{t[3]}` at {t[7]}")
        if k == "drop":
            self.goto(st, f, t[2]); return False
        if k == "call":
            return self.call(st, f, t)
        if k == "unreachable": 
            raise Undecided("unreachable code reached")
        raise Undecided(f"terminator {k}")

    def goto(self, st, f, bb):
        f.bb = bb; f.si = 0

    def ret(self, st, f):
        v = st.mem.get((f.fid, 0), UNIT)
        st.frames.pop()
        fid = f.fid
        n = len(f.fn["body"]["locals"])
        if not st.frames:
            self.out["paths"] += 1; self.out["ends"] += 1
            return True
        # escaping locals cannot be referenced after return
        for i in range(n): st.mem.pop((fid, i), None)
        g = st.frames[-1]
        if f.dest is not None: self.store(st, f.dest, v)
        if f.ret is None: raise Diverge()
        self.goto(st, g, f.ret)
        return False

    def call(self, st, f, t):
        fv = self.operand(st, f, t[1])
        args = [self.operand(st, f, a) for a in t[2]]
        dest = self.place(st, f, t[3])
        if not isinstance(fv, Fn):
            if isinstance(fv, Ptr) or isinstance(fv, Opq): raise Undecided("indirect call")
            raise Undecided(f"call of {fv!r}")
        return self.invoke(st, f, fv.key, args, dest, t[4])

    def invoke(self, st, f, key, args, dest, target):
        fn = self.p.fns[key]
        name = fn["name"]
        m = self.models.lookup(self, fn)
        if m is not None:
            r = m(self, st, fn, args)
            if isinstance(r, TailCall):
                return self.invoke(st, f, r.key, r.args, dest, target)
            if target is None: raise Diverge()
            self.store(st, dest, r)
            self.goto(st, f, target)
            return False
        if fn["kind"] == "virtual":
            raise Undecided(f"virtual call {name}")
        if fn["body"] is None:
            self.out["unmodelled"][name] = self.out["unmodelled"].get(name, 0) + 1
            raise Undecided(f"unmodelled {name}")
        self.push(st, fn, args, dest, target)
        return False

    def push(self, st, fn, args, dest, target):
        if len(st.frames) > 60: raise Undecided("call depth")
        self.out["fns"].add(fn["name"])
        body = fn["body"]
        st.fid += 1
        fid = st.fid
        argc = body["argc"]
        if fn["closure"] and fn["kind"] == "item":
            # closure bodies take the elements of the argument tuple
            if len(args) != 2 or not isinstance(args[1], Agg): raise Undecided("closure call")
            args = [args[0]] + list(args[1].f)
        if len(args) != argc: raise Undecided(f"argument count of {fn['name']}: {len(args)} vs {argc}")
        for i, a in enumerate(args): st.mem[(fid, i + 1)] = a
        fr = Frame(fn, fid, dest, target)
        st.frames.append(fr)

def has_ptr(v):
    return isinstance(v, Ptr) or isinstance(v, Agg) and any(has_ptr(x) for x in v.f)
class TailCall:
    def __init__(self, key, args): self.key = key; self.args = args

class SliceV:
    """the unsized value behind a slice reference (only len/reborrow make sense)"""
    __slots__ = ("v", "off", "len")
    def __init__(self, v, off, ln): self.v = v; self.off = off; self.len = ln

def amount_mod(st, b, n):
    s = amount(st, b, n)
    if s is None: s = amount(st, mod_lin(st, to_lin(st, b), n), n)  # the amount is taken modulo the width
    if s is None: raise Undecided("shift by an unbounded amount")
    return s % n

def max_len(it, ety):
    sz = it.p.types[ety]["size"] or 1
    return (1 << 57) // max(1, sz)

def int_point(cons, bb, budget):
    import lp
    cons = [c for c in cons if c.t or c.c < 0]
    r = lp.feasible(Vars, cons, bb, 60, budget * 20, True)
    if r is False or isinstance(r, dict): return r
    if r is True: return None
    b = [budget]
    def rec(bb, depth):
        p = lp_feasible(cons, True, extra_bounds=bb)
        if p is False: return False
        for v in sorted(p):
            if v >= 0 and p[v].denominator != 1:
                if b[0] <= 0 or depth <= 0: return None
                b[0] -= 1
                fl = p[v].numerator // p[v].denominator
                lo, hi = bb.get(v, (None, None))
                x = dict(bb); x[v] = (lo, fl if hi is None else min(hi, fl))
                r = rec(x, depth - 1)
                if r not in (False, None): return r
                y = dict(bb); y[v] = (fl + 1 if lo is None else max(lo, fl + 1), hi)
                r2 = rec(y, depth - 1)
                if r2 not in (False, None): return r2
                return None if (r is None or r2 is None) else False
        return {v: int(x) for v, x in p.items() if v >= 0}
    return rec(bb, 40)
