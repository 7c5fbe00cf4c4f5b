"""State joining: the two sides of a branch on bit values are analysed up to the immediate
postdominator of the branch and then joined exactly (if-then-else on the branch condition).
States whose difference cannot be represented stay apart."""
from ops import *

def succs(t):
    k = t[0]
    if k == "goto": return [t[1]]
    if k == "switch": return [int(x[1]) for x in t[2]] + [t[3]]
    if k == "drop": return [t[2]]
    if k == "call": return [t[4]] if t[4] is not None else []
    if k == "assert": return [t[5]]
    return []

def cfg(body):
    c = body.get("_cfg")
    if c is None:
        bs = body["blocks"]; n = len(bs); EX = n
        su = [[int(x) for x in succs(b["t"])] for b in bs]
        ex = [EX] if False else None
        g = [list(dict.fromkeys(s)) for s in su] + [[]]
        for i, b in enumerate(bs):
            if b["t"][0] == "return": g[i] = [EX]
        # blocks that reach the exit
        pred = [[] for _ in range(n + 1)]
        for i in range(n):
            for s in g[i]: pred[s].append(i)
        ok = {EX}; todo = [EX]
        while todo:
            x = todo.pop()
            for p in pred[x]:
                if p not in ok: ok.add(p); todo.append(p)
        # postdominators (iterative sets; bodies are small)
        pd = {i: None for i in ok}; pd[EX] = {EX}
        ch = True
        order = sorted(ok - {EX}, reverse=True)
        while ch:
            ch = False
            for i in order:
                ss = [pd[s] for s in g[i] if s in ok and pd[s] is not None]
                if not ss: continue
                r = set.intersection(*ss) | {i}
                if pd[i] != r: pd[i] = r; ch = True
        ip = {}
        for i in ok - {EX}:
            if pd[i] is None: continue
            cand = pd[i] - {i}
            for c_ in cand:
                if all(c_ == d or d in pd[c_] for d in cand): ip[i] = c_
        acyc = {}
        for i in ip:
            j = ip[i]; seen = set(); todo = list(g[i]); cyc = False
            while todo:
                x = todo.pop()
                if x == j or x in seen or x == EX: continue
                if x == i: cyc = True; break
                seen.add(x); todo += g[x]
            acyc[i] = not cyc
        c = body["_cfg"] = (ip, acyc, EX, live(body, g, n), loop_heads(g, n))
    return c

def loop_heads(g, n):
    """block -> header of the innermost natural loop around it"""
    pred = [[] for _ in range(n)]
    for i in range(n):
        for s in g[i]:
            if s < n: pred[s].append(i)
    dom = {0: {0}}; order = [0]; seen = {0}
    for i in order:
        for s in g[i]:
            if s < n and s not in seen: seen.add(s); order.append(s)
    full = set(order)
    for i in order[1:]: dom[i] = full
    ch = True
    while ch:
        ch = False
        for i in order[1:]:
            ps = [dom[p] for p in pred[i] if p in full]
            r = (set.intersection(*ps) if ps else set()) | {i}
            if r != dom[i]: dom[i] = r; ch = True
    loops = {}
    for i in order:
        for h in g[i]:
            if h < n and h in dom[i]:
                b = loops.setdefault(h, {h}); todo = [i]
                while todo:
                    x = todo.pop()
                    if x in b: continue
                    b.add(x); todo += [p for p in pred[x] if p in full]
    r = {}
    for h, b in sorted(loops.items(), key=lambda x: -len(x[1])):
        for x in b: r[x] = h
    return r

def live(body, g, n):
    """locals live on entry of each block; borrowed locals are always live"""
    bs = body["blocks"]; use = []; deff = []; borrowed = set()
    def pl_use(p, u):
        u.add(p[0])
        for e in p[1]:
            if e != "*" and e[0] == "i": u.add(e[1])
    def op(o, u):
        if o[0] in ("p", "m"): pl_use(o[1], u)
    for b in bs:
        u = set(); d = set()
        def add(s): u.update(x for x in s if x not in d)
        for s in b["s"]:
            r = set()
            if s[0] == "=":
                rv = s[2]; k = rv[0]
                if k in ("use",): op(rv[1], r)
                elif k in ("bin", "cbin"): op(rv[2], r); op(rv[3], r)
                elif k == "un": op(rv[2], r)
                elif k == "cast": op(rv[2], r)
                elif k in ("ref", "addr"):
                    pl_use(rv[2], r)
                    if "*" not in rv[2][1]: borrowed.add(rv[2][0])
                elif k == "agg":
                    for o in rv[4]: op(o, r)
                elif k in ("discr", "len"): pl_use(rv[1], r)
                elif k == "repeat": op(rv[1], r)
                if s[1][1]: pl_use(s[1], r)
                add(r)
                if not s[1][1]: d.add(s[1][0])
            elif s[0] == "sd": pl_use(s[1], r); add(r)
            elif s[0] == "assume": op(s[1], r); add(r)
            elif s[0] == "dead": d.add(s[1])
        t = b["t"]; r = set(); k = t[0]
        if k == "switch": op(t[1], r)
        elif k == "assert": op(t[1], r)
        elif k == "drop": pl_use(t[1], r)
        elif k == "return": r.add(0)
        elif k == "call":
            op(t[1], r)
            for o in t[2]: op(o, r)
            if t[3][1]: pl_use(t[3], r)
        add(r)
        if k == "call" and not t[3][1]: d.add(t[3][0])
        use.append(u); deff.append(d)
    li = [set(u) for u in use] + [set()]
    ch = True
    while ch:
        ch = False
        for i in range(n - 1, -1, -1):
            o = set()
            for s in g[i]: o |= li[s]
            x = use[i] | (o - deff[i])
            if x != li[i]: li[i] = x; ch = True
    return li, borrowed

def join_point(f, frames):
    """(depth, frame id, block) where the two sides of the branch ending the current block meet"""
    ip, acyc, EX, _, heads = cfg(f.fn["body"])
    j = ip.get(f.bb)
    h = heads.get(f.bb)
    if h is not None and h != f.bb and (j is None or not acyc[f.bb] or j == EX or heads.get(j) != h):
        return (len(frames), f.fid, h)          # meet again in the next iteration, if at all
    if j is None or not acyc[f.bb]: return None
    if j == EX:
        if len(frames) < 2 or f.ret is None: return None
        return (len(frames) - 1, frames[-2].fid, f.ret)
    return (len(frames), f.fid, j)

class NoJoin(Exception): pass
HULL = SIDES = None
def side_bounds(st, L):
    """bounds of the form L which the state knows without solving"""
    L = st.norm(L)
    lo, hi = st.interval(L)
    nt = (-L).t
    for c in st.cons:
        if c.t == L.t:              # L.t + c.c >= 0
            x = L.c - c.c
            if lo is None or x > lo: lo = x
        elif c.t == nt:
            x = c.c + L.c
            if hi is None or x < hi: hi = x
    return lo, hi

def join_values(c, a, b, st, ty=None):
    """the value that equals a where c holds and b elsewhere"""
    from interp import Agg, Ptr, Arr, Vec_, CStore, CList, SIter_, DynPtr, IoErr, Opq, CFill
    if a is b: return a
    if isinstance(a, int) and isinstance(b, int) and not isinstance(a, bool): return bite(c, a, b)
    if isinstance(a, Bits) and isinstance(b, Bits):
        if len(a.b) != len(b.b): raise NoJoin()
        return Bits([bite(c, x, y) for x, y in zip(a.b, b.b)])
    if isinstance(a, Lin) and isinstance(b, Lin):
        d = a - b
        if not d.t:
            r = b + ind(c) * d.c
            if HULL is not None: HULL.append((r, a, b))
            return r
        if SIDES is not None:
            # equal up to a constant under what one side knows
            A, B_ = SIDES
            da = a - A.norm(b)
            if not da.t: r = st.norm(b) + ind(c) * da.c
            else:
                db = b - B_.norm(a)
                r = None if db.t else st.norm(a) + ind(bnot(c)) * db.c
            if r is not None:
                if HULL is not None: HULL.append((r, a, b))
                return r
        # the sides differ in 0/1 variables: guard each by its side
        if any(Vars.info[v][0] != "ind" for v, _ in d.t): raise NoJoin()
        r = b
        for v, k in d.t:
            p = Vars.info[v][1]
            ka, kb = a.coef(v), b.coef(v)
            on, off = band(p, c), band(p, bnot(c))
            if band(st.pc, on) == F: on = F
            elif band(st.pc, off) == F: on = p
            if band(st.pc, off) == F: off = F
            elif on == F: off = p
            r = r - ind(p) * kb + ind(on) * ka + ind(off) * kb
        return r + ind(c) * d.c
    if isinstance(a, Bits) and isinstance(b, Lin): 
        return join_values(c, a, lin_bits(st, b, len(a.b)), st)
    if isinstance(a, Lin) and isinstance(b, Bits):
        return join_values(c, lin_bits(st, a, len(b.b)), b, st)
    if type(a) is not type(b): raise NoJoin()
    if isinstance(a, Agg):
        if a.v != b.v or len(a.f) != len(b.f): raise NoJoin()
        if isinstance(a, SIter_()) and not ptr_eq(a.sl, b.sl): raise NoJoin()
        fs = [None if x is None and y is None else join_values(c, x, y, st) for x, y in zip(a.f, b.f)]
        if isinstance(a, SIter_()): return type(a)(a.sl, fs[0], fs[1])
        return Agg(a.v, fs)
    if isinstance(a, Ptr):
        if not ptr_eq(a, b): raise NoJoin()
        return a
    if isinstance(a, Arr):
        if a.len is not b.len: raise NoJoin()
        return Arr(join_contents(c, a.c, b.c, st), a.len)
    if isinstance(a, Vec_):
        if a.cap is not b.cap: raise NoJoin()
        return Vec_(join_contents(c, a.c, b.c, st), join_values(c, a.len, b.len, st), a.cap, a.ety)
    if isinstance(a, IoErr):
        if a.tag != b.tag: raise NoJoin()
        return a
    if isinstance(a, Opq):
        if a.why == b.why: return a
    if getattr(a, "key", 0) and getattr(a, "key", 0) == getattr(b, "key", 1): return a
    raise NoJoin()

def ptr_eq(a, b):
    return a.obj == b.obj and a.path == b.path and a.meta is b.meta

def join_contents(c, a, b, st):
    from interp import CStore, CList, CFill
    if a is b: return a
    if isinstance(a, CList) and isinstance(b, CList):
        if len(a.vs) != len(b.vs): raise NoJoin()
        return CList([join_values(c, x, y, st) for x, y in zip(a.vs, b.vs)])
    if isinstance(a, CFill) and isinstance(b, CFill): return CFill(join_values(c, a.v, b.v, st))
    if isinstance(a, CStore) and isinstance(b, CStore) and st.norm(a.i) is st.norm(b.i):
        return CStore(join_contents(c, a.prev, b.prev, st), a.i, join_values(c, a.v, b.v, st))
    raise NoJoin()

def lin_part(st): return (st.cons, dict(st.sub), dict(st.bnd))
def lin_same(p, st): return (p[0] is st.cons or p[0] == st.cons) and p[1] == st.sub and p[2] == st.bnd

def join(A, B, cond, base=None, hull=False):
    """exact join of two states at the same program point, or None.
    base: (parent state, linear part of A's side, linear part of B's side)
    hull: keep the bounds both sides know of a joined linear form"""
    global HULL, SIDES
    HULL, SIDES = ([], (A, B)) if hull else (None, None)
    S = join_states(A, B, cond, base, hull)
    if S is not None and HULL:
        seen = set()
        for r, a, b in HULL:
            if (r, a, b) in seen: continue
            seen.add((r, a, b))
            la, ha = side_bounds(A, a); lb_, hb = side_bounds(B, b)
            if la is not None and lb_ is not None and not S.add_ge(S.norm(r - min(la, lb_))): return None
            if ha is not None and hb is not None and not S.add_ge(S.norm(K(max(ha, hb)) - r)): return None
    HULL = SIDES = None
    return S

class LinPart:
    pass
def common(base, A, B):
    """the parent's linear part with what both sides have added since, provided they added
    the same (capacities of vectors grown on both sides)"""
    P, a, b = base
    if A.sub != a[1] or B.sub != b[1]: return None
    na, nb = len(a[0]), len(b[0])
    if A.cons[:na] != a[0] or B.cons[:nb] != b[0] or A.cons[na:] != B.cons[nb:]: return None
    da = {v: x for v, x in A.bnd.items() if a[2].get(v) != x}
    db = {v: x for v, x in B.bnd.items() if b[2].get(v) != x}
    if da != db or any(v not in A.bnd for v in a[2]) or any(v not in B.bnd for v in b[2]): return None
    if any(v in P.bnd for v in da): return None
    L = LinPart()
    L.cons = P.cons + A.cons[na:]; L.consset = P.consset | frozenset(A.cons[na:])
    L.sub = P.sub; L.bnd = dict(P.bnd); L.bnd.update(da)
    return L

def join_states(A, B, cond, base, hull):
    if len(A.frames) != len(B.frames): return None
    for x, y in zip(A.frames, B.frames):
        if x.fid != y.fid or x.bb != y.bb or x.si != y.si: return None
    if A.mode != B.mode or A.taint != B.taint: return None
    lp = None
    if lin_same((A.cons, A.sub, A.bnd), B): lp = A
    elif base is not None and lin_same(base[1], A) and lin_same(base[2], B): lp = base[0]
    elif hull and base is not None: lp = common(base, A, B)
    if lp is None: return None
    pc = bor(A.pc, B.pc)
    c = None
    for cand in cond:
        if band(A.pc, bnot(cand)) == F and band(B.pc, cand) == F: c = cand; break
    if c is None and hull and anylin(cond[0]):      # A is of the side where cond holds, B of the other
        c = cond[0]
        pc = A.pc if A.pc == B.pc else bite(c, A.pc, B.pc)
    if c is None:
        if band(A.pc, B.pc) != F: return None
        c = A.pc
    S = A.copy()
    S.cons = lp.cons; S.consset = lp.consset; S.sub = dict(lp.sub); S.bnd = dict(lp.bnd)
    S.pc = pc
    S.lits = {a: v for a, v in A.lits.items() if B.lits.get(a) is v}
    S.aval = {}; S.ivc = {}
    S.fid = max(A.fid, B.fid)
    S.nsteps = max(A.nsteps, B.nsteps)
    dead = None
    mem = {}
    fr = A.frames[-1]
    _, _, _, (li, borrowed), _ = cfg(fr.fn["body"])
    alive = li[fr.bb]
    onstack = {f.fid for f in A.frames}
    try:
        for k in A.mem:
            a = A.mem[k]
            if k not in B.mem:
                if isinstance(k[0], int) and k[0] in onstack: continue
                mem[k] = a; continue
            b = B.mem[k]
            if a is b: mem[k] = a; continue
            if k[0] == fr.fid and k[1] not in alive and k[1] not in borrowed: continue
            mem[k] = join_values(c, a, b, S)
        for k in B.mem:
            if k not in A.mem and not (isinstance(k[0], int) and k[0] in onstack): mem[k] = B.mem[k]
        reads = dict(A.reads)
        for k, rb in B.reads.items():
            ra = reads.get(k)
            if ra is None: reads[k] = rb; continue
            if ra is rb or ra == rb: continue
            m = list(ra)
            for e in rb:
                for x in m:
                    if x[0] is e[0]:
                        if x[2] is not e[2] and x[2] != e[2]: raise NoJoin()
                        break
                else: m.append(e)
            reads[k] = tuple(m)
        S.mem = mem; S.reads = reads
    except NoJoin: return None
    if not S._units(): return None
    return S
