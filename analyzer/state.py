"""Abstract state: linear constraints over program quantities, a boolean function over
bit atoms (the part of the trace partition that concerns single bits), and memory."""
from dom import *
import lp

class Split(Exception):
    """The current step needs a finer partition: a list of boolean functions whose
    disjunction is valid; each must be a literal of a linear atom or pure-bit."""
    def __init__(self, alts): self.alts = alts; self.join = False
class Undecided(Exception):
    """The step cannot be represented; the path is abandoned and counted."""
class Dead(Exception):
    """infeasible partition"""

class Bits:
    __slots__ = ("b", "_h")
    def __init__(self, b): self.b = tuple(b); self._h = None
    def __eq__(self, o): return isinstance(o, Bits) and self.b == o.b
    def __hash__(self):
        if self._h is None: self._h = hash(self.b)
        return self._h
    def __repr__(self):
        if all(x < 2 for x in self.b): return f"bits({sum(x << i for i, x in enumerate(self.b)):#x})"
        return f"bits<{len(self.b)}>"
    def const(self):
        r = 0
        for i, x in enumerate(self.b):
            if x > 1: return None
            r |= x << i
        return r

def islinatom(i): return B.atoms[i][0] == "ge"
_al = {}
def anylin(b):
    """does the boolean function mention a linear atom"""
    r = _al.get(b)
    if r is None: r = _al[b] = any(B.atoms[a][0] == "ge" for a in support(b))
    return r

LPSTAT = {"lp": 0, "hit": 0}
_lpcache = {}

def atomname(i):
    k = B.atoms[i]
    if k[0] == "ge": return f"({k[1]} >= 0)"
    return str(k)

class LinState:
    """polyhedron with substitutions; copied on write by State.copy"""
    __slots__ = ("cons", "sub", "bnd", "occ")
    def __init__(self):
        self.cons = []; self.sub = {}; self.bnd = {}

MONO = {}
def mono_norm(st, u, v):
    from ops import mono
    return mono(st, st.norm(V(u)), st.norm(V(v)))

class State:
    __slots__ = ("frames", "mem", "cons", "sub", "bnd", "pc", "lits", "aval", "reads",
                 "ivc", "mode", "taint", "trace", "fid", "consset", "info", "loops", "live", "nsteps")
    def __init__(self):
        self.frames = []; self.mem = {}; self.cons = (); self.consset = frozenset()
        self.sub = {}; self.bnd = {}; self.pc = T; self.lits = {}; self.aval = {}; self.ivc = {}
        self.reads = {}; self.mode = "forbid"; self.taint = None; self.trace = None
        self.fid = 0; self.info = {}; self.loops = {}; self.nsteps = 0
    def copy(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem); s.cons = self.cons; s.consset = self.consset
        s.sub = dict(self.sub); s.bnd = dict(self.bnd); s.pc = self.pc
        s.lits = dict(self.lits); s.aval = dict(self.aval); s.ivc = dict(self.ivc)
        s.reads = dict(self.reads); s.mode = self.mode; s.taint = self.taint
        s.trace = self.trace; s.fid = self.fid; s.info = dict(self.info)
        s.loops = dict(self.loops); s.nsteps = self.nsteps
        return s

    # ---------------------------------------------------------- linear part
    def norm(self, L):
        while True:
            sub = self.sub; ch = False
            if L.t:
                for v, k in L.t:
                    r = sub.get(v)
                    if r is None:
                        inf = Vars.info[v]
                        if inf[0] == "ind":
                            if self.lits:
                                b = self.simp_bits(inf[1])
                                if b != inf[1]: r = ind(b)
                        elif inf[0] == "mono":
                            if inf[1] in sub or inf[2] in sub: r = mono_norm(self, inf[1], inf[2])
                        elif inf[0] == "div":
                            a, b = self.bounds(v)
                            if a == b and a is not None: r = K(a)
                    if r is not None:
                        L = L + (r - V(v)) * k; ch = True
                        break
            if not ch: return L
    def bounds(self, v):
        b = self.bnd.get(v)
        if b is None: b = (Vars.lo[v], Vars.hi[v])
        inf = Vars.info[v]
        if inf[0] == "div":
            r = self.ivc.get(v)
            if r is None:
                self.ivc[v] = b          # cuts cycles
                lo, hi = self.interval(self.norm(inf[1]))
                a, c = b
                if lo is not None and (a is None or lo // inf[2] > a): a = lo // inf[2]
                if hi is not None and (c is None or hi // inf[2] < c): c = hi // inf[2]
                r = (a, c); self.ivc[v] = r
            return r
        return b
    def interval(self, L):
        lo = hi = L.c
        for v, k in L.t:
            a, b = self.bounds(v)
            if k < 0: a, b = b, a
            lo = None if (lo is None or a is None) else lo + k * a
            hi = None if (hi is None or b is None) else hi + k * b
        return lo, hi
    def relevant(self, L):
        """constraints connected to the variables of L (closure)"""
        todo = list(L.vars()); seen = set(todo); out = set()
        cons = self.cons; used = [False] * len(cons)
        byv = self.info.get("_byv")
        if byv is None or byv[0] is not cons:
            d = {}
            for i, c in enumerate(cons):
                for v, _ in c.t: d.setdefault(v, []).append(i)
            byv = (cons, d); self.info["_byv"] = byv
        d = byv[1]
        while todo:
            v = todo.pop()
            for i in d.get(v, ()):
                if not used[i]:
                    used[i] = True
                    out.add(cons[i])
                    for u, _ in cons[i].t:
                        if u not in seen: seen.add(u); todo.append(u)
            for D in Vars.defs[v]:
                D = self.norm(D)
                if D not in out and D.t:
                    out.add(D)
                    for u, _ in D.t:
                        if u not in seen: seen.add(u); todo.append(u)
            if Vars.info[v][0] == "mono":
                for D in self.envelope(v):
                    if D not in out and D.t:
                        out.add(D)
                        for u, _ in D.t:
                            if u not in seen: seen.add(u); todo.append(u)
        return out, seen
    def envelope(self, p):
        """McCormick envelope of the product variable p under the current bounds"""
        _, u, v = Vars.info[p]
        if u not in self.bnd and v not in self.bnd: return ()
        (a, b), (c, d) = self.bounds(u), self.bounds(v)
        U, W, r = V(u), V(v), V(p); ds = []
        if a is not None and c is not None: ds.append(r - U * c - W * a + a * c)
        if b is not None and d is not None: ds.append(r - U * d - W * b + b * d)
        if a is not None and d is not None: ds.append(U * d + W * a - r - a * d)
        if b is not None and c is not None: ds.append(U * c + W * b - r - b * c)
        return [self.norm(D) for D in ds]
    def cuts(self, cons):
        """integer rounding of constraints: m*M + rest + c >= 0 with rest <= R gives M + floor((c+R)/m) >= 0"""
        out = set()
        for L in cons:
            if len(L.t) < 2: continue
            for m in {abs(k) for _, k in L.t if abs(k) > 1}:
                R = L.c; M = []
                for v, k in L.t:
                    if k % m == 0: M.append((v, k // m)); continue
                    a, b = self.bounds(v)
                    b = b if k > 0 else a
                    if b is None: break
                    R += k * b
                else:
                    if len(M) < len(L.t): out.add(Lin(R // m, tuple(M)))
        return out
    def lp_infeasible(self, extra):
        r"""is state /\ (extra >= 0) empty (integer-tightened rational test)"""
        rel, seen = self.relevant(extra)
        bb = {v: self.bnd[v] for v in seen if v in self.bnd}
        key = (frozenset(rel), extra, tuple(sorted(bb.items())))
        r = _lpcache.get(key)
        if r is not None:
            LPSTAT["hit"] += 1
            return r
        LPSTAT["lp"] += 1
        rel = rel | self.cuts(rel) | self.cuts((extra,))
        f = lp.feasible(Vars, [extra] + sorted(rel, key=lambda l: (len(l.t), l.t, l.c)), bb)
        if f is None:
            LPSTAT["slow"] = LPSTAT.get("slow", 0) + 1
            f = int_feasible([extra] + sorted(rel, key=lambda l: (len(l.t), l.t, l.c)), bb, 12)
        r = not f
        _lpcache[key] = r
        return r
    def decide_ge(self, L):
        """True / False / None for L >= 0"""
        L = norm_ge(self.norm(L))
        if not L.t: return L.c >= 0
        lo, hi = self.interval(L)
        if lo is not None and lo >= 0: return True
        if hi is not None and hi < 0: return False
        neg = norm_ge(-L - 1)
        if L in self.consset: return True
        if neg in self.consset: return False
        nt = neg.t
        for c in self.cons:
            if c.t == L.t:
                if c.c <= L.c: return True
            elif c.t == nt:
                if c.c <= neg.c: return False
        if len(L.t) == 1 and Vars.info[L.t[0][0]][0] == "base" and not self.cons: return None
        if self.lp_infeasible(neg): return True
        if self.lp_infeasible(L): return False
        return None
    def add_ge(self, L):
        """assume L >= 0 (L normalised here); False if syntactically empty"""
        L = norm_ge(self.norm(L))
        if not L.t: return L.c >= 0
        neg = -L
        if neg in self.consset or norm_ge(neg) in self.consset:
            return self.add_eq(L)
        for v, _ in L.t:
            if Vars.info[v][0] == "div" and any(self.norm(D) is neg for D in Vars.defs[v]): return self.add_eq(L)
        if len(L.t) == 1:
            (v, k), = L.t
            a, b = self.bounds(v)
            if k > 0:
                x = -(L.c // k)
                if a is None or x > a: a = x
            else:
                x = L.c // (-k)
                if b is None or x < b: b = x
            if a is not None and b is not None:
                if a > b: return False
                if a == b:
                    return self.subst(v, K(a))
            self.bnd[v] = (a, b)
            self.aval = {}; self.ivc = {}
            return True
        if L in self.consset: return True
        # same linear part: keep tighter constant / detect contradiction
        for c in self.cons:
            if c.t == neg.t:
                # c: c.c + n >= 0 , L: L.c - n >= 0  -> -c.c <= n <= L.c
                if -c.c > L.c: return False
                if -c.c == L.c: return self.add_eq(L)
        self.cons = tuple(c for c in self.cons if not (c.t == L.t and c.c >= L.c)) + (L,)
        self.consset = frozenset(self.cons)
        self.aval = {}; self.ivc = {}
        return True
    def add_eq(self, L):
        L = self.norm(L)
        if not L.t: return L.c == 0
        g = 0
        for _, k in L.t: g = gcd(g, k)
        if L.c % g: return False
        if g > 1: L = Lin(L.c // g, tuple((v, k // g) for v, k in L.t))
        # prefer eliminating variables with unit coefficient, youngest non-ghost
        best = None
        for v, k in L.t:
            if abs(k) == 1:
                pr = (Vars.info[v][0] == "base", Vars.info[v][0] != "ind", v)
                if best is None or pr > best[0]: best = (pr, v, k)
        if best is None:
            # Euclidean elimination: with a the least coefficient, replace its variable x by
            # y = x + sum(floor(c_i / a) * x_i) until a unit coefficient appears
            v, k = min(L.t, key=lambda t: (abs(t[1]), Vars.info[t[0]][0] == "ind", t[0]))
            s = 1 if k > 0 else -1
            m = abs(k)
            M = L * s
            Q = Lin(0, tuple((u, c // m) for u, c in M.t if u != v and c // m)) + M.c // m
            y = newvar("eq", None, None, ("euc", v, m))
            lo, hi = self.interval(V(v) + Q)
            self.bnd[y.t[0][0]] = (lo, hi)
            if not self.subst(v, y - Q): return False
            return self.add_eq(L)
        _, v, k = best
        R = (V(v) * k - L) * (1 if k == 1 else -1)
        return self.subst(v, R)
    def subst(self, v, R):
        a, b = self.bounds(v)
        defs = [D for D in Vars.defs[v]]
        self.sub[v] = R
        inf = Vars.info[v]
        self.bnd.pop(v, None)
        cons, self.cons = self.cons, ()
        ok = True
        self.consset = frozenset(); self.aval = {}; self.ivc = {}
        pend = []
        keep = []
        for c in cons:
            if c.coef(v): pend.append(c)
            else: keep.append(c)
        self.cons = tuple(keep); self.consset = frozenset(keep)
        if a is not None: pend.append(R - a)
        if b is not None: pend.append(K(b) - R)
        for c in pend + defs:
            c = norm_ge(self.norm(c))
            if not c.t:
                if c.c < 0: return False
                continue
            lo, hi = self.interval(c)
            if lo is not None and lo >= 0: continue
            if not self.add_ge(c): return False
        if inf[0] == "ind" and R.isconst:
            if not self.assume(inf[1] if R.c == 1 else bnot(inf[1])): return False
        return ok
    # ---------------------------------------------------------- boolean part
    def simp_bits(self, b):
        if b < 2 or not self.lits: return b
        sup = support(b)
        if len(sup) < len(self.lits):
            if not any(a in self.lits for a in sup): return b
        elif not any(a in sup for a in self.lits): return b
        return restrict_many(b, self.lits)
    def assume_bit(self, b):
        """conjoin a pure-bit condition"""
        pc = band(self.pc, b)
        if pc == F: return False
        self.pc = pc
        # unit literals
        return self._units()
    def _units(self):
        # literals forced by pc: walk the chain of the BDD where one branch is 0
        n = self.pc; new = {}
        while n > 1:
            if B.lo[n] == 0: new[B.var[n]] = True; n = B.hi[n]
            elif B.hi[n] == 0: new[B.var[n]] = False; n = B.lo[n]
            else: break
        fresh = {a: v for a, v in new.items() if a not in self.lits}
        if fresh:
            self.lits.update(fresh)
            touched = self.info.get("indvars")
            self.aval = {}; self.ivc = {}
            # 0/1 variables occurring in constraints
            vs = set()
            for c in self.cons:
                for v, _ in c.t:
                    if Vars.info[v][0] == "ind": vs.add(v)
            for v in vs:
                r = self.simp_bits(Vars.info[v][1])
                if r != Vars.info[v][1] and v not in self.sub:
                    if not self.subst(v, ind(r)): return False
        return True
    def simp(self, b):
        """simplify a condition; raises Split if it hinges on an undecided linear atom"""
        b = self.simp_bits(b)
        while b > 1:
            sup = support(b)
            und = None; asg = {}
            for a in sorted(sup):
                key = B.atoms[a]
                if key[0] == "ge":
                    r = self.aval.get(a)
                    if r is None and a not in self.aval:
                        r = self.decide_ge(key[1])
                        self.aval[a] = r
                    if r is None:
                        if und is None: und = a
                    else:
                        asg[a] = r
            if asg:
                b = restrict_many(b, asg)
                if und is not None and b > 1 and und not in support(b): continue
            if b < 2 or und is None: break
            # express the atom in normalised form for the split
            raise Split([mk(und, 0, 1), mk(und, 1, 0)])
        return b
    def branch(self, b):
        """True/False, or Split"""
        b = self.simp(b)
        if b == T: return True
        if b == F: return False
        x = band(self.pc, b)
        if x == F: return False
        if x == self.pc: return True
        raise Split([b, bnot(b)])
    def assume(self, b):
        """add a split alternative; False when the partition becomes empty"""
        if b == T: return True
        if b == F: return False
        if b > 1 and B.lo[b] < 2 and B.hi[b] < 2 and islinatom(B.var[b]):
            L = B.atoms[B.var[b]][1]
            if B.hi[b] == 0: L = -L - 1
            return self.add_ge(L)
        return self.assume_bit(b)

def int_feasible(cons, bb, depth, budget=None):
    """rational feasibility, sharpened by a bounded number of integer cuts"""
    if budget is None: budget = [24]
    p = lp_feasible(cons, True, extra_bounds=bb)
    if p is False: return False
    for v in sorted(p):
        if v >= 0 and p[v].denominator != 1:
            if depth == 0 or budget[0] <= 0: return True
            budget[0] -= 1
            f = p[v].numerator // p[v].denominator
            a, b = bb.get(v, (None, None))
            b1 = dict(bb); b1[v] = (a, f if b is None else min(b, f))
            if int_feasible(cons, b1, depth - 1, budget): return True
            b2 = dict(bb); b2[v] = (f + 1 if a is None else max(a, f + 1), b)
            return int_feasible(cons, b2, depth - 1, budget)
    return True
