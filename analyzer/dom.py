"""Numeric and boolean domains: linear forms over bounded integer variables,
exact rational feasibility of linear constraint systems (polyhedra emptiness),
and canonical boolean functions (BDDs) over named atoms."""
import sys
from math import gcd
from fractions import Fraction

sys.setrecursionlimit(100000)

# ---------------------------------------------------------------- variables
class Vars:
    lo = []      # static lower bound (int or None)
    hi = []
    name = []
    info = []    # ("base",) | ("div",L,c) | ("ind",bdd) | ("mono",L1,L2) | ...
    defs = []    # list of Lin >= 0 which define the variable
    @classmethod
    def new(cls, name, lo, hi, info=("base",)):
        cls.lo.append(lo); cls.hi.append(hi); cls.name.append(name)
        cls.info.append(info); cls.defs.append(())
        return len(cls.lo) - 1

class Lin:
    __slots__ = ("c", "t", "h", "_ng")
    _tab = {}
    def __new__(cls, c, t):
        key = (c, t)
        r = cls._tab.get(key)
        if r is None:
            r = object.__new__(cls)
            r.c = c; r.t = t; r.h = hash(key); r._ng = None
            cls._tab[key] = r
        return r
    def __hash__(self): return self.h
    def __eq__(self, o): return self is o
    def __repr__(self):
        s = " + ".join((f"{k}*" if k != 1 else "") + f"{Vars.name[v]}#{v}" for v, k in self.t)
        return f"{s} + {self.c}" if s and self.c else (s or str(self.c))
    @property
    def isconst(self): return not self.t
    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.c + o, self.t) if o else self
        if not o.t: return Lin(self.c + o.c, self.t)
        if not self.t: return Lin(self.c + o.c, o.t)
        d = dict(self.t)
        for v, k in o.t:
            n = d.get(v, 0) + k
            if n: d[v] = n
            else: d.pop(v, None)
        return Lin(self.c + o.c, tuple(sorted(d.items())))
    def __neg__(self):
        if self._ng is None:
            self._ng = Lin(-self.c, tuple((v, -k) for v, k in self.t))
            self._ng._ng = self
        return self._ng
    def __sub__(self, o):
        if isinstance(o, int): return self + (-o)
        return self + (-o)
    def __mul__(self, k):
        if k == 0: return ZERO
        if k == 1: return self
        return Lin(self.c * k, tuple((v, q * k) for v, q in self.t))
    __rmul__ = __mul__
    def coef(self, v):
        for u, k in self.t:
            if u == v: return k
        return 0
    def vars(self): return [v for v, _ in self.t]

def K(c): return Lin(c, ())
ZERO = K(0); ONE = K(1)
def V(v): return Lin(0, ((v, 1),))
def newvar(name, lo, hi, info=("base",)):
    return V(Vars.new(name, lo, hi, info))

def norm_ge(L):
    """canonical integer form of L >= 0"""
    if not L.t: return L
    g = 0
    for _, k in L.t:
        g = gcd(g, k)
        if g == 1: return L
    return Lin(L.c // g, tuple((v, k // g) for v, k in L.t))

# ---------------------------------------------------------------- simplex
class Infeasible(Exception): pass

def lp_feasible(cons, want_point=False, maxpiv=4000, extra_bounds=None):
    """cons: iterable of Lin, each >= 0. Returns False if the rational relaxation
    (with the static variable bounds) is empty; else True (or the point)."""
    xs = {}
    lo = {}; hi = {}
    rows = {}   # basic var -> dict nonbasic->Fraction
    lows = Vars.lo; his = Vars.hi
    rid = -1
    dead = False
    for L in cons:
        if not L.t:
            if L.c < 0: return False
            continue
        if len(L.t) == 1:
            (v, k), = L.t
            if v not in xs:
                xs[v] = Fraction(0); lo[v] = lows[v]; hi[v] = his[v]
            if k > 0:
                b = -(L.c // k)          # v >= ceil(-c/k)
                if lo[v] is None or b > lo[v]: lo[v] = b
            else:
                b = L.c // (-k)
                if hi[v] is None or b < hi[v]: hi[v] = b
            continue
        for v, _ in L.t:
            if v not in xs:
                xs[v] = Fraction(0); lo[v] = lows[v]; hi[v] = his[v]
        rows[rid] = {v: Fraction(k) for v, k in L.t}
        lo[rid] = -L.c; hi[rid] = None
        rid -= 1
    if extra_bounds:
        for v, (a, b) in extra_bounds.items():
            if v not in xs:
                xs[v] = Fraction(0); lo[v] = lows[v]; hi[v] = his[v]
            if a is not None and (lo[v] is None or a > lo[v]): lo[v] = a
            if b is not None and (hi[v] is None or b < hi[v]): hi[v] = b
    for v in xs:
        l, h = lo[v], hi[v]
        if l is not None and h is not None and l > h: return False
        if l is not None and l > 0 or (h is not None and h < 0):
            xs[v] = Fraction(l if (l is not None and l > 0) else h)
    # interval pre-check per row
    for r, row in rows.items():
        s = Fraction(0); ok = True
        for v, k in row.items():
            b = hi[v] if k > 0 else lo[v]
            if b is None: ok = False; break
            s += k * b
        if ok and s < lo[r]: return False
    val = dict(xs)
    for r, row in rows.items():
        val[r] = sum((k * val[v] for v, k in row.items()), Fraction(0))
    piv = 0
    while True:
        bad = None
        for r in sorted(rows):
            x = val[r]
            l = lo[r]; h = hi[r]
            if l is not None and x < l: bad = (r, True); break
            if h is not None and x > h: bad = (r, False); break
        if bad is None:
            return val if want_point else True
        piv += 1
        if piv > maxpiv: return val if want_point else True
        r, need_up = bad
        row = rows[r]
        ent = None
        for v in sorted(row):
            k = row[v]
            if (k > 0) == need_up:
                if hi[v] is None or val[v] < hi[v]: ent = v; break
            else:
                if lo[v] is None or val[v] > lo[v]: ent = v; break
        if ent is None: return False
        target = Fraction(lo[r] if need_up else hi[r])
        k = row[ent]
        theta = (target - val[r]) / k
        val[r] = target
        val[ent] += theta
        for q, rw in rows.items():
            if q != r:
                kk = rw.get(ent)
                if kk: val[q] += kk * theta
        # pivot
        del rows[r]
        inv = 1 / k
        newrow = {v: -c * inv for v, c in row.items() if v != ent}
        newrow[r] = inv
        for q, rw in rows.items():
            kk = rw.pop(ent, None)
            if kk:
                for v, c in newrow.items():
                    n = rw.get(v, 0) + kk * c
                    if n: rw[v] = n
                    else: rw.pop(v, None)
        rows[ent] = newrow

# ---------------------------------------------------------------- BDD
class B:
    var = [1 << 60, 1 << 60]; lo = [0, 1]; hi = [0, 1]
    uniq = {}; memo_and = {}; memo_not = {0: 1, 1: 0}; memo_xor = {}
    memo_sup = {}
    atoms = {}     # atom index -> key; the index orders atoms by bit position, then by age
    hint = 0
    atom_ix = {}
    budget = None
class Blowup(Exception): pass

F, T = 0, 1
def mk(v, l, h):
    if l == h: return l
    k = (v, l, h)
    r = B.uniq.get(k)
    if r is None:
        r = len(B.var)
        B.var.append(v); B.lo.append(l); B.hi.append(h)
        B.uniq[k] = r
        if B.budget is not None and r > B.budget: raise Blowup()
    return r
def atom(key):
    i = B.atom_ix.get(key)
    if i is None:
        k = key[0]
        pos = key[3] + 1 if k == "w" else key[2] + 1 if k == "lb" else B.hint if k == "ge" else 0
        i = (pos << 32) | len(B.atoms); B.atoms[i] = key; B.atom_ix[key] = i
    return mk(i, 0, 1)
def bnot(a):
    r = B.memo_not.get(a)
    if r is None:
        r = mk(B.var[a], bnot(B.lo[a]), bnot(B.hi[a]))
        B.memo_not[a] = r; B.memo_not[r] = a
    return r
def band(a, b):
    if a == b: return a
    if a == 0 or b == 0: return 0
    if a == 1: return b
    if b == 1: return a
    if a > b: a, b = b, a
    k = (a, b)
    r = B.memo_and.get(k)
    if r is None:
        va, vb = B.var[a], B.var[b]
        v = va if va < vb else vb
        a0, a1 = (B.lo[a], B.hi[a]) if va == v else (a, a)
        b0, b1 = (B.lo[b], B.hi[b]) if vb == v else (b, b)
        r = mk(v, band(a0, b0), band(a1, b1))
        B.memo_and[k] = r
    return r
def bor(a, b): 
    if a == b: return a
    if a == 1 or b == 1: return 1
    if a == 0: return b
    if b == 0: return a
    return bnot(band(bnot(a), bnot(b)))
def bxor(a, b):
    if a == b: return 0
    if a == 0: return b
    if b == 0: return a
    if a == 1: return bnot(b)
    if b == 1: return bnot(a)
    if a > b: a, b = b, a
    k = (a, b)
    r = B.memo_xor.get(k)
    if r is None:
        va, vb = B.var[a], B.var[b]
        v = va if va < vb else vb
        a0, a1 = (B.lo[a], B.hi[a]) if va == v else (a, a)
        b0, b1 = (B.lo[b], B.hi[b]) if vb == v else (b, b)
        r = mk(v, bxor(a0, b0), bxor(a1, b1))
        B.memo_xor[k] = r
    return r
def bite(c, t, e):
    if c == 1: return t
    if c == 0: return e
    if t == e: return t
    if t == 1 and e == 0: return c
    if t == 0 and e == 1: return bnot(c)
    return bor(band(c, t), band(bnot(c), e))
def bmaj(a, b, c):
    return bor(band(a, b), band(c, bxor(a, b)))
def support(a):
    r = B.memo_sup.get(a)
    if r is None:
        if a < 2: r = frozenset()
        else:
            seen = set(); st = [a]; vs = set()
            while st:
                n = st.pop()
                if n < 2 or n in seen: continue
                seen.add(n); vs.add(B.var[n]); st.append(B.lo[n]); st.append(B.hi[n])
            r = frozenset(vs)
        B.memo_sup[a] = r
    return r
def restrict(a, var, val, memo=None):
    if a < 2 or B.var[a] > var: return a
    if memo is None: memo = {}
    r = memo.get(a)
    if r is None:
        if B.var[a] == var: r = B.hi[a] if val else B.lo[a]
        else: r = mk(B.var[a], restrict(B.lo[a], var, val, memo), restrict(B.hi[a], var, val, memo))
        memo[a] = r
    return r
def restrict_many(a, asg, memo=None):
    if a < 2: return a
    if memo is None: memo = {}
    r = memo.get(a)
    if r is None:
        v = B.var[a]
        if v in asg: r = restrict_many(B.hi[a] if asg[v] else B.lo[a], asg, memo)
        else: r = mk(v, restrict_many(B.lo[a], asg, memo), restrict_many(B.hi[a], asg, memo))
        memo[a] = r
    return r
def anysat(a):
    """a satisfying partial assignment {atom index: bool} or None"""
    if a == 0: return None
    out = {}
    while a > 1:
        if B.hi[a] != 0: out[B.var[a]] = True; a = B.hi[a]
        else: out[B.var[a]] = False; a = B.lo[a]
    return out
def lit(a, v):
    return mk(a, 0, 1) if v else mk(a, 1, 0)
def evalbdd(a, asg):
    while a > 1:
        a = B.hi[a] if asg.get(B.var[a], False) else B.lo[a]
    return a == 1

def ripple(a, b, c=0):
    """full-width sum (the carry is the last bit)"""
    n = max(len(a), len(b)); out = []
    for i in range(n):
        x = a[i] if i < len(a) else 0; y = b[i] if i < len(b) else 0
        p = bxor(x, y)
        out.append(bxor(p, c))
        c = bor(band(x, y), band(p, c))
    if c: out.append(c)
    return out
def weigh(ts, c):
    """bits of c + sum k_i * b_i, all terms nonnegative: carry-save compression by column"""
    cols = {}
    for k, b in ts:
        i = 0
        while k:
            if k & 1: cols.setdefault(i, []).append(b)
            k >>= 1; i += 1
    out = []; i = 0; carry = []
    while cols or carry or c:
        col = cols.pop(i, []) + carry
        if c & 1: col = [1] + col
        c >>= 1
        # the number of true functions in the column, by counting
        cnt = []                     # bits of the running count
        for b in col: cnt = ripple(cnt, [b]) if cnt else [b]
        out.append(cnt[0] if cnt else 0)
        # carries: the count shifted right, as weights
        carry = []
        for j, b in enumerate(cnt[1:]):
            if b: cols.setdefault(i + 1 + j, []).append(b) if j else carry.append(b)
        i += 1
    return out
IND_TERMS = 140; IND_NODES = 400000
_indcmp = {}
def ind_cmp(L):
    """(L >= 0, L == 0) as boolean functions when every variable of L is the 0/1 value of a
    boolean function and the result is of manageable size, else None"""
    if len(L.t) > IND_TERMS or any(abs(k) > 1 << 20 for _, k in L.t):
        # still small when it compares packed words: at most one variable per power of two and side
        if len(L.t) > 256 or any(abs(k) & (abs(k) - 1) for _, k in L.t): return None
        if len({k for _, k in L.t}) != len(L.t): return None
    for v, _ in L.t:
        if Vars.info[v][0] != "ind": return None
    r = _indcmp.get(L, 0)
    if r != 0: return r
    old = B.budget; B.budget = min(old, len(B.var) + IND_NODES) if old is not None else len(B.var) + IND_NODES
    try:
        P = weigh([(k, Vars.info[v][1]) for v, k in L.t if k > 0], max(L.c, 0))
        N = weigh([(-k, Vars.info[v][1]) for v, k in L.t if k < 0], max(-L.c, 0))
        n = max(len(P), len(N)); ge = T; eq = T
        for i in range(n):
            x = P[i] if i < len(P) else F; y = N[i] if i < len(N) else F
            if x == y: continue
            e = bnot(bxor(x, y))
            ge = bor(band(x, bnot(y)), band(e, ge)); eq = band(eq, e)
        r = (ge, eq)
    except Blowup:
        if old is not None and len(B.var) > old: raise
        r = None
    finally: B.budget = old
    _indcmp[L] = r
    return r

# linear predicate atoms, canonical sign: first coefficient positive
def b_ge(L):
    """boolean function of L >= 0"""
    L = norm_ge(L)
    if not L.t: return T if L.c >= 0 else F
    # static bounds
    lo = hi = L.c
    for v, k in L.t:
        a, b = (Vars.lo[v], Vars.hi[v]) if k > 0 else (Vars.hi[v], Vars.lo[v])
        lo = None if (lo is None or a is None) else lo + k * a
        hi = None if (hi is None or b is None) else hi + k * b
        if lo is None and hi is None: break
    if lo is not None and lo >= 0: return T
    if hi is not None and hi < 0: return F
    if len(L.t) == 1:
        v, k = L.t[0]
        inf = Vars.info[v]
        if inf[0] == "ind":     # 0/1 variable of a boolean function
            return inf[1] if k > 0 else bnot(inf[1])
    elif Vars.info[L.t[0][0]][0] == "ind":
        r = ind_cmp(L)
        if r is not None: return r[0]
    if L.t[0][1] < 0:
        return bnot(atom(("ge", -L - 1)))
    return atom(("ge", L))
def b_eq(A, Bb):
    D = A - Bb
    if not D.t: return T if D.c == 0 else F
    g = 0
    for _, k in D.t: g = gcd(g, k)
    if D.c % g: return F
    if len(D.t) > 1 and Vars.info[D.t[0][0]][0] == "ind":
        r = ind_cmp(D)
        if r is not None: return r[1]
    return band(b_ge(D), b_ge(-D))

_ind = {}
def ind(b):
    """0/1 linear form of a boolean function"""
    if b == T: return ONE
    if b == F: return ZERO
    if b in _ind: return _ind[b]
    nb = bnot(b)
    if nb in _ind: return ONE - _ind[nb]
    if b > 1 and B.lo[b] == 1 and B.hi[b] == 0:    # negative literal
        return ONE - ind(nb)
    x = newvar("ind", 0, 1, ("ind", b))
    _ind[b] = x
    return x
