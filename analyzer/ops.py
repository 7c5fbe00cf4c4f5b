"""Integer operations on abstract values.  An integer is a Lin (linear form, exact
mathematical value) or a Bits (one boolean function per bit, least significant first)."""
from state import *

_div = {}
def div_var(L, c):
    """the integer floor(L / c), c > 1 constant"""
    g = 0
    for _, k in L.t: g = gcd(g, k)
    # split L = c*M + R with R free of multiples of c
    qt = []; rt = []
    for v, k in L.t:
        if k % c == 0: qt.append((v, k // c))
        else: rt.append((v, k))
    q = Lin(L.c // c, tuple(qt)); r = Lin(L.c % c, tuple(rt))
    if not r.t: return q            # 0 <= r.c < c
    # common factor: floor((h*M + s)/c) = floor((M + floor(s/h))/(c/h))
    h = c
    for _, k in r.t: h = gcd(h, k)
    if h > 1:
        r = Lin(r.c // h, tuple((v, k // h) for v, k in r.t)); c //= h
        if c == 1: return q + r
    # floor(floor(L/a)/b) = floor(L/(ab))
    if len(r.t) == 1 and r.t[0][1] == 1 and r.c == 0 and Vars.info[r.t[0][0]][0] == "div":
        _, L0, c0 = Vars.info[r.t[0][0]]
        r, c = L0, c0 * c
    key = (r, c)
    d = _div.get(key)
    if d is None:
        lo = hi = r.c
        for v, k in r.t:
            a, b = (Vars.lo[v], Vars.hi[v]) if k > 0 else (Vars.hi[v], Vars.lo[v])
            lo = None if (lo is None or a is None) else lo + k * a
            hi = None if (hi is None or b is None) else hi + k * b
        d = newvar(f"({r!r})/{c}" if len(r.t) < 4 else f"(..)/{c}", None if lo is None else lo // c, None if hi is None else hi // c, ("div", r, c))
        v = d.t[0][0]
        Vars.defs[v] = (r - d * c, d * c + (c - 1) - r)
        _div[key] = d
    return q + d

_euc = {}
def parity_bit(v):
    """words and their quotients; not positions"""
    k = Vars.info[v]
    while k[0] == "euc":
        if k[2] != 2: return True
        v = k[1]; k = Vars.info[v]
    return False
def euclid(st, v, c):
    """rewrite the variable v as c*q + r with 0 <= r < c throughout the state"""
    key = (v, c)
    e = _euc.get(key)
    if e is None:
        lo, hi = Vars.lo[v], Vars.hi[v]
        q = newvar(f"{Vars.name[v]}/{c}", None if lo is None else lo // c, None if hi is None else hi // c, ("euc", v, c))
        # the parity is a 0/1 variable of the boolean domain: branches on it can be joined
        r = ind(lb(V(v), 0)) if c == 2 and parity_bit(v) else newvar(f"{Vars.name[v]}%{c}", 0, c - 1, ("euc", v, c))
        e = _euc[key] = q * c + r
    if not st.subst(v, e): raise Dead()

def div_lin(st, L, c):
    while True:
        L = st.norm(L)
        qt = []; rt = []; redo = False
        for v, k in L.t:
            kq, kr = divmod(k, c)
            if kq: qt.append((v, kq))
            if kr: rt.append((v, kr))
        for v, k in rt:
            if Vars.info[v][0] in ("base", "euc"):
                d = c // gcd(k, c)
                lo, hi = st.bounds(v)
                if lo is None or hi is None or hi - lo >= d or lo < 0:
                    euclid(st, v, d); redo = True; break
        if not redo: break
    q = Lin(L.c // c, tuple(qt)); R = Lin(L.c % c, tuple(rt))
    lo, hi = st.interval(R)
    if lo is not None and hi is not None:
        a, b = lo // c, hi // c
        if a == b: return st.norm(q + a)
        if b - a <= 3:
            while a < b:
                if st.branch(b_ge(st.norm(R) - (a + 1) * c)): a += 1
                else: return st.norm(q + a)
            return st.norm(q + a)
    return st.norm(q + div_var(R, c))

def mod_lin(st, L, c):
    L = st.norm(L)
    return st.norm(L - div_lin(st, L, c) * c)

def values(st, L, limit=130):
    """Split on the value of L if it ranges over at most `limit` integers; returns int"""
    L = st.norm(L)
    if not L.t: return L.c
    lo, hi = tight_interval(st, L, limit)
    if lo is None or hi is None or hi - lo >= limit: return None
    if lo == hi: return lo
    # binary partition keeps every alternative a linear literal
    mid = (lo + hi) // 2
    raise_split_ge(st, L - (mid + 1))

def raise_split_ge(st, L):
    st.branch(b_ge(L))
    # decided by propagation: caller retries
    return None

def tight_interval(st, L, limit):
    lo, hi = st.interval(L)
    if lo is not None and hi is not None and hi - lo < limit: return lo, hi
    return lo, hi

def range_of(st, L, limit):
    """an entailed integer range of L with at most `limit` values, or None"""
    lo, hi = st.interval(L)
    if lo is not None and hi is not None and hi - lo < limit: return lo, hi
    if lo is None or lo < 0:
        if st.decide_ge(L) is True: lo = 0
        elif lo is None: return None
    # least power-of-two bound above lo that is entailed
    if hi is not None and hi - lo < limit: return lo, hi
    if st.decide_ge(K(lo + limit - 1) - L) is not True:
        # a lower bound that is not zero may be entailed by the constraints alone
        return None
    a, b = lo, lo + limit - 1
    while a < b:
        mid = (a + b) // 2
        if st.decide_ge(K(mid) - L) is True: b = mid
        else: a = mid + 1
    return lo, b

def enum_value(st, L, limit=130):
    """concrete value of L in this partition (Splits until it is one)"""
    L = st.norm(L)
    if not L.t: return L.c
    r = range_of(st, L, limit)
    if r is None: return None
    lo, hi = r
    # binary search with decided atoms until a split is needed
    while lo < hi:
        mid = (lo + hi) // 2
        if st.branch(b_ge(st.norm(L) - (mid + 1))): lo = mid + 1     # may Split
        else: hi = mid
    L = st.norm(L)
    if L.t and not st.add_eq(L - lo): raise Dead()     # entailed: keep the equation
    return lo

# ------------------------------------------------------------------ Lin <-> Bits
def lb(L, i): return atom(("lb", L, i))

def lin_bits(st, L, n):
    """bits of L as an n-bit two's complement number (L in range of the type)"""
    L = st.norm(L)
    if not L.t:
        c = L.c % (1 << n)
        return Bits([(c >> i) & 1 for i in range(n)])
    # single 0/1 variable
    if len(L.t) == 1 and Vars.info[L.t[0][0]][0] == "ind":
        b = Vars.info[L.t[0][0]][1]
        c0 = L.c % (1 << n); c1 = (L.c + L.t[0][1]) % (1 << n)
        return Bits([bite(b, (c1 >> i) & 1, (c0 >> i) & 1) for i in range(n)])
    lo, hi = st.interval(L)
    if hi is not None and lo is not None and hi - lo <= 2 and len(L.t) <= 2:
        v = enum_value(st, L)
        return lin_bits(st, K(v), n)
    # sum of distinct powers times 0/1 variables: reassemble
    if all(Vars.info[v][0] == "ind" and k > 0 and k & (k - 1) == 0 for v, k in L.t) and L.c >= 0:
        used = L.c; ok = True
        for _, k in L.t:
            if used & k: ok = False; break
            used |= k
        if ok and used < (1 << n):
            out = [(L.c >> i) & 1 for i in range(n)]
            for v, k in L.t: out[k.bit_length() - 1] = Vars.info[v][1]
            return Bits(out)
    # common power of two
    k = 0
    while all(q % (1 << (k + 1)) == 0 for _, q in L.t): k += 1
    if k:
        low = L.c % (1 << k)
        M = Lin((L.c - low) >> k, tuple((v, q >> k) for v, q in L.t))
        hb = lin_bits(st, M, n - k) if n > k else Bits(())
        return Bits([(low >> i) & 1 for i in range(k)] + list(hb.b))
    if lo is None or lo < 0:
        # two's complement of a possibly negative number: opaque bits of L mod 2^n
        L2 = L - div_lin(st, L, 1 << n) * (1 << n)
        return Bits([lb(L2, i) for i in range(n)])
    m = n
    if hi is not None: m = min(n, hi.bit_length())
    else:
        m = n
    if len(L.t) > 1 and (st.cons or m == n):
        a, b = 0, m                     # least k with L < 2^k entailed
        while a < b:
            mid = (a + b) // 2
            if st.decide_ge(K((1 << mid) - 1) - L) is True: b = mid
            else: a = mid + 1
        m = b
    return Bits([lb(L, i) for i in range(m)] + [F] * (n - m))

def simp_word(st, w):
    if not st.lits: return w
    b = tuple(st.simp_bits(x) for x in w.b)
    return w if b == w.b else Bits(b)

def decided(st, w):
    """the word with the linear atoms of its bits decided (Splits on undecided ones)"""
    b = tuple(st.simp(x) if x > 1 and anylin(x) else x for x in w.b)
    return w if b == w.b else Bits(b)

def atom_of(b):
    if b > 1 and B.lo[b] == 0 and B.hi[b] == 1: return B.atoms[B.var[b]]
    return None

def bits_lin(st, w, signed=False):
    w = decided(st, simp_word(st, w))
    r = ZERO; n = len(w.b); i = 0; c = 0
    while i < n:
        b = w.b[i]
        if b < 2:
            if b: c += (-(1 << i) if (signed and i == n - 1) else (1 << i))
            i += 1; continue
        a = atom_of(b)
        if a is not None and a[0] == "lb":
            L, s = a[1], a[2]
            j = i
            while j < n:
                aa = atom_of(w.b[j]) if w.b[j] > 1 else None
                if aa is None or aa[0] != "lb" or aa[1] is not L or aa[2] != s + (j - i): break
                j += 1
            m = j - i
            if not (signed and j == n):
                Ln = st.norm(L)
                lo_part = div_lin(st, Ln, 1 << s) if s else Ln
                hi = st.interval(Ln)[1]
                if hi is not None and hi < (1 << (s + m)): part = lo_part
                else: part = lo_part - div_lin(st, Ln, 1 << (s + m)) * (1 << m)
                r = r + part * (1 << i); i = j; continue
        k = 1 << i
        if signed and i == n - 1: k = -k
        r = r + ind(b) * k
        i += 1
    return st.norm(r + c)

def to_lin(st, v, signed=False):
    if isinstance(v, Lin): return st.norm(v)
    if isinstance(v, Bits): return bits_lin(st, v, signed)
    if isinstance(v, int): return st.norm(ind(st.simp(v)))
    raise Undecided(f"not an integer: {v!r}")

def to_bits(st, v, n):
    if isinstance(v, Bits):
        if len(v.b) != n: raise Undecided("width mismatch")
        return simp_word(st, v)
    if isinstance(v, Lin): return lin_bits(st, v, n)
    if isinstance(v, int): return Bits([v] + [F] * (n - 1))
    raise Undecided(f"not an integer: {v!r}")

def const_of(st, v):
    if isinstance(v, Bits): 
        w = simp_word(st, v)
        return w.const()
    L = st.norm(v)
    return L.c if not L.t else None

# ------------------------------------------------------------------ arithmetic
BUDGET = 400000
class budget:
    def __enter__(self):
        self.old = B.budget
        B.budget = len(B.var) + BUDGET
    def __exit__(self, *a): B.budget = self.old

def ripple_add(a, b, cin):
    out = []; c = cin
    for x, y in zip(a, b):
        p = bxor(x, y)
        out.append(bxor(p, c))
        c = bor(band(x, y), band(p, c))
    return out, c

def linword(w):
    """a word whose unknown bits are all bits of linear forms (as stored by a packed write)"""
    if not isinstance(w, Bits): return False
    some = False
    for x in w.b:
        if x > 1:
            a = atom_of(x)
            if a is None or a[0] != "lb": return False
            some = True
    return some
def nonconst(w): return sum(1 for x in w.b if x > 1)

def add(st, a, b, n, signed, sub=False):
    """returns (wrapped value, overflow condition)"""
    ba, bb = isinstance(a, Bits), isinstance(b, Bits)
    if not signed and (ba or bb):
        ca, cb = const_of(st, a), const_of(st, b)
        if ca is not None and not ba: a = lin_bits(st, K(ca), n); ba = True
        if cb is not None and not bb: b = lin_bits(st, K(cb), n); bb = True
        if ba and bb and not (ca is not None and cb is not None) and not linword(a) and not linword(b):
            a = decided(st, to_bits(st, a, n)); b = decided(st, to_bits(st, b, n))
            try:
                with budget():
                    # disjoint words: addition is union
                    if not sub and all(x == 0 or y == 0 for x, y in zip(a.b, b.b)):
                        return Bits([x if y == 0 else y for x, y in zip(a.b, b.b)]), F
                    if sub:
                        o, c = ripple_add(a.b, [bnot(y) for y in b.b], T)
                        return Bits(o), bnot(c)
                    o, c = ripple_add(a.b, b.b, F)
                    return Bits(o), c
            except Blowup:
                pass
    x = to_lin(st, a, signed); y = to_lin(st, b, signed)
    r = x - y if sub else x + y
    return wrap(st, r, n, signed)

def trange(n, signed):
    return (-(1 << (n - 1)), (1 << (n - 1)) - 1) if signed else (0, (1 << n) - 1)

def wrap(st, r, n, signed):
    r = st.norm(r)
    lo, hi = trange(n, signed)
    if not r.t:
        if lo <= r.c <= hi: return r, F
        m = (r.c - lo) % (1 << n) + lo
        return K(m), T
    if st.branch(b_ge(K(hi) - r)):
        if st.branch(b_ge(r - lo)): return r, F
        # below: how many wraps
        q = 1
        while not st.branch(b_ge(r + (q << n) - lo)):
            q += 1
            if q > 3: return mod_wrap(st, r, n, signed), T
        return r + (q << n), T
    q = 1
    while not st.branch(b_ge(K(hi) - (r - (q << n)))):
        q += 1
        if q > 3: return mod_wrap(st, r, n, signed), T
    return st.norm(r - (q << n)), T

def mod_wrap(st, r, n, signed):
    lo, _ = trange(n, signed)
    return st.norm(mod_lin(st, r - lo, 1 << n) + lo)

def mono_var(u, v):
    """the product of two variables"""
    if u > v: u, v = v, u
    r = MONO.get((u, v))
    if r is None:
        def rng(x): return Vars.lo[x], Vars.hi[x]
        (a, b), (c, d) = rng(u), rng(v)
        lo = hi = None
        if None not in (a, b, c, d):
            e = (a * c, a * d, b * c, b * d); lo, hi = min(e), max(e)
        elif a is not None and c is not None and a >= 0 and c >= 0: lo = a * c
        r = newvar(f"{Vars.name[u]}#{u}*{Vars.name[v]}", lo, hi, ("mono", u, v))
        MONO[(u, v)] = r
        ds = []
        if a is not None and c is not None: ds.append(r - V(u) * c - V(v) * a + a * c)
        if b is not None and d is not None: ds.append(r - V(u) * d - V(v) * b + b * d)
        if a is not None and d is not None: ds.append(V(u) * d + V(v) * a - r - a * d)
        if b is not None and c is not None: ds.append(V(u) * c + V(v) * b - r - b * c)
        Vars.defs[r.t[0][0]] = tuple(ds)
    return r
def mono(st, x, y):
    """the product of two linear forms, as a linear form over monomials"""
    x = st.norm(x); y = st.norm(y)
    r = K(x.c * y.c) + Lin(0, x.t) * y.c + Lin(0, y.t) * x.c
    for u, k in x.t:
        for v, m in y.t: r = r + mono_var(u, v) * (k * m)
    return st.norm(r)
def static_lo(L):
    lo = L.c
    for v, k in L.t:
        a = Vars.lo[v] if k > 0 else Vars.hi[v]
        if a is None: return None
        lo += k * a
    return lo

def mul(st, a, b, n, signed, exact=False):
    ca, cb = const_of(st, a), const_of(st, b)
    if ca is not None and cb is None: a, b, ca, cb = b, a, cb, ca
    if cb is not None:
        if isinstance(a, Bits) and not signed and ca is None:
            a = to_bits(st, a, n)
            if cb == 0: return K(0), F
            if cb == (1 << n) - 1 and nonconst(a) <= 1 and all(x == 0 for x in a.b[1:]):
                return Bits([a.b[0]] * n), F
            if cb & (cb - 1) == 0:
                s = cb.bit_length() - 1
                ov = F
                for x in a.b[n - s:] if s else (): ov = bor(ov, x)
                return Bits(([F] * s + list(a.b))[:n]), ov
            try:
                if exact and nonconst(a) > 1: raise Blowup()
                with budget():
                    acc = [F] * n; ov = F
                    for i in range(n):
                        if (cb >> i) & 1:
                            sh = ([F] * i + list(a.b))
                            for x in sh[n:]: ov = bor(ov, x)
                            acc, c = ripple_add(acc, sh[:n], F)
                            ov = bor(ov, c)
                    return Bits(acc), ov
            except Blowup: pass
        x = to_lin(st, a, signed)
        return wrap(st, x * (cb if not signed or cb < (1 << (n - 1)) or isinstance(b, Lin) else cb - (1 << n)), n, signed)
    x = to_lin(st, a, signed); y = to_lin(st, b, signed)
    # a factor with few values is partitioned
    for p, q in ((y, x), (x, y)):
        lo, hi = st.interval(p)
        if lo is not None and hi is not None and hi - lo < 130:
            v = enum_value(st, p)
            return wrap(st, q * v, n, signed)
    return wrap(st, mono(st, x, y), n, signed)

def divrem(st, a, b, n, signed):
    """(quotient, remainder), divisor known nonzero; unsigned or nonnegative"""
    cb = const_of(st, b)
    if cb is None:
        y = to_lin(st, b, signed)
        cb = enum_value(st, y)
        if cb is None:
            return divrem_general(st, to_lin(st, a, signed), y)
    if isinstance(a, Bits) and cb > 0 and cb & (cb - 1) == 0 and not signed:
        s = cb.bit_length() - 1
        a = to_bits(st, a, n)
        return Bits(list(a.b[s:]) + [F] * s), Bits(list(a.b[:s]) + [F] * (n - s))
    x = to_lin(st, a, signed)
    if signed:
        if not st.branch(b_ge(x)) or cb < 0:
            if not x.t and cb:
                q = abs(x.c) // abs(cb); q = -q if (x.c < 0) != (cb < 0) else q
                return K(q), K(x.c - q * cb)
            raise Undecided("signed division")
    if cb == 1: return x, ZERO
    q = div_lin(st, x, cb)
    return q, st.norm(x - q * cb)

_gdiv = {}
def divrem_general(st, x, y):
    """symbolic divisor y >= 1: q with x = q*y + r, 0 <= r < y"""
    x = st.norm(x); y = st.norm(y)
    if x is y: return ONE, ZERO
    key = (x, y)
    if key not in _gdiv:
        _gdiv[key] = newvar("quot", 0, (1 << 64) - 1)
    q = _gdiv[key]
    m = mono(st, q, y)
    ds = [x - m, m + y - 1 - x, x - q]
    lo, hi = st.interval(y)                 # (y - lo) * q >= 0, (hi - y) * q >= 0
    if lo is not None: ds.append(m - q * lo)
    if hi is not None: ds.append(q * hi - m)
    for D in ds:
        if not st.add_ge(D): raise Dead()
    return st.norm(q), st.norm(x - m)

# ------------------------------------------------------------------ bit operations
def bitop(st, op, a, b, n, signed=False):
    ca = const_of(st, a); cb = const_of(st, b)
    full = (1 << n) - 1
    if ca is not None and cb is not None:
        m = {"and": ca & cb, "or": ca | cb, "xor": ca ^ cb}[op]
        if signed and m >= 0 and (ca < 0 or cb < 0): pass
        return K(m if m >= 0 or signed else m & full)
    if ca is not None: a, b, ca, cb = b, a, cb, ca
    if cb is not None and not signed:
        if op == "and":
            if cb == 0: return ZERO
            if cb == full: return a
        elif cb == 0: return a
        elif op == "or" and cb == full: return K(full)
        if isinstance(a, Lin):
            if op == "and":
                if cb & (cb + 1) == 0:                     # low mask
                    return mod_lin(st, a, cb + 1)
                low = cb & -cb
                if cb | (low - 1) == full:                 # high mask
                    return st.norm(div_lin(st, a, low) * low)
            if op == "xor" and cb == full: return st.norm(K(full) - a)
    if isinstance(a, Lin) and isinstance(b, Lin):
        if st.norm(a) is st.norm(b):
            return a if op != "xor" else ZERO
    x = to_bits(st, a, n); y = to_bits(st, b, n)
    f = {"and": band, "or": bor, "xor": bxor}[op]
    return Bits([f(p, q) for p, q in zip(x.b, y.b)])

def bitnot(st, a, n, signed=False):
    if isinstance(a, Bits): return Bits([bnot(x) for x in simp_word(st, a).b])
    a = st.norm(a)
    return st.norm(-a - 1) if signed else st.norm(K((1 << n) - 1) - a)

def amount(st, k, n, signed=False):
    c = const_of(st, k)
    if c is not None: return c
    if isinstance(k, Bits):
        w = simp_word(st, k)
        r = 0
        for i, x in enumerate(w.b):
            if st.branch(x): r |= 1 << i
        return r
    return enum_value(st, to_lin(st, k))

def shl(st, a, s, n, signed=False):
    """0 <= s < n"""
    if s == 0: return a
    if isinstance(a, Bits):
        return Bits(([F] * s + list(simp_word(st, a).b))[:n])
    a = st.norm(a)
    r = a * (1 << s)
    if signed: return wrap(st, r, n, True)[0]
    lo, hi = st.interval(r)
    if hi is not None and hi < (1 << n): return r
    if not r.t: return K(r.c % (1 << n))
    if st.branch(b_ge(K((1 << n) - 1) - r)): return r
    return mod_lin(st, r, 1 << n)

def shr(st, a, s, n, signed=False):
    if s == 0: return a
    if isinstance(a, Bits):
        w = simp_word(st, a)
        return Bits(list(w.b[s:]) + [w.b[-1] if signed else F] * s)
    return div_lin(st, a, 1 << s)

def popcount(st, a, n):
    w = decided(st, to_bits(st, a, n))
    r = ZERO
    for x in w.b: r = r + ind(x)
    return st.norm(r)

def ctlz(st, a, n):
    if isinstance(a, Lin):
        L = st.norm(a)
        if not L.t: return n - L.c.bit_length()
        lo = 0; hi = n          # bit length in [lo, hi]
        l, h = st.interval(L)
        if h is not None: hi = min(hi, h.bit_length())
        if l is not None: lo = l.bit_length()
        while lo < hi:
            mid = (lo + hi) // 2            # length > mid  <=> L >= 2^mid
            if st.branch(b_ge(L - (1 << mid))): lo = mid + 1
            else: hi = mid
        return n - lo
    w = to_bits(st, a, n)
    for i in range(n - 1, -1, -1):
        if st.branch(w.b[i]): return n - 1 - i
    return n

def cttz(st, a, n):
    w = to_bits(st, a, n)
    for i in range(n):
        if st.branch(w.b[i]): return i
    return n

# ------------------------------------------------------------------ comparisons
def cmp_eq(st, a, b, n, signed=False):
    if isinstance(a, Bits) or isinstance(b, Bits):
        lina, linb = isinstance(a, Lin) and a.t, isinstance(b, Lin) and b.t
        if not lina and not linb:
            x = decided(st, to_bits(st, a, n)); y = decided(st, to_bits(st, b, n))
            try:
                with budget():
                    r = T
                    for p, q in zip(x.b, y.b):
                        if p != q: r = band(r, bnot(bxor(p, q)))
                        if r == F: break
                    return r
            except Blowup: pass
        elif not signed:
            # a word against a linear form of 0/1 variables: compare bit by bit where the sum is short
            w, L = (a, b) if linb else (b, a)
            if isinstance(w, Bits) and isinstance(L, Lin):
                D = st.norm(to_lin(st, w, signed) - L)
                if not D.t: return T if D.c == 0 else F
                s = sum_bits(st.norm(L), n)
                if s is not None:
                    try:
                        with budget():
                            r = T
                            for p, q in zip(to_bits(st, w, n).b, s):
                                if p != q: r = band(r, bnot(bxor(p, q)))
                                if r == F: break
                            return r
                    except Blowup: pass
    return b_eq(to_lin(st, a, signed), to_lin(st, b, signed))

def sum_bits(L, n):
    """bits of a linear form over 0/1 variables (value known to be in range), or None"""
    if any(Vars.info[v][0] != "ind" for v, _ in L.t): return None
    words = []
    for v, k in L.t:
        if k <= 0 or k & (k - 1): return None
        i = k.bit_length() - 1
        if i >= n: return None
        for w in words:
            if w[i] == F: w[i] = Vars.info[v][1]; break
        else:
            if len(words) == 3: return None
            w = [F] * n; w[i] = Vars.info[v][1]; words.append(w)
    c = L.c % (1 << n)
    try:
        with budget():
            acc = [(c >> i) & 1 for i in range(n)]
            for w in words: acc, _ = ripple_add(acc, w, F)
            return acc
    except Blowup: return None

def cmp_ge(st, a, b, n, signed=False):
    """a >= b"""
    if not signed and (isinstance(a, Bits) or isinstance(b, Bits)):
        lina, linb = isinstance(a, Lin) and a.t, isinstance(b, Lin) and b.t
        if not lina and not linb:
            x = decided(st, to_bits(st, a, n)); y = decided(st, to_bits(st, b, n))
            try:
                with budget():
                    r = T
                    for p, q in zip(x.b, y.b):      # from the low end
                        if p == q: continue
                        e = bnot(bxor(p, q))
                        r = bor(band(p, bnot(q)), band(e, r))
                    return r
            except Blowup: pass
    return b_ge(to_lin(st, a, signed) - to_lin(st, b, signed))
