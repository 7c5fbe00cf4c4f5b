"""Binding of the native polyhedron-emptiness test (native/src/lib.rs); falls back to the
unbounded-precision Python version when the library is absent or 128 bits do not suffice."""
import ctypes, os
from array import array
_so = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), ".build", "native", "release", "liblp.so")
try: L = ctypes.CDLL(_so)
except OSError: L = None
_ids = {}
_vars = set()
LIM = 1 << 126
M64 = (1 << 64) - 1
def split(x): return x >> 64, x & M64
def _reg_var(Vars, v):
    if v in _vars: return True
    lo, hi = Vars.lo[v], Vars.hi[v]
    if lo is not None and abs(lo) >= LIM: lo = None     # weaker bound: still sound
    if hi is not None and abs(hi) >= LIM: hi = None
    f = (lo is not None) | ((hi is not None) << 1)
    a, b = split(lo or 0); c, d = split(hi or 0)
    L.lp_var(v, f, ctypes.c_int64(a), ctypes.c_uint64(b), ctypes.c_int64(c), ctypes.c_uint64(d))
    _vars.add(v)
    return True
def _reg(Vars, lin):
    i = _ids.get(lin)
    if i is not None: return i
    if abs(lin.c) >= LIM or any(abs(k) >= LIM for _, k in lin.t):
        _ids[lin] = -1
        return -1
    for v, _ in lin.t: _reg_var(Vars, v)
    i = len(_ids)
    n = len(lin.t)
    vs = array('i', [v for v, _ in lin.t])
    hs = array('q', [k >> 64 for _, k in lin.t]); ls = array('Q', [k & M64 for _, k in lin.t])
    a, b = split(lin.c)
    L.lp_reg(i, n, ctypes.c_void_p(vs.buffer_info()[0]), ctypes.c_void_p(hs.buffer_info()[0]), ctypes.c_void_p(ls.buffer_info()[0]), ctypes.c_int64(a), ctypes.c_uint64(b))
    _ids[lin] = i
    return i
def feasible(Vars, cons, bb, depth=12, budget=24, point=False):
    """True / False / None (not decided natively); with point, a dict when an integer point was found"""
    if L is None: return None
    ids = array('i')
    for c in cons:
        i = _reg(Vars, c)
        if i < 0: return None
        ids.append(i)
    n = len(bb)
    bv = array('i'); bf = array('i'); a = array('q'); b = array('Q'); c = array('q'); d = array('Q')
    for v, (lo, hi) in bb.items():
        _reg_var(Vars, v)
        if (lo is not None and abs(lo) >= LIM) or (hi is not None and abs(hi) >= LIM): return None
        bv.append(v); bf.append((lo is not None) | ((hi is not None) << 1))
        x, y = split(lo or 0); a.append(x); b.append(y)
        x, y = split(hi or 0); c.append(x); d.append(y)
    p = lambda z: ctypes.c_void_p(z.buffer_info()[0])
    np = 4096 if point else 0
    pv = array('i', bytes(4 * np)); ph = array('q', bytes(8 * np)); pl = array('Q', bytes(8 * np)); plen = array('i', [0])
    r = L.lp_feasible(len(ids), p(ids), n, p(bv), p(bf), p(a), p(b), p(c), p(d), depth, budget, np, p(pv), p(ph), p(pl), p(plen))
    if r == 2: return None
    if r == 0: return False
    if point and r == 3: return {pv[i]: (ph[i] << 64) | pl[i] for i in range(plen[0])}
    return True
