"""Models of the specification primitives and of the standard-library operations
whose bodies are not analysed (allocation, panicking, formatting, io::Error)."""
from interp import *
import re

EXACT = {}
PREFIX = []
def model(*names):
    def d(f):
        for n in names: EXACT[n] = f
        return f
    return d
def prefix(*names):
    def d(f):
        for n in names: PREFIX.append((n, f))
        return f
    return d

_cache = {}
def lookup(it, fn):
    k = fn["def"]
    if fn["intrinsic"]: k = "intrinsic::" + fn["intrinsic"]
    r = _cache.get(k, 0)
    if r == 0:
        r = EXACT.get(k)
        if r is None and k.startswith("spec::v::"): r = EXACT.get("v::" + k[9:])
        if r is None:
            for p, f in PREFIX:
                if k.startswith(p): r = f; break
        _cache[k] = r
    if r is None and it.opts.get("contracts"):
        r = it.opts["contracts"].get(k)
    return r

def some(v): return Agg(1, (v,))
NONE = Agg(0, ())
def ok(v): return Agg(0, (v,))
def err(v): return Agg(1, (v,))
def usz(it, fn): return 64

# ------------------------------------------------------------ specification primitives
@model("v::any")
def _(it, st, fn, a):
    return it.any(st, fn["targs"][0], False, f"x{len(st.info.setdefault('anys', ()))}")
@model("v::any_word")
def _(it, st, fn, a):
    return it.any(st, fn["targs"][0], True, "w")
@model("v::assume")
def _(it, st, fn, a):
    if not st.branch(a[0]): raise Diverge()
    return UNIT
@model("v::require")
def _(it, st, fn, a):
    p = a[1]; msg = st.mem[p.obj].s if isinstance(p, Ptr) and isinstance(st.mem.get(p.obj), StrV) else "requirement"
    c = st.branch(a[0])
    it.obligation(st, T if c else F, msg, it.where(st))
    if not c: raise Diverge()
    return UNIT
@model("v::allow_panic")
def _(it, st, fn, a): st.mode = "allow"; return UNIT
@model("v::finish_within")
def _(it, st, fn, a):
    n = to_lin(st, a[0])
    st.info["fuel"] = st.nsteps + n.c if n.c else None
    return UNIT
@model("v::forbid_panic")
def _(it, st, fn, a): st.mode = "forbid"; return UNIT
@model("v::bit")
def _(it, st, fn, a):
    n, sg = it.inttype(fn["targs"][0])
    i = to_lin(st, a[1])
    w = to_bits(st, a[0], n)
    if all(x == w.b[0] for x in w.b):
        if not st.branch(b_ge(K(n - 1) - i)): return F
        return w.b[0]
    if not st.branch(b_ge(K(n - 1) - i)): return F
    k = enum_value(st, i)
    return w.b[k]
@model("v::zero_above")
def _(it, st, fn, a):
    n, sg = it.inttype(fn["targs"][0])
    i = to_lin(st, a[1])
    if not st.branch(b_ge(K(n - 1) - i)): return T
    w = to_bits(st, a[0], n)
    i = st.norm(i)
    r = T
    for j, x in enumerate(w.b):
        B.hint = j + 1
        if x != F: r = band(r, bnot(band(x, b_ge(K(j) - i))))
    B.hint = 0
    return r
@model("v::gate_tail")
def _(it, st, fn, a):
    """clear the bits of the last block at and above (bits mod width), without partitioning"""
    n, sg = it.inttype(fn["targs"][1])
    p, v = find_vec_ptr(it, st, a[0])
    ln = st.norm(v.len); bits = to_lin(st, a[1])
    r = mod_lin(st, bits, n)
    if not st.branch(b_ge(ln - 1)): return UNIT
    if not st.branch(b_ge(r - 1)): return UNIT
    w = to_bits(st, it.read(st, v.c, st.norm(ln - 1)), n)
    g = []
    for j, x in enumerate(w.b):
        B.hint = j + 1
        g.append(band(x, b_ge(r - j - 1)))
    B.hint = 0
    g = Bits(g)
    it.store(st, p, Vec_(it.write(st, v.c, st.norm(ln - 1), g), ln, v.cap, v.ety))
    return UNIT
@model("v::snapshot")
def _(it, st, fn, a):
    return it.load(st, a[0])
@model("v::skolem")
def _(it, st, fn, a): return UNIT
@model("v::split")
def _(it, st, fn, a):
    """fix the partition: one concrete value of the quantity per partition"""
    if isinstance(a[0], Bits): return K(amount(st, a[0], 64))
    k = enum_value(st, to_lin(st, a[0]), 5000)
    if k is None: raise Undecided("split of an unbounded quantity")
    return K(k)
@model("v::popcount")
def _(it, st, fn, a):
    n, sg = it.inttype(fn["targs"][0])
    return popcount(st, a[0], n)

# ------------------------------------------------------------ panics
def do_panic(it, st, fn, a): raise Panic(panic_text(st, a) or fn["name"])
def panic_text(st, a):
    for x in a:
        if isinstance(x, Ptr) and isinstance(st.mem.get(x.obj), StrV): return "panic: " + st.mem[x.obj].s
    return None
for n in ("std::rt::begin_panic", "core::panicking::panic", "core::panicking::panic_fmt", "std::rt::panic_fmt",
          "std::option::expect_failed", "std::result::unwrap_failed", "std::option::unwrap_failed",
          "core::panicking::panic_nounwind_fmt", "core::panicking::panic_explicit", "core::panicking::panic_display",
          "core::panicking::assert_failed", "core::panicking::panic_bounds_check", "core::panicking::panic_str_2015",
          "core::panicking::unreachable_display", "core::panicking::panic_const::panic_const_div_by_zero"):
    EXACT[n] = do_panic
@prefix("core::panicking::", "std::slice::index::slice_index_fail", "core::slice::index::slice_", "std::slice::index::slice_", "core::slice::copy_from_slice_impl::len_mismatch_fail")
def _(it, st, fn, a): raise Panic(panic_text(st, a) or fn["name"])

# ------------------------------------------------------------ formatting: opaque
@prefix("core::fmt::", "std::fmt::", "<std::fmt::", "alloc::fmt::", "std::io::_print")
def _(it, st, fn, a): return Opq("fmt")

# ------------------------------------------------------------ intrinsics
def intr(*names):
    return model(*["intrinsic::" + n for n in names])
@intr("size_of")
def _(it, st, fn, a): return K(it.p.types[fn["targs"][0]]["size"])
@model("std::mem::size_of", "core::mem::size_of")
def _(it, st, fn, a): return K(it.p.types[fn["targs"][0]]["size"])
@model("std::mem::size_of_val", "core::mem::size_of_val")
def _(it, st, fn, a):
    t = it.p.types[fn["targs"][0]]
    if t["size"] is not None: return K(t["size"])
    if t["k"] == "slice": return st.norm(it.length(st, a[0]) * it.p.types[t["elem"]]["size"])
    raise Undecided("size_of_val")
@intr("ctpop")
def _(it, st, fn, a):
    n, sg = it.inttype(fn["targs"][0]); return popcount(st, a[0], n)
@intr("ctlz", "ctlz_nonzero")
def _(it, st, fn, a):
    n, sg = it.inttype(fn["targs"][0]); return K(ctlz(st, a[0], n))
@intr("cttz", "cttz_nonzero")
def _(it, st, fn, a):
    n, sg = it.inttype(fn["targs"][0]); return K(cttz(st, a[0], n))
def arith(op, exact=False):
    def f(it, st, fn, a):
        n, sg = it.inttype(fn["targs"][0])
        if op == "mul": return mul(st, a[0], a[1], n, sg, exact)
        return add(st, a[0], a[1], n, sg, op == "sub")
    return f
for op in ("add", "sub", "mul"):
    g = arith(op)
    EXACT[f"intrinsic::wrapping_{op}"] = (lambda g: lambda it, st, fn, a: g(it, st, fn, a)[0])(g)
    EXACT[f"intrinsic::unchecked_{op}"] = EXACT[f"intrinsic::wrapping_{op}"]
    h = arith(op, True)
    EXACT[f"intrinsic::{op}_with_overflow"] = (lambda g: lambda it, st, fn, a: Agg(0, g(it, st, fn, a)))(h)
@intr("saturating_sub")
def _(it, st, fn, a):
    n, sg = it.inttype(fn["targs"][0]); x, y = to_lin(st, a[0], sg), to_lin(st, a[1], sg)
    lo, hi = trange(n, sg)
    r = x - y
    if not st.branch(b_ge(r - lo)): return K(lo)
    if not st.branch(b_ge(K(hi) - r)): return K(hi)
    return st.norm(r)
@intr("saturating_add")
def _(it, st, fn, a):
    n, sg = it.inttype(fn["targs"][0]); x, y = to_lin(st, a[0], sg), to_lin(st, a[1], sg)
    lo, hi = trange(n, sg)
    r = x + y
    if not st.branch(b_ge(r - lo)): return K(lo)
    if not st.branch(b_ge(K(hi) - r)): return K(hi)
    return st.norm(r)
@intr("integer_min", "integer_max")
def _(it, st, fn, a):
    t = fn["targs"][0]
    ge = it.binop(st, "Ge", a[0], a[1], t, False)
    b = st.branch(ge)
    if fn["intrinsic"].endswith("max"): return a[0] if b else a[1]
    return a[1] if b else a[0]
@intr("unchecked_shl", "unchecked_shr")
def _(it, st, fn, a):
    n, sg = it.inttype(fn["targs"][0])
    return (shl if fn["intrinsic"].endswith("shl") else shr)(st, a[0], amount_mod(st, a[1], n), n, sg)
@intr("unchecked_div", "unchecked_rem", "exact_div")
def _(it, st, fn, a):
    n, sg = it.inttype(fn["targs"][0])
    q, m = divrem(st, a[0], a[1], n, sg)
    return m if fn["intrinsic"].endswith("rem") else q
@intr("rotate_left", "rotate_right")
def _(it, st, fn, a):
    n, sg = it.inttype(fn["targs"][0])
    s = amount_mod(st, a[1], n)
    if fn["intrinsic"] == "rotate_right": s = (n - s) % n
    w = to_bits(st, a[0], n).b
    return Bits(w[n - s:] + w[:n - s])
@intr("bswap")
def _(it, st, fn, a):
    n, sg = it.inttype(fn["targs"][0])
    w = to_bits(st, a[0], n).b
    by = [w[i:i + 8] for i in range(0, n, 8)]
    return Bits([x for y in reversed(by) for x in y])
@intr("bitreverse")
def _(it, st, fn, a):
    n, sg = it.inttype(fn["targs"][0])
    return Bits(tuple(reversed(to_bits(st, a[0], n).b)))
@intr("likely", "unlikely", "black_box", "cold_path_v")
def _(it, st, fn, a): return a[0]
@intr("cold_path", "assert_inhabited", "assert_zero_valid", "assert_mem_uninitialized_valid")
def _(it, st, fn, a): return UNIT
@intr("assume")
def _(it, st, fn, a):
    if not st.branch(a[0]): raise Dead()
    return UNIT
@intr("select_unpredictable")
def _(it, st, fn, a): return a[1] if st.branch(a[0]) else a[2]
@intr("needs_drop")
def _(it, st, fn, a): return F
@intr("discriminant_value")
def _(it, st, fn, a):
    return it.discr(st, it.load(st, a[0]), fn["targs"][0])
@intr("three_way_compare")
def _(it, st, fn, a): return it.binop(st, "Cmp", a[0], a[1], fn["targs"][0], False)
@intr("forget")
def _(it, st, fn, a): return UNIT
@intr("read_via_copy", "volatile_load")
def _(it, st, fn, a): return it.load(st, a[0])
@intr("write_via_move")
def _(it, st, fn, a): it.store(st, a[0], a[1]); return UNIT
@intr("ptr_metadata")
def _(it, st, fn, a): return st.norm(a[0].meta) if a[0].meta is not None else UNIT
@intr("aggregate_raw_ptr")
def _(it, st, fn, a): return Ptr(a[0].obj, a[0].path, None if isinstance(a[1], Agg) else to_lin(st, a[1]))
@intr("transmute")
def _(it, st, fn, a):
    tf, tt = fn["targs"][0], fn["targs"][1]
    if it.inttype(tf) and it.inttype(tt): return it.int_cast(st, a[0], tf, tt)
    A, B_ = it.p.types[tf], it.p.types[tt]
    return transmute(it, st, a[0], A, B_)
def transmute(it, st, v, A, B_):
    if A["k"] == "array" and B_["k"] == "uint":
        n = int(A["len"])
        return bytes_to_int(it, st, v, n)
    if A["k"] == "uint" and B_["k"] == "array":
        return int_to_bytes(it, st, v, A["bits"])
    if isinstance(v, (Ptr, DynPtr)): return v
    raise Undecided(f"transmute {A['name']} -> {B_['name']}")
def bytes_to_int(it, st, v, n):
    out = []
    for i in range(n): out += list(to_bits(st, it.read(st, v.c, K(i)), 8).b)
    return Bits(out)
def int_to_bytes(it, st, v, bits):
    w = to_bits(st, v, bits).b
    return Arr(CList([Bits(w[i:i + 8]) for i in range(0, bits, 8)]), K(bits // 8))

@model("std::mem::replace", "core::mem::replace")
def _(it, st, fn, a):
    v = it.load(st, a[0]); it.store(st, a[0], a[1]); return v
@model("std::mem::swap", "core::mem::swap")
def _(it, st, fn, a):
    v = it.load(st, a[0]); w = it.load(st, a[1]); it.store(st, a[0], w); it.store(st, a[1], v); return UNIT
@model("std::mem::forget", "std::mem::drop", "core::mem::drop")
def _(it, st, fn, a): return UNIT
@prefix("std::ptr::drop_in_place", "core::ptr::drop_in_place")
def _(it, st, fn, a): return UNIT
@model("std::hint::assert_unchecked")
def _(it, st, fn, a):
    if not st.branch(a[0]): raise Dead()
    return UNIT
@model("std::hint::unreachable_unchecked", "intrinsic::unreachable")
def _(it, st, fn, a): raise Undecided("unreachable_unchecked reached")

# ------------------------------------------------------------ Vec
def vec_at(it, st, p):
    v = it.load(st, p)
    if not isinstance(v, Vec_): raise Undecided(f"expected a Vec, found {v!r}")
    return v
def esize(it, ety): return max(1, it.p.types[ety]["size"] or 1)

@model("std::vec::Vec::<T>::new", "<std::vec::Vec<T> as std::default::Default>::default")
def _(it, st, fn, a): return Vec_(CList(()), ZERO, ZERO, fn["targs"][0])
@model("std::vec::Vec::<T>::with_capacity")
def _(it, st, fn, a):
    n = to_lin(st, a[0])
    check_cap(it, st, n, fn["targs"][0])
    cap = newvar("cap", 0, max_len(it, fn["targs"][0]))
    st.add_ge(cap - n)
    return Vec_(CList(()), ZERO, cap, fn["targs"][0])
def check_cap(it, st, n, ety):
    """allocation requests above isize::MAX bytes panic; more memory than exists aborts"""
    if not st.branch(b_ge(K(((1 << 63) - 1) // esize(it, ety)) - n)):
        raise Panic("capacity overflow") if st.mode == "allow" else Diverge()
    if not st.branch(b_ge(K(max_len(it, ety)) - n)): raise Diverge()
@model("std::vec::from_elem", "alloc::vec::from_elem")
def _(it, st, fn, a):
    n = to_lin(st, a[1]); ety = fn["targs"][0]
    check_cap(it, st, n, ety)
    cap = newvar("cap", 0, max_len(it, ety)); st.add_ge(cap - n)
    return Vec_(CFill(a[0]), n, cap, ety)
@model("std::vec::Vec::<T, A>::len")
def _(it, st, fn, a): return st.norm(vec_at(it, st, a[0]).len)
@model("std::vec::Vec::<T, A>::is_empty")
def _(it, st, fn, a): return b_eq(st.norm(vec_at(it, st, a[0]).len), ZERO)
@model("std::vec::Vec::<T, A>::capacity")
def _(it, st, fn, a): return st.norm(vec_at(it, st, a[0]).cap)
@model("std::vec::Vec::<T, A>::push")
def _(it, st, fn, a):
    v = vec_at(it, st, a[0]); n = st.norm(v.len)
    if not st.branch(b_ge(K(max_len(it, v.ety) - 1) - n)): raise Diverge()
    cap = grow_cap(it, st, v, n + 1)
    if isinstance(v.c, CList) and not n.t and n.c == len(v.c.vs): c = CList(tuple(v.c.vs) + (a[1],))
    else: c = it.write(st, v.c, n, a[1])
    it.store(st, a[0], Vec_(c, n + 1, cap, v.ety))
    return UNIT
def grow_cap(it, st, v, need):
    if st.decide_ge(v.cap - need) is True: return v.cap
    # growth depends on the old capacity and the length needed only
    key = (v.cap, st.norm(need), max_len(it, v.ety))
    cap = _grown.get(key)
    if cap is None: cap = _grown[key] = newvar("cap", 0, max_len(it, v.ety))
    st.add_ge(cap - need); st.add_ge(cap - v.cap)
    return cap
_grown = {}
@model("std::vec::Vec::<T, A>::pop")
def _(it, st, fn, a):
    v = vec_at(it, st, a[0]); n = st.norm(v.len)
    if not st.branch(b_ge(n - 1)): return NONE
    x = it.read(st, v.c, n - 1)
    c = v.c
    if isinstance(c, CList) and not n.t: c = CList(tuple(c.vs)[:n.c - 1])
    it.store(st, a[0], Vec_(c, n - 1, v.cap, v.ety))
    return some(x)
@model("std::vec::Vec::<T, A>::truncate")
def _(it, st, fn, a):
    v = vec_at(it, st, a[0]); k = to_lin(st, a[1])
    if st.branch(b_ge(k - v.len)): return UNIT
    it.store(st, a[0], Vec_(v.c, k, v.cap, v.ety)); return UNIT
@model("std::vec::Vec::<T, A>::clear")
def _(it, st, fn, a):
    v = vec_at(it, st, a[0])
    it.store(st, a[0], Vec_(v.c, ZERO, v.cap, v.ety)); return UNIT
@model("std::vec::Vec::<T, A>::resize")
def _(it, st, fn, a):
    v = vec_at(it, st, a[0]); k = to_lin(st, a[1])
    if st.branch(b_ge(v.len - k)):
        it.store(st, a[0], Vec_(v.c, k, v.cap, v.ety)); return UNIT
    check_cap(it, st, k, v.ety)
    cap = grow_cap(it, st, v, k)
    it.store(st, a[0], Vec_(CCat(v.c, v.len, CFill(a[2]), ZERO), k, cap, v.ety))
    return UNIT
@model("std::vec::Vec::<T, A>::reserve", "std::vec::Vec::<T, A>::reserve_exact")
def _(it, st, fn, a):
    v = vec_at(it, st, a[0]); k = to_lin(st, a[1])
    need = st.norm(v.len + k)
    check_cap(it, st, need, v.ety)
    it.store(st, a[0], Vec_(v.c, v.len, grow_cap(it, st, v, need), v.ety)); return UNIT
@model("std::vec::Vec::<T, A>::shrink_to_fit")
def _(it, st, fn, a):
    v = vec_at(it, st, a[0])
    cap = newvar("cap", 0, max_len(it, v.ety))
    st.add_ge(cap - v.len); st.add_ge(v.cap - cap)
    it.store(st, a[0], Vec_(v.c, v.len, cap, v.ety)); return UNIT
@model("std::vec::Vec::<T, A>::into_boxed_slice")
def _(it, st, fn, a):
    o = ("heap", fresh()); st.mem[o] = Arr(a[0].c, a[0].len)
    return Ptr(o, (("s", ZERO),), a[0].len)
@model("<std::vec::Vec<T, A> as std::clone::Clone>::clone")
def _(it, st, fn, a):
    v = vec_at(it, st, a[0]); cap = newvar("cap", 0, max_len(it, v.ety)); st.add_ge(cap - v.len)
    return Vec_(v.c, v.len, cap, v.ety)
@model("<std::vec::Vec<T, A> as std::clone::Clone>::clone_from")
def _(it, st, fn, a):
    v = vec_at(it, st, a[1]); cap = newvar("cap", 0, max_len(it, v.ety)); st.add_ge(cap - v.len)
    it.store(st, a[0], Vec_(v.c, v.len, cap, v.ety)); return UNIT
@model("std::vec::Vec::<T, A>::as_slice", "std::vec::Vec::<T, A>::as_mut_slice",
       "<std::vec::Vec<T, A> as std::ops::Deref>::deref", "<std::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut",
       "<std::vec::Vec<T, A> as std::convert::AsRef<[T]>>::as_ref", "<std::vec::Vec<T, A> as std::borrow::Borrow<[T]>>::borrow")
def _(it, st, fn, a):
    v = vec_at(it, st, a[0])
    return Ptr(a[0].obj, a[0].path + (("s", ZERO),), st.norm(v.len))
def index_vec(it, st, fn, a):
    ity = it.p.types[fn["targs"][1]]
    v = vec_at(it, st, a[0])
    sl = Ptr(a[0].obj, a[0].path + (("s", ZERO),), st.norm(v.len))
    return index_slice(it, st, sl, a[1], ity)
def index_slice(it, st, sl, idx, ity, total=False):
    n = sl.meta
    if ity["k"] == "uint":
        i = to_lin(st, idx)
        if not st.branch(b_ge(n - i - 1)): raise Panic("index out of bounds")
        return it.elem(sl, i)
    d = ity.get("def", "")
    if d.endswith("RangeFull"): return sl
    if d.endswith("RangeTo"): lo, hi = ZERO, to_lin(st, idx.f[0])
    elif d.endswith("RangeFrom"): lo, hi = to_lin(st, idx.f[0]), n
    elif d.endswith("RangeInclusive"): lo, hi = to_lin(st, idx.f[0]), to_lin(st, idx.f[1]) + 1
    elif d.endswith("RangeToInclusive"): lo, hi = ZERO, to_lin(st, idx.f[0]) + 1
    elif d.endswith("Range"): lo, hi = to_lin(st, idx.f[0]), to_lin(st, idx.f[1])
    else: raise Undecided(f"index by {ity['name']}")
    if total:
        return it.subslice(sl, lo, st.norm(hi - lo)) if st.branch(b_ge(hi - lo)) and st.branch(b_ge(n - hi)) else None
    if not st.branch(b_ge(hi - lo)): raise Panic("slice index starts after its end")
    if not st.branch(b_ge(n - hi)): raise Panic("slice range out of bounds")
    return it.subslice(sl, lo, st.norm(hi - lo))
EXACT["<std::vec::Vec<T, A> as std::ops::Index<I>>::index"] = index_vec
EXACT["<std::vec::Vec<T, A> as std::ops::IndexMut<I>>::index_mut"] = index_vec
def index_sl(it, st, fn, a):
    return index_slice(it, st, a[0], a[1], it.p.types[fn["targs"][1]])
for n in ("std::slice::index::<impl std::ops::Index<I> for [T]>::index", "std::slice::index::<impl std::ops::IndexMut<I> for [T]>::index_mut",
          "core::slice::index::<impl std::ops::Index<I> for [T]>::index", "core::slice::index::<impl std::ops::IndexMut<I> for [T]>::index_mut"):
    EXACT[n] = index_sl

def slice_of(it, st, p):
    if p.path and p.path[-1][0] == "s": return p
    v = it.load(st, p)
    if isinstance(v, (Arr, Vec_)): return Ptr(p.obj, p.path + (("s", ZERO),), st.norm(v.len))
    raise Undecided("slice")
@model("core::slice::<impl [T]>::len", "std::slice::<impl [T]>::len")
def _(it, st, fn, a): return st.norm(slice_of(it, st, a[0]).meta)
@model("core::slice::<impl [T]>::is_empty")
def _(it, st, fn, a): return b_eq(st.norm(slice_of(it, st, a[0]).meta), ZERO)
def sl_get(it, st, fn, a):
    s = slice_of(it, st, a[0])
    if it.p.types[fn["targs"][1]]["k"] != "uint":
        r = index_slice(it, st, s, a[1], it.p.types[fn["targs"][1]], True)
        return NONE if r is None else some(r)
    i = to_lin(st, a[1])
    if st.branch(b_ge(s.meta - i - 1)): return some(it.elem(s, i))
    return NONE
EXACT["core::slice::<impl [T]>::get"] = sl_get
EXACT["core::slice::<impl [T]>::get_mut"] = sl_get
def sl_last(it, st, fn, a):
    s = slice_of(it, st, a[0])
    if st.branch(b_ge(s.meta - 1)): return some(it.elem(s, st.norm(s.meta - 1)))
    return NONE
EXACT["core::slice::<impl [T]>::last"] = sl_last
EXACT["core::slice::<impl [T]>::last_mut"] = sl_last
def sl_first(it, st, fn, a):
    s = slice_of(it, st, a[0])
    if st.branch(b_ge(s.meta - 1)): return some(it.elem(s, ZERO))
    return NONE
EXACT["core::slice::<impl [T]>::first"] = sl_first
EXACT["core::slice::<impl [T]>::first_mut"] = sl_first

# slice iterators: (container slice pointer, start, end)
@model("core::slice::<impl [T]>::iter", "core::slice::<impl [T]>::iter_mut")
def _(it, st, fn, a):
    s = slice_of(it, st, a[0]); return SIter(s, ZERO, st.norm(s.meta))
@model("<&'a std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter", "<&'a mut std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter")
def _(it, st, fn, a):
    s = slice_of(it, st, a[0]); return SIter(s, ZERO, st.norm(s.meta))
@model("core::slice::iter::<impl std::iter::IntoIterator for &'a [T]>::into_iter", "core::slice::iter::<impl std::iter::IntoIterator for &'a mut [T]>::into_iter",
       "std::slice::iter::<impl std::iter::IntoIterator for &'a [T]>::into_iter")
def _(it, st, fn, a):
    s = slice_of(it, st, a[0]); return SIter(s, ZERO, st.norm(s.meta))
def iter_at(it, st, p):
    s = it.load(st, p)
    if not isinstance(s, (SIter, OIter)): raise Undecided("library iterator")
    return s
def iter_item(it, st, s, k):
    p = it.elem(s.sl, k)
    return it.load(st, p) if isinstance(s, OIter) else p
def siter_next(it, st, fn, a):
    s = iter_at(it, st, a[0])
    i, j = s.f
    if not st.branch(b_ge(st.norm(j - i - 1))): return NONE
    it.store(st, a[0], type(s)(s.sl, st.norm(i + 1), j))
    return some(iter_item(it, st, s, i))
def siter_next_back(it, st, fn, a):
    s = iter_at(it, st, a[0])
    i, j = s.f
    if not st.branch(b_ge(st.norm(j - i - 1))): return NONE
    it.store(st, a[0], type(s)(s.sl, i, st.norm(j - 1)))
    return some(iter_item(it, st, s, st.norm(j - 1)))
def siter_nth(it, st, fn, a):
    s = iter_at(it, st, a[0]); i, j = s.f; k = to_lin(st, a[1])
    if not st.branch(b_ge(st.norm(j - i - k - 1))):
        it.store(st, a[0], type(s)(s.sl, j, j)); return NONE
    it.store(st, a[0], type(s)(s.sl, st.norm(i + k + 1), j))
    return some(iter_item(it, st, s, st.norm(i + k)))
def siter_nth_back(it, st, fn, a):
    s = iter_at(it, st, a[0]); i, j = s.f; k = to_lin(st, a[1])
    if not st.branch(b_ge(st.norm(j - i - k - 1))):
        it.store(st, a[0], type(s)(s.sl, i, i)); return NONE
    it.store(st, a[0], type(s)(s.sl, i, st.norm(j - k - 1)))
    return some(iter_item(it, st, s, st.norm(j - k - 1)))
def siter_last(it, st, fn, a):
    s = a[0]; i, j = s.f
    if not st.branch(b_ge(st.norm(j - i - 1))): return NONE
    return some(iter_item(it, st, s, st.norm(j - 1)))
def siter_hint(it, st, fn, a):
    s = iter_at(it, st, a[0]); n = st.norm(s.f[1] - s.f[0])
    return Agg(0, (n, some(n)))
def siter_len(it, st, fn, a):
    s = iter_at(it, st, a[0]); return st.norm(s.f[1] - s.f[0])
def siter_empty(it, st, fn, a): return b_eq(siter_len(it, st, fn, a), ZERO)
def siter_count(it, st, fn, a): return st.norm(a[0].f[1] - a[0].f[0])
def siter_unchecked(it, st, fn, a):
    s = iter_at(it, st, a[0]); return iter_item(it, st, s, st.norm(s.f[0] + to_lin(st, a[1])))
def siter_clone(it, st, fn, a): return it.load(st, a[0])
def siter_same(it, st, fn, a): return a[0]
def siter_slice(it, st, fn, a):
    s = iter_at(it, st, a[0]); return it.subslice(s.sl, s.f[0], st.norm(s.f[1] - s.f[0]))
for n in ("std::slice::Iter<'a, T>", "std::slice::IterMut<'a, T>", "std::vec::IntoIter<T, A>", "std::vec::Drain<'_, T, A>", "std::array::IntoIter<T, N>",
          "std::collections::vec_deque::Iter<'a, T>", "std::collections::vec_deque::IterMut<'a, T>", "std::collections::vec_deque::IntoIter<T, A>", "std::collections::vec_deque::Drain<'_, T, A>"):
  for m in {n, n.replace("<'a, T>", "<'_, T>"), n.replace("std::collections::vec_deque", "std::collections::vec_deque::" + n.split("<")[0].rsplit("::")[-1].lower()),
            n.replace("'a", "'_")}:
    EXACT[f"<{m} as std::iter::Iterator>::next"] = siter_next
    EXACT[f"<{m} as std::iter::Iterator>::nth"] = siter_nth
    EXACT[f"<{m} as std::iter::Iterator>::last"] = siter_last
    EXACT[f"<{m} as std::iter::Iterator>::count"] = siter_count
    EXACT[f"<{m} as std::iter::Iterator>::size_hint"] = siter_hint
    EXACT[f"<{m} as std::iter::Iterator>::__iterator_get_unchecked"] = siter_unchecked
    EXACT[f"<{m} as std::iter::DoubleEndedIterator>::next_back"] = siter_next_back
    EXACT[f"<{m} as std::iter::DoubleEndedIterator>::nth_back"] = siter_nth_back
    EXACT[f"<{m} as std::iter::ExactSizeIterator>::len"] = siter_len
    EXACT[f"<{m} as std::iter::ExactSizeIterator>::is_empty"] = siter_empty
    EXACT[f"<{m} as std::clone::Clone>::clone"] = siter_clone
EXACT["std::slice::Iter::<'a, T>::as_slice"] = siter_slice
EXACT["std::vec::IntoIter::<T, A>::as_slice"] = siter_slice

# ------------------------------------------------------------ contents as values
def sub_content(st, c, off, n):
    """the content whose element k is element off + k of c"""
    off = st.norm(off); n = st.norm(n)
    while isinstance(c, CCat) and st.decide_ge(st.norm(off - c.at)) is True: off = st.norm(off - c.at + c.off); c = c.rest
    if isinstance(c, CList) and not off.t and not n.t and 0 <= off.c and off.c + n.c <= len(c.vs): return CList(tuple(c.vs)[off.c:off.c + n.c])
    if off is ZERO or isinstance(c, CFill): return c
    return CCat(CList(()), ZERO, c, off)
def cat_content(st, c, n, d):
    """n elements of c, then d"""
    n = st.norm(n)
    if n is ZERO: return d
    if isinstance(c, CList) and isinstance(d, CList) and not n.t and n.c <= len(c.vs): return CList(tuple(c.vs)[:n.c] + tuple(d.vs))
    return CCat(c, n, d, ZERO)
def new_vec(it, st, c, n, ety):
    cap = newvar("cap", 0, max_len(it, ety)); st.add_ge(cap - n)
    return Vec_(c, st.norm(n), cap, ety)
def owning(it, st, c, n):
    o = ("heap", fresh()); st.mem[o] = Arr(c, st.norm(n))
    return OIter(Ptr(o, (("s", ZERO),), st.norm(n)), ZERO, st.norm(n))
def slice_content(it, st, p):
    s = slice_of(it, st, p)
    v = it.load(st, Ptr(s.obj, s.path[:-1]))
    return sub_content(st, v.c, s.path[-1][1], s.meta), st.norm(s.meta)
def blit(it, st, dst, c, n):
    """overwrite the slice dst (of n elements) with content c"""
    q = Ptr(dst.obj, dst.path[:-1]); v = it.load(st, q); off = st.norm(dst.path[-1][1]); end = st.norm(off + n)
    if not isinstance(v, (Arr, Vec_)): raise Undecided("slice store")
    r = cat_content(st, v.c, off, cat_content(st, c, n, sub_content(st, v.c, end, st.norm(v.len - end))))
    it.store(st, q, Vec_(r, v.len, v.cap, v.ety) if isinstance(v, Vec_) else Arr(r, v.len))
@model("<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter")
def _(it, st, fn, a): return owning(it, st, a[0].c, a[0].len)
def range_of(it, st, fn, v, r, ty):
    s = index_slice(it, st, Ptr(("none",), (("s", ZERO),), st.norm(v.len)), r, it.p.types[ty])
    lo = st.norm(s.path[-1][1]); return lo, st.norm(lo + s.meta)
@model("std::vec::Vec::<T, A>::drain", "std::collections::VecDeque::<T, A>::drain")
def _(it, st, fn, a):
    v = vec_at(it, st, a[0])
    if "VecDeque" in fn["def"]: dq(it, st, a[0])
    lo, hi = range_of(it, st, fn, v, a[1], fn["targs"][2])
    if isinstance(v.c, CList) and not v.len.t and not lo.t and not hi.t:
        vs = tuple(v.c.vs)[:v.len.c]; c = CList(vs[:lo.c] + vs[hi.c:])
    else: c = cat_content(st, v.c, lo, sub_content(st, v.c, hi, st.norm(v.len - hi)))
    it.store(st, a[0], Vec_(c, st.norm(v.len - (hi - lo)), v.cap, v.ety))
    return owning(it, st, sub_content(st, v.c, lo, hi - lo), hi - lo)
@model("std::vec::Vec::<T, A>::extend_from_slice")
def _(it, st, fn, a):
    v = vec_at(it, st, a[0]); c, n = slice_content(it, st, a[1])
    need = st.norm(v.len + n)
    check_cap(it, st, need, v.ety)
    it.store(st, a[0], Vec_(cat_content(st, v.c, v.len, c), need, grow_cap(it, st, v, need), v.ety)); return UNIT
@model("std::vec::Vec::<T, A>::append")
def _(it, st, fn, a):
    v = vec_at(it, st, a[0]); w = vec_at(it, st, a[1]); need = st.norm(v.len + w.len)
    check_cap(it, st, need, v.ety)
    it.store(st, a[0], Vec_(cat_content(st, v.c, v.len, w.c), need, grow_cap(it, st, v, need), v.ety))
    it.store(st, a[1], Vec_(CList(()), ZERO, w.cap, w.ety)); return UNIT
@model("std::vec::Vec::<T, A>::insert")
def _(it, st, fn, a):
    v = vec_at(it, st, a[0]); i = to_lin(st, a[1])
    if not st.branch(b_ge(v.len - i)): raise Panic("insertion index out of range")
    need = st.norm(v.len + 1); check_cap(it, st, need, v.ety)
    c = cat_content(st, v.c, i, cat_content(st, CList((a[2],)), K(1), sub_content(st, v.c, i, v.len - i)))
    it.store(st, a[0], Vec_(c, need, grow_cap(it, st, v, need), v.ety)); return UNIT
@model("std::vec::Vec::<T, A>::remove")
def _(it, st, fn, a):
    v = vec_at(it, st, a[0]); i = to_lin(st, a[1])
    if not st.branch(b_ge(v.len - i - 1)): raise Panic("removal index out of range")
    x = it.read(st, v.c, i)
    c = cat_content(st, v.c, i, sub_content(st, v.c, i + 1, v.len - i - 1))
    it.store(st, a[0], Vec_(c, st.norm(v.len - 1), v.cap, v.ety)); return x
@model("std::vec::Vec::<T, A>::swap_remove")
def _(it, st, fn, a):
    v = vec_at(it, st, a[0]); i = to_lin(st, a[1])
    if not st.branch(b_ge(v.len - i - 1)): raise Panic("removal index out of range")
    x = it.read(st, v.c, i); y = it.read(st, v.c, st.norm(v.len - 1))
    c = it.write(st, v.c, st.norm(i), y)
    it.store(st, a[0], Vec_(c, st.norm(v.len - 1), v.cap, v.ety)); return x
@model("std::vec::Vec::<T, A>::split_off")
def _(it, st, fn, a):
    v = vec_at(it, st, a[0]); i = to_lin(st, a[1])
    if not st.branch(b_ge(v.len - i)): raise Panic("split index out of range")
    it.store(st, a[0], Vec_(v.c, st.norm(i), v.cap, v.ety))
    return new_vec(it, st, sub_content(st, v.c, i, v.len - i), st.norm(v.len - i), v.ety)
def to_vec(it, st, fn, a):
    c, n = slice_content(it, st, a[0])
    check_cap(it, st, n, fn["targs"][0])
    return new_vec(it, st, c, n, fn["targs"][0])
for n in ("std::slice::<impl [T]>::to_vec", "std::slice::<impl std::borrow::ToOwned for [T]>::to_owned", "alloc::slice::<impl [T]>::to_vec",
          "<std::vec::Vec<T> as std::convert::From<&[T]>>::from", "<std::vec::Vec<T> as std::convert::From<&mut [T]>>::from",
          "<std::vec::Vec<T, A> as std::convert::From<std::boxed::Box<[T], A>>>::from", "std::slice::<impl [T]>::into_vec", "alloc::slice::<impl [T]>::into_vec",
          "<std::vec::Vec<T> as std::convert::From<&[T; N]>>::from"):
    EXACT[n] = to_vec
@model("<std::vec::Vec<T> as std::convert::From<[T; N]>>::from")
def _(it, st, fn, a): return new_vec(it, st, a[0].c, a[0].len, fn["targs"][0])
def boxed(it, st, fn, a):
    v = a[0]; o = ("heap", fresh()); st.mem[o] = Arr(v.c, v.len); return Ptr(o, (("s", ZERO),), st.norm(v.len))
EXACT["std::boxed::convert::<impl std::convert::From<std::vec::Vec<T, A>> for std::boxed::Box<[T], A>>::from"] = boxed
EXACT["std::vec::<impl std::convert::From<std::vec::Vec<T, A>> for std::boxed::Box<[T], A>>::from"] = boxed
EXACT["<std::boxed::Box<[T], A> as std::convert::From<std::vec::Vec<T, A>>>::from"] = boxed
def sl_swap(it, st, fn, a):
    s = slice_of(it, st, a[0]); i = to_lin(st, a[1]); j = to_lin(st, a[2])
    for k in (i, j):
        if not st.branch(b_ge(s.meta - k - 1)): raise Panic("index out of bounds")
    p, q = it.elem(s, i), it.elem(s, j)
    x = it.load(st, p); y = it.load(st, q); it.store(st, p, y); it.store(st, q, x); return UNIT
EXACT["core::slice::<impl [T]>::swap"] = sl_swap
def sl_fill(it, st, fn, a):
    s = slice_of(it, st, a[0]); blit(it, st, s, CFill(a[1]), st.norm(s.meta)); return UNIT
EXACT["core::slice::<impl [T]>::fill"] = sl_fill
def sl_copy(it, st, fn, a):
    s = slice_of(it, st, a[0]); c, n = slice_content(it, st, a[1])
    if not st.branch(b_eq(st.norm(s.meta), n)): raise Panic("copy_from_slice: lengths differ")
    if isinstance(it.load(st, Ptr(s.obj, s.path[:-1])).c, CList) and isinstance(c, CList) and not n.t and not s.path[-1][1].t:
        for k, x in enumerate(c.vs): it.store(st, it.elem(s, K(k)), x)
    else: blit(it, st, s, c, n)
    return UNIT
EXACT["core::slice::<impl [T]>::copy_from_slice"] = sl_copy
EXACT["core::slice::<impl [T]>::clone_from_slice"] = sl_copy
def sl_within(it, st, fn, a):
    s = slice_of(it, st, a[0]); r = index_slice(it, st, s, a[1], it.p.types[fn["targs"][1]]); k = to_lin(st, a[2])
    if not st.branch(b_ge(s.meta - r.meta - k)): raise Panic("dest is out of bounds")
    c, n = slice_content(it, st, r)
    blit(it, st, it.subslice(s, k, n), c, n); return UNIT
EXACT["core::slice::<impl [T]>::copy_within"] = sl_within
@model("<A as core::slice::cmp::SlicePartialEq<B>>::equal_same_length")
def _(it, st, fn, a):
    n = enum_value(st, to_lin(st, a[2]), 256)
    ity = it.inttype(fn["targs"][0])
    if n is None or ity is None: raise Undecided("comparison of unboundedly many elements")
    r = T
    for i in range(n):
        x, y = (it.load(st, it.offset(st, p, K(i), False)) for p in a[:2])
        r = band(r, cmp_eq(st, x, y, *ity))
    return r
EXACT["intrinsic::is_val_statically_known"] = lambda it, st, fn, a: F
def sel(it, st, fn, a): return a[1] if st.branch(a[0]) else a[2]
EXACT["std::hint::select_unpredictable"] = EXACT["core::hint::select_unpredictable"] = EXACT["intrinsic::select_unpredictable"] = sel
for n in ("core::array::iter::<impl std::iter::IntoIterator for [T; N]>::into_iter", "std::array::iter::<impl std::iter::IntoIterator for [T; N]>::into_iter"):
    EXACT[n] = lambda it, st, fn, a: owning(it, st, a[0].c, a[0].len)

# ------------------------------------------------------------ Box
@model("std::boxed::Box::<T>::new", "alloc::boxed::Box::<T>::new")
def _(it, st, fn, a):
    o = ("heap", fresh()); st.mem[o] = a[0]; return Ptr(o)

@model(*(f"<{c}::boxed::Box<T, A> as {t}" for c in ("std", "alloc") for t in ("std::ops::Deref>::deref", "std::ops::DerefMut>::deref_mut", "std::convert::AsRef<T>>::as_ref",
    "std::convert::AsMut<T>>::as_mut", "std::borrow::Borrow<T>>::borrow", "std::borrow::BorrowMut<T>>::borrow_mut")))
def _(it, st, fn, a):
    v = it.load(st, a[0])
    while isinstance(v, Agg): v = v.f[0]
    return v
# the lowering of vec![a, b, ..]: an uninitialised box, written through a raw pointer
@prefix("std::boxed::Box::<[", "alloc::boxed::Box::<[")
def _(it, st, fn, a):
    if not fn["def"].endswith("]>::new_uninit"): raise Undecided("unmodelled " + fn["def"])
    o = ("heap", fresh()); st.mem[o] = Agg(0, (UNIT, Agg(0, (UNIT,)))); return Ptr(o)
@model("std::boxed::Box::<T>::new_uninit", "alloc::boxed::Box::<T>::new_uninit")
def _(it, st, fn, a):
    o = ("heap", fresh()); st.mem[o] = Agg(0, (UNIT, Agg(0, (UNIT,)))); return Ptr(o)
@model("std::boxed::box_assume_init_into_vec_unsafe", "alloc::boxed::box_assume_init_into_vec_unsafe")
def _(it, st, fn, a):
    v = it.load(st, Ptr(a[0].obj, a[0].path + (("f", 1), ("f", 0))))
    if not isinstance(v, Arr): raise Undecided("vec! of an unknown box")
    cap = newvar("cap", 0, max_len(it, fn["targs"][0])); st.add_ge(cap - v.len)
    return Vec_(v.c, v.len, cap, fn["targs"][0])

# ------------------------------------------------------------ io::Error
ERRTY = "io::Error"
@model("std::io::Error::new", "std::io::error::Error::new", "std::io::Error::other")
def _(it, st, fn, a):
    k = a[0].v if isinstance(a[0], Agg) else "?"
    return IoErr(("kind", k))
@model("std::io::Error::from_raw_os_error")
def _(it, st, fn, a): return IoErr(("os", const_of(st, a[0])))
@model("std::io::Error::raw_os_error")
def _(it, st, fn, a):
    e = it.load(st, a[0])
    return some(K(e.tag[1])) if e.tag[0] == "os" else NONE
@model("std::io::Error::kind")
def _(it, st, fn, a):
    e = it.load(st, a[0])
    if e.tag[0] == "kind" and isinstance(e.tag[1], int): return Agg(e.tag[1], ())
    raise Undecided("io::Error::kind")
@model("<std::io::Error as std::convert::From<std::io::ErrorKind>>::from")
def _(it, st, fn, a): return IoErr(("kind", a[0].v))
@model("v::extract")
def _(it, st, fn, a):
    n, sg = it.inttype(fn["targs"][0])
    c = enum_value(st, to_lin(st, a[2])); s = enum_value(st, to_lin(st, a[1]))
    if s is None or c is None: raise Undecided("extract of an unbounded span")
    w = to_bits(st, a[0], n).b
    r = list(w[s:s + c])
    return Bits(r + [F] * (n - len(r)))
@model("v::splice")
def _(it, st, fn, a):
    n, sg = it.inttype(fn["targs"][0])
    c = enum_value(st, to_lin(st, a[2])); s = enum_value(st, to_lin(st, a[1]))
    if s is None or c is None: raise Undecided("splice of an unbounded span")
    w = list(to_bits(st, a[0], n).b); x = to_bits(st, a[3], n).b
    for j in range(c):
        if s + j < n: w[s + j] = x[j]
    return Bits(w)

def find_vec_ptr(it, st, p):
    v = it.load(st, p)
    if isinstance(v, Vec_): return p, v
    if isinstance(v, Agg):
        for k in range(len(v.f)):
            try: return find_vec_ptr(it, st, Ptr(p.obj, p.path + (("f", k),)))
            except Undecided: pass
    raise Undecided("no block vector inside the value")
def find_vec(v):
    if isinstance(v, Vec_): return v
    if isinstance(v, Agg):
        for x in v.f:
            r = find_vec(x)
            if r is not None: return r
    return None
@model("v::stored_blocks")
def _(it, st, fn, a):
    v = find_vec(it.load(st, a[0]))
    if v is None: raise Undecided("no block vector inside the value")
    return st.norm(v.len)
@model("v::stored_block")
def _(it, st, fn, a):
    v = find_vec(it.load(st, a[0]))
    if v is None: raise Undecided("no block vector inside the value")
    i = to_lin(st, a[1])
    if not st.branch(b_ge(st.norm(v.len) - i - 1)): raise Panic("stored_block: no such block")
    return it.read(st, v.c, i)
@model("v::block_capacity")
def _(it, st, fn, a):
    v = find_vec(it.load(st, a[0]))
    if v is None: raise Undecided("no block vector inside the value")
    return st.norm(v.cap)

def may_own(it, ty, seen=()):
    t = it.p.types[ty]; k = t["k"]
    if ty in seen: return False
    if k in ("struct", "enum", "union"):
        if t["def"].endswith(("vec::Vec", "boxed::Box", "p01::Part")): return True
        if t["def"].endswith("PhantomData"): return False
        return any(may_own(it, x, seen + (ty,)) for w in t["variants"] for _, x in w["fields"])
    if k == "tuple": return any(may_own(it, x, seen + (ty,)) for x in t["fields"])
    if k in ("array", "slice"): return may_own(it, t["elem"], seen + (ty,))
    return k in ("dyn", "adt")
def owned(it, st, v, ty):
    """heap bytes owned by a value, from its type and its abstract state"""
    t = it.p.types[ty]; k = t["k"]
    if not may_own(it, ty): return ZERO
    if k == "struct" and t["def"].endswith("p01::Part"): return to_lin(st, v.f[0])
    if k == "struct" and t["def"].endswith("vec::Vec"):
        e = t["args"][0]
        r = st.norm(v.cap) * it.p.types[e]["size"]
        if may_own(it, e):
            n = enum_value(st, st.norm(v.len), 64)
            if n is None: raise Undecided("owned bytes of unboundedly many elements")
            for i in range(n): r = r + owned(it, st, it.read(st, v.c, K(i)), e)
        return st.norm(r)
    if k == "struct" and t["def"].endswith("boxed::Box"):
        e = t["args"][0]
        while isinstance(v, Agg): v = v.f[0]
        return st.norm(owned(it, st, it.load(st, v), e) + it.p.types[e]["size"])
    if k == "tuple": fs = t["fields"]
    elif k == "struct": fs = [x for _, x in t["variants"][0]["fields"]]
    else: raise Undecided(f"owned bytes of {t['name']}")
    r = ZERO
    for x, y in zip(v.f, fs): r = r + owned(it, st, x, y)
    return st.norm(r)
@model("v::owned_bytes")
def _(it, st, fn, a): return owned(it, st, it.load(st, a[0]), fn["targs"][0])

# ------------------------------------------------------------ Cell (interior value at field 0 of field 0)
def cell_in(p): return Ptr(p.obj, p.path + (("f", 0), ("f", 0)))
@model("std::cell::Cell::<T>::get")
def _(it, st, fn, a): return it.load(st, cell_in(a[0]))
@model("std::cell::Cell::<T>::set")
def _(it, st, fn, a): it.store(st, cell_in(a[0]), a[1]); return UNIT
@model("std::cell::Cell::<T>::replace")
def _(it, st, fn, a):
    v = it.load(st, cell_in(a[0])); it.store(st, cell_in(a[0]), a[1]); return v
EXACT["alloc::io::error::<impl std::io::Error>::new"] = EXACT["std::io::Error::new"]
EXACT["alloc::io::error::<impl std::io::Error>::other"] = EXACT["std::io::Error::new"]
for _n in ("from_raw_os_error", "raw_os_error", "kind"):
    EXACT["std::io::error::<impl std::io::Error>::" + _n] = EXACT["std::io::Error::" + _n]
    EXACT["alloc::io::error::<impl std::io::Error>::" + _n] = EXACT["std::io::Error::" + _n]

# ------------------------------------------------------------ VecDeque (of known length)
DQ = "std::collections::VecDeque::<"
def dq(it, st, p):
    v = vec_at(it, st, p); n = st.norm(v.len)
    if not isinstance(v.c, CList) or n.t: raise Undecided("queue of unknown length")
    return v, list(v.c.vs)[:n.c]
def dq_put(it, st, p, v, vs, cap=None): it.store(st, p, Vec_(CList(tuple(vs)), K(len(vs)), cap or v.cap, v.ety))
@model(DQ + "T>::new", DQ + "T>::with_capacity")
def _(it, st, fn, a): return Vec_(CList(()), ZERO, ZERO if not a else newvar("cap", 0, max_len(it, fn["targs"][0])), fn["targs"][0])
@model(DQ + "T, A>::len")
def _(it, st, fn, a): return st.norm(vec_at(it, st, a[0]).len)
@model(DQ + "T, A>::is_empty")
def _(it, st, fn, a): return b_eq(st.norm(vec_at(it, st, a[0]).len), ZERO)
@model(DQ + "T, A>::push_back", DQ + "T, A>::push_front")
def _(it, st, fn, a):
    v, vs = dq(it, st, a[0])
    cap = grow_cap(it, st, v, K(len(vs) + 1))
    dq_put(it, st, a[0], v, vs + [a[1]] if fn["def"].endswith("back") else [a[1]] + vs, cap)
    return UNIT
@model(DQ + "T, A>::pop_front", DQ + "T, A>::pop_back")
def _(it, st, fn, a):
    v, vs = dq(it, st, a[0])
    if not vs: return NONE
    back = fn["def"].endswith("back")
    dq_put(it, st, a[0], v, vs[:-1] if back else vs[1:])
    return some(vs[-1] if back else vs[0])
@model(DQ + "T, A>::front", DQ + "T, A>::back", DQ + "T, A>::get")
def _(it, st, fn, a):
    v, vs = dq(it, st, a[0])
    m = fn["def"].rsplit("::", 1)[1]
    i = enum_value(st, to_lin(st, a[1])) if m == "get" else 0 if m == "front" else len(vs) - 1
    if i is None: raise Undecided("queue position")
    if not 0 <= i < len(vs): return NONE
    return some(Ptr(a[0].obj, a[0].path + (("i", K(i)),)))

@model(DQ + "T, A>::clear")
def _(it, st, fn, a):
    v, vs = dq(it, st, a[0]); dq_put(it, st, a[0], v, []); return UNIT
@model(DQ + "T, A>::truncate")
def _(it, st, fn, a):
    v, vs = dq(it, st, a[0]); k = to_lin(st, a[1])
    if st.branch(b_ge(k - len(vs))): return UNIT
    k = enum_value(st, st.norm(k))
    if k is None: raise Undecided("queue position")
    dq_put(it, st, a[0], v, vs[:k]); return UNIT
@model(DQ + "T, A>::append")
def _(it, st, fn, a):
    v, vs = dq(it, st, a[0]); w, ws = dq(it, st, a[1])
    dq_put(it, st, a[0], v, vs + ws, grow_cap(it, st, v, K(len(vs) + len(ws)))); dq_put(it, st, a[1], w, []); return UNIT
def dq_iter(it, st, fn, a):
    dq(it, st, a[0]); s = slice_of(it, st, a[0]); return SIter(s, ZERO, st.norm(s.meta))
for n in (DQ + "T, A>::iter", DQ + "T, A>::iter_mut", "<&'a std::collections::VecDeque<T, A> as std::iter::IntoIterator>::into_iter", "<&'a mut std::collections::VecDeque<T, A> as std::iter::IntoIterator>::into_iter"):
    EXACT[n] = dq_iter
@model("<std::collections::VecDeque<T, A> as std::iter::IntoIterator>::into_iter")
def _(it, st, fn, a): return owning(it, st, a[0].c, a[0].len)
@model("<std::collections::VecDeque<T, A> as std::convert::From<std::vec::Vec<T, A>>>::from", "<std::vec::Vec<T, A> as std::convert::From<std::collections::VecDeque<T, A>>>::from")
def _(it, st, fn, a): return a[0]
@model("<std::collections::VecDeque<T, A> as std::clone::Clone>::clone", "<std::collections::VecDeque<T> as std::clone::Clone>::clone")
def _(it, st, fn, a): return it.load(st, a[0])
@model("<std::collections::VecDeque<T> as std::default::Default>::default")
def _(it, st, fn, a): return Vec_(CList(()), ZERO, ZERO, fn["targs"][0])
@model("<std::collections::VecDeque<T, A> as std::ops::Index<usize>>::index", "<std::collections::VecDeque<T, A> as std::ops::IndexMut<usize>>::index_mut", DQ + "T, A>::get_mut")
def _(it, st, fn, a):
    v, vs = dq(it, st, a[0]); i = to_lin(st, a[1])
    ok = st.branch(b_ge(K(len(vs) - 1) - i))
    get = fn["def"].endswith("get_mut")
    if not ok:
        if get: return NONE
        raise Panic("queue index out of bounds")
    p = Ptr(a[0].obj, a[0].path + (("i", st.norm(i)),))
    return some(p) if get else p
@model(DQ + "T, A>::front_mut", DQ + "T, A>::back_mut")
def _(it, st, fn, a):
    v, vs = dq(it, st, a[0])
    if not vs: return NONE
    return some(Ptr(a[0].obj, a[0].path + (("i", K(0 if "front" in fn["def"] else len(vs) - 1)),)))
@model(DQ + "T, A>::make_contiguous")
def _(it, st, fn, a):
    dq(it, st, a[0]); return slice_of(it, st, a[0])
@model(DQ + "T, A>::insert")
def _(it, st, fn, a):
    v, vs = dq(it, st, a[0]); i = enum_value(st, to_lin(st, a[1]))
    if i is None: raise Undecided("queue position")
    if i > len(vs): raise Panic("index out of bounds")
    dq_put(it, st, a[0], v, vs[:i] + [a[2]] + vs[i:], grow_cap(it, st, v, K(len(vs) + 1))); return UNIT
@model(DQ + "T, A>::reserve", DQ + "T, A>::reserve_exact")
def _(it, st, fn, a):
    v = vec_at(it, st, a[0]); need = st.norm(v.len + to_lin(st, a[1])); check_cap(it, st, need, v.ety)
    it.store(st, a[0], Vec_(v.c, v.len, grow_cap(it, st, v, need), v.ety)); return UNIT
