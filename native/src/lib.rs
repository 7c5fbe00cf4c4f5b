//! Emptiness of polyhedra over bounded variables: dual simplex over exact 128-bit
//! rationals with integer cuts.  Any overflow is reported to the caller (code 2), which
//! repeats the test with unbounded arithmetic.
use std::collections::BTreeMap;

#[derive(Clone, Copy)]
struct Q { n: i128, d: i128 }
struct Ovf;
type R<T> = Result<T, Ovf>;
fn gcd(a: i128, b: i128) -> i128 {
    let (mut a, mut b) = (a.unsigned_abs(), b.unsigned_abs());
    while b != 0 {
        if a <= u64::MAX as u128 && b <= u64::MAX as u128 {
            let (mut x, mut y) = (a as u64, b as u64);
            while y != 0 { let t = x % y; x = y; y = t; }
            return x as i128;
        }
        let t = a % b; a = b; b = t;
    }
    a as i128
}
impl Q {
    const ZERO: Q = Q { n: 0, d: 1 };
    fn int(n: i128) -> Q { Q { n, d: 1 } }
    fn make(n: i128, d: i128) -> R<Q> {
        if n == 0 { return Ok(Q::ZERO); }
        let (n, d) = if d < 0 { (n.checked_neg().ok_or(Ovf)?, d.checked_neg().ok_or(Ovf)?) } else { (n, d) };
        if d == 1 { return Ok(Q { n, d }); }
        let g = gcd(n, d);
        Ok(Q { n: n / g, d: d / g })
    }
    fn add(self, o: Q) -> R<Q> {
        if self.n == 0 { return Ok(o); }
        if o.n == 0 { return Ok(self); }
        if self.d == 1 && o.d == 1 { return Ok(Q { n: self.n.checked_add(o.n).ok_or(Ovf)?, d: 1 }); }
        let g = gcd(self.d, o.d);
        let (a, b) = (o.d / g, self.d / g);
        let n = self.n.checked_mul(a).ok_or(Ovf)?.checked_add(o.n.checked_mul(b).ok_or(Ovf)?).ok_or(Ovf)?;
        Q::make(n, self.d.checked_mul(a).ok_or(Ovf)?)
    }
    fn neg(self) -> R<Q> { Ok(Q { n: self.n.checked_neg().ok_or(Ovf)?, d: self.d }) }
    fn sub(self, o: Q) -> R<Q> { self.add(o.neg()?) }
    fn mul(self, o: Q) -> R<Q> {
        if self.n == 0 || o.n == 0 { return Ok(Q::ZERO); }
        let g1 = if o.d == 1 { 1 } else { gcd(self.n, o.d) };
        let g2 = if self.d == 1 { 1 } else { gcd(o.n, self.d) };
        Ok(Q { n: (self.n / g1).checked_mul(o.n / g2).ok_or(Ovf)?, d: (self.d / g2).checked_mul(o.d / g1).ok_or(Ovf)? })
    }
    fn inv(self) -> R<Q> {
        if self.n < 0 { Ok(Q { n: self.d.checked_neg().ok_or(Ovf)?, d: self.n.checked_neg().ok_or(Ovf)? }) } else { Ok(Q { n: self.d, d: self.n }) }
    }
    fn div(self, o: Q) -> R<Q> { self.mul(o.inv()?) }
    fn lt(self, o: Q) -> R<bool> {
        if self.d == o.d { return Ok(self.n < o.n); }
        if (self.n < 0) != (o.n < 0) { return Ok(self.n < o.n); }
        Ok(self.sub(o)?.n < 0)
    }
}

struct LinC { c: i128, t: Vec<(i32, i128)> }
static mut LINS: Vec<Option<LinC>> = Vec::new();
static mut VLO: Vec<Option<i128>> = Vec::new();
static mut VHI: Vec<Option<i128>> = Vec::new();

fn j(hi: i64, lo: u64) -> i128 { ((hi as i128) << 64) | lo as i128 }

#[no_mangle]
#[allow(static_mut_refs)]
pub unsafe extern "C" fn lp_reg(id: i32, n: i32, vars: *const i32, hi: *const i64, lo: *const u64, chi: i64, clo: u64) {
    let id = id as usize;
    while LINS.len() <= id { LINS.push(None); }
    let t = (0..n as usize).map(|k| (*vars.add(k), j(*hi.add(k), *lo.add(k)))).collect();
    LINS[id] = Some(LinC { c: j(chi, clo), t });
}
#[no_mangle]
#[allow(static_mut_refs)]
pub unsafe extern "C" fn lp_var(v: i32, flags: i32, lhi: i64, llo: u64, hhi: i64, hlo: u64) {
    let v = v as usize;
    while VLO.len() <= v { VLO.push(None); VHI.push(None); }
    VLO[v] = if flags & 1 != 0 { Some(j(lhi, llo)) } else { None };
    VHI[v] = if flags & 2 != 0 { Some(j(hhi, hlo)) } else { None };
}

type Bnd = BTreeMap<i32, (Option<i128>, Option<i128>)>;

fn fdiv(a: i128, b: i128) -> i128 { a.div_euclid(b) }

enum Out { Empty, Point(Vec<(i32, Q, Option<i128>, Option<i128>)>), Unknown }

#[allow(static_mut_refs)]
fn feas(cons: &[&LinC], bb: &Bnd) -> R<Out> {
    // dense variable numbering
    let mut ids: Vec<i32> = Vec::new();
    for l in cons { for (v, _) in &l.t { ids.push(*v); } }
    for v in bb.keys() { ids.push(*v); }
    ids.sort(); ids.dedup();
    let nv = ids.len();
    let ix = |v: i32| ids.binary_search(&v).unwrap();
    let (mut lo, mut hi): (Vec<Option<i128>>, Vec<Option<i128>>) = unsafe {
        (ids.iter().map(|v| VLO[*v as usize]).collect(), ids.iter().map(|v| VHI[*v as usize]).collect())
    };
    let mut rows: Vec<Vec<(usize, i128)>> = Vec::new();
    let mut rlo: Vec<i128> = Vec::new();
    for l in cons {
        if l.t.is_empty() { if l.c < 0 { return Ok(Out::Empty); } continue; }
        if l.t.len() == 1 {
            let (v, k) = l.t[0]; let v = ix(v);
            if k > 0 {
                let b = fdiv(l.c, k).checked_neg().ok_or(Ovf)?;
                if lo[v].map_or(true, |x| b > x) { lo[v] = Some(b); }
            } else {
                let b = fdiv(l.c, -k);
                if hi[v].map_or(true, |x| b < x) { hi[v] = Some(b); }
            }
            continue;
        }
        rows.push(l.t.iter().map(|(v, k)| (ix(*v), *k)).collect());
        rlo.push(l.c.checked_neg().ok_or(Ovf)?);
    }
    for (v, (a, b)) in bb {
        let v = ix(*v);
        if let Some(a) = a { if lo[v].map_or(true, |x| *a > x) { lo[v] = Some(*a); } }
        if let Some(b) = b { if hi[v].map_or(true, |x| *b < x) { hi[v] = Some(*b); } }
    }
    for v in 0..nv { if let (Some(l), Some(h)) = (lo[v], hi[v]) { if l > h { return Ok(Out::Empty); } } }
    // interval propagation to a bounded depth
    for _ in 0..3 {
        let mut changed = false;
        for (r, row) in rows.iter().enumerate() {
            // sum k*v >= rlo ; max of the sum, counting unbounded terms
            let mut s: i128 = 0; let mut unb = 0; let mut who = 0; let mut ovf = false;
            for (q, (v, k)) in row.iter().enumerate() {
                match if *k > 0 { hi[*v] } else { lo[*v] } {
                    Some(b) => match k.checked_mul(b).and_then(|x| s.checked_add(x)) { Some(x) => s = x, None => { ovf = true; break } },
                    None => { unb += 1; who = q; }
                }
            }
            if ovf { continue; }
            if unb == 0 && s < rlo[r] { return Ok(Out::Empty); }
            if unb > 1 { continue; }
            for (q, (v, k)) in row.iter().enumerate() {
                if unb == 1 && q != who { continue; }
                let rest = if unb == 1 { s } else {
                    let b = if *k > 0 { hi[*v].unwrap() } else { lo[*v].unwrap() };
                    match s.checked_sub(k * b) { Some(x) => x, None => continue }
                };
                let need = match rlo[r].checked_sub(rest) { Some(x) => x, None => continue };   // k*v >= need
                if *k > 0 {
                    let b = -fdiv(-need, *k);
                    if lo[*v].map_or(true, |x| b > x) { lo[*v] = Some(b); changed = true; }
                } else {
                    let b = fdiv(-need, -*k);
                    if hi[*v].map_or(true, |x| b < x) { hi[*v] = Some(b); changed = true; }
                }
                if let (Some(l), Some(h)) = (lo[*v], hi[*v]) { if l > h { return Ok(Out::Empty); } }
                // the bound used for s may have changed: stop refining with this row
                if unb == 0 { continue; }
            }
        }
        if !changed { break; }
    }
    // move fixed variables into the constant, divide by the common factor, round
    let mut nrows = Vec::with_capacity(rows.len()); let mut nrlo = Vec::with_capacity(rows.len());
    for (r, row) in rows.iter().enumerate() {
        let mut c = rlo[r]; let mut t = Vec::with_capacity(row.len()); let mut g: i128 = 0;
        for (v, k) in row {
            match (lo[*v], hi[*v]) {
                (Some(l), Some(h)) if l == h => c = c.checked_sub(k.checked_mul(l).ok_or(Ovf)?).ok_or(Ovf)?,
                _ => { t.push((*v, *k)); g = gcd(g, *k); }
            }
        }
        if t.is_empty() { if c > 0 { return Ok(Out::Empty); } continue; }
        if g > 1 { for x in t.iter_mut() { x.1 /= g; } c = -fdiv(-c, g); }
        if t.len() == 1 {
            let (v, k) = t[0];
            if k > 0 { let b = -fdiv(-c, k); if lo[v].map_or(true, |x| b > x) { lo[v] = Some(b); } }
            else { let b = fdiv(-c, -k); if hi[v].map_or(true, |x| b < x) { hi[v] = Some(b); } }
            if let (Some(l), Some(h)) = (lo[v], hi[v]) { if l > h { return Ok(Out::Empty); } }
            continue;
        }
        nrows.push(t); nrlo.push(c);
    }
    let rows = nrows; let rlo = nrlo;
    let m = rows.len();
    // columns 0..nv structural, nv..nv+m row variables
    let n = nv + m;
    let mut val: Vec<Q> = vec![Q::ZERO; n];
    for v in 0..nv {
        match (lo[v], hi[v]) {
            (Some(l), _) if l > 0 => val[v] = Q::int(l),
            (_, Some(h)) if h < 0 => val[v] = Q::int(h),
            _ => {}
        }
    }
    let lo_of = |x: usize, lo: &Vec<Option<i128>>| if x < nv { lo[x] } else { Some(rlo[x - nv]) };
    let hi_of = |x: usize, hi: &Vec<Option<i128>>| if x < nv { hi[x] } else { None };
    // tableau: basic variable -> dense row over all columns
    let mut basis: Vec<usize> = (0..m).map(|r| nv + r).collect();
    let mut tab: Vec<Vec<Q>> = Vec::with_capacity(m);
    for (r, row) in rows.iter().enumerate() {
        let mut d = vec![Q::ZERO; n];
        let mut s = Q::ZERO;
        for (v, k) in row { d[*v] = Q::int(*k); s = s.add(Q::int(*k).mul(val[*v])?)?; }
        val[nv + r] = s;
        tab.push(d);
    }
    let mut piv = 0;
    loop {
        // least basic variable out of bounds (row variables first, newest last, as ordered)
        let mut bad: Option<(usize, bool, usize)> = None;
        for (r, b) in basis.iter().enumerate() {
            let x = val[*b];
            let key = *b;
            if bad.map_or(false, |(k, _, _)| k <= key) { continue; }
            if let Some(l) = lo_of(*b, &lo) { if x.lt(Q::int(l))? { bad = Some((key, true, r)); continue; } }
            if let Some(h) = hi_of(*b, &hi) { if Q::int(h).lt(x)? { bad = Some((key, false, r)); } }
        }
        let (b, up, r) = match bad {
            None => return Ok(Out::Point((0..nv).map(|v| (ids[v], val[v], lo[v], hi[v])).collect())),
            Some(x) => x,
        };
        piv += 1;
        if piv > 2000 { return Ok(Out::Unknown); }
        let mut ent = None;
        for c in 0..n {
            let k = tab[r][c];
            if k.n == 0 { continue; }
            if (k.n > 0) == up {
                let ok = match hi_of(c, &hi) { None => true, Some(h) => val[c].lt(Q::int(h))? };
                if ok { ent = Some(c); break; }
            } else {
                let ok = match lo_of(c, &lo) { None => true, Some(l) => Q::int(l).lt(val[c])? };
                if ok { ent = Some(c); break; }
            }
        }
        let e = match ent { None => return Ok(Out::Empty), Some(e) => e };
        let target = Q::int(if up { lo_of(b, &lo).unwrap() } else { hi_of(b, &hi).unwrap() });
        let k = tab[r][e];
        let theta = target.sub(val[b])?.div(k)?;
        val[b] = target;
        val[e] = val[e].add(theta)?;
        for q in 0..m {
            if q == r { continue; }
            let kk = tab[q][e];
            if kk.n != 0 { let y = basis[q]; val[y] = val[y].add(kk.mul(theta)?)?; }
        }
        let inv = k.inv()?;
        let ninv = inv.neg()?;
        let mut newrow = vec![Q::ZERO; n];
        for c in 0..n { if c != e && tab[r][c].n != 0 { newrow[c] = tab[r][c].mul(ninv)?; } }
        newrow[b] = inv;
        for q in 0..m {
            if q == r { continue; }
            let kk = tab[q][e];
            if kk.n == 0 { continue; }
            tab[q][e] = Q::ZERO;
            for c in 0..n { if newrow[c].n != 0 { tab[q][c] = tab[q][c].add(kk.mul(newrow[c])?)?; } }
        }
        tab[r] = newrow;
        basis[r] = e;
    }
}

enum I { Empty, Point(Vec<(i32, i128)>), Maybe }
fn int_feas(cons: &[&LinC], bb: &Bnd, depth: i32, budget: &mut i32) -> R<I> {
    let p = match feas(cons, bb)? { Out::Empty => return Ok(I::Empty), Out::Unknown => return Ok(I::Maybe), Out::Point(p) => p };
    // branch on the fractional variable of least range, preferring small unfixed ones over unbounded ones
    let mut best: Option<(i128, i32, i128)> = None; let mut frac: Option<(i32, i128)> = None;
    for (v, q, l, h) in &p {
        let range = match (l, h) { (Some(l), Some(h)) => h.checked_sub(*l).unwrap_or(i128::MAX), _ => i128::MAX };
        if q.d != 1 {
            let f = fdiv(q.n, q.d);
            if frac.is_none() { frac = Some((*v, f)); }
            if range <= 4096 && best.map_or(true, |b| range < b.0) { best = Some((range, *v, f)); }
        }
    }
    if let (None, Some(_)) = (best, frac) {
        for (v, q, l, h) in &p {
            if let (Some(l), Some(h)) = (l, h) {
                let range = h.checked_sub(*l).unwrap_or(i128::MAX);
                if q.d == 1 && range > 0 && range <= 64 && best.map_or(true, |b| range < b.0) {
                    best = Some((range, *v, if q.n < *h { q.n } else { q.n - 1 }));
                }
            }
        }
    }
    let (v, f) = match (best, frac) {
        (Some((_, v, f)), _) => (v, f),
        (_, Some(x)) => x,
        _ => return Ok(I::Point(p.iter().map(|x| (x.0, x.1.n)).collect())),
    };
    if depth == 0 || *budget <= 0 { return Ok(I::Maybe); }
    *budget -= 1;
    let (a, b) = bb.get(&v).cloned().unwrap_or((None, None));
    let mut b1 = bb.clone(); b1.insert(v, (a, Some(b.map_or(f, |x| x.min(f)))));
    let r1 = int_feas(cons, &b1, depth - 1, budget)?;
    if let I::Point(_) = r1 { return Ok(r1); }
    let mut b2 = bb.clone(); b2.insert(v, (Some(a.map_or(f + 1, |x| x.max(f + 1))), b));
    let r2 = int_feas(cons, &b2, depth - 1, budget)?;
    Ok(match (r1, r2) { (_, I::Point(p)) => I::Point(p), (I::Empty, I::Empty) => I::Empty, _ => I::Maybe })
}

/// 0 empty, 1 possibly non-empty, 2 arithmetic overflow, 3 non-empty with an integer point
#[no_mangle]
#[allow(static_mut_refs)]
pub unsafe extern "C" fn lp_feasible(n: i32, ids: *const i32, nb: i32, bv: *const i32, bf: *const i32,
                                     lhi: *const i64, llo: *const u64, hhi: *const i64, hlo: *const u64, depth: i32, budget: i32,
                                     np: i32, pv: *mut i32, phi: *mut i64, plo: *mut u64, plen: *mut i32) -> i32 {
    let mut cons = Vec::with_capacity(n as usize);
    for k in 0..n as usize { cons.push(LINS[*ids.add(k) as usize].as_ref().unwrap()); }
    let mut bb = Bnd::new();
    for k in 0..nb as usize {
        let f = *bf.add(k);
        bb.insert(*bv.add(k), (if f & 1 != 0 { Some(j(*lhi.add(k), *llo.add(k))) } else { None },
                               if f & 2 != 0 { Some(j(*hhi.add(k), *hlo.add(k))) } else { None }));
    }
    let mut budget = budget;
    match int_feas(&cons, &bb, depth, &mut budget) {
        Ok(I::Empty) => 0,
        Ok(I::Maybe) => 1,
        Ok(I::Point(p)) => {
            if p.len() as i32 <= np {
                for (k, (v, x)) in p.iter().enumerate() { *pv.add(k) = *v; *phi.add(k) = (*x >> 64) as i64; *plo.add(k) = *x as u64; }
                *plen = p.len() as i32;
                3
            } else { 1 }
        }
        Err(Ovf) => 2,
    }
}
