//! MIR extractor.  Acts as RUSTC_WRAPPER: `mirdump rustc <args>`.
//!
//! * compiling the crate named by MIRDUMP_SPEC: dumps every monomorphic body reachable
//!   from its functions named `h_*` to $MIRDUMP_OUT/mono.json
//! * compiling the crate named by MIRDUMP_ITEMS: dumps its items to
//!   $MIRDUMP_OUT/items.json
//! * anything else: plain rustc.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;
extern crate rustc_public_bridge;
#[macro_use]
extern crate rustc_public;

mod items;

use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::crate_def::CrateDef;
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::CrateDefType;
use rustc_public_bridge::IndexedVal;
use std::collections::{HashMap, VecDeque};
use std::ops::ControlFlow;

pub fn q(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn arr<I: IntoIterator<Item = String>>(it: I) -> String {
    format!("[{}]", it.into_iter().collect::<Vec<_>>().join(","))
}

pub fn span_s(s: &Span) -> String {
    let l = s.get_lines();
    q(&format!("{}:{}", s.get_filename(), l.start_line))
}

fn signed(v: u128, t: Ty) -> String {
    if let TyKind::RigidTy(RigidTy::Int(i)) = t.kind() {
        let b = i.num_bytes() * 8;
        let sh = 128 - b as u32;
        return (((v << sh) as i128) >> sh).to_string();
    }
    v.to_string()
}

/// Library functions replaced by the reference implementations of the specification crate.
const REDIRECT: &[(&str, &str, &[usize])] = &[
    ("std::vec::partial_eq::<impl std::cmp::PartialEq<std::vec::Vec<U, A2>> for std::vec::Vec<T, A1>>::eq", "m::vec_eq", &[0, 1]),
    ("<std::vec::Vec<T, A> as std::cmp::Ord>::cmp", "m::vec_cmp", &[0]),
    ("<std::vec::Vec<T, A1> as std::cmp::PartialOrd<std::vec::Vec<T, A2>>>::partial_cmp", "m::vec_partial_cmp", &[0]),
    ("<std::vec::Vec<T, A> as std::hash::Hash>::hash", "m::vec_hash", &[0, 2]),
    ("<std::vec::Vec<T, A> as std::iter::Extend<T>>::extend", "m::vec_extend", &[0, 2]),
    ("<std::vec::Vec<T, A> as std::iter::Extend<&'a T>>::extend", "m::vec_extend_ref", &[0, 2]),
    ("<std::vec::Vec<T> as std::iter::FromIterator<T>>::from_iter", "m::vec_collect", &[0, 1]),
    ("std::vec::Vec::<T, A>::resize_with", "m::vec_resize_with", &[0, 2]),
    ("std::vec::Vec::<T, A>::retain", "m::vec_retain", &[0, 2]),
    ("std::vec::Vec::<T, A>::dedup", "m::vec_dedup", &[0]),
    ("<std::collections::VecDeque<T, A> as std::iter::Extend<T>>::extend", "m::dq_extend", &[0, 2]),
    ("<std::collections::VecDeque<T, A> as std::iter::Extend<&'a T>>::extend", "m::dq_extend_ref", &[0, 2]),
    ("<std::collections::VecDeque<T> as std::iter::FromIterator<T>>::from_iter", "m::dq_collect", &[0, 1]),
    ("std::collections::VecDeque::<T, A>::contains", "m::dq_contains", &[0]),
    ("<std::collections::VecDeque<T, A> as std::cmp::PartialEq>::eq", "m::dq_eq", &[0]),
    ("std::slice::cmp::<impl std::cmp::PartialEq<[U]> for [T]>::eq", "m::sl_eq", &[0, 1]),
    ("core::slice::cmp::<impl std::cmp::PartialEq<[U]> for [T]>::eq", "m::sl_eq", &[0, 1]),
    ("std::mem::take", "m::mem_take", &[0]),
    ("core::slice::<impl [T]>::reverse", "m::sl_reverse", &[0]),
    ("core::slice::<impl [T]>::sort", "m::sl_sort", &[0]),
    ("core::slice::<impl [T]>::sort_by", "m::sl_sort_by", &[0, 1]),
    ("core::slice::<impl [T]>::sort_by_key", "m::sl_sort_by_key", &[0, 1, 2]),
    ("core::slice::<impl [T]>::sort_unstable", "m::sl_sort", &[0]),
    ("core::slice::<impl [T]>::sort_unstable_by", "m::sl_sort_by", &[0, 1]),
    ("core::slice::<impl [T]>::sort_unstable_by_key", "m::sl_sort_by_key", &[0, 1, 2]),
    ("core::slice::<impl [T]>::contains", "m::sl_contains", &[0]),
    ("std::slice::<impl [T]>::reverse", "m::sl_reverse", &[0]),
    ("std::slice::<impl [T]>::sort", "m::sl_sort", &[0]),
    ("std::slice::<impl [T]>::sort_by", "m::sl_sort_by", &[0, 1]),
    ("std::slice::<impl [T]>::sort_by_key", "m::sl_sort_by_key", &[0, 1, 2]),
    ("std::slice::<impl [T]>::sort_unstable", "m::sl_sort", &[0]),
    ("std::slice::<impl [T]>::sort_unstable_by", "m::sl_sort_by", &[0, 1]),
    ("std::slice::<impl [T]>::sort_unstable_by_key", "m::sl_sort_by_key", &[0, 1, 2]),
    ("std::slice::<impl [T]>::contains", "m::sl_contains", &[0]),
    ("<std::slice::Iter<'a, T> as std::iter::Iterator>::fold", "m::it::fold", &[0, 1, 2]),
    ("<std::slice::Iter<'a, T> as std::iter::DoubleEndedIterator>::rfold", "m::it::rfold", &[0, 1, 2]),
    ("<std::slice::Iter<'a, T> as std::iter::Iterator>::for_each", "m::it::for_each", &[0, 1]),
    ("<std::slice::Iter<'a, T> as std::iter::Iterator>::all", "m::it::all", &[0, 1]),
    ("<std::slice::Iter<'a, T> as std::iter::Iterator>::any", "m::it::any", &[0, 1]),
    ("<std::slice::Iter<'a, T> as std::iter::Iterator>::position", "m::it::position", &[0, 1]),
    ("<std::slice::Iter<'a, T> as std::iter::Iterator>::rposition", "m::it::rposition", &[0, 1]),
    ("<std::slice::Iter<'a, T> as std::iter::Iterator>::count", "m::it::count", &[0]),
    ("<std::slice::IterMut<'a, T> as std::iter::Iterator>::fold", "m::itm::fold", &[0, 1, 2]),
    ("<std::slice::IterMut<'a, T> as std::iter::DoubleEndedIterator>::rfold", "m::itm::rfold", &[0, 1, 2]),
    ("<std::slice::IterMut<'a, T> as std::iter::Iterator>::for_each", "m::itm::for_each", &[0, 1]),
    ("<std::slice::IterMut<'a, T> as std::iter::Iterator>::all", "m::itm::all", &[0, 1]),
    ("<std::slice::IterMut<'a, T> as std::iter::Iterator>::any", "m::itm::any", &[0, 1]),
    ("<std::slice::IterMut<'a, T> as std::iter::Iterator>::position", "m::itm::position", &[0, 1]),
    ("<std::slice::IterMut<'a, T> as std::iter::Iterator>::rposition", "m::itm::rposition", &[0, 1]),
    ("<std::slice::IterMut<'a, T> as std::iter::Iterator>::count", "m::itm::count", &[0]),
    ("<std::vec::IntoIter<T, A> as std::iter::Iterator>::fold", "m::own::fold", &[0, 2, 3]),
    ("<std::vec::IntoIter<T, A> as std::iter::DoubleEndedIterator>::rfold", "m::own::rfold", &[0, 2, 3]),
    ("<std::vec::IntoIter<T, A> as std::iter::Iterator>::for_each", "m::own::for_each", &[0, 2]),
    ("<std::vec::IntoIter<T, A> as std::iter::Iterator>::all", "m::own::all", &[0, 2]),
    ("<std::vec::IntoIter<T, A> as std::iter::Iterator>::any", "m::own::any", &[0, 2]),
    ("<std::vec::IntoIter<T, A> as std::iter::Iterator>::position", "m::own::position", &[0, 2]),
    ("<std::vec::IntoIter<T, A> as std::iter::Iterator>::rposition", "m::own::rposition", &[0, 2]),
    ("<std::vec::IntoIter<T, A> as std::iter::Iterator>::count", "m::own::count", &[0]),
    ("<std::collections::vec_deque::Iter<'a, T> as std::iter::Iterator>::fold", "m::dqi::fold", &[0, 1, 2]),
    ("<std::collections::vec_deque::Iter<'a, T> as std::iter::DoubleEndedIterator>::rfold", "m::dqi::rfold", &[0, 1, 2]),
    ("<std::collections::vec_deque::Iter<'a, T> as std::iter::Iterator>::for_each", "m::dqi::for_each", &[0, 1]),
    ("<std::collections::vec_deque::Iter<'a, T> as std::iter::Iterator>::all", "m::dqi::all", &[0, 1]),
    ("<std::collections::vec_deque::Iter<'a, T> as std::iter::Iterator>::any", "m::dqi::any", &[0, 1]),
    ("<std::collections::vec_deque::Iter<'a, T> as std::iter::Iterator>::position", "m::dqi::position", &[0, 1]),
    ("<std::collections::vec_deque::Iter<'a, T> as std::iter::Iterator>::rposition", "m::dqi::rposition", &[0, 1]),
    ("<std::collections::vec_deque::Iter<'a, T> as std::iter::Iterator>::count", "m::dqi::count", &[0]),
    ("<std::collections::vec_deque::IterMut<'a, T> as std::iter::Iterator>::fold", "m::dqm::fold", &[0, 1, 2]),
    ("<std::collections::vec_deque::IterMut<'a, T> as std::iter::DoubleEndedIterator>::rfold", "m::dqm::rfold", &[0, 1, 2]),
    ("<std::collections::vec_deque::IterMut<'a, T> as std::iter::Iterator>::for_each", "m::dqm::for_each", &[0, 1]),
    ("<std::collections::vec_deque::IterMut<'a, T> as std::iter::Iterator>::all", "m::dqm::all", &[0, 1]),
    ("<std::collections::vec_deque::IterMut<'a, T> as std::iter::Iterator>::any", "m::dqm::any", &[0, 1]),
    ("<std::collections::vec_deque::IterMut<'a, T> as std::iter::Iterator>::position", "m::dqm::position", &[0, 1]),
    ("<std::collections::vec_deque::IterMut<'a, T> as std::iter::Iterator>::rposition", "m::dqm::rposition", &[0, 1]),
    ("<std::collections::vec_deque::IterMut<'a, T> as std::iter::Iterator>::count", "m::dqm::count", &[0]),
    ("<std::collections::vec_deque::IntoIter<T, A> as std::iter::Iterator>::fold", "m::dqo::fold", &[0, 2, 3]),
    ("<std::collections::vec_deque::IntoIter<T, A> as std::iter::DoubleEndedIterator>::rfold", "m::dqo::rfold", &[0, 2, 3]),
    ("<std::collections::vec_deque::IntoIter<T, A> as std::iter::Iterator>::for_each", "m::dqo::for_each", &[0, 2]),
    ("<std::collections::vec_deque::IntoIter<T, A> as std::iter::Iterator>::all", "m::dqo::all", &[0, 2]),
    ("<std::collections::vec_deque::IntoIter<T, A> as std::iter::Iterator>::any", "m::dqo::any", &[0, 2]),
    ("<std::collections::vec_deque::IntoIter<T, A> as std::iter::Iterator>::position", "m::dqo::position", &[0, 2]),
    ("<std::collections::vec_deque::IntoIter<T, A> as std::iter::Iterator>::rposition", "m::dqo::rposition", &[0, 2]),
    ("<std::collections::vec_deque::IntoIter<T, A> as std::iter::Iterator>::count", "m::dqo::count", &[0]),
    ("<std::slice::Iter<'a, T> as std::iter::Iterator>::find", "m::refs::find", &[0, 1]),
    ("<std::slice::Iter<'a, T> as std::iter::Iterator>::find_map", "m::refs::find_map", &[0, 1, 2]),
    ("<std::slice::IterMut<'a, T> as std::iter::Iterator>::find", "m::refs::find_mut", &[0, 1]),
];

struct Dump {
    tys: HashMap<Ty, usize>,
    ty_json: Vec<String>,
    fns: HashMap<String, ()>,
    fn_json: Vec<String>,
    queue: VecDeque<Instance>,
    subst: HashMap<String, (FnDef, &'static [usize])>,
}

fn stop(krate: &str, name: &str) -> bool {
    match krate {
        "std" | "alloc" => {
            // small generic helpers worth inlining
            !(name.starts_with("<std::io::") && false)
        }
        "core" => {
            name.starts_with("std::fmt") || name.starts_with("core::fmt")
                || name.starts_with("std::panicking") || name.starts_with("core::panicking")
                || name.contains("std::fmt::") && name.contains("fmt")
                || name.starts_with("std::ptr::drop_in_place") || name.starts_with("core::ptr::drop_in_place")
        }
        _ => false,
    }
}

impl Dump {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(&i) = self.tys.get(&t) {
            return i;
        }
        let i = self.ty_json.len();
        self.tys.insert(t, i);
        self.ty_json.push(String::new());
        let s = self.ty_desc(t);
        self.ty_json[i] = s;
        i
    }

    fn size(&self, t: Ty) -> String {
        match t.layout() {
            Ok(l) => {
                let sh = l.shape();
                if sh.is_unsized() { "null".into() } else { sh.size.bytes().to_string() }
            }
            Err(_) => "null".into(),
        }
    }

    fn ty_desc(&mut self, t: Ty) -> String {
        let size = self.size(t);
        let kind = t.kind();
        let name = q(&format!("{}", t));
        let body = match &kind {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => r#""k":"bool""#.to_string(),
                RigidTy::Char => r#""k":"char""#.to_string(),
                RigidTy::Int(i) => format!(r#""k":"int","bits":{}"#, i.num_bytes() * 8),
                RigidTy::Uint(i) => format!(r#""k":"uint","bits":{}"#, i.num_bytes() * 8),
                RigidTy::Float(f) => format!(r#""k":"float","f":{}"#, q(&format!("{:?}", f))),
                RigidTy::Str => r#""k":"str""#.to_string(),
                RigidTy::Never => r#""k":"never""#.to_string(),
                RigidTy::Array(e, n) => {
                    let e = self.ty(*e);
                    format!(r#""k":"array","elem":{},"len":{}"#, e, n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into()))
                }
                RigidTy::Slice(e) => {
                    let e = self.ty(*e);
                    format!(r#""k":"slice","elem":{}"#, e)
                }
                RigidTy::RawPtr(e, m) => {
                    let e = self.ty(*e);
                    format!(r#""k":"ptr","elem":{},"mut":{}"#, e, *m == Mutability::Mut)
                }
                RigidTy::Ref(_, e, m) => {
                    let e = self.ty(*e);
                    format!(r#""k":"ref","elem":{},"mut":{}"#, e, *m == Mutability::Mut)
                }
                RigidTy::Tuple(ts) => {
                    let v = arr(ts.iter().map(|x| self.ty(*x).to_string()).collect::<Vec<_>>());
                    format!(r#""k":"tuple","fields":{}"#, v)
                }
                RigidTy::Adt(def, args) => {
                    let k = match def.kind() {
                        AdtKind::Enum => "enum",
                        AdtKind::Struct => "struct",
                        AdtKind::Union => "union",
                    };
                    let mut vs = vec![];
                    for v in def.variants() {
                        let mut fs = vec![];
                        for f in v.fields() {
                            let fty = f.ty_with_args(args);
                            fs.push(format!("[{},{}]", q(&f.name.to_string()), self.ty(fty)));
                        }
                        let d = if k == "enum" { let d = def.discriminant_for_variant(v.idx()); signed(d.val, d.ty) } else { "0".into() };
                        vs.push(format!(r#"{{"name":{},"discr":{},"fields":{}}}"#, q(&v.name()), q(&d), arr(fs)));
                    }
                    let ga = arr(args.0.iter().map(|a| match a {
                        GenericArgKind::Type(t) => self.ty(*t).to_string(),
                        GenericArgKind::Lifetime(_) => "null".into(),
                        GenericArgKind::Const(c) => q(&format!("{}", c.eval_target_usize().map(|x| x.to_string()).unwrap_or("?".into()))),
                    }).collect::<Vec<_>>());
                    format!(r#""k":"{}","def":{},"krate":{},"box":{},"args":{},"variants":{}"#, k, q(&def.name()), q(&def.krate().name), def.is_box(), ga, arr(vs))
                }
                RigidTy::FnDef(def, args) => {
                    format!(r#""k":"fndef","def":{},"args":{}"#, q(&def.name()), q(&format!("{:?}", args.0.len())))
                }
                RigidTy::Closure(def, args) => {
                    // upvar types: last generic arg is the tuple of upvars
                    let ups = args.0.last().and_then(|a| a.ty().copied());
                    let u = match ups { Some(t) => self.ty(t).to_string(), None => "null".into() };
                    format!(r#""k":"closure","def":{},"upvars":{}"#, q(&def.name()), u)
                }
                RigidTy::FnPtr(_) => r#""k":"fnptr""#.to_string(),
                RigidTy::Dynamic(..) => r#""k":"dyn""#.to_string(),
                other => format!(r#""k":"other","d":{}"#, q(&format!("{:?}", other).chars().take(60).collect::<String>())),
            },
            other => format!(r#""k":"other","d":{}"#, q(&format!("{:?}", other).chars().take(60).collect::<String>())),
        };
        format!(r#"{{"name":{},"size":{},{}}}"#, name, size, body)
    }

    fn read_uint(&self, bytes: &[Option<u8>]) -> Option<u128> {
        let mut r: u128 = 0;
        for (i, b) in bytes.iter().enumerate() {
            r |= ((*b)? as u128) << (8 * i);
        }
        Some(r)
    }

    fn decode(&mut self, t: Ty, al: &Allocation, off: usize, depth: usize) -> String {
        if depth > 8 { return r#"{"opaque":"deep"}"#.into(); }
        let tid = self.ty(t);
        let lay = match t.layout() { Ok(l) => l.shape(), Err(_) => return r#"{"opaque":"nolayout"}"#.into() };
        let opaque = |why: &str| format!(r#"{{"opaque":{},"ty":{}}}"#, q(why), tid);
        if lay.is_unsized() { return opaque("unsized"); }
        let size = lay.size.bytes();
        match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool | RigidTy::Char | RigidTy::Int(_) | RigidTy::Uint(_) | RigidTy::Float(_) => {
                    match self.read_uint(&al.bytes[off..off + size]) {
                        Some(v) => format!(r#"{{"int":"{}","ty":{}}}"#, v, tid),
                        None => opaque("uninit"),
                    }
                }
                RigidTy::Tuple(ts) => {
                    let offs = match &lay.fields { FieldsShape::Arbitrary { offsets } => offsets.clone(), _ => vec![] };
                    if ts.len() > offs.len() { if ts.is_empty() { } else { return opaque("tuple") } }
                    let fs = arr(ts.iter().enumerate().map(|(i, x)| self.decode(*x, al, off + offs[i].bytes(), depth + 1)).collect::<Vec<_>>());
                    format!(r#"{{"agg":{},"variant":0,"ty":{}}}"#, fs, tid)
                }
                RigidTy::Closure(..) | RigidTy::FnDef(..) if size == 0 => format!(r#"{{"zst":true,"ty":{}}}"#, tid),
                RigidTy::Array(e, n) => {
                    let n = n.eval_target_usize().unwrap_or(0) as usize;
                    if n > 64 { return opaque("bigarray"); }
                    let es = match e.layout() { Ok(l) => l.shape().size.bytes(), Err(_) => return opaque("elem") };
                    let fs = arr((0..n).map(|i| self.decode(e, al, off + i * es, depth + 1)).collect::<Vec<_>>());
                    format!(r#"{{"arr":{},"ty":{}}}"#, fs, tid)
                }
                RigidTy::Adt(def, args) => {
                    if def.kind() == AdtKind::Union { return opaque("union"); }
                    match &lay.variants {
                        VariantsShape::Single { index } => {
                            let offs = match &lay.fields { FieldsShape::Arbitrary { offsets } => offsets.clone(), _ => vec![] };
                            let vs = def.variants();
                            let v = match vs.iter().find(|v| v.idx() == *index) { Some(v) => v.clone(), None => return opaque("variant") };
                            let vi = vs.iter().position(|v| v.idx() == *index).unwrap();
                            let fs = arr(v.fields().iter().enumerate().map(|(i, f)| {
                                let o = offs.get(i).map(|x| x.bytes()).unwrap_or(0);
                                self.decode(f.ty_with_args(&args), al, off + o, depth + 1)
                            }).collect::<Vec<_>>());
                            format!(r#"{{"agg":{},"variant":{},"ty":{}}}"#, fs, vi, tid)
                        }
                        VariantsShape::Multiple { tag_encoding, tag_field, variants, tag } => {
                            let toff = match &lay.fields { FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(), _ => 0 };
                            let tsz = match tag { rustc_public::abi::Scalar::Initialized { value, .. } => value.size(&rustc_public::target::MachineInfo::target()).bytes(), rustc_public::abi::Scalar::Union { value } => value.size(&rustc_public::target::MachineInfo::target()).bytes() };
                            if al.provenance.ptrs.iter().any(|(o, _)| *o == off + toff) && !matches!(tag_encoding, TagEncoding::Niche{..}) { return opaque("tagptr"); }
                            let has_ptr = al.provenance.ptrs.iter().any(|(o, _)| *o == off + toff);
                            let tv = match self.read_uint(&al.bytes[off + toff..off + toff + tsz]) { Some(v) => v, None => return opaque("taguninit") };
                            let vs = def.variants();
                            let vi = match tag_encoding {
                                TagEncoding::Direct => match vs.iter().position(|v| { let d = def.discriminant_for_variant(v.idx()).val; let m = if tsz >= 16 { u128::MAX } else { (1u128 << (8 * tsz)) - 1 }; d & m == tv }) { Some(i) => i, None => return opaque("discr") },
                                TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                    let unt = vs.iter().position(|v| v.idx() == *untagged_variant).unwrap();
                                    let st = vs.iter().position(|v| v.idx() == *niche_variants.start()).unwrap();
                                    let en = vs.iter().position(|v| v.idx() == *niche_variants.end()).unwrap();
                                    if has_ptr { unt } else {
                                        let m = if tsz >= 16 { u128::MAX } else { (1u128 << (8 * tsz)) - 1 };
                                        let rel = tv.wrapping_sub(*niche_start) & m;
                                        if rel <= (en - st) as u128 { st + rel as usize } else { unt }
                                    }
                                }
                            };
                            let offs = &variants[vi].offsets;
                            let fs = arr(vs[vi].fields().iter().enumerate().map(|(i, f)| {
                                self.decode(f.ty_with_args(&args), al, off + offs[i].bytes(), depth + 1)
                            }).collect::<Vec<_>>());
                            format!(r#"{{"agg":{},"variant":{},"ty":{}}}"#, fs, vi, tid)
                        }
                        _ => opaque("empty"),
                    }
                }
                RigidTy::Ref(_, e, _) | RigidTy::RawPtr(e, _) => {
                    let prov = al.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| *p);
                    let Some(p) = prov else { return opaque("intptr"); };
                    let addr = match self.read_uint(&al.bytes[off..off + 8]) { Some(v) => v as usize, None => return opaque("ptruninit") };
                    match GlobalAlloc::from(p.0) {
                        GlobalAlloc::Memory(m) => {
                            match e.kind() {
                                TyKind::RigidTy(RigidTy::Str) => {
                                    let len = self.read_uint(&al.bytes[off + 8..off + 16]).unwrap_or(0) as usize;
                                    let b: Vec<u8> = m.bytes[addr..addr + len].iter().map(|x| x.unwrap_or(b'?')).collect();
                                    format!(r#"{{"str":{},"ty":{}}}"#, q(&String::from_utf8_lossy(&b)), tid)
                                }
                                TyKind::RigidTy(RigidTy::Slice(el)) => {
                                    let len = self.read_uint(&al.bytes[off + 8..off + 16]).unwrap_or(0) as usize;
                                    if len > 64 { return opaque("bigslice"); }
                                    let es = match el.layout() { Ok(l) => l.shape().size.bytes(), Err(_) => return opaque("elem") };
                                    let fs = arr((0..len).map(|i| self.decode(el, &m, addr + i * es, depth + 1)).collect::<Vec<_>>());
                                    format!(r#"{{"ref":{{"arr":{},"ty":null}},"ty":{}}}"#, fs, tid)
                                }
                                TyKind::RigidTy(RigidTy::Dynamic(..)) => opaque("dyn"),
                                _ => format!(r#"{{"ref":{},"ty":{}}}"#, self.decode(e, &m, addr, depth + 1), tid),
                            }
                        }
                        _ => opaque("globalalloc"),
                    }
                }
                _ => opaque("rigid"),
            },
            _ => opaque("kind"),
        }
    }

    fn constant(&mut self, c: &ConstOperand) -> String {
        let t = c.const_.ty();
        let tid = self.ty(t);
        if let TyKind::RigidTy(RigidTy::FnDef(def, args)) = t.kind() {
            return match Instance::resolve(def, &args) {
                Ok(i) => { let k = self.inst(i); format!(r#"{{"fn":{},"ty":{}}}"#, q(&k), tid) }
                Err(_) => format!(r#"{{"opaque":"unresolved","ty":{}}}"#, tid),
            };
        }
        match c.const_.kind() {
            ConstantKind::Allocated(al) => self.decode(t, al, 0, 0),
            ConstantKind::ZeroSized => {
                let al = Allocation { bytes: vec![], provenance: ProvenanceMap { ptrs: vec![] }, align: 1, mutability: Mutability::Not };
                match t.kind() {
                    TyKind::RigidTy(RigidTy::Closure(..)) => format!(r#"{{"zst":true,"ty":{}}}"#, tid),
                    _ => self.decode(t, &al, 0, 0),
                }
            }
            ConstantKind::Ty(tc) => match tc.eval_target_usize() {
                Ok(v) => format!(r#"{{"int":"{}","ty":{}}}"#, v, tid),
                Err(_) => format!(r#"{{"opaque":"tyconst","ty":{}}}"#, tid),
            },
            _ => format!(r#"{{"opaque":"unevaluated","ty":{}}}"#, tid),
        }
    }

    fn redirect(&self, i: Instance) -> Instance {
        if self.subst.is_empty() { return i; }
        let name = i.def.name().to_string();
        if std::env::var("MIRDUMP_NAMES").is_ok() { eprintln!("{} {:?}", name, i.args().0.len()); }
        if let Some((def, ix)) = self.subst.get(&name) {
            let ts: Vec<Ty> = i.args().0.iter().filter_map(|a| a.ty().copied()).collect();
            let args = GenericArgs(ix.iter().map(|k| GenericArgKind::Type(ts[*k])).collect());
            if let Ok(r) = Instance::resolve(*def, &args) { return r; }
        }
        i
    }
    fn inst(&mut self, i: Instance) -> String {
        let i = self.redirect(i);
        let key = i.mangled_name().to_string();
        let key = match i.kind { InstanceKind::Virtual { idx } => format!("virtual{}:{}", idx, key), InstanceKind::Intrinsic => format!("intrinsic:{}", key), _ => key };
        if !self.fns.contains_key(&key) {
            self.fns.insert(key.clone(), ());
            self.queue.push_back(i);
        }
        key
    }

    fn place(&mut self, p: &Place, locals: &[LocalDecl]) -> String {
        let _ = locals;
        let pr = arr(p.projection.iter().map(|e| match e {
            ProjectionElem::Deref => r#""*""#.to_string(),
            ProjectionElem::Field(i, t) => format!(r#"["f",{},{}]"#, i, self.ty(*t)),
            ProjectionElem::Index(l) => format!(r#"["i",{}]"#, l),
            ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!(r#"["ci",{},{},{}]"#, offset, min_length, from_end),
            ProjectionElem::Subslice { from, to, from_end } => format!(r#"["ss",{},{},{}]"#, from, to, from_end),
            ProjectionElem::Downcast(v) => format!(r#"["d",{}]"#, v.to_index()),
            ProjectionElem::OpaqueCast(_) => r#"["oc"]"#.to_string(),
        }).collect::<Vec<_>>());
        format!("[{},{}]", p.local, pr)
    }

    fn operand(&mut self, o: &Operand, l: &[LocalDecl]) -> String {
        match o {
            Operand::Copy(p) => format!(r#"["p",{}]"#, self.place(p, l)),
            Operand::Move(p) => format!(r#"["m",{}]"#, self.place(p, l)),
            Operand::Constant(c) => format!(r#"["c",{}]"#, self.constant(c)),
            Operand::RuntimeChecks(r) => { let n = format!("{:?}", r); format!(r#"["rc",{},{}]"#, q(&n), n.contains("Overflow") && overflow_checks()) }
        }
    }

    fn rvalue(&mut self, r: &Rvalue, l: &[LocalDecl]) -> String {
        match r {
            Rvalue::Use(o, _) => format!(r#"["use",{}]"#, self.operand(o, l)),
            Rvalue::BinaryOp(op, a, b) => { let ta = a.ty(l).unwrap(); format!(r#"["bin","{:?}",{},{},{}]"#, op, self.operand(a, l), self.operand(b, l), self.ty(ta)) }
            Rvalue::CheckedBinaryOp(op, a, b) => { let ta = a.ty(l).unwrap(); format!(r#"["cbin","{:?}",{},{},{}]"#, op, self.operand(a, l), self.operand(b, l), self.ty(ta)) }
            Rvalue::UnaryOp(op, a) => { let ta = a.ty(l).unwrap(); format!(r#"["un","{:?}",{},{}]"#, op, self.operand(a, l), self.ty(ta)) }
            Rvalue::Cast(k, o, t) => { let ta = o.ty(l).unwrap(); format!(r#"["cast",{},{},{},{}]"#, q(&format!("{:?}", k)), self.operand(o, l), self.ty(ta), self.ty(*t)) }
            Rvalue::Ref(_, bk, p) => format!(r#"["ref",{},{}]"#, matches!(bk, BorrowKind::Mut { .. }), self.place(p, l)),
            Rvalue::Reborrow(_, m, p) => format!(r#"["ref",{},{}]"#, *m == Mutability::Mut, self.place(p, l)),
            Rvalue::AddressOf(m, p) => format!(r#"["addr",{},{}]"#, q(&format!("{:?}", m)), self.place(p, l)),
            Rvalue::Aggregate(k, ops) => {
                let o = arr(ops.iter().map(|x| self.operand(x, l)).collect::<Vec<_>>());
                let (ks, v, t) = match k {
                    AggregateKind::Array(t) => ("array", 0, self.ty(*t).to_string()),
                    AggregateKind::Tuple => ("tuple", 0, "null".into()),
                    AggregateKind::Adt(def, v, args, _, fi) => {
                        let t = def.ty_with_args(args);
                        (if fi.is_some() { "union" } else { "adt" }, v.to_index(), self.ty(t).to_string())
                    }
                    AggregateKind::Closure(def, args) => { let t = Ty::new_closure(*def, args.clone()); ("closure", 0, self.ty(t).to_string()) }
                    AggregateKind::RawPtr(t, _) => ("rawptr", 0, self.ty(*t).to_string()),
                    _ => ("other", 0, "null".into()),
                };
                format!(r#"["agg","{}",{},{},{}]"#, ks, v, t, o)
            }
            Rvalue::Discriminant(p) => { let t = p.ty(l).unwrap(); format!(r#"["discr",{},{}]"#, self.place(p, l), self.ty(t)) }
            Rvalue::Len(p) => format!(r#"["len",{}]"#, self.place(p, l)),
            Rvalue::CopyForDeref(p) => format!(r#"["use",["p",{}]]"#, self.place(p, l)),
            Rvalue::Repeat(o, n) => format!(r#"["repeat",{},{}]"#, self.operand(o, l), n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into())),
            Rvalue::ThreadLocalRef(_) => r#"["tls"]"#.to_string(),
        }
    }

    fn unwind(u: &UnwindAction) -> String {
        match u { UnwindAction::Cleanup(b) => b.to_string(), _ => "null".into() }
    }

    fn body(&mut self, b: &Body) -> String {
        let l = b.locals().to_vec();
        let locals = arr(l.iter().map(|d| self.ty(d.ty).to_string()).collect::<Vec<_>>());
        let mut names: HashMap<usize, String> = HashMap::new();
        for v in &b.var_debug_info {
            if let Some(lo) = v.local() { names.insert(lo, v.name.to_string()); }
        }
        let nm = format!("{{{}}}", names.iter().map(|(k, v)| format!("\"{}\":{}", k, q(v))).collect::<Vec<_>>().join(","));
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut st = vec![];
            for s in &bb.statements {
                let sp = s.source_info.span;
                let x = match &s.kind {
                    StatementKind::Assign(p, r) => format!(r#"["=",{},{},{}]"#, self.place(p, &l), self.rvalue(r, &l), span_s(&sp)),
                    StatementKind::SetDiscriminant { place, variant_index } => format!(r#"["sd",{},{}]"#, self.place(place, &l), variant_index.to_index()),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => format!(r#"["assume",{}]"#, self.operand(o, &l)),
                    StatementKind::StorageDead(l) => format!(r#"["dead",{}]"#, l),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) =>
                        format!(r#"["copyno",{},{},{}]"#, self.operand(&c.src, &l), self.operand(&c.dst, &l), self.operand(&c.count, &l)),
                    _ => continue,
                };
                st.push(x);
            }
            let sp = bb.terminator.source_info.span;
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => format!(r#"["goto",{}]"#, target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let t = discr.ty(&l).unwrap();
                    format!(r#"["switch",{},{},{},{}]"#, self.operand(discr, &l), arr(targets.branches().map(|(v, t)| format!("[\"{}\",{}]", v, t))), targets.otherwise(), self.ty(t))
                }
                TerminatorKind::Resume => r#"["resume"]"#.into(),
                TerminatorKind::Abort => r#"["abort"]"#.into(),
                TerminatorKind::Return => r#"["return"]"#.into(),
                TerminatorKind::Unreachable => r#"["unreachable"]"#.into(),
                TerminatorKind::Drop { place, target, unwind } => {
                    let t = place.ty(&l).unwrap();
                    format!(r#"["drop",{},{},{},{}]"#, self.place(place, &l), target, Self::unwind(unwind), self.ty(t))
                }
                TerminatorKind::Call { func, args, destination, target, unwind } => {
                    format!(r#"["call",{},{},{},{},{},{}]"#, self.operand(func, &l), arr(args.iter().map(|a| self.operand(a, &l)).collect::<Vec<_>>()), self.place(destination, &l), target.map(|t| t.to_string()).unwrap_or("null".into()), Self::unwind(unwind), span_s(&sp))
                }
                // overflow assertions inherited from the profile (also those of functions of std) exist only where it checks overflow
                TerminatorKind::Assert { msg: AssertMessage::Overflow(BinOp::Add | BinOp::Sub | BinOp::Mul | BinOp::Shl | BinOp::Shr, ..) | AssertMessage::OverflowNeg(_), target, .. }
                    if !overflow_checks() => format!(r#"["goto",{}]"#, target),
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    let (m, ops) = match msg {
                        AssertMessage::BoundsCheck { len, index } => ("bounds".to_string(), arr([self.operand(len, &l), self.operand(index, &l)])),
                        AssertMessage::Overflow(op, a, b) => (format!("overflow {:?}", op), arr([self.operand(a, &l), self.operand(b, &l)])),
                        AssertMessage::OverflowNeg(a) => ("overflow Neg".into(), arr([self.operand(a, &l)])),
                        AssertMessage::DivisionByZero(_) => ("div by zero".into(), "[]".into()),
                        AssertMessage::RemainderByZero(_) => ("rem by zero".into(), "[]".into()),
                        _ => ("ub".into(), "[]".into()),
                    };
                    format!(r#"["assert",{},{},{},{},{},{},{}]"#, self.operand(cond, &l), expected, q(&m), ops, target, Self::unwind(unwind), span_s(&sp))
                }
                TerminatorKind::InlineAsm { .. } => r#"["asm"]"#.into(),
            };
            blocks.push(format!(r#"{{"s":{},"t":{},"at":{}}}"#, arr(st), t, span_s(&sp)));
        }
        format!(r#"{{"argc":{},"spread":{},"locals":{},"names":{},"blocks":{}}}"#, b.arg_locals().len(), b.spread_arg().map(|x| x.to_string()).unwrap_or("null".into()), locals, nm, arr(blocks))
    }

    fn run(&mut self) {
        while let Some(i) = self.queue.pop_front() {
            let key = i.mangled_name().to_string();
            let key = match i.kind { InstanceKind::Virtual { idx } => format!("virtual{}:{}", idx, key), InstanceKind::Intrinsic => format!("intrinsic:{}", key), _ => key };
            let name = i.name().to_string();
            let def = i.def.name().to_string();
            let krate = i.def.krate().name.to_string();
            let kind = match i.kind { InstanceKind::Item => "item", InstanceKind::Intrinsic => "intrinsic", InstanceKind::LlvmIntrinsic => "llvm", InstanceKind::Virtual { .. } => "virtual", InstanceKind::Shim => "shim" };
            let intr = i.intrinsic_name().map(|s| q(&s.to_string())).unwrap_or("null".into());
            let targs = arr(i.args().0.iter().filter_map(|a| a.ty().copied()).collect::<Vec<_>>().into_iter().map(|t| self.ty(t).to_string()).collect::<Vec<_>>());
            let fty = i.ty();
            let (ret, is_closure) = match fty.kind() {
                TyKind::RigidTy(RigidTy::FnDef(..)) => {
                    (fty.kind().fn_sig().map(|s| s.skip_binder().output()), false)
                }
                TyKind::RigidTy(RigidTy::Closure(..)) => (None, true),
                _ => (None, false),
            };
            let ret = match ret { Some(t) => self.ty(t).to_string(), None => "null".into() };
            let body = if i.kind == InstanceKind::Intrinsic || matches!(i.kind, InstanceKind::Virtual { .. }) || (stop(&krate, &name) && i.kind != InstanceKind::Shim) || name.contains("drop_in_place") {
                "null".to_string()
            } else {
                match i.body() { Some(b) => self.body(&b), None => "null".into() }
            };
            self.fn_json.push(format!(r#"{}:{{"name":{},"def":{},"krate":{},"kind":"{}","intrinsic":{},"targs":{},"ret":{},"closure":{},"at":{},"body":{}}}"#, q(&key), q(&name), q(&def), q(&krate), kind, intr, targs, ret, is_closure, span_s(&i.def.span()), body));
        }
    }
}

static OVERFLOW_CHECKS: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(true);
fn overflow_checks() -> bool { OVERFLOW_CHECKS.load(std::sync::atomic::Ordering::Relaxed) }
fn dump_mono(out: &str) {
    let mut d = Dump { tys: HashMap::new(), ty_json: vec![], fns: HashMap::new(), fn_json: vec![], queue: VecDeque::new(), subst: HashMap::new() };
    let mut roots = vec![];
    for f in rustc_public::local_crate().fn_defs() {
        let n = f.name().to_string();
        for (std, sp, ix) in REDIRECT {
            if n == format!("spec::{}", sp) || n == *sp {
                d.subst.insert(std.to_string(), (f, ix));
            }
        }
    }
    for f in rustc_public::local_crate().fn_defs() {
        let n = f.name().to_string();
        let last = n.rsplit("::").next().unwrap().to_string();
        if !last.starts_with("h_") { continue; }
        let ty = f.ty();
        if let TyKind::RigidTy(RigidTy::FnDef(def, args)) = ty.kind() {
            if args.0.iter().any(|a| a.ty().is_some()) { continue; }
            if let Ok(i) = Instance::resolve(def, &args) {
                let k = d.inst(i);
                roots.push(format!("[{},{}]", q(&n), q(&k)));
            }
        }
    }
    d.run();
    let s = format!("{{\"roots\":{},\"types\":{},\"fns\":{{{}}}}}", arr(roots), arr(d.ty_json.clone()), d.fn_json.join(",\n"));
    std::fs::write(format!("{}/mono.json", out), s).unwrap();
}

fn main() {
    let mut args: Vec<String> = std::env::args().skip(1).collect();
    let name = args.windows(2).find(|w| w[0] == "--crate-name").map(|w| w[1].clone()).unwrap_or_default();
    let spec = std::env::var("MIRDUMP_SPEC").unwrap_or_default();
    let itm = std::env::var("MIRDUMP_ITEMS").unwrap_or_default();
    let out = std::env::var("MIRDUMP_OUT").unwrap_or_default();
    let is_spec = !name.is_empty() && name == spec;
    let is_items = !name.is_empty() && name == itm;
    if !(is_spec || is_items) {
        let st = std::process::Command::new(&args[0]).args(&args[1..]).status().expect("rustc");
        std::process::exit(st.code().unwrap_or(101));
    }
    args[0] = "rustc".into();
    let r: Result<(), rustc_public::CompilerError<()>> = run_with_tcx!(&args, |tcx: TyCtxt| -> ControlFlow<(), ()> {
        OVERFLOW_CHECKS.store(tcx.sess.overflow_checks(), std::sync::atomic::Ordering::Relaxed);
        if is_spec { dump_mono(&out); } else { items::dump(tcx, &out); }
        ControlFlow::Continue(())
    });
    if r.is_err() { std::process::exit(1); }
}
