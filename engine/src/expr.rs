//! Hash-consed bit-vector expressions with simplification.
use crate::bv::{sha256, Bv};
use std::cell::RefCell;
use crate::fx::HashMap;
use std::rc::Rc;

pub type E = u32;
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Slt,
}
use Op::*;
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum N {
    Const(Bv),
    Var(u32),
    Concat(Box<[E]>),
    Extract(E, u32),
    Bin(Op, E, E),
    Not(E),
    Ite(E, E, E),
    SExt(E),
    Sha(E),
}
pub const SHA_VAR: u32 = u32::MAX;

pub struct Cx {
    pub n: Vec<&'static N>,
    pub w: Vec<u32>,
    map: HashMap<(N, u32), E>,
    pub var_names: Vec<String>,
    pub var_w: Vec<u32>,
    supp: Vec<Option<Rc<[u32]>>>,
    pub digests: HashMap<[u8; 32], Rc<Vec<u8>>>,
    pub tt: E,
    pub ff: E,
}
struct G(std::cell::UnsafeCell<Option<Cx>>);
unsafe impl Sync for G {}
static CX: G = G(std::cell::UnsafeCell::new(None));
#[allow(static_mut_refs)]
pub fn cx() -> &'static mut Cx {
    unsafe { (*CX.0.get()).as_mut().unwrap() }
}
pub fn init() {
    unsafe {
        *CX.0.get() = Some(Cx {
            n: vec![],
            w: vec![],
            map: HashMap::default(),
            var_names: vec![],
            var_w: vec![],
            supp: vec![],
            digests: HashMap::default(),
            tt: 0,
            ff: 0,
        })
    }
    mk(N::Var(SHA_VAR), 1); // id 0 is never a value
    let f = konst(1, 0);
    let t = konst(1, 1);
    cx().ff = f;
    cx().tt = t;
}
fn mk(n: N, w: u32) -> E {
    let c = cx();
    let key = (n, w);
    if let Some(e) = c.map.get(&key) {
        return *e;
    }
    let id = c.n.len() as E;
    c.n.push(Box::leak(Box::new(key.0.clone())));
    c.w.push(w);
    c.supp.push(None);
    c.map.insert(key, id);
    id
}
pub fn w(e: E) -> u32 {
    cx().w[e as usize]
}
pub fn node(e: E) -> &'static N {
    cx().n[e as usize]
}
pub fn tt() -> E {
    cx().tt
}
pub fn ff() -> E {
    cx().ff
}
pub fn konst(w: u32, x: u64) -> E {
    kb(Bv::u(w, x))
}
pub fn kb(b: Bv) -> E {
    let w = b.w;
    mk(N::Const(b), w)
}
pub fn as_bv(e: E) -> Option<Bv> {
    match node(e) {
        N::Const(b) => Some(b.clone()),
        _ => None,
    }
}
pub fn is_const(e: E) -> bool {
    matches!(node(e), N::Const(_))
}
pub fn as_u64(e: E) -> Option<u64> {
    match node(e) {
        N::Const(b) => b.small(),
        _ => None,
    }
}
pub fn var(name: String, w: u32) -> E {
    let c = cx();
    let i = c.var_names.len() as u32;
    c.var_names.push(name);
    c.var_w.push(w);
    mk(N::Var(i), w)
}
pub fn support(e: E) -> Rc<[u32]> {
    if let Some(s) = &cx().supp[e as usize] {
        return s.clone();
    }
    // iterative post-order (expressions can be deep)
    let mut st = vec![e];
    while let Some(&x) = st.last() {
        if cx().supp[x as usize].is_some() {
            st.pop();
            continue;
        }
        let kids = kids(x);
        let miss: Vec<E> =
            kids.iter().copied().filter(|k| cx().supp[*k as usize].is_none()).collect();
        if !miss.is_empty() {
            st.extend(miss);
            continue;
        }
        let mut v: Vec<u32> = Vec::new();
        if let N::Var(i) = node(x) {
            v.push(*i);
        }
        if let N::Sha(_) = node(x) {
            v.push(SHA_VAR);
        }
        for k in &kids {
            v.extend_from_slice(cx().supp[*k as usize].as_ref().unwrap());
        }
        v.sort_unstable();
        v.dedup();
        cx().supp[x as usize] = Some(v.into());
        st.pop();
    }
    cx().supp[e as usize].clone().unwrap()
}
pub fn kids(e: E) -> Vec<E> {
    match node(e) {
        N::Const(_) | N::Var(_) => vec![],
        N::Concat(p) => p.to_vec(),
        N::Extract(a, _) | N::Not(a) | N::SExt(a) | N::Sha(a) => vec![*a],
        N::Bin(_, a, b) => vec![*a, *b],
        N::Ite(a, b, c) => vec![*a, *b, *c],
    }
}

// ----------------------------------------------------------- constructors
pub fn not(a: E) -> E {
    match node(a).clone() {
        N::Const(b) => kb(b.not()),
        N::Not(x) => x,
        N::Concat(p) if w(a) > 1 && p.iter().any(|x| is_const(*x)) => {
            let v: Vec<E> = p.iter().map(|x| not(*x)).collect();
            concat(&v)
        }
        _ => mk(N::Not(a), w(a)),
    }
}
/// pieces, most significant first
pub fn concat(p: &[E]) -> E {
    let mut out: Vec<E> = Vec::with_capacity(p.len());
    fn push(out: &mut Vec<E>, x: E) {
        match node(x) {
            N::Concat(q) => {
                for y in q.clone().iter() {
                    push1(out, *y)
                }
            }
            _ => push1(out, x),
        }
    }
    fn push1(out: &mut Vec<E>, x: E) {
        if let Some(&l) = out.last() {
            match (node(l), node(x)) {
                (N::Extract(a, la), N::Extract(b, lb)) if a == b && *la == *lb + w(x) => {
                    let (a, lb) = (*a, *lb);
                    out.pop();
                    let e = extract(a, lb, w(l) + w(x));
                    push(out, e);
                    return;
                }
                _ => {}
            }
        }
        out.push(x);
    }
    for x in p {
        push(&mut out, *x);
    }
    // constants next to each other, all at once
    if out.windows(2).any(|x| is_const(x[0]) && is_const(x[1])) {
        let mut o = Vec::with_capacity(out.len());
        let mut i = 0;
        while i < out.len() {
            let mut j = i;
            while j < out.len() && is_const(out[j]) {
                j += 1;
            }
            if j - i > 1 {
                let k: Vec<&Bv> = out[i..j].iter().map(|x| if let N::Const(v) = node(*x) { v } else { unreachable!() }).collect();
                let v = Bv::join(&k);
                o.push(kb(v));
                i = j;
            } else {
                o.push(out[i]);
                i += 1;
            }
        }
        out = o;
    }
    if out.len() == 1 {
        return out[0];
    }
    let ww = out.iter().map(|x| w(*x)).sum();
    mk(N::Concat(out.into()), ww)
}
pub fn zext(a: E, ww: u32) -> E {
    let k = w(a);
    if k == ww {
        return a;
    }
    concat(&[konst(ww - k, 0), a])
}
pub fn sext(a: E, ww: u32) -> E {
    let k = w(a);
    if k == ww {
        return a;
    }
    match node(a).clone() {
        N::Const(b) => kb(b.sext(ww)),
        N::SExt(x) => sext(x, ww),
        N::Concat(p) => match as_bv(p[0]) {
            Some(b) if !b.bit(b.w - 1) => zext(a, ww),
            _ => mk(N::SExt(a), ww),
        },
        _ => mk(N::SExt(a), ww),
    }
}
pub fn extract(a: E, lo: u32, k: u32) -> E {
    let wa = w(a);
    debug_assert!(lo + k <= wa);
    if k == wa {
        return a;
    }
    match node(a).clone() {
        N::Const(b) => kb(b.extract(lo + k - 1, lo)),
        N::Extract(x, l) => extract(x, l + lo, k),
        N::Concat(p) => {
            let mut out = vec![];
            let mut pos = wa; // bits above
            for x in p.iter() {
                let wx = w(*x);
                let (xl, xh) = (pos - wx, pos); // covers [xl,xh)
                pos = xl;
                let (l, h) = (xl.max(lo), xh.min(lo + k));
                if l < h {
                    out.push(extract(*x, l - xl, h - l));
                }
            }
            concat(&out)
        }
        N::Ite(c, x, y) => ite(c, extract(x, lo, k), extract(y, lo, k)),
        N::Not(x) => not(extract(x, lo, k)),
        N::Bin(o @ (And | Or | Xor), x, y) => {
            bin(o, extract(x, lo, k), extract(y, lo, k))
        }
        N::Bin(o @ (Add | Sub | Mul), x, y) if lo == 0 => {
            bin(o, extract(x, 0, k), extract(y, 0, k))
        }
        N::SExt(x) => {
            let wx = w(x);
            if lo + k <= wx {
                extract(x, lo, k)
            } else if lo >= wx {
                let s = extract(x, wx - 1, 1);
                sext(s, k)
            } else if lo == 0 {
                sext(x, k)
            } else {
                mk(N::Extract(a, lo), k)
            }
        }
        _ => mk(N::Extract(a, lo), k),
    }
}
pub fn ite(c: E, a: E, b: E) -> E {
    if c == tt() {
        return a;
    }
    if c == ff() {
        return b;
    }
    if a == b {
        return a;
    }
    if let N::Not(d) = node(c) {
        return ite(*d, b, a);
    }
    if w(a) == 1 {
        if a == tt() {
            return bin(Or, c, b);
        }
        if b == ff() {
            return bin(And, c, a);
        }
        if a == ff() {
            return bin(And, not(c), b);
        }
        if b == tt() {
            return bin(Or, not(c), a);
        }
    }
    if let N::Ite(c2, x, _) = node(a) {
        if *c2 == c {
            return ite(c, *x, b);
        }
    }
    if let N::Ite(c2, _, y) = node(b) {
        if *c2 == c {
            return ite(c, a, *y);
        }
    }
    mk(N::Ite(c, a, b), w(a))
}
pub fn and(a: E, b: E) -> E {
    bin(And, a, b)
}
pub fn or(a: E, b: E) -> E {
    bin(Or, a, b)
}
pub fn eq(a: E, b: E) -> E {
    bin(Eq, a, b)
}
pub fn ult(a: E, b: E) -> E {
    bin(Ult, a, b)
}
pub fn add(a: E, b: E) -> E {
    bin(Add, a, b)
}
pub fn sub(a: E, b: E) -> E {
    bin(Sub, a, b)
}
fn pieces(e: E) -> Vec<E> {
    match node(e) {
        N::Concat(p) => p.to_vec(),
        _ => vec![e],
    }
}
/// Cuts both at the union of their piece boundaries.
fn segments(a: E, b: E) -> Vec<(E, E)> {
    let (pa, pb) = (pieces(a), pieces(b));
    let (mut i, mut j) = (0, 0);
    let (mut ua, mut ub) = (0, 0); // bits used of pa[i], pb[j] from the top
    let mut out = vec![];
    while i < pa.len() && j < pb.len() {
        let (ra, rb) = (w(pa[i]) - ua, w(pb[j]) - ub);
        let k = ra.min(rb);
        out.push((extract(pa[i], ra - k, k), extract(pb[j], rb - k, k)));
        ua += k;
        ub += k;
        if ua == w(pa[i]) {
            i += 1;
            ua = 0;
        }
        if ub == w(pb[j]) {
            j += 1;
            ub = 0;
        }
    }
    out
}
pub fn fold(o: Op, a: &Bv, b: &Bv) -> Bv {
    let t = |x: bool| Bv::u(1, x as u64);
    let sh = |b: &Bv| b.small().map_or(a.w, |x| x.min(a.w as u64) as u32);
    match o {
        Add => a.add(b),
        Sub => a.sub(b),
        Mul => a.mul(b),
        UDiv => a.udivrem(b).0,
        URem => a.udivrem(b).1,
        SDiv | SRem => {
            let (na, nb) = (a.bit(a.w - 1), b.bit(b.w - 1));
            let (x, y) = (if na { a.neg() } else { a.clone() }, if nb { b.neg() } else { b.clone() });
            let (q, r) = x.udivrem(&y);
            if o == SDiv {
                if na != nb { q.neg() } else { q }
            } else if na {
                r.neg()
            } else {
                r
            }
        }
        And => a.zip(b, |x, y| x & y),
        Or => a.zip(b, |x, y| x | y),
        Xor => a.zip(b, |x, y| x ^ y),
        Shl => a.shl(sh(b)),
        LShr => a.lshr(sh(b)),
        AShr => a.ashr(sh(b)),
        Eq => t(a == b),
        Ult => t(a.ult(b)),
        Slt => t(a.slt(b)),
    }
}
/// number of leading bits known to be zero
fn lead0(e: E) -> u32 {
    match node(e) {
        N::Const(b) => {
            let mut n = 0;
            while n < b.w && !b.bit(b.w - 1 - n) {
                n += 1;
            }
            n
        }
        N::Concat(p) => {
            let p = p.clone();
            let mut n = 0;
            for x in p.iter() {
                let l = lead0(*x);
                n += l;
                if l < w(*x) {
                    break;
                }
            }
            n
        }
        N::Ite(_, a, b) => {
            let (a, b) = (*a, *b);
            if is_const(a) && is_const(b) {
                lead0(a).min(lead0(b))
            } else {
                0
            }
        }
        N::Bin(URem, _, b) => {
            let b = *b;
            lead0(b)
        }
        _ => 0,
    }
}
pub fn bin(o: Op, mut a: E, mut b: E) -> E {
    let wd = w(a);
    debug_assert_eq!(wd, w(b), "{:?}", o);
    if let (N::Const(x), N::Const(y)) = (node(a), node(b)) {
        return kb(fold(o, &x.clone(), &y.clone()));
    }
    if matches!(o, Add | Mul | And | Or | Xor | Eq) {
        // constants right, otherwise ordered by id
        if is_const(a) || (!is_const(b) && a > b) {
            std::mem::swap(&mut a, &mut b);
        }
    }
    let kbv = as_bv(b);
    match o {
        And | Or => {
            let zero_is = o == And; // absorbing element is zero for And
            if a == b {
                return a;
            }
            if let Some(k) = &kbv {
                if k.is_zero() {
                    return if zero_is { b } else { a };
                }
                if k.is_ones() {
                    return if zero_is { a } else { b };
                }
            }
            if not(a) == b {
                return if zero_is { konst(wd, 0) } else { kb(Bv::ones(wd)) };
            }
            if wd == 1 {
                // absorption one level deep
                if let N::Bin(o2, x, y) = node(b) {
                    if (*o2 == And || *o2 == Or) && (*x == a || *y == a) {
                        return if *o2 == o { b } else { a };
                    }
                }
                if let N::Bin(o2, x, y) = node(a) {
                    if (*o2 == And || *o2 == Or) && (*x == b || *y == b) {
                        return if *o2 == o { a } else { b };
                    }
                }
            }
            if let Some(k) = &kbv {
                // runs of equal mask bits
                let mut runs: Vec<(bool, u32)> = vec![];
                for i in (0..wd).rev() {
                    let t = k.bit(i);
                    match runs.last_mut() {
                        Some((b, n)) if *b == t => *n += 1,
                        _ => runs.push((t, 1)),
                    }
                }
                if runs.len() <= 9 {
                    let mut pos = wd;
                    let mut out = vec![];
                    for (t, n) in runs {
                        pos -= n;
                        out.push(if t == (o == And) {
                            extract(a, pos, n)
                        } else if t {
                            kb(Bv::ones(n))
                        } else {
                            konst(n, 0)
                        });
                    }
                    return concat(&out);
                }
            }
        }
        Xor => {
            if a == b {
                return konst(wd, 0);
            }
            if let Some(k) = &kbv {
                if k.is_zero() {
                    return a;
                }
                if k.is_ones() {
                    return not(a);
                }
            }
            if not(a) == b {
                return kb(Bv::ones(wd));
            }
        }
        Add => {
            if wd == 1 {
                return bin(Xor, a, b);
            }
            if let Some(k) = &kbv {
                if k.is_zero() {
                    return a;
                }
                if let N::Bin(Add, x, y) = node(a).clone() {
                    if let Some(k2) = as_bv(y) {
                        return bin(Add, x, kb(k2.add(k)));
                    }
                }
                if let N::Ite(c, x, y) = node(a).clone() {
                    if is_const(x) && is_const(y) {
                        return ite(c, bin(Add, x, b), bin(Add, y, b));
                    }
                }
            }
            for (x, y) in [(a, b), (b, a)] {
                if let N::Bin(Sub, p, q) = node(x) {
                    if *q == y {
                        return *p;
                    }
                }
            }
        }
        Sub => {
            if a == b {
                return konst(wd, 0);
            }
            if let Some(k) = &kbv {
                return bin(Add, a, kb(k.neg()));
            }
            if let N::Bin(Add, p, q) = node(a) {
                if *q == b {
                    return *p;
                }
                if *p == b {
                    return *q;
                }
            }
        }
        Mul => {
            if let Some(k) = &kbv {
                if k.is_zero() {
                    return b;
                }
                if let Some(s) = pow2(k) {
                    return bin(Shl, a, konst(wd, s as u64));
                }
            }
        }
        UDiv | URem => {
            if let Some(k) = &kbv {
                if let Some(s) = pow2(k) {
                    return if o == UDiv {
                        bin(LShr, a, konst(wd, s as u64))
                    } else if s == 0 {
                        konst(wd, 0)
                    } else {
                        zext(extract(a, 0, s), wd)
                    };
                }
            }
            let l = lead0(a).min(lead0(b));
            if l > 0 && l < wd && !(kbv.is_some() && kbv.as_ref().unwrap().is_zero()) && kbv.is_some() {
                let k = wd - l;
                return zext(bin(o, extract(a, 0, k), extract(b, 0, k)), wd);
            }
            if let Some(k) = &kbv {
                // dividend known to be smaller than the divisor
                let la = lead0(a);
                if la >= lead0(b) + 1 && !k.is_zero() {
                    return if o == UDiv { konst(wd, 0) } else { a };
                }
            }
        }
        Shl | LShr | AShr => {
            if let Some(k) = &kbv {
                let s = k.small().map_or(wd, |x| x.min(wd as u64) as u32);
                if s == 0 {
                    return a;
                }
                return match o {
                    Shl if s >= wd => konst(wd, 0),
                    LShr if s >= wd => konst(wd, 0),
                    Shl => concat(&[extract(a, 0, wd - s), konst(s, 0)]),
                    LShr => zext(extract(a, s, wd - s), wd),
                    _ => {
                        let s = s.min(wd - 1);
                        sext(extract(a, s, wd - s), wd)
                    }
                };
            }
        }
        Eq => {
            if a == b {
                return tt();
            }
            if wd == 1 {
                if b == tt() {
                    return a;
                }
                if b == ff() {
                    return not(a);
                }
                if not(a) == b {
                    return ff();
                }
            }
            if let Some(k) = &kbv {
                match node(a).clone() {
                    N::Ite(c, x, y) => {
                        let (ex, ey) = (
                            if is_const(x) { Some(x == b) } else { None },
                            if is_const(y) { Some(y == b) } else { None },
                        );
                        match (ex, ey) {
                            (Some(p), Some(q)) => {
                                return ite(c, if p { tt() } else { ff() }, if q { tt() } else { ff() })
                            }
                            (Some(true), None) => return or(c, eq(y, b)),
                            (Some(false), None) => return and(not(c), eq(y, b)),
                            (None, Some(true)) => return or(not(c), eq(x, b)),
                            (None, Some(false)) => return and(c, eq(x, b)),
                            _ => {}
                        }
                    }
                    N::Bin(Add, x, y) => {
                        if let Some(k2) = as_bv(y) {
                            return eq(x, kb(k.sub(&k2)));
                        }
                    }
                    N::Not(x) => return eq(x, kb(k.not())),
                    N::Bin(Xor, x, y) if k.is_zero() => return eq(x, y),
                    N::Bin(Sub, x, y) if k.is_zero() => return eq(x, y),
                    N::Bin(Or, x, y) if k.is_zero() => {
                        return and(eq(x, konst(wd, 0)), eq(y, konst(wd, 0)))
                    }
                    N::SExt(x) => {
                        let t = k.extract(w(x) - 1, 0);
                        return if t.sext(wd) == *k { eq(x, kb(t)) } else { ff() };
                    }
                    _ => {}
                }
            }
            match (node(a).clone(), node(b).clone()) {
                (N::Sha(x), N::Sha(y)) => {
                    return if w(x) == w(y) { eq(x, y) } else { ff() };
                }
                (N::Sha(x), N::Const(d)) | (N::Const(d), N::Sha(x)) => {
                    let mut k = [0u8; 32];
                    k.copy_from_slice(&d.to_be());
                    if let Some(m) = cx().digests.get(&k).cloned() {
                        return if m.len() as u32 * 8 == w(x) {
                            if m.is_empty() { tt() } else { eq(x, kb(Bv::from_be(&m))) }
                        } else {
                            ff()
                        };
                    }
                }
                (N::Concat(_), _) | (_, N::Concat(_)) => {
                    let seg = segments(a, b);
                    let mut rest: Vec<(E, E)> = vec![];
                    let mut extra = tt();
                    for (x, y) in seg {
                        if x == y {
                            continue;
                        }
                        if is_const(x) && is_const(y) {
                            return ff();
                        }
                        let simple = |e: E| matches!(node(e), N::Var(_) | N::Extract(..));
                        if simple(x) && simple(y) || (simple(x) && is_const(y)) || (simple(y) && is_const(x)) {
                            rest.push((x, y));
                        } else {
                            let t = eq(x, y);
                            if t == ff() {
                                return ff();
                            }
                            extra = and(extra, t);
                        }
                    }
                    if rest.len() == 1 {
                        let t = eq(rest[0].0, rest[0].1);
                        return and(extra, t);
                    }
                    if rest.is_empty() {
                        return extra;
                    }
                    let l: Vec<E> = rest.iter().map(|p| p.0).collect();
                    let r: Vec<E> = rest.iter().map(|p| p.1).collect();
                    let (mut l, mut r) = (concat(&l), concat(&r));
                    if is_const(l) || (!is_const(r) && l > r) {
                        std::mem::swap(&mut l, &mut r);
                    }
                    let e = mk(N::Bin(Eq, l, r), 1);
                    return and(extra, e);
                }
                _ => {}
            }
        }
        Ult => {
            if a == b {
                return ff();
            }
            if wd == 1 {
                return and(not(a), b);
            }
            if let Some(k) = &kbv {
                if k.is_zero() {
                    return ff();
                }
                if k.small() == Some(1) {
                    return eq(a, konst(wd, 0));
                }
                if let N::Ite(c, x, y) = node(a).clone() {
                    if is_const(x) || is_const(y) {
                        return ite(c, ult(x, b), ult(y, b));
                    }
                }
            }
            if let Some(k) = as_bv(a) {
                if k.is_ones() {
                    return ff();
                }
                if k.is_zero() {
                    return not(eq(b, a));
                }
                if let N::Ite(c, x, y) = node(b).clone() {
                    if is_const(x) || is_const(y) {
                        return ite(c, ult(a, x), ult(a, y));
                    }
                }
            }
            // common or decided leading pieces
            if matches!(node(a), N::Concat(_)) || matches!(node(b), N::Concat(_)) {
                let seg = segments(a, b);
                let mut i = 0;
                while i < seg.len() {
                    let (x, y) = seg[i];
                    if x == y {
                        i += 1;
                        continue;
                    }
                    if let (N::Const(p), N::Const(q)) = (node(x), node(y)) {
                        return if p.ult(q) { tt() } else { ff() };
                    }
                    break;
                }
                if i > 0 {
                    if i == seg.len() {
                        return ff();
                    }
                    let l: Vec<E> = seg[i..].iter().map(|p| p.0).collect();
                    let r: Vec<E> = seg[i..].iter().map(|p| p.1).collect();
                    return ult(concat(&l), concat(&r));
                }
                // trailing identical pieces do not matter
                let mut j = seg.len();
                while j > 1 && seg[j - 1].0 == seg[j - 1].1 {
                    j -= 1;
                }
                if j < seg.len() {
                    let l: Vec<E> = seg[..j].iter().map(|p| p.0).collect();
                    let r: Vec<E> = seg[..j].iter().map(|p| p.1).collect();
                    return ult(concat(&l), concat(&r));
                }
                // 0...0 x < k with k beyond x's range
                if let Some(k) = &kbv {
                    let l = lead0(a);
                    if l > 0 {
                        if k.lshr(wd - l).is_zero() {
                            return ult(extract(a, 0, wd - l), extract(b, 0, wd - l));
                        }
                        return tt();
                    }
                }
                if let Some(k) = as_bv(a) {
                    let l = lead0(b);
                    if l > 0 {
                        if k.lshr(wd - l).is_zero() {
                            return ult(extract(a, 0, wd - l), extract(b, 0, wd - l));
                        }
                        return ff();
                    }
                }
            }
        }
        Slt => {
            if a == b {
                return ff();
            }
            if lead0(a) > 0 && lead0(b) > 0 {
                return ult(a, b);
            }
            if let Some(k) = &kbv {
                if k.is_zero() {
                    return extract(a, wd - 1, 1);
                }
            }
            if let Some(k) = as_bv(a) {
                if k.is_ones() {
                    return not(extract(b, wd - 1, 1));
                }
            }
            for (x, y, l) in [(a, b, true), (b, a, false)] {
                if let N::Ite(c, p, q) = node(x).clone() {
                    if is_const(p) && is_const(q) && is_const(y) {
                        let f = |z: E| if l { bin(Slt, z, y) } else { bin(Slt, y, z) };
                        return ite(c, f(p), f(q));
                    }
                }
            }
        }
        SDiv | SRem => {
            if lead0(a) > 0 && lead0(b) > 0 {
                return bin(if o == SDiv { UDiv } else { URem }, a, b);
            }
        }
    }
    if matches!(o, And | Or | Xor) && wd > 1 {
        let hask = |e: E| match node(e) {
            N::Concat(p) => p.iter().any(|x| is_const(*x)),
            _ => false,
        };
        if hask(a) || hask(b) {
            let s: Vec<E> = segments(a, b).into_iter().map(|(x, y)| bin(o, x, y)).collect();
            return concat(&s);
        }
    }
    mk(N::Bin(o, a, b), if matches!(o, Eq | Ult | Slt) { 1 } else { wd })
}
fn pow2(k: &Bv) -> Option<u32> {
    let n: u32 = k.v.iter().map(|x| x.count_ones()).sum();
    if n != 1 {
        return None;
    }
    (0..k.w).find(|i| k.bit(*i))
}
pub fn sha(msg: &[E]) -> E {
    if msg.iter().all(|e| is_const(*e)) {
        let m: Vec<u8> = msg.iter().map(|e| as_u64(*e).unwrap() as u8).collect();
        let d = sha256(&m);
        cx().digests.insert(d, Rc::new(m));
        return kb(Bv::from_be(&d));
    }
    let m = concat(msg);
    mk(N::Sha(m), 256)
}
pub fn ctlz(a: E) -> E {
    let k = w(a);
    let mut r = konst(k, k as u64);
    for i in 0..k {
        r = ite(extract(a, i, 1), konst(k, (k - 1 - i) as u64), r);
    }
    r
}
pub fn cttz(a: E) -> E {
    let k = w(a);
    let mut r = konst(k, k as u64);
    for i in (0..k).rev() {
        r = ite(extract(a, i, 1), konst(k, i as u64), r);
    }
    r
}
pub fn ctpop(a: E) -> E {
    let k = w(a);
    let mut r = konst(k, 0);
    for i in 0..k {
        r = add(r, zext(extract(a, i, 1), k));
    }
    r
}

/// Expressions (mostly variables) whose value the path determines.
#[derive(Default)]
pub struct Fixed {
    vals: HashMap<E, E>,
    touched: crate::fx::HashSet<u32>,
    memo: RefCell<HashMap<E, E>>,
}
impl Fixed {
    pub fn with(&self, e: E, k: E) -> Fixed {
        let mut vals = self.vals.clone();
        vals.insert(e, k);
        let mut touched = self.touched.clone();
        touched.extend(support(e).iter());
        Fixed { vals, touched, memo: Default::default() }
    }
    fn miss(&self, e: E) -> bool {
        is_const(e) || !support(e).iter().any(|v| self.touched.contains(v))
    }
    /// e with those variables replaced (but not below a digest, whose value on
    /// this path the solver may have chosen already)
    pub fn apply(&self, e: E) -> E {
        if self.vals.is_empty() || self.miss(e) {
            return e;
        }
        let mut m = self.memo.borrow_mut();
        let mut st = vec![e];
        while let Some(&x) = st.last() {
            if m.contains_key(&x) {
                st.pop();
                continue;
            }
            if let Some(k) = self.vals.get(&x) {
                m.insert(x, *k);
                st.pop();
                continue;
            }
            let r = match node(x) {
                N::Const(_) | N::Sha(_) | N::Var(_) => x,
                _ => {
                    if self.miss(x) {
                        x
                    } else {
                        let ks = kids(x);
                        let miss: Vec<E> = ks.iter().copied().filter(|k| !m.contains_key(k)).collect();
                        if !miss.is_empty() {
                            st.extend(miss);
                            continue;
                        }
                        let g = |k: E| m[&k];
                        rebuild(x, g)
                    }
                }
            };
            let r = self.vals.get(&r).copied().unwrap_or(r);
            m.insert(x, r);
            st.pop();
        }
        m[&e]
    }
}

pub fn rebuild(x: E, g: impl Fn(E) -> E) -> E {
    match node(x) {
        N::Concat(p) => concat(&p.iter().map(|k| g(*k)).collect::<Vec<_>>()),
        N::Extract(a, lo) => extract(g(*a), *lo, w(x)),
        N::Bin(o, a, b) => bin(*o, g(*a), g(*b)),
        N::Not(a) => not(g(*a)),
        N::SExt(a) => sext(g(*a), w(x)),
        N::Ite(c, a, b) => ite(g(*c), g(*a), g(*b)),
        N::Const(_) | N::Var(_) | N::Sha(_) => x,
    }
}
/// The expression a constraint gives a value to, and that value.
pub fn keyed(c: E) -> (E, E) {
    match node(c) {
        N::Bin(Eq, a, b) if is_const(*b) => (*a, *b),
        N::Bin(Eq, a, b) if is_const(*a) => (*b, *a),
        N::Not(a) => (*a, ff()),
        _ => (c, tt()),
    }
}
impl Fixed {
    /// A constraint simplified by what is known about strict parts of the
    /// expression it determines; so no constraint is ever used to justify
    /// dropping itself, directly or in a circle.
    pub fn constraint(&self, c: E) -> E {
        if self.vals.is_empty() || self.miss(c) {
            return c;
        }
        let (k, v) = keyed(c);
        let r = rebuild(k, |x| self.apply(x));
        if r == k {
            return c;
        }
        if w(k) == 1 {
            if v == tt() {
                r
            } else {
                not(r)
            }
        } else {
            eq(r, v)
        }
    }
}

// ------------------------------------------------------------------ models
#[derive(Default)]
pub struct Model {
    pub vals: HashMap<u32, Bv>,
    pub shas: HashMap<Vec<u8>, Bv>,
    cache: RefCell<HashMap<E, Bv>>,
}
impl Model {
    pub fn eval(&self, e: E) -> Bv {
        if let N::Const(b) = node(e) {
            return b.clone();
        }
        let mut c = self.cache.borrow_mut();
        let mut st = vec![e];
        while let Some(&x) = st.last() {
            if c.contains_key(&x) {
                st.pop();
                continue;
            }
            let n = node(x);
            // lazily: only the taken arm of an ite
            if let N::Ite(p, a, b) = n {
                match Self::get(&c, *p) {
                    None => st.push(*p),
                    Some(v) => {
                        let t = if v.is_zero() { *b } else { *a };
                        match Self::get(&c, t) {
                            None => st.push(t),
                            Some(v) => {
                                c.insert(x, v);
                                st.pop();
                            }
                        }
                    }
                }
                continue;
            }
            let mut miss = false;
            for k in kids(x) {
                if Self::get(&c, k).is_none() {
                    st.push(k);
                    miss = true;
                }
            }
            if miss {
                continue;
            }
            let g = |k: E| Self::get(&c, k).unwrap();
            let v = match n {
                N::Var(i) => self.vals.get(i).cloned().unwrap_or_else(|| Bv::zero(w(x))),
                N::Sha(a) => {
                    let m = g(*a).to_be();
                    match self.shas.get(&m) {
                        Some(d) => d.clone(),
                        None => Bv::from_be(&sha256(&m)),
                    }
                }
                n => Self::step(n, x, &g),
            };
            c.insert(x, v);
            st.pop();
        }
        c[&e].clone()
    }
    /// value of one node from those of its operands
    #[inline]
    pub fn step(n: &N, x: E, g: &impl Fn(E) -> Bv) -> Bv {
        match n {
            N::Const(b) => b.clone(),
            N::Concat(p) => {
                let mut r = g(p[0]);
                for y in &p[1..] {
                    r = r.concat(&g(*y));
                }
                r
            }
            N::Extract(a, lo) => g(*a).extract(lo + w(x) - 1, *lo),
            N::Bin(o, a, b) => fold(*o, &g(*a), &g(*b)),
            N::Not(a) => g(*a).not(),
            N::SExt(a) => g(*a).sext(w(x)),
            N::Ite(p, a, b) => {
                if g(*p).is_zero() {
                    g(*b)
                } else {
                    g(*a)
                }
            }
            N::Var(_) => Bv::zero(w(x)),
            N::Sha(a) => Bv::from_be(&sha256(&g(*a).to_be())),
        }
    }
    fn get(c: &HashMap<E, Bv>, k: E) -> Option<Bv> {
        if let N::Const(b) = node(k) {
            return Some(b.clone());
        }
        c.get(&k).cloned()
    }
    pub fn holds(&self, e: E) -> bool {
        !self.eval(e).is_zero()
    }
    pub fn with(&self, vals: HashMap<u32, Bv>, shas: Option<HashMap<Vec<u8>, Bv>>) -> Model {
        let mut v = self.vals.clone();
        v.extend(vals);
        Model { vals: v, shas: shas.unwrap_or_else(|| self.shas.clone()), cache: Default::default() }
    }
}
