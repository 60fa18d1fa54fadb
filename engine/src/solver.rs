//! SMT solver processes (SMT-LIB over pipes) and query construction.
use crate::bv::Bv;
use crate::expr::*;
use crate::fx::{HashMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::mpsc;
use std::rc::Rc;
use std::time::{Duration, Instant};

pub enum Ans {
    Unsat,
    Sat(HashMap<u32, Bv>, HashMap<Vec<u8>, Bv>),
    Unknown(String),
}
pub struct Proc {
    child: Child,
    inp: ChildStdin,
    out: mpsc::Receiver<String>,
    defined: HashSet<E>,
    kind: String,
}
impl Proc {
    fn start(kind: &str) -> Proc {
        let (prog, args): (&str, Vec<&str>) = match kind {
            "z3" => ("z3", vec!["-in", "-smt2"]),
            "z3-new" => ("z3-new", vec!["-in", "-smt2"]),
            "cvc5" => ("cvc5", vec!["--lang=smt2", "--incremental", "--produce-models", "--bv-print-consts-as-indexed-symbols=false"]),
            _ => panic!("unknown solver {}", kind),
        };
        let args: Vec<&str> = args.into_iter().filter(|a| !a.starts_with("--bv-print")).collect();
        let mut child = Command::new(prog)
            .args(&args)
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("solver");
        let inp = child.stdin.take().unwrap();
        let so: ChildStdout = child.stdout.take().unwrap();
        let (tx, rx) = mpsc::channel();
        std::thread::spawn(move || {
            let mut r = BufReader::with_capacity(1 << 16, so);
            loop {
                let mut l = String::new();
                match r.read_line(&mut l) {
                    Ok(0) | Err(_) => break,
                    Ok(_) => {
                        if tx.send(l).is_err() {
                            break;
                        }
                    }
                }
            }
        });
        let mut p = Proc { child, inp, out: rx, defined: HashSet::default(), kind: kind.into() };
        let _ = p.inp.write_all(b"(set-option :global-declarations true)\n(set-option :produce-models true)\n");
        if kind == "cvc5" {
            let _ = p.inp.write_all(b"(set-logic QF_BV)\n");
        }
        p
    }
    fn kill(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
impl Drop for Proc {
    fn drop(&mut self) {
        self.kill();
    }
}

#[derive(Default)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cached: u64,
    pub brute: u64,
    pub time: f64,
    pub max: f64,
    pub second: u64,
    pub rechecked: u64,
}
pub struct Solver {
    digest_vars: HashMap<E, E>,
    own_vars: HashSet<u32>,
    plainer: HashMap<E, E>,
    learned: HashSet<(E, E)>,
    kinds: Vec<String>,
    procs: HashMap<String, Proc>,
    pub stats: Stats,
    tables: Tables,
    folds: HashMap<Vec<E>, E>,
    cache: HashMap<Vec<E>, Option<(HashMap<u32, Bv>, HashMap<Vec<u8>, Bv>)>>,
    timeout: f64,
    /// every unsat answer is put to a second solver as well
    /// every query goes to the SMT solver
    pub plain: bool,
    /// so many verdicts of the byte-domain procedure are put to the SMT solver too
    pub recheck: u64,
    pub mismatch: Vec<String>,
    pub double: Option<String>,
    pub dump: Option<String>,
}

fn name(e: E) -> String {
    match node(e) {
        N::Const(b) => {
            if b.w == 1 {
                if b.is_zero() { "false".into() } else { "true".into() }
            } else {
                b.smt()
            }
        }
        _ => format!("n{}", e),
    }
}
/// as a bit vector even when one bit wide
fn bvname(e: E) -> String {
    if w(e) == 1 {
        match node(e) {
            N::Const(b) => if b.is_zero() { "#b0".into() } else { "#b1".into() },
            _ => format!("(ite n{} #b1 #b0)", e),
        }
    } else {
        name(e)
    }
}
fn sort(k: u32) -> String {
    if k == 1 {
        "Bool".into()
    } else {
        format!("(_ BitVec {})", k)
    }
}
fn def(e: E) -> String {
    let k = w(e);
    let body = match node(e) {
        N::Const(_) => return String::new(),
        N::Var(_) | N::Sha(_) => return format!("(declare-const n{} {})\n", e, sort(k)),
        N::Concat(p) => {
            // binary nesting keeps both solvers' parsers happy
            let mut s = bvname(p[0]);
            for x in &p[1..] {
                s = format!("(concat {} {})", s, bvname(*x));
            }
            s
        }
        N::Extract(a, lo) => {
            let x = format!("((_ extract {} {}) {})", lo + k - 1, lo, bvname(*a));
            if k == 1 {
                format!("(= {} #b1)", x)
            } else {
                x
            }
        }
        N::Not(a) => {
            if k == 1 {
                format!("(not {})", name(*a))
            } else {
                format!("(bvnot {})", name(*a))
            }
        }
        N::Ite(c, a, b) => format!("(ite {} {} {})", name(*c), name(*a), name(*b)),
        N::SExt(a) => format!("((_ sign_extend {}) {})", k - w(*a), bvname(*a)),
        N::Bin(o, a, b) => {
            let wa = w(*a);
            let s = match o {
                Op::Add => "bvadd",
                Op::Sub => "bvsub",
                Op::Mul => "bvmul",
                Op::UDiv => "bvudiv",
                Op::URem => "bvurem",
                Op::SDiv => "bvsdiv",
                Op::SRem => "bvsrem",
                Op::And => if wa == 1 { "and" } else { "bvand" },
                Op::Or => if wa == 1 { "or" } else { "bvor" },
                Op::Xor => if wa == 1 { "xor" } else { "bvxor" },
                Op::Shl => "bvshl",
                Op::LShr => "bvlshr",
                Op::AShr => "bvashr",
                Op::Eq => "=",
                Op::Ult => "bvult",
                Op::Slt => "bvslt",
            };
            if wa == 1 && !matches!(o, Op::And | Op::Or | Op::Xor | Op::Eq) {
                let t = format!("({} {} {})", s, bvname(*a), bvname(*b));
                if matches!(o, Op::Ult | Op::Slt) {
                    t
                } else {
                    format!("(= {} #b1)", t)
                }
            } else {
                format!("({} {} {})", s, name(*a), name(*b))
            }
        }
    };
    format!("(define-fun n{} () {} {})\n", e, sort(k), body)
}
fn order(roots: &[E]) -> Vec<E> {
    let mut seen: HashSet<E> = HashSet::default();
    let mut out = vec![];
    let mut st: Vec<(E, bool)> = roots.iter().map(|e| (*e, false)).collect();
    while let Some((e, done)) = st.pop() {
        if done {
            out.push(e);
            continue;
        }
        if !seen.insert(e) {
            continue;
        }
        st.push((e, true));
        for k in kids(e) {
            if !seen.contains(&k) {
                st.push((k, false));
            }
        }
    }
    out
}
/// constraints grouped by shared variables
fn components(key: &[E]) -> Vec<Vec<E>> {
    let mut of: HashMap<u32, usize> = HashMap::default();
    let mut up: Vec<usize> = vec![];
    fn find(up: &mut Vec<usize>, mut i: usize) -> usize {
        while up[i] != i {
            up[i] = up[up[i]];
            i = up[i];
        }
        i
    }
    for (i, c) in key.iter().enumerate() {
        up.push(i);
        for v in support(*c).iter() {
            match of.get(v) {
                None => {
                    of.insert(*v, i);
                }
                Some(j) => {
                    let (a, b) = (find(&mut up, *j), find(&mut up, i));
                    up[a] = b;
                }
            }
        }
    }
    let mut out: Vec<Vec<E>> = vec![];
    let mut at: HashMap<usize, usize> = HashMap::default();
    for (i, c) in key.iter().enumerate() {
        let r = find(&mut up, i);
        let k = *at.entry(r).or_insert_with(|| {
            out.push(vec![]);
            out.len() - 1
        });
        out[k].push(*c);
    }
    out
}
fn small(v: u32) -> bool {
    v != SHA_VAR && cx().var_w[v as usize] <= 8
}
/// Values of expressions over one small variable, by the value of that variable.
#[derive(Default)]
struct Tables {
    nodes: HashMap<E, Rc<[u64]>>,
    truth: HashMap<E, [u64; 4]>,
}
impl Tables {
    fn truth(&mut self, c: E, v: u32) -> [u64; 4] {
        if let Some(t) = self.truth.get(&c) {
            return *t;
        }
        let t = match self.values(c, v) {
            Some(t) => {
                let mut o = [0u64; 4];
                for (x, r) in t.iter().enumerate() {
                    o[x / 64] |= (*r & 1) << (x % 64);
                }
                o
            }
            None => table(c, v),
        };
        self.truth.insert(c, t);
        t
    }
    /// None if a part is wider than a machine word
    fn values(&mut self, e: E, v: u32) -> Option<Rc<[u64]>> {
        if self.nodes.len() > 200_000 {
            self.nodes.clear();
        }
        let n = 1usize << cx().var_w[v as usize];
        let ord = order(&[e]);
        if ord.iter().any(|x| w(*x) > 64) {
            return None;
        }
        for x in ord {
            if self.nodes.contains_key(&x) {
                continue;
            }
            let k = w(x);
            let m = |y: u64| if k >= 64 { y } else { y & ((1u64 << k) - 1) };
            let g = |a: E| self.nodes[&a].clone();
            let sx = |y: u64, k: u32| ((y << (64 - k)) as i64) >> (64 - k);
            let r: Rc<[u64]> = match node(x) {
                N::Const(b) => vec![b.low(); n].into(),
                N::Var(_) => (0..n as u64).collect(),
                N::Concat(p) => {
                    let mut o = vec![0u64; n];
                    for y in p.iter() {
                        let (t, s) = (g(*y), w(*y));
                        for i in 0..n {
                            o[i] = if s >= 64 { t[i] } else { (o[i] << s) | t[i] };
                        }
                    }
                    o.into()
                }
                N::Extract(a, lo) => g(*a).iter().map(|y| m(*y >> *lo)).collect(),
                N::Not(a) => g(*a).iter().map(|y| m(!*y)).collect(),
                N::SExt(a) => {
                    let s = w(*a);
                    g(*a).iter().map(|y| m(sx(*y, s) as u64)).collect()
                }
                N::Ite(c, a, b) => {
                    let (c, a, b) = (g(*c), g(*a), g(*b));
                    (0..n).map(|i| if c[i] != 0 { a[i] } else { b[i] }).collect()
                }
                N::Bin(o, a, b) => {
                    let ka = w(*a);
                    let (a, b) = (g(*a), g(*b));
                    let f = |f: &dyn Fn(u64, u64) -> u64| -> Rc<[u64]> { (0..n).map(|i| m(f(a[i], b[i]))).collect() };
                    match o {
                        Op::Add => f(&|x, y| x.wrapping_add(y)),
                        Op::Sub => f(&|x, y| x.wrapping_sub(y)),
                        Op::Mul => f(&|x, y| x.wrapping_mul(y)),
                        Op::And => f(&|x, y| x & y),
                        Op::Or => f(&|x, y| x | y),
                        Op::Xor => f(&|x, y| x ^ y),
                        Op::Eq => f(&|x, y| (x == y) as u64),
                        Op::Ult => f(&|x, y| (x < y) as u64),
                        Op::Slt => f(&|x, y| (sx(x, ka) < sx(y, ka)) as u64),
                        _ => f(&|x, y| fold(*o, &Bv::u(ka, x), &Bv::u(ka, y)).low()),
                    }
                }
                N::Sha(_) => return None,
            };
            self.nodes.insert(x, r);
        }
        Some(self.nodes[&e].clone())
    }
}
/// truth of a condition for each value of the one small variable in it
fn table(c: E, v: u32) -> [u64; 4] {
    let wv = cx().var_w[v as usize];
    let ord = order(&[c]);
    let mut pos: HashMap<E, usize> = HashMap::default();
    for (i, e) in ord.iter().enumerate() {
        pos.insert(*e, i);
    }
    let mut out = [0u64; 4];
    let mut vals: Vec<Bv> = Vec::with_capacity(ord.len());
    for x in 0..(1usize << wv) {
        vals.clear();
        for e in &ord {
            let r = match node(*e) {
                N::Var(i) if *i == v => Bv::u(wv, x as u64),
                n => Model::step(n, *e, &|k: E| vals[pos[&k]].clone()),
            };
            vals.push(r);
        }
        if !vals.last().unwrap().is_zero() {
            out[x / 64] |= 1 << (x % 64);
        }
    }
    out
}
fn parse_values(s: &str) -> HashMap<E, Bv> {
    // ((n1 #x00) (n2 true) ...)
    let mut m = HashMap::default();
    let t: Vec<&str> = s
        .split(|c: char| c == '(' || c == ')' || c.is_whitespace())
        .filter(|x| !x.is_empty())
        .collect();
    let mut i = 0;
    while i + 1 < t.len() {
        if let Some(id) = t[i].strip_prefix('n').and_then(|x| x.parse::<E>().ok()) {
            let v = t[i + 1];
            let b = if v == "true" {
                Bv::u(1, 1)
            } else if v == "false" {
                Bv::u(1, 0)
            } else if let Some(h) = v.strip_prefix("#x") {
                let mut b = Bv::zero(h.len() as u32 * 4);
                for (j, c) in h.chars().rev().enumerate() {
                    b.v[j / 16] |= (c.to_digit(16).unwrap() as u64) << (4 * (j % 16));
                }
                b
            } else if let Some(h) = v.strip_prefix("#b") {
                let mut b = Bv::zero(h.len() as u32);
                for (j, c) in h.chars().rev().enumerate() {
                    b.v[j / 64] |= ((c == '1') as u64) << (j % 64);
                }
                b
            } else {
                i += 1;
                continue;
            };
            m.insert(id, b);
            i += 2;
        } else {
            i += 1;
        }
    }
    m
}

impl Solver {
    pub fn new(kinds: &[String], timeout: f64) -> Solver {
        Solver {
            kinds: kinds.to_vec(),
            procs: HashMap::default(),
            stats: Stats::default(),
            tables: Tables::default(),
            folds: HashMap::default(),
            cache: HashMap::default(),
            timeout,
            double: None,
            plain: false,
            recheck: 0,
            mismatch: vec![],
            digest_vars: HashMap::default(),
            own_vars: HashSet::default(),
            plainer: HashMap::default(),
            learned: HashSet::default(),
            dump: None,
        }
    }
    /// Satisfiability of the conjunction; a model covers the variables in it.
    pub fn check(&mut self, cs: &[E]) -> Ans {
        let mut key: Vec<E> = cs.iter().copied().filter(|c| *c != tt()).collect();
        key.sort_unstable();
        key.dedup();
        if key.contains(&ff()) {
            return Ans::Unsat;
        }
        if let Some(r) = self.cache.get(&key) {
            self.stats.cached += 1;
            return match r {
                None => Ans::Unsat,
                Some((a, b)) => Ans::Sat(a.clone(), b.clone()),
            };
        }
        if self.plain {
            return self.ask(key);
        }
        if key.iter().any(|c| support(*c).contains(&SHA_VAR)) {
            return self.lazily(key);
        }
        let recheck = self.recheck > 0;
        if recheck {
            self.recheck -= 1;
            let n = self.stats.queries;
            let r = std::mem::replace(&mut self.recheck, 0);
            let a = self.decide(key.clone());
            self.recheck = r;
            if self.stats.queries == n {
                // no part of this verdict came from the SMT solver
                self.stats.rechecked += 1;
                let b = self.confirm(&key);
                if matches!((&a, &b), (Ans::Sat(..), Some(Ans::Unsat)) | (Ans::Unsat, Some(Ans::Sat(..)))) {
                    self.mismatch.push("the byte-domain procedure and the SMT solver disagree".into());
                }
            } else {
                self.recheck += 1;
            }
            return a;
        }
        self.decide(key)
    }
    /// the bytes that stand for a digest
    fn stand_in(&mut self, x: E) -> E {
        if let Some(d) = self.digest_vars.get(&x) {
            return *d;
        }
        let v: Vec<E> = (0..32).map(|i| var(format!("digest {}.{}", x, i), 8)).collect();
        for e in &v {
            if let N::Var(i) = node(*e) {
                self.own_vars.insert(*i);
            }
        }
        let d = concat(&v);
        self.digest_vars.insert(x, d);
        d
    }
    fn without_digests(&mut self, e: E) -> E {
        let mut st = vec![e];
        while let Some(&x) = st.last() {
            if self.plainer.contains_key(&x) {
                st.pop();
                continue;
            }
            let r = if !support(x).contains(&SHA_VAR) {
                x
            } else if let N::Sha(_) = node(x) {
                self.stand_in(x)
            } else {
                let ks = kids(x);
                let miss: Vec<E> = ks.iter().copied().filter(|k| !self.plainer.contains_key(k)).collect();
                if !miss.is_empty() {
                    st.extend(miss);
                    continue;
                }
                rebuild(x, |k| self.plainer[&k])
            };
            self.plainer.insert(x, r);
            st.pop();
        }
        self.plainer[&e]
    }
    /// Digests as free bytes; that SHA-256 is a function without collisions is
    /// added pair by pair where a model breaks it.
    fn lazily(&mut self, key: Vec<E>) -> Ans {
        let apps: Vec<E> = order(&key).into_iter().filter(|e| matches!(node(*e), N::Sha(_))).collect();
        let msg = |e: E| match node(e) {
            N::Sha(m) => *m,
            _ => unreachable!(),
        };
        let mut ms = vec![];
        let mut ds = vec![];
        for a in &apps {
            ms.push(self.without_digests(msg(*a)));
            ds.push(self.stand_in(*a));
        }
        let mut q: Vec<E> = vec![];
        for c in &key {
            let r = self.without_digests(*c);
            q.push(r);
        }
        let same = |a: E, b: E, d: E, e: E| {
            let l = if w(a) == w(b) { eq(a, b) } else { ff() };
            eq(l, eq(d, e))
        };
        for i in 0..apps.len() {
            for j in 0..i {
                if self.learned.contains(&(apps[i], apps[j])) {
                    q.push(same(ms[i], ms[j], ds[i], ds[j]));
                }
            }
        }
        for _ in 0..16 {
            let (mut vals, _) = match self.check(&q) {
                Ans::Unsat => {
                    self.cache.insert(key, None);
                    return Ans::Unsat;
                }
                Ans::Sat(v, t) => (v, t),
                a => return a,
            };
            // what the query leaves open
            let mut seed = 0x9e3779b97f4a7c15u64;
            for x in ms.iter().chain(ds.iter()) {
                for v in support(*x).iter() {
                    let wv = cx().var_w[*v as usize];
                    vals.entry(*v).or_insert_with(|| {
                        seed = (seed ^ (*v as u64 + 1)).wrapping_mul(0xbf58476d1ce4e5b9);
                        seed ^= seed >> 29;
                        if wv <= 64 {
                            Bv::u(wv, if wv == 64 { seed } else { (seed >> 7) & ((1 << wv) - 1) })
                        } else {
                            Bv::zero(wv)
                        }
                    });
                }
            }
            let mo = Model::default().with(vals.clone(), None);
            let mv: Vec<Vec<u8>> = ms.iter().map(|m| mo.eval(*m).to_be()).collect();
            let dv: Vec<Vec<u8>> = ds.iter().map(|d| mo.eval(*d).to_be()).collect();
            let n = q.len();
            for i in 0..apps.len() {
                for j in 0..i {
                    if (mv[i] == mv[j]) != (dv[i] == dv[j]) {
                        self.learned.insert((apps[i], apps[j]));
                        q.push(same(ms[i], ms[j], ds[i], ds[j]));
                    }
                }
                // digests that were computed for real
                let mut k = [0u8; 32];
                k.copy_from_slice(&dv[i]);
                let known = cx().digests.get(&k).map(|m| m.to_vec());
                let real = crate::bv::sha256(&mv[i]);
                let mut wrong = vec![];
                if let Some(m) = known {
                    if m != mv[i] {
                        wrong.push((m, k));
                    }
                }
                if real != k && cx().digests.get(&real).map_or(false, |m| **m == mv[i]) {
                    wrong.push((mv[i].clone(), real));
                }
                for (m, d) in wrong {
                    let l = if m.len() as u32 * 8 == w(ms[i]) { eq(ms[i], kb(Bv::from_be(&m))) } else { ff() };
                    q.push(eq(l, eq(ds[i], kb(Bv::from_be(&d)))));
                }
            }
            if q.len() == n {
                let own = &self.own_vars;
                vals.retain(|v, _| !own.contains(v));
                let tab: HashMap<Vec<u8>, Bv> = mv.into_iter().zip(dv.iter().map(|d| Bv::from_be(d))).collect();
                let mo = Model::default().with(vals.clone(), Some(tab.clone()));
                for c in &key {
                    if !mo.holds(*c) {
                        return Ans::Unknown("model does not satisfy the query".into());
                    }
                }
                self.cache.insert(key, Some((vals.clone(), tab.clone())));
                return Ans::Sat(vals, tab);
            }
        }
        self.ask(key)
    }
    /// the SMT solver's verdict, nothing cached
    pub fn ask_all(&mut self, key: &[E]) -> Ans {
        let mut k: Vec<E> = key.iter().copied().filter(|c| *c != tt()).collect();
        k.sort_unstable();
        k.dedup();
        let old = self.cache.get(&k).cloned();
        let a = self.ask(k.clone());
        if let Some(o) = old {
            self.cache.insert(k, o);
        }
        a
    }
    /// A second look at what was already decided, if it is small enough;
    /// no answer is no harm.
    pub fn confirm(&mut self, key: &[E]) -> Option<Ans> {
        let shas = order(key).iter().filter(|e| matches!(node(**e), N::Sha(_))).count();
        if shas > 60 {
            return None;
        }
        let (t, u, k, d) = (self.timeout, self.stats.unknown, self.kinds.clone(), self.double.take());
        self.timeout = t.min(20.0);
        self.kinds.truncate(1);
        let a = self.ask_all(key);
        self.timeout = t;
        self.stats.unknown = u;
        self.kinds = k;
        self.double = d;
        Some(a)
    }
    fn decide(&mut self, key: Vec<E>) -> Ans {
        // one byte of input: try all its values
        let mut vars: Vec<u32> = key.iter().flat_map(|c| support(*c).to_vec()).collect();
        vars.sort_unstable();
        vars.dedup();
        if vars.len() == 1 && small(vars[0]) {
            self.stats.brute += 1;
            let r = self.values(vars[0], &key);
            let m = r.first().map(|x| {
                let mut m = HashMap::default();
                m.insert(vars[0], Bv::u(cx().var_w[vars[0] as usize], *x));
                m
            });
            self.cache.insert(key, m.clone().map(|m| (m, HashMap::default())));
            return match m {
                Some(m) => Ans::Sat(m, HashMap::default()),
                None => Ans::Unsat,
            };
        }
        let k2 = self.fold_bytes(&key);
        let parts = if k2.iter().any(|c| support(*c).contains(&SHA_VAR)) { vec![] } else { components(&k2) };
        if k2 != key || parts.len() > 1 {
            let parts = if parts.len() > 1 { parts } else { vec![k2] };
            let mut m = HashMap::default();
            let mut t = HashMap::default();
            for p in parts {
                match self.check(&p) {
                    Ans::Unsat => {
                        self.cache.insert(key, None);
                        return Ans::Unsat;
                    }
                    Ans::Sat(x, y) => {
                        m.extend(x);
                        t.extend(y);
                    }
                    a => return a,
                }
            }
            self.cache.insert(key, Some((m.clone(), t.clone())));
            return Ans::Sat(m, t);
        }
        self.ask(key)
    }
    fn ask(&mut self, key: Vec<E>) -> Ans {
        let t0 = Instant::now();
        let mut last = String::new();
        for (i, k) in self.kinds.clone().iter().enumerate() {
            if i > 0 {
                self.stats.second += 1;
            }
            match self.run(k, &key) {
                Ans::Unknown(s) => last = format!("{} {}: {}", last, k, s),
                mut a => {
                    let d = t0.elapsed().as_secs_f64();
                    self.stats.queries += 1;
                    self.stats.time += d;
                    self.stats.max = self.stats.max.max(d);
                    match &a {
                        Ans::Unsat => {
                            self.stats.unsat += 1;
                            if let Some(s) = self.double.clone() {
                                if s != *k {
                                    self.stats.second += 1;
                                    if let Ans::Sat(..) = self.run(&s, &key) {
                                        a = Ans::Unknown(format!("{} and {} disagree", k, s));
                                        return a;
                                    }
                                }
                            }
                            self.cache.insert(key, None);
                        }
                        Ans::Sat(x, y) => {
                            self.stats.sat += 1;
                            self.cache.insert(key, Some((x.clone(), y.clone())));
                        }
                        _ => unreachable!(),
                    }
                    return a;
                }
            }
        }
        self.stats.unknown += 1;
        Ans::Unknown(last)
    }
    /// the values of a small variable under constraints on it alone
    fn values(&mut self, v: u32, key: &[E]) -> Vec<u64> {
        let wv = cx().var_w[v as usize];
        let mut m = [!0u64; 4];
        for c in key {
            let t = self.tables.truth(*c, v);
            for i in 0..4 {
                m[i] &= t[i];
            }
        }
        (0..(1u64 << wv)).filter(|x| m[(*x / 64) as usize] >> (x % 64) & 1 == 1).collect()
    }
    /// Replaces parts that depend on one small variable and have one value
    /// under the constraints on that variable.
    fn fold_bytes(&mut self, key: &[E]) -> Vec<E> {
        let mut single: HashMap<u32, Vec<E>> = HashMap::default();
        let mut multi = vec![];
        let mut out = vec![];
        for c in key {
            let s = support(*c);
            if s.len() == 1 && small(s[0]) {
                single.entry(s[0]).or_default().push(*c);
                out.push(*c);
            } else {
                multi.push(*c);
            }
        }
        for (v, cs) in &single {
            if self.values(*v, cs).is_empty() {
                return vec![ff()];
            }
        }
        if multi.is_empty() || multi.iter().any(|c| support(*c).len() > 64) {
            return key.to_vec();
        }
        let mut memo: HashMap<E, E> = HashMap::default();
        for c in multi {
            let mut st = vec![c];
            while let Some(&x) = st.last() {
                if memo.contains_key(&x) {
                    st.pop();
                    continue;
                }
                let s = support(x);
                let r = if s.is_empty() || matches!(node(x), N::Var(_) | N::Sha(_)) {
                    x
                } else if s.len() == 1 && small(s[0]) {
                    match single.get(&s[0]) {
                        None => x,
                        Some(cs) => {
                            let cs = cs.clone();
                            self.fold1(x, s[0], &cs)
                        }
                    }
                } else {
                    let ks = kids(x);
                    let miss: Vec<E> = ks.iter().copied().filter(|k| !memo.contains_key(k)).collect();
                    if !miss.is_empty() {
                        st.extend(miss);
                        continue;
                    }
                    let r = if ks.iter().all(|k| memo[k] == *k) {
                        x
                    } else {
                        rebuild(x, |k| memo[&k])
                    };
                    self.fold_eq(r, &single)
                };
                memo.insert(x, r);
                st.pop();
            }
            out.push(memo[&c]);
        }
        out.retain(|c| *c != tt());
        out.sort_unstable();
        out.dedup();
        out
    }
    /// (parts = constant) with each part of one variable decided on its own
    fn fold_eq(&mut self, x: E, single: &HashMap<u32, Vec<E>>) -> E {
        let (a, k) = match node(x) {
            N::Bin(Op::Eq, a, b) if is_const(*b) => (*a, *b),
            N::Bin(Op::Eq, a, b) if is_const(*a) => (*b, *a),
            _ => return x,
        };
        let p = match node(a) {
            N::Concat(p) => p,
            _ => return x,
        };
        let mut lo = w(a);
        let mut left = vec![];
        let mut changed = false;
        for part in p.iter() {
            lo -= w(*part);
            let want = extract(k, lo, w(*part));
            let mut c = eq(*part, want);
            let s = support(c);
            if s.len() == 1 && small(s[0]) {
                if let Some(cs) = single.get(&s[0]) {
                    c = self.fold1(c, s[0], &cs.clone());
                }
            }
            if c == ff() {
                return ff();
            }
            if c == tt() {
                changed = true;
            } else {
                left.push((*part, want));
            }
        }
        if !changed {
            return x;
        }
        if left.is_empty() {
            return tt();
        }
        let l: Vec<E> = left.iter().map(|t| t.0).collect();
        let r: Vec<E> = left.iter().map(|t| t.1).collect();
        eq(concat(&l), concat(&r))
    }
    fn fold1(&mut self, x: E, v: u32, cs: &[E]) -> E {
        let mut k: Vec<E> = cs.to_vec();
        k.push(x);
        if let Some(r) = self.folds.get(&k) {
            return *r;
        }
        let set = self.values(v, cs);
        let mut one: Option<Bv> = None;
        let mut same = true;
        if let Some(t) = self.tables.values(x, v) {
            let f = set.first().map(|a| t[*a as usize]);
            if let Some(f) = f {
                one = Some(Bv::u(w(x), f));
                same = set.iter().all(|a| t[*a as usize] == f);
            }
        } else {
            same = false;
        }
        let r = match one {
            Some(b) if same => kb(b),
            _ => x,
        };
        self.folds.insert(k, r);
        r
    }
    fn run(&mut self, kind: &str, key: &[E]) -> Ans {
        let timeout = self.timeout;
        let ord = order(key);
        let shas: Vec<E> = ord.iter().copied().filter(|e| matches!(node(*e), N::Sha(_))).collect();
        let msg = |e: E| match node(e) {
            N::Sha(m) => *m,
            _ => unreachable!(),
        };
        // SHA-256 is a function without collisions
        let mut ax: Vec<(E, String)> = vec![]; // (equality of messages, equality of digests)
        for i in 0..shas.len() {
            for j in 0..i {
                let (a, b) = (msg(shas[i]), msg(shas[j]));
                let t = if w(a) == w(b) { eq(a, b) } else { ff() };
                ax.push((t, format!("(= n{} n{})", shas[i], shas[j])));
            }
            for e in &ord {
                if let N::Const(d) = node(*e) {
                    if d.w == 256 {
                        let mut k = [0u8; 32];
                        k.copy_from_slice(&d.to_be());
                        if cx().digests.contains_key(&k) {
                            ax.push((eq(shas[i], *e), format!("(= n{} {})", shas[i], d.smt())));
                        }
                    }
                }
            }
        }
        let mut roots = key.to_vec();
        roots.extend(ax.iter().map(|a| a.0));
        let ord = order(&roots);
        if !self.procs.contains_key(kind) {
            self.procs.insert(kind.to_string(), Proc::start(kind));
        }
        let p = self.procs.get_mut(kind).unwrap();
        if p.defined.len() > 400_000 {
            p.kill();
            self.procs.insert(kind.to_string(), Proc::start(kind));
        }
        let p = self.procs.get_mut(kind).unwrap();
        let mut s = String::new();
        for e in &ord {
            if !is_const(*e) && p.defined.insert(*e) {
                s.push_str(&def(*e));
            }
        }
        s.push_str("(push 1)\n");
        for c in key {
            s.push_str(&format!("(assert {})\n", name(*c)));
        }
        for (e, d) in &ax {
            s.push_str(&format!("(assert (= {} {}))\n", name(*e), d));
        }
        let quick = p.kind == "z3-new" && ord.len() < 300 && shas.is_empty();
        if quick {
            s.push_str("(check-sat)\n");
        } else if p.kind.starts_with("z3") {
            s.push_str(&format!("(check-sat-using (try-for qfbv {}))\n", (timeout * 1000.0) as u64));
        } else {
            s.push_str("(check-sat)\n");
        }
        s.push_str("(echo \"@done\")\n");
        if let Some(d) = &self.dump {
            let mut t = String::new();
            for e in &ord {
                t.push_str(&def(*e));
            }
            t.push_str(&s[s.find("(push 1)").unwrap()..]);
            let _ = std::fs::write(format!("{}/q{}.smt2", d, self.stats.queries), t);
        }
        if p.inp.write_all(s.as_bytes()).and_then(|_| p.inp.flush()).is_err() {
            self.procs.remove(kind);
            return Ans::Unknown("solver died".into());
        }
        let r = Self::read(p, timeout + 20.0);
        let r = match r {
            Some(r) => r,
            None => {
                self.procs.remove(kind);
                return Ans::Unknown("timeout".into());
            }
        };
        let ans = r.trim();
        if ans.contains("error") {
            self.procs.remove(kind);
            return Ans::Unknown(format!("solver error {}", ans.chars().take(300).collect::<String>()));
        }
        if ans == "unsat" {
            let _ = p.inp.write_all(b"(pop 1)\n");
            return Ans::Unsat;
        }
        if ans != "sat" {
            let _ = p.inp.write_all(b"(pop 1)\n");
            return Ans::Unknown(ans.to_string());
        }
        let vs: Vec<E> =
            ord.iter().copied().filter(|e| matches!(node(*e), N::Var(_) | N::Sha(_))).collect();
        if vs.is_empty() {
            let _ = p.inp.write_all(b"(pop 1)\n");
            return Ans::Sat(HashMap::default(), HashMap::default());
        }
        let mut q = String::from("(get-value (");
        for v in &vs {
            q.push_str(&format!("n{} ", v));
        }
        q.push_str("))\n(echo \"@done\")\n(pop 1)\n");
        let _ = p.inp.write_all(q.as_bytes());
        let _ = p.inp.flush();
        let r = match Self::read(p, 60.0) {
            Some(r) => r,
            None => {
                self.procs.remove(kind);
                return Ans::Unknown("timeout in model".into());
            }
        };
        if r.contains("error") {
            self.procs.remove(kind);
            return Ans::Unknown(format!("model error {}", r.chars().take(300).collect::<String>()));
        }
        let m = parse_values(&r);
        let mut vals = HashMap::default();
        for e in &vs {
            if let N::Var(i) = node(*e) {
                vals.insert(*i, m.get(e).cloned().unwrap_or_else(|| Bv::zero(w(*e))));
            }
        }
        // digests chosen by the solver, by message; inner applications first
        let mut tab: HashMap<Vec<u8>, Bv> = HashMap::default();
        for e in &vs {
            if let N::Sha(mm) = node(*e) {
                let mo = Model::default().with(vals.clone(), Some(tab.clone()));
                let b = mo.eval(*mm).to_be();
                if let Some(d) = m.get(e) {
                    tab.insert(b, d.clone());
                }
            }
        }
        let mo = Model::default().with(vals.clone(), Some(tab.clone()));
        for c in key {
            if !mo.holds(*c) {
                return Ans::Unknown("model does not satisfy the query".into());
            }
        }
        Ans::Sat(vals, tab)
    }
    fn read(p: &mut Proc, secs: f64) -> Option<String> {
        let end = Instant::now() + Duration::from_secs_f64(secs);
        let mut s = String::new();
        loop {
            let left = end.saturating_duration_since(Instant::now());
            match p.out.recv_timeout(left) {
                Ok(l) => {
                    if l.trim().trim_matches('"') == "@done" {
                        return Some(s);
                    }
                    s.push_str(&l);
                }
                Err(_) => return None,
            }
        }
    }
}
