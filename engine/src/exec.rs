//! Symbolic execution of LLVM IR by forking.
use crate::bv::Bv;
use crate::expr::*;
use crate::ir::*;
use crate::solver::{Ans, Solver};
use crate::vfs::Vfs;
use crate::fx::{HashMap, HashSet};
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum Val {
    C(u64),
    X(E),
    A(Rc<Vec<Val>>),
}
use Val::*;

pub fn mask(w: u32, v: u64) -> u64 {
    if w >= 64 {
        v
    } else {
        v & ((1u64 << w) - 1)
    }
}
fn sx(w: u32, v: u64) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        ((v << (64 - w)) as i64) >> (64 - w)
    }
}
pub fn norm(e: E) -> Val {
    if w(e) <= 64 {
        if let Some(v) = as_u64(e) {
            return C(v);
        }
    }
    X(e)
}
impl Val {
    pub fn e(&self, k: u32) -> E {
        match self {
            C(v) => konst(k, *v),
            X(e) => *e,
            A(_) => panic!("aggregate as scalar"),
        }
    }
}

#[derive(Clone)]
pub struct Obj {
    pub size: u64,
    pub data: Vec<u8>,
    pub sym: Option<Vec<E>>,
    pub ro: bool,
}
impl Obj {
    fn new(size: u64, ro: bool) -> Obj {
        Obj { size, data: vec![0; size as usize], sym: None, ro }
    }
    pub fn byte(&self, i: usize) -> E {
        if let Some(s) = &self.sym {
            if s[i] != 0 {
                return s[i];
            }
        }
        konst(8, self.data[i] as u64)
    }
    fn set(&mut self, i: usize, e: E) {
        match as_u64(e) {
            Some(v) => {
                self.data[i] = v as u8;
                if let Some(s) = &mut self.sym {
                    s[i] = 0;
                }
            }
            None => {
                let n = self.size as usize;
                self.sym.get_or_insert_with(|| vec![0; n])[i] = e;
            }
        }
    }
}
#[derive(Clone, Default)]
pub struct Mem {
    chunks: Vec<Rc<Vec<Option<Rc<Obj>>>>>,
    next: usize,
}
const CH: usize = 64;
impl Mem {
    fn push(&mut self, o: Obj) -> u64 {
        let id = self.next;
        self.next += 1;
        if id / CH >= self.chunks.len() {
            self.chunks.push(Rc::new(vec![None; CH]));
        }
        Rc::make_mut(&mut self.chunks[id / CH])[id % CH] = Some(Rc::new(o));
        (id as u64) << SHIFT
    }
    fn get(&self, id: usize) -> Option<&Rc<Obj>> {
        self.chunks.get(id / CH)?[id % CH].as_ref()
    }
    fn get_mut(&mut self, id: usize) -> Option<&mut Obj> {
        let c = Rc::make_mut(self.chunks.get_mut(id / CH)?);
        c[id % CH].as_mut().map(Rc::make_mut)
    }
    fn free(&mut self, id: usize) -> bool {
        if let Some(c) = self.chunks.get_mut(id / CH) {
            return Rc::make_mut(c)[id % CH].take().is_some();
        }
        false
    }
}
#[derive(Clone)]
pub struct Frame {
    f: Rc<Func>,
    fid: u32,
    blk: u32,
    idx: u32,
    regs: Vec<Val>,
    allocas: Vec<u32>,
    dst: u32,
    next: u32,
    marker: bool,
    spec: bool,
}
#[derive(Clone)]
pub enum Tr {
    Bytes(Vec<E>),
    Choice(u64),
    Note(Vec<E>),
}
#[derive(Clone)]
pub struct State {
    frames: Vec<Rc<Frame>>,
    pub mem: Mem,
    /// every path constraint as it arose
    pub pc: Vec<E>,
    /// the constraints left after replacing determined variables
    act: Vec<E>,
    fixed: Rc<Fixed>,
    known: Rc<HashSet<E>>,
    model: Rc<Model>,
    pub vfs: Rc<Vfs>,
    trace: Vec<(Rc<str>, Tr)>,
    names: Rc<BTreeMap<String, u32>>,
    forced: Option<u64>,
    spec: Option<Rc<(State, u64)>>,
    pub errno: u64,
    pub crash: bool,
    /// one file operation from here on may fail
    pub io: bool,
    pub io_failed: bool,
    steps: u64,
    depth: u32,
}
impl State {
    fn reduce(&self, v: Val) -> Val {
        match v {
            X(e) => norm(self.fixed.apply(e)),
            v => v,
        }
    }
}
pub enum Ctl {
    /// this path ends
    Kill,
    /// control was redirected (a throw, a restored snapshot)
    Jump,
    Fatal(String),
}
type X0<T> = Result<T, Ctl>;
pub fn fatal<T>(s: impl Into<String>) -> X0<T> {
    Err(Ctl::Fatal(s.into()))
}
pub type Trace = Vec<(String, String, Vec<u8>, u64)>;
pub type Digests = Vec<(Vec<u8>, Vec<u8>)>;
pub struct Violation {
    pub label: String,
    pub detail: String,
    pub stack: Vec<String>,
    pub trace: Vec<(String, String, Vec<u8>, u64)>, // name, kind, bytes, choice
    pub sha: Vec<(Vec<u8>, Vec<u8>)>,
}
pub struct Engine {
    pub m: Module,
    pub solver: Solver,
    funcs: HashMap<u32, Rc<Func>>,
    kind: Vec<Option<Ext>>, // intercepted functions
    work: Vec<State>,
    vars: HashMap<(String, u32), E>,
    pub executed: HashSet<u32>,
    pub covers: BTreeSet<String>,
    pub violations: Vec<Violation>,
    seen_labels: HashMap<String, u32>,
    pub paths: u64,
    pub killed: u64,
    pub steps: u64,
    pub forks: u64,
    pub asserts: u64,
    pub asserts_concrete: u64,
    pub problems: Vec<String>,
    pub max_paths: u64,
    pub want_samples: usize,
    pub samples: Vec<(Trace, Digests, Vec<E>)>,
    pub rng: u64,
    completed: u64,
    /// how long to go on after the first violation
    pub after_first: Option<std::time::Duration>,
    pub deadline: Instant,
    pub conc_limit: usize,
    pub step_limit: u64,
    pub verbose: bool,
    pub errno_addr: u64,
    pub scratch: u64,
    pub profile: HashMap<u32, u64>,
    pub fork_sites: HashMap<String, u64>,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ext {
    Panic,
    Abort,
    Format,
    Ret0,
    HashOne,
    Sym(u16),
    Libc,
    Intr,
}

impl Engine {
    pub fn new(m: Module, solver: Solver) -> Result<Engine, String> {
        let mut kind = vec![];
        for f in &m.fns {
            let p = f.pretty.as_str();
            let n = f.name.as_str();
            let k = if f.body.is_none() {
                if n.starts_with("llvm.") {
                    Some(Ext::Intr)
                } else if n.starts_with("__sym_") {
                    Some(Ext::Sym(match n {
                        "__sym_bytes" => 0,
                        "__sym_assume" => 1,
                        "__sym_assert" => 2,
                        "__sym_cover" => 3,
                        "__sym_sha256" => 4,
                        "__sym_choice" => 5,
                        "__sym_try" => 6,
                        "__sym_throw" => 7,
                        "__sym_native" => 8,
                        "__sym_note" => 9,
                        "__sym_crash_points" => 10,
                        "__sym_file_faults" => 12,
                        "__sym_root" => 11,
                        _ => 99,
                    }))
                } else {
                    Some(Ext::Libc)
                }
            } else if p == "core::panicking::panic_fmt"
                || p == "core::panicking::panic_nounwind_fmt"
                || n.contains("rust_begin_unwind")
                || n.ends_with("9panicking9panic_fmt")
                || n.ends_with("9panicking18panic_nounwind_fmt")
                || p.starts_with("std::panicking::begin_panic")
                || p.starts_with("std::panicking::rust_panic")
            {
                Some(Ext::Panic)
            } else if p == "std::process::abort" || p == "alloc::alloc::handle_alloc_error" || n.ends_with("3sys7helpers14abort_internal") {
                Some(Ext::Abort)
            } else if p == "alloc::fmt::format::format_inner" || n.ends_with("3fmt6format12format_inner") {
                Some(Ext::Format)
            } else if p == "std::io::stdio::_print" || p == "std::io::stdio::_eprint" {
                Some(Ext::Ret0)
            } else if p.contains("::hash_one::<") || p.contains("::hash_one<") || p.contains("BuildHasher>::hash_one") {
                Some(Ext::HashOne)
            } else if p.contains("core::hash::sip::Hasher<") && (p.contains("Hasher>::finish") || p.contains("Hasher>::write")) {
                Some(Ext::Ret0)
            } else {
                None
            };
            kind.push(k);
        }
        Ok(Engine {
            m,
            solver,
            funcs: HashMap::default(),
            kind,
            work: vec![],
            vars: HashMap::default(),
            executed: HashSet::default(),
            covers: BTreeSet::new(),
            violations: vec![],
            seen_labels: HashMap::default(),
            paths: 0,
            killed: 0,
            steps: 0,
            forks: 0,
            asserts: 0,
            asserts_concrete: 0,
            problems: vec![],
            max_paths: 1_000_000,
            want_samples: 0,
            samples: vec![],
            rng: 1,
            completed: 0,
            deadline: Instant::now() + std::time::Duration::from_secs(800),
            after_first: None,
            conc_limit: 300,
            step_limit: 200_000_000,
            verbose: false,
            errno_addr: 0,
            scratch: 0,
            profile: HashMap::default(),
            fork_sites: HashMap::default(),
        })
    }
    pub fn func(&mut self, i: u32) -> Result<Rc<Func>, String> {
        if let Some(f) = self.funcs.get(&i) {
            return Ok(f.clone());
        }
        let f = Rc::new(self.m.func(i)?);
        self.funcs.insert(i, f.clone());
        Ok(f)
    }
    fn init_val(&self, o: &mut Obj, off: u64, t: &Ty, v: &Opd) -> Result<(), String> {
        match v {
            Opd::C(x) => {
                for i in 0..t.store_size() {
                    o.data[(off + i) as usize] = if i < 8 { (x >> (8 * i)) as u8 } else { 0 };
                }
            }
            Opd::Big(b) => {
                let be = b.to_be();
                for (i, x) in be.iter().rev().enumerate() {
                    o.data[off as usize + i] = *x;
                }
            }
            Opd::Zero(_) => {}
            Opd::Agg(vs) => match t {
                Ty::Vec(_, e) if e.bits() % 8 != 0 => return Err("initialiser of packed lanes".into()),
                Ty::Arr(_, e) | Ty::Vec(_, e) => {
                    for (i, x) in vs.iter().enumerate() {
                        self.init_val(o, off + i as u64 * e.size(), e, x)?;
                    }
                }
                Ty::Struct(f, _) => {
                    let (lay, _) = t.layout();
                    for (i, x) in vs.iter().enumerate() {
                        self.init_val(o, off + lay[i], &f[i], x)?;
                    }
                }
                _ => return Err("initialiser".into()),
            },
            Opd::R(_) => return Err("initialiser register".into()),
        }
        Ok(())
    }
    pub fn start(&mut self, entry: &str) -> Result<(), String> {
        let mut mem = Mem { chunks: vec![], next: 1 };
        for i in 0..self.m.globals.len() as u32 {
            let g = &self.m.globals[i as usize];
            let ro = g.constant;
            let (t, v) = self.m.global(i).map_err(|e| format!("global {}: {}", g.name, e))?;
            let mut o = Obj::new(t.size(), ro);
            if let Some(v) = v {
                self.init_val(&mut o, 0, &t, &v).map_err(|e| format!("global {}: {}", g.name, e))?;
            }
            let a = mem.push(o);
            assert_eq!(a, gl_addr(i));
        }
        self.errno_addr = mem.push(Obj::new(8, false));
        self.scratch = mem.push(Obj::new(4096, false));
        let fid = *self.m.fn_ix.get(entry).ok_or(format!("no entry {}", entry))?;
        let f = self.func(fid)?;
        let st = State {
            frames: vec![Rc::new(Frame {
                regs: vec![C(0); f.nregs as usize],
                f,
                fid,
                blk: 0,
                idx: 0,
                allocas: vec![],
                dst: u32::MAX,
                next: u32::MAX,
                marker: false,
                spec: false,
            })],
            mem,
            pc: vec![],
            act: vec![],
            fixed: Rc::new(Fixed::default()),
            known: Rc::new(HashSet::default()),
            model: Rc::new(Model::default()),
            vfs: Rc::new(Vfs::new()),
            trace: vec![],
            names: Rc::new(BTreeMap::new()),
            forced: None,
            spec: None,
            errno: 0,
            crash: false,
            io: false,
            io_failed: false,
            steps: 0,
            depth: 0,
        };
        self.work.push(st);
        Ok(())
    }
    /// Explores everything; problems (what was left undecided) are in self.problems.
    pub fn run(&mut self) {
        while let Some(mut st) = self.work.pop() {
            if self.paths >= self.max_paths {
                self.problems.push(format!("path limit {} reached", self.max_paths));
                return;
            }
            loop {
                match self.step(&mut st) {
                    Ok(true) => {
                        if st.frames.is_empty() {
                            self.paths += 1;
                            self.sample(&st);
                            break;
                        }
                    }
                    Ok(false) => {}
                    Err(Ctl::Jump) => {
                        if st.frames.is_empty() {
                            self.paths += 1;
                            self.sample(&st);
                            break;
                        }
                    }
                    Err(Ctl::Kill) => {
                        self.paths += 1;
                        self.killed += 1;
                        break;
                    }
                    Err(Ctl::Fatal(s)) => {
                        let mut t = s;
                        t.push_str(" | stack: ");
                        t.push_str(&self.stack(&st).join(" < "));
                        if self.problems.len() < 20 {
                            self.problems.push(t);
                        }
                        self.paths += 1;
                        break;
                    }
                }
                if self.steps % 4096 == 0 && Instant::now() > self.deadline {
                    self.problems.push(format!("time limit; {} pending paths | stack: {}", self.work.len() + 1, self.stack(&st).join(" < ")));
                    return;
                }
            }
        }
    }
    fn stack(&self, st: &State) -> Vec<String> {
        st.frames.iter().rev().take(14).map(|f| self.m.fns[f.fid as usize].pretty.clone()).collect()
    }
    // ------------------------------------------------------- constraints
    fn slice(&self, st: &State, c: E) -> Vec<E> {
        let mut vars: HashSet<u32> = support(c).iter().copied().collect();
        let mut out = vec![];
        let sup: Vec<Rc<[u32]>> = st.act.iter().map(|e| support(*e)).collect();
        let mut used = vec![false; st.act.len()];
        loop {
            let mut ch = false;
            for i in 0..st.act.len() {
                if !used[i] && sup[i].iter().any(|v| vars.contains(v)) {
                    used[i] = true;
                    out.push(st.act[i]);
                    for v in sup[i].iter() {
                        if vars.insert(*v) {
                            ch = true;
                        }
                    }
                }
            }
            if !ch {
                break;
            }
        }
        out
    }
    /// Some(model) if pc and c can hold together
    fn sat(&mut self, st: &State, c: E) -> X0<Option<Model>> {
        let c = st.fixed.apply(c);
        if c == ff() || st.known.contains(&not(c)) {
            return Ok(None);
        }
        let mut q = self.slice(st, c);
        q.push(c);
        match self.solver.check(&q) {
            Ans::Unsat => Ok(None),
            Ans::Sat(v, s) => {
                let shas = if support(c).contains(&SHA_VAR) || q.iter().any(|e| support(*e).contains(&SHA_VAR)) { Some(s) } else { None };
                Ok(Some(st.model.with(v, shas)))
            }
            Ans::Unknown(s) => fatal(format!("solver: {}", s)),
        }
    }
    fn add(&self, st: &mut State, c: E) {
        if c == tt() {
            return;
        }
        if let N::Bin(Op::And, a, b) = node(c) {
            if w(c) == 1 {
                self.add(st, *a);
                self.add(st, *b);
                return;
            }
        }
        if Rc::make_mut(&mut st.known).insert(c) {
            st.pc.push(c);
            let r = st.fixed.constraint(c);
            self.activate(st, r);
        }
    }
    fn activate(&self, st: &mut State, c: E) {
        let mut todo = vec![c];
        while let Some(c) = todo.pop() {
            if c == tt() {
                continue;
            }
            if let N::Bin(Op::And, a, b) = node(c) {
                if w(c) == 1 {
                    todo.push(*a);
                    todo.push(*b);
                    continue;
                }
            }
            Rc::make_mut(&mut st.known).insert(c);
            if st.act.contains(&c) {
                continue;
            }
            let (v, k) = keyed(c);
            st.fixed = Rc::new(st.fixed.with(v, k));
            let vs: HashSet<u32> = support(v).iter().copied().collect();
            let mut keep = vec![c];
            for a in std::mem::take(&mut st.act) {
                let b = if support(a).iter().any(|x| vs.contains(x)) { st.fixed.constraint(a) } else { a };
                if b == a {
                    keep.push(a);
                } else {
                    todo.push(b);
                }
            }
            st.act = keep;
        }
    }
    fn despec(&mut self, st: &mut State) -> X0<()> {
        if let Some(s) = st.spec.take() {
            let steps = st.steps;
            *st = s.0.clone();
            st.steps = steps;
            let ret = s.1;
            self.wr(st, ret, 8, 0)?;
            self.wr(st, ret + 8, 8, 1)?;
            self.wr(st, ret + 16, 8, 0)?;
            return Err(Ctl::Jump);
        }
        Ok(())
    }
    fn note_fork(&mut self, st: &State) {
        self.forks += 1;
        if self.verbose {
            let f = st.frames.last().unwrap();
            let k = format!("{} #{}:{} < {}", self.m.fns[f.fid as usize].pretty, f.blk, f.idx, st.frames.iter().rev().nth(1).map(|f| self.m.fns[f.fid as usize].pretty.clone()).unwrap_or_default());
            *self.fork_sites.entry(k).or_insert(0) += 1;
        }
    }
    /// Concrete value of v on this path; other values become other paths that
    /// re-execute the current instruction.
    pub fn conc(&mut self, st: &mut State, v: &Val, k: u32) -> X0<u64> {
        let e = match v {
            C(x) => return Ok(*x),
            X(e) => *e,
            A(_) => return fatal("conc of aggregate"),
        };
        let _ = k;
        let e = st.fixed.apply(e);
        if let Some(x) = as_u64(e) {
            return Ok(x);
        }
        let cur = st.model.eval(e).low();
        let c = eq(e, konst(w(e), cur));
        if c == tt() || st.known.contains(&c) {
            return Ok(cur);
        }
        match self.sat(st, not(c))? {
            None => {}
            Some(m) => {
                self.despec(st)?;
                self.note_fork(st);
                st.depth += 1;
                if st.depth > 100_000 {
                    return fatal("fork depth");
                }
                let mut o = st.clone();
                self.add(&mut o, not(c));
                o.model = Rc::new(m);
                self.work.push(o);
            }
        }
        self.add(st, c);
        Ok(cur)
    }
    pub fn choose(&mut self, st: &mut State, n: u64, name: &str) -> X0<u64> {
        if n == 0 {
            return Err(Ctl::Kill);
        }
        let k = match st.forced.take() {
            Some(k) => k,
            None => {
                for k in (1..n).rev() {
                    let mut o = st.clone();
                    o.forced = Some(k);
                    self.work.push(o);
                }
                0
            }
        };
        st.trace.push((name.into(), Tr::Choice(k)));
        Ok(k)
    }
    // ------------------------------------------------------------ memory
    fn loc(&self, st: &State, a: u64, n: u64) -> X0<(usize, usize)> {
        let id = (a >> SHIFT) as usize;
        let off = a & ((1 << SHIFT) - 1);
        match st.mem.get(id) {
            Some(o) if off + n <= o.size => Ok((id, off as usize)),
            Some(o) => fatal(format!("memory: access of {} bytes at offset {} of an object of {} bytes", n, off, o.size)),
            None => fatal(format!("memory: access of {} bytes at unmapped address {:#x}", n, a)),
        }
    }
    pub fn rd(&self, st: &State, a: u64, n: u32) -> X0<Val> {
        let (id, off) = self.loc(st, a, n as u64)?;
        let o = st.mem.get(id).unwrap();
        let n = n as usize;
        if n <= 8 && o.sym.as_ref().map_or(true, |s| s[off..off + n].iter().all(|e| *e == 0)) {
            let mut v = 0u64;
            for i in (0..n).rev() {
                v = v << 8 | o.data[off + i] as u64;
            }
            return Ok(C(v));
        }
        let p: Vec<E> = (0..n).rev().map(|i| o.byte(off + i)).collect();
        Ok(norm(concat(&p)))
    }
    pub fn wr(&self, st: &mut State, a: u64, n: u32, v: u64) -> X0<()> {
        self.wrv(st, a, n, &C(v))
    }
    pub fn wrv(&self, st: &mut State, a: u64, n: u32, v: &Val) -> X0<()> {
        let (id, off) = self.loc(st, a, n as u64)?;
        let o = st.mem.get_mut(id).unwrap();
        if o.ro {
            return fatal("memory: write to constant");
        }
        match v {
            C(x) => {
                for i in 0..n as usize {
                    o.data[off + i] = if i < 8 { (x >> (8 * i)) as u8 } else { 0 };
                }
                if let Some(s) = &mut o.sym {
                    s[off..off + n as usize].fill(0);
                }
            }
            X(e) => {
                let k = w(*e);
                let e = if k < n * 8 { zext(*e, n * 8) } else { *e };
                for i in 0..n {
                    o.set(off + i as usize, extract(e, i * 8, 8));
                }
            }
            A(_) => return fatal("aggregate store"),
        }
        Ok(())
    }
    pub fn bytes(&self, st: &State, a: u64, n: u64) -> X0<Vec<E>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let (id, off) = self.loc(st, a, n)?;
        let o = st.mem.get(id).unwrap();
        Ok((0..n as usize).map(|i| o.byte(off + i)).collect())
    }
    pub fn set_bytes(&self, st: &mut State, a: u64, b: &[E]) -> X0<()> {
        if b.is_empty() {
            return Ok(());
        }
        let (id, off) = self.loc(st, a, b.len() as u64)?;
        let o = st.mem.get_mut(id).unwrap();
        for (i, e) in b.iter().enumerate() {
            o.set(off + i, *e);
        }
        Ok(())
    }
    pub fn str_at(&self, st: &State, a: u64, n: u64) -> X0<String> {
        let b = self.bytes(st, a, n)?;
        let mut v = vec![];
        for e in b {
            match as_u64(e) {
                Some(x) => v.push(x as u8),
                None => return fatal("symbolic string where a concrete one is needed"),
            }
        }
        Ok(String::from_utf8_lossy(&v).into())
    }
    pub fn cstr(&self, st: &State, a: u64) -> X0<String> {
        let mut v = vec![];
        let mut i = 0;
        loop {
            match self.rd(st, a + i, 1)? {
                C(0) => return Ok(String::from_utf8_lossy(&v).into()),
                C(x) => v.push(x as u8),
                _ => return fatal("symbolic C string"),
            }
            i += 1;
        }
    }
    fn copy(&self, st: &mut State, d: u64, s: u64, n: u64) -> X0<()> {
        if n == 0 {
            return Ok(());
        }
        let (si, so) = self.loc(st, s, n)?;
        let (di, dof) = self.loc(st, d, n)?;
        let n = n as usize;
        let src = st.mem.get(si).unwrap().clone();
        let dst = st.mem.get_mut(di).unwrap();
        if dst.ro {
            return fatal("memory: write to constant");
        }
        dst.data[dof..dof + n].copy_from_slice(&src.data[so..so + n]);
        match (&src.sym, &mut dst.sym) {
            (None, None) => {}
            (None, Some(t)) => t[dof..dof + n].fill(0),
            (Some(f), t) => {
                let sz = dst.size as usize;
                t.get_or_insert_with(|| vec![0; sz])[dof..dof + n].copy_from_slice(&f[so..so + n]);
            }
        }
        Ok(())
    }
    pub fn alloc(&self, st: &mut State, n: u64) -> X0<u64> {
        if n >= (1 << SHIFT) {
            return fatal(format!("allocation of {} bytes", n));
        }
        Ok(st.mem.push(Obj::new(n, false)))
    }
    fn load_ty(&self, st: &State, a: u64, t: &Ty) -> X0<Val> {
        match t {
            Ty::Int(k) => {
                let v = self.rd(st, a, t.store_size() as u32)?;
                Ok(match v {
                    C(x) => C(mask(*k, x)),
                    X(e) => norm(extract(e, 0, *k)),
                    v => v,
                })
            }
            Ty::Ptr => self.rd(st, a, 8),
            Ty::Float(k) => self.rd(st, a, k / 8),
            // lanes that are not whole bytes are packed, lowest lane first
            Ty::Vec(n, e) if e.bits() % 8 != 0 => {
                let k = (n * e.bits()) as u32;
                let i = self.load_ty(st, a, &Ty::Int(k))?;
                self.cast(Cast::Bitcast, &Ty::Int(k), t, &i)
            }
            Ty::Arr(n, e) | Ty::Vec(n, e) => {
                let mut v = vec![];
                for i in 0..*n {
                    v.push(self.load_ty(st, a + i * e.size(), e)?);
                }
                Ok(A(Rc::new(v)))
            }
            Ty::Struct(f, _) => {
                let (l, _) = t.layout();
                let mut v = vec![];
                for (i, e) in f.iter().enumerate() {
                    v.push(self.load_ty(st, a + l[i], e)?);
                }
                Ok(A(Rc::new(v)))
            }
            _ => fatal("load type"),
        }
    }
    fn store_ty(&self, st: &mut State, a: u64, t: &Ty, v: &Val) -> X0<()> {
        match t {
            Ty::Int(_) | Ty::Ptr | Ty::Float(_) => self.wrv(st, a, t.store_size() as u32, v),
            Ty::Vec(n, e) if e.bits() % 8 != 0 => {
                let k = (n * e.bits()) as u32;
                let i = self.cast(Cast::Bitcast, t, &Ty::Int(k), v)?;
                self.store_ty(st, a, &Ty::Int(k), &i)
            }
            Ty::Arr(_, e) | Ty::Vec(_, e) => {
                if let A(x) = v {
                    for (i, y) in x.iter().enumerate() {
                        self.store_ty(st, a + i as u64 * e.size(), e, y)?;
                    }
                }
                Ok(())
            }
            Ty::Struct(f, _) => {
                let (l, _) = t.layout();
                if let A(x) = v {
                    for (i, y) in x.iter().enumerate() {
                        self.store_ty(st, a + l[i], &f[i], y)?;
                    }
                }
                Ok(())
            }
            _ => fatal("store type"),
        }
    }
    fn zero_val(t: &Ty) -> Val {
        match t {
            Ty::Int(k) if *k > 64 => X(kb(Bv::zero(*k))),
            Ty::Arr(n, e) | Ty::Vec(n, e) => A(Rc::new(vec![Self::zero_val(e); *n as usize])),
            Ty::Struct(f, _) => A(Rc::new(f.iter().map(Self::zero_val).collect())),
            _ => C(0),
        }
    }
    fn val(fr: &Frame, o: &Opd) -> Val {
        match o {
            Opd::R(r) => fr.regs[*r as usize].clone(),
            Opd::C(v) => C(*v),
            Opd::Big(b) => X(kb(b.clone())),
            Opd::Agg(v) => A(Rc::new(v.iter().map(|x| Self::val(fr, x)).collect())),
            Opd::Zero(t) => Self::zero_val(t),
        }
    }
    // -------------------------------------------------------------- step
    fn set(st: &mut State, dst: u32, v: Val) {
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        if dst != u32::MAX {
            fr.regs[dst as usize] = v;
        }
        fr.idx += 1;
    }
    fn jump(st: &mut State, to: u32) {
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        let from = fr.blk;
        let f = fr.f.clone();
        let b = &f.blocks[to as usize];
        if b.phis.len() == 1 {
            let (d, h) = &b.phis[0];
            fr.regs[*d as usize] = Self::val(fr, &h[&from]);
        } else if !b.phis.is_empty() {
            let vs: Vec<Val> = b.phis.iter().map(|(_, h)| Self::val(fr, &h[&from])).collect();
            for ((d, _), v) in b.phis.iter().zip(vs) {
                fr.regs[*d as usize] = v;
            }
        }
        fr.blk = to;
        fr.idx = 0;
    }
    /// true: a frame ended
    fn step(&mut self, st: &mut State) -> X0<bool> {
        self.steps += 1;
        st.steps += 1;
        if st.steps > self.step_limit {
            return fatal("step limit");
        }
        let f = st.frames.last().unwrap().f.clone();
        let (blk, idx) = {
            let fr = st.frames.last().unwrap();
            (fr.blk as usize, fr.idx as usize)
        };
        let (dst, ins) = match f.blocks[blk].ins.get(idx) {
            Some((d, i)) => (*d, i),
            None => return fatal("fell off block"),
        };
        macro_rules! v {
            ($o:expr) => {
                Self::val(st.frames.last().unwrap(), $o)
            };
        }
        match ins {
            Ins::Bin(o, t, a, b) => {
                let (a, b) = (v!(a), v!(b));
                let r = self.binop(*o, t, &a, &b)?;
                Self::set(st, dst, r);
            }
            Ins::Icmp(p, t, a, b) => {
                let (a, b) = (v!(a), v!(b));
                let r = self.icmp(*p, t, &a, &b)?;
                Self::set(st, dst, r);
            }
            Ins::Cast(c, t1, t2, a) => {
                let a = v!(a);
                let r = self.cast(*c, t1, t2, &a)?;
                Self::set(st, dst, r);
            }
            Ins::Load(t, a) => {
                let av = v!(a);
                let a = match self.load_table(st, &av, t)? {
                    Some(v) => {
                        Self::set(st, dst, v);
                        return Ok(false);
                    }
                    None => self.conc(st, &av, 64)?,
                };
                let r = self.load_ty(st, a, t)?;
                Self::set(st, dst, r);
            }
            Ins::Store(t, v, a) => {
                let av = v!(a);
                let a = self.conc(st, &av, 64)?;
                let v = v!(v);
                self.store_ty(st, a, t, &v)?;
                Self::set(st, u32::MAX, C(0));
            }
            Ins::Gep(b, off, sc) => {
                let b = v!(b);
                let mut r = match b {
                    C(x) => C(x.wrapping_add(*off)),
                    X(e) => norm(crate::expr::add(e, konst(64, *off))),
                    A(_) => return fatal("gep on vector"),
                };
                for (o, k, s) in sc {
                    let o = v!(o);
                    r = match (&r, &o) {
                        (C(x), C(y)) => C(x.wrapping_add((sx(*k, *y) as u64).wrapping_mul(*s))),
                        _ => {
                            let i = sext(o.e(*k), 64);
                            norm(crate::expr::add(r.e(64), bin(Op::Mul, i, konst(64, *s))))
                        }
                    };
                }
                Self::set(st, dst, r);
            }
            Ins::Alloca(sz, n) => {
                let n = v!(n);
                let n = self.conc(st, &n, 64)?;
                let a = self.alloc(st, sz * n)?;
                let fr = Rc::make_mut(st.frames.last_mut().unwrap());
                fr.allocas.push((a >> SHIFT) as u32);
                Self::set(st, dst, C(a));
            }
            Ins::Select(t, c, a, b, vec) => {
                let (c, a, b) = (v!(c), v!(a), v!(b));
                if *vec {
                    return fatal("vector select");
                }
                let r = match c {
                    C(0) => b,
                    C(_) => a,
                    X(c) => match (&a, &b) {
                        (A(_), _) | (_, A(_)) => {
                            let k = self.conc(st, &X(c), 1)?;
                            if k != 0 {
                                a
                            } else {
                                b
                            }
                        }
                        _ => {
                            let k = t.bits() as u32;
                            norm(ite(c, a.e(k), b.e(k)))
                        }
                    },
                    A(_) => return fatal("vector select"),
                };
                Self::set(st, dst, r);
            }
            Ins::Br(t) => Self::jump(st, *t),
            Ins::CondBr(c, a, b) => {
                let c = st.reduce(v!(c));
                match c {
                    C(x) => Self::jump(st, if x != 0 { *a } else { *b }),
                    X(e) => {
                        if st.known.contains(&e) {
                            Self::jump(st, *a);
                        } else if st.known.contains(&not(e)) {
                            Self::jump(st, *b);
                        } else {
                            // a message whose text depends on symbolic values
                            if st.spec.is_some() {
                                self.despec(st)?;
                            }
                            let h = st.model.holds(e);
                            let (ce, ne) = if h { (e, not(e)) } else { (not(e), e) };
                            let (here, there) = if h { (*a, *b) } else { (*b, *a) };
                            if let Some(m) = self.sat(st, ne)? {
                                self.despec(st)?;
                                self.note_fork(st);
                                let mut o = st.clone();
                                self.add(&mut o, ne);
                                o.model = Rc::new(m);
                                Self::jump(&mut o, there);
                                self.work.push(o);
                                self.add(st, ce);
                            }
                            Self::jump(st, here);
                        }
                    }
                    A(_) => return fatal("br on aggregate"),
                }
            }
            Ins::Switch(k, v, d, cs) => {
                let v = st.reduce(v!(v));
                match v {
                    C(x) => {
                        let t = cs.iter().find(|(c, _)| *c == x).map(|(_, t)| *t).unwrap_or(*d);
                        Self::jump(st, t);
                    }
                    X(e) => {
                        if st.spec.is_some() {
                            self.despec(st)?;
                        }
                        let mut conds: Vec<(u32, E)> = vec![];
                        let mut any = ff();
                        for (c, t) in cs.iter() {
                            let q = eq(e, konst(*k, *c));
                            any = or(any, q);
                            match conds.iter_mut().find(|x| x.0 == *t) {
                                Some(x) => x.1 = or(x.1, q),
                                None => conds.push((*t, q)),
                            }
                        }
                        match conds.iter_mut().find(|x| x.0 == *d) {
                            Some(x) => x.1 = or(x.1, not(any)),
                            None => conds.push((*d, not(any))),
                        }
                        let main = conds.iter().position(|(_, c)| st.model.holds(*c));
                        let main = match main {
                            Some(m) => m,
                            None => return fatal("switch: model"),
                        };
                        let mut others = vec![];
                        for (i, (t, c)) in conds.iter().enumerate() {
                            if i != main && *c != ff() {
                                if let Some(m) = self.sat(st, *c)? {
                                    others.push((*t, *c, m));
                                }
                            }
                        }
                        if !others.is_empty() {
                            self.despec(st)?;
                            self.note_fork(st);
                        }
                        for (t, c, m) in others {
                            let mut o = st.clone();
                            self.add(&mut o, c);
                            o.model = Rc::new(m);
                            Self::jump(&mut o, t);
                            self.work.push(o);
                        }
                        self.add(st, conds[main].1);
                        Self::jump(st, conds[main].0);
                    }
                    A(_) => return fatal("switch on aggregate"),
                }
            }
            Ins::Ret(r) => {
                let r = r.as_ref().map(|(_, o)| v!(o));
                self.ret(st, r.unwrap_or(C(0)), 0)?;
                return Ok(true);
            }
            Ins::Unreachable => return fatal("unreachable executed"),
            Ins::Call(c, args, rt, next) => {
                let av: Vec<Val> = args.iter().map(|(_, o)| v!(o)).collect();
                let fid = match c {
                    Callee::Fn(i) => *i,
                    Callee::Asm => {
                        Self::set(st, dst, C(0));
                        return Ok(false);
                    }
                    Callee::Reg(o) => {
                        let a = v!(o);
                        let a = self.conc(st, &a, 64)?;
                        if a < FN_BASE || (a - FN_BASE) % 16 != 0 || (a - FN_BASE) / 16 >= self.m.fns.len() as u64 {
                            return fatal(format!("call to {:#x}", a));
                        }
                        ((a - FN_BASE) / 16) as u32
                    }
                };
                let args = args.clone();
                let rt = rt.clone();
                return self.call(st, fid, av, &args, &rt, dst, *next);
            }
            Ins::ExtractValue(a, ix) => {
                let mut a = v!(a);
                for i in ix {
                    a = match a {
                        A(v) => v[*i as usize].clone(),
                        _ => return fatal("extractvalue"),
                    };
                }
                Self::set(st, dst, a);
            }
            Ins::InsertValue(t, a, x, ix) => {
                let a = v!(a);
                let x = v!(x);
                let a = if let A(_) = a { a } else { Self::zero_val(t) };
                fn put(a: &Val, x: Val, ix: &[u32]) -> Val {
                    if ix.is_empty() {
                        return x;
                    }
                    if let A(v) = a {
                        let mut v = (**v).clone();
                        v[ix[0] as usize] = put(&v[ix[0] as usize], x, &ix[1..]);
                        A(Rc::new(v))
                    } else {
                        a.clone()
                    }
                }
                Self::set(st, dst, put(&a, x, ix));
            }
            Ins::ExtractElement(a, i) => {
                let a = v!(a);
                let i = v!(i);
                let i = self.conc(st, &i, 64)?;
                match a {
                    A(v) => Self::set(st, dst, v[i as usize].clone()),
                    _ => return fatal("extractelement"),
                }
            }
            Ins::InsertElement(_, a, x, i) => {
                let (a, x, i) = (v!(a), v!(x), v!(i));
                let i = self.conc(st, &i, 64)?;
                match a {
                    A(v) => {
                        let mut v = (*v).clone();
                        v[i as usize] = x;
                        Self::set(st, dst, A(Rc::new(v)));
                    }
                    _ => return fatal("insertelement"),
                }
            }
            Ins::Shuffle(_, a, b, m) => {
                let (a, b) = (v!(a), v!(b));
                match (a, b) {
                    (A(x), A(y)) => {
                        let n = x.len();
                        let r = m
                            .iter()
                            .map(|i| {
                                let i = *i as usize;
                                if i < n {
                                    x[i].clone()
                                } else {
                                    y[i - n].clone()
                                }
                            })
                            .collect();
                        Self::set(st, dst, A(Rc::new(r)));
                    }
                    _ => return fatal("shuffle"),
                }
            }
            Ins::Rmw(o, t, a, x) => {
                let av = v!(a);
                let a = self.conc(st, &av, 64)?;
                let x = v!(x);
                let old = self.load_ty(st, a, t)?;
                let b = |o| -> X0<Val> { self.binop(o, t, &old, &x) };
                let new = match o.as_str() {
                    "xchg" => x.clone(),
                    "add" => b(BinOp::Add)?,
                    "sub" => b(BinOp::Sub)?,
                    "and" => b(BinOp::And)?,
                    "or" => b(BinOp::Or)?,
                    "xor" => b(BinOp::Xor)?,
                    o => return fatal(format!("atomicrmw {}", o)),
                };
                self.store_ty(st, a, t, &new)?;
                Self::set(st, dst, old);
            }
            Ins::CmpXchg(t, a, e, n) => {
                let av = v!(a);
                let a = self.conc(st, &av, 64)?;
                let (e, n) = (v!(e), v!(n));
                let old = self.load_ty(st, a, t)?;
                let c = self.icmp(Pred::Eq, t, &old, &e)?;
                let c = self.conc(st, &c, 1)?;
                if c != 0 {
                    self.store_ty(st, a, t, &n)?;
                }
                Self::set(st, dst, A(Rc::new(vec![old, C(c)])));
            }
            Ins::Nop => Self::set(st, u32::MAX, C(0)),
            Ins::Freeze(a) => {
                let a = v!(a);
                Self::set(st, dst, a);
            }
            Ins::Bad(s) => return fatal(format!("unsupported: {}", s)),
        }
        Ok(false)
    }
    /// A read at a symbolic address inside one constant table.
    fn load_table(&mut self, st: &mut State, a: &Val, t: &Ty) -> X0<Option<Val>> {
        let e = match a {
            X(e) => *e,
            _ => return Ok(None),
        };
        let k = match t {
            Ty::Int(k) if *k <= 64 => *k,
            _ => return Ok(None),
        };
        let cur = st.model.eval(e).low();
        let id = (cur >> SHIFT) as usize;
        let Some(o) = st.mem.get(id).cloned() else { return Ok(None) };
        if o.size > 1024 || o.size < 2 || !o.ro {
            return Ok(None);
        }
        // only worth it when there are several possible offsets
        let base = (id as u64) << SHIFT;
        let n = t.store_size();
        let inside = and(not(ult(e, konst(64, base))), ult(e, konst(64, base + o.size - n + 1)));
        if self.sat(st, not(inside))?.is_some() {
            return Ok(None);
        }
        let mut r: Option<E> = None;
        for off in (0..=(o.size - n)).rev() {
            let c = eq(e, konst(64, base + off));
            if c == ff() {
                continue;
            }
            let v = self.load_ty(st, base + off, t)?.e(k);
            r = Some(match r {
                None => v,
                Some(x) => ite(c, v, x),
            });
        }
        Ok(r.map(norm))
    }
    fn binop(&self, o: BinOp, t: &Ty, a: &Val, b: &Val) -> X0<Val> {
        if let Ty::Vec(_, et) = t {
            if let (A(x), A(y)) = (a, b) {
                let mut v = vec![];
                for (p, q) in x.iter().zip(y.iter()) {
                    v.push(self.binop(o, et, p, q)?);
                }
                return Ok(A(Rc::new(v)));
            }
        }
        let k = t.bits() as u32;
        if let (C(x), C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let r = match o {
                BinOp::Add => x.wrapping_add(y),
                BinOp::Sub => x.wrapping_sub(y),
                BinOp::Mul => x.wrapping_mul(y),
                BinOp::UDiv if y != 0 => x / y,
                BinOp::URem if y != 0 => x % y,
                BinOp::SDiv if y != 0 => (sx(k, x).wrapping_div(sx(k, y))) as u64,
                BinOp::SRem if y != 0 => (sx(k, x).wrapping_rem(sx(k, y))) as u64,
                BinOp::And => x & y,
                BinOp::Or => x | y,
                BinOp::Xor => x ^ y,
                BinOp::Shl => {
                    if y >= k as u64 {
                        0
                    } else {
                        x << y
                    }
                }
                BinOp::LShr => {
                    if y >= k as u64 {
                        0
                    } else {
                        x >> y
                    }
                }
                BinOp::AShr => {
                    if y >= k as u64 {
                        0
                    } else {
                        (sx(k, x) >> y) as u64
                    }
                }
                _ => return fatal("division by zero"),
            };
            return Ok(C(mask(k, r)));
        }
        let op = match o {
            BinOp::Add => Op::Add,
            BinOp::Sub => Op::Sub,
            BinOp::Mul => Op::Mul,
            BinOp::UDiv => Op::UDiv,
            BinOp::URem => Op::URem,
            BinOp::SDiv => Op::SDiv,
            BinOp::SRem => Op::SRem,
            BinOp::And => Op::And,
            BinOp::Or => Op::Or,
            BinOp::Xor => Op::Xor,
            BinOp::Shl => Op::Shl,
            BinOp::LShr => Op::LShr,
            BinOp::AShr => Op::AShr,
        };
        Ok(norm(bin(op, a.e(k), b.e(k))))
    }
    fn icmp(&self, p: Pred, t: &Ty, a: &Val, b: &Val) -> X0<Val> {
        if let Ty::Vec(_, et) = t {
            if let (A(x), A(y)) = (a, b) {
                let mut v = vec![];
                for (p1, q) in x.iter().zip(y.iter()) {
                    v.push(self.icmp(p, et, p1, q)?);
                }
                return Ok(A(Rc::new(v)));
            }
        }
        let k = t.bits() as u32;
        if let (C(x), C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let (sa, sb) = (sx(k, x), sx(k, y));
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Slt => sa < sb,
                Pred::Sle => sa <= sb,
                Pred::Sgt => sa > sb,
                Pred::Sge => sa >= sb,
            };
            return Ok(C(r as u64));
        }
        let (x, y) = (a.e(k), b.e(k));
        let slt = |x, y| bin(Op::Slt, x, y);
        Ok(norm(match p {
            Pred::Eq => eq(x, y),
            Pred::Ne => not(eq(x, y)),
            Pred::Ult => ult(x, y),
            Pred::Ule => not(ult(y, x)),
            Pred::Ugt => ult(y, x),
            Pred::Uge => not(ult(x, y)),
            Pred::Slt => slt(x, y),
            Pred::Sle => not(slt(y, x)),
            Pred::Sgt => slt(y, x),
            Pred::Sge => not(slt(x, y)),
        }))
    }
    fn cast(&self, c: Cast, t1: &Ty, t2: &Ty, a: &Val) -> X0<Val> {
        if c == Cast::Bitcast {
            // through a string of bits, lowest lane first
            let bits = |t: &Ty, v: &Val| -> X0<E> {
                match (t, v) {
                    (Ty::Vec(_, et), A(x)) => {
                        let k = et.bits() as u32;
                        let p: Vec<E> = x.iter().rev().map(|y| y.e(k)).collect();
                        Ok(concat(&p))
                    }
                    _ => Ok(v.e(t.bits() as u32)),
                }
            };
            let e = bits(t1, a)?;
            return Ok(match t2 {
                Ty::Vec(n, et) => {
                    let k = et.bits() as u32;
                    A(Rc::new((0..*n as u32).map(|i| norm(extract(e, i * k, k))).collect()))
                }
                _ => norm(e),
            });
        }
        if let (Ty::Vec(_, e1), Ty::Vec(_, e2), A(x)) = (t1, t2, a) {
            let mut v = vec![];
            for y in x.iter() {
                v.push(self.cast(c, e1, e2, y)?);
            }
            return Ok(A(Rc::new(v)));
        }
        let (k1, k2) = (t1.bits() as u32, t2.bits() as u32);
        Ok(match (c, a) {
            (Cast::Same, a) => a.clone(),
            (Cast::Trunc, C(x)) => C(mask(k2, *x)),
            (Cast::Trunc, X(e)) => norm(extract(*e, 0, k2)),
            (Cast::Zext, C(x)) if k2 <= 64 => C(*x),
            (Cast::Zext, a) => norm(zext(a.e(k1), k2)),
            (Cast::Sext, C(x)) if k2 <= 64 => C(mask(k2, sx(k1, *x) as u64)),
            (Cast::Sext, a) => norm(sext(a.e(k1), k2)),
            _ => return fatal("cast"),
        })
    }
    /// Pops the top frame; delivers v (or the code of a caught throw).
    fn ret(&mut self, st: &mut State, v: Val, code: u64) -> X0<()> {
        let fr = st.frames.pop().unwrap();
        for a in &fr.allocas {
            st.mem.free(*a as usize);
        }
        if fr.spec {
            st.spec = None;
        }
        if st.frames.is_empty() {
            return Ok(());
        }
        let v = if fr.marker { C(code) } else { v };
        Self::set(st, fr.dst, v);
        if fr.next != u32::MAX {
            Self::jump(st, fr.next);
        }
        Ok(())
    }
    /// Unwinds to the nearest marker, without running destructors.
    fn throw(&mut self, st: &mut State, code: u64) -> X0<bool> {
        loop {
            let Some(top) = st.frames.last() else { return Ok(false) };
            let m = top.marker;
            if m {
                self.ret(st, C(0), code)?;
                return Ok(true);
            }
            let fr = st.frames.pop().unwrap();
            if fr.spec {
                st.spec = None;
            }
            for a in &fr.allocas {
                st.mem.free(*a as usize);
            }
        }
    }
    fn has_marker(&self, st: &State) -> bool {
        st.frames.iter().any(|f| f.marker)
    }
    fn panic(&mut self, st: &mut State, what: &str) -> X0<bool> {
        if st.spec.is_some() {
            self.despec(st)?;
        }
        if self.has_marker(st) {
            self.throw(st, 2)?;
            return Err(Ctl::Jump);
        }
        let stack = self.stack(st);
        let at = stack
            .iter()
            .find(|s| s.contains("blockchaintree::"))
            .cloned()
            .unwrap_or_default();
        self.violation(st, &format!("panic in {}", at), what, tt())?;
        Err(Ctl::Kill)
    }
    fn trace_of(st: &State, m: &Model) -> (Trace, Vec<(Vec<u8>, Vec<u8>)>) {
        let ev = |b: &Vec<E>| b.iter().map(|e| m.eval(*e).low() as u8).collect::<Vec<u8>>();
        let trace = st
            .trace
            .iter()
            .map(|(n, t)| match t {
                Tr::Bytes(b) => (n.to_string(), "bytes".to_string(), ev(b), 0),
                Tr::Choice(c) => (n.to_string(), "choice".to_string(), vec![], *c),
                Tr::Note(b) => (n.to_string(), "note".to_string(), ev(b), 0),
            })
            .collect();
        let sha = m.shas.iter().map(|(k, v)| (k.clone(), v.to_be())).collect();
        (trace, sha)
    }
    /// Keeps some completed paths, with inputs that take them, and has the SMT
    /// solver confirm that they are feasible.
    fn sample(&mut self, st: &State) {
        if self.want_samples == 0 {
            return;
        }
        self.completed += 1;
        let slot = if self.samples.len() < self.want_samples {
            self.samples.len()
        } else {
            self.rng = self.rng.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            let k = ((self.rng >> 33) % self.completed) as usize;
            if k >= self.want_samples {
                return;
            }
            k
        };
        let t = Self::trace_of(st, &st.model);
        if slot == self.samples.len() {
            self.samples.push((t.0, t.1, st.pc.clone()));
        } else {
            self.samples[slot] = (t.0, t.1, st.pc.clone());
        }
    }
    pub fn violation(&mut self, st: &State, label: &str, detail: &str, c: E) -> X0<()> {
        let n = self.seen_labels.entry(label.to_string()).or_insert(0);
        *n += 1;
        if *n > 3 {
            return Ok(());
        }
        // confirmed by the solver on the whole path condition
        let mut q = st.pc.clone();
        q.push(c);
        let m = match self.solver.check(&q) {
            Ans::Unsat => {
                *self.seen_labels.get_mut(label).unwrap() -= 1;
                return Ok(());
            }
            Ans::Sat(v, s) => {
                let uses = q.iter().any(|e| support(*e).contains(&SHA_VAR));
                st.model.with(v, if uses { Some(s) } else { None })
            }
            Ans::Unknown(s) => return fatal(format!("solver: {}", s)),
        };
        let (trace, sha) = Self::trace_of(st, &m);
        let stack = self.stack(st);
        if self.violations.is_empty() && self.after_first.is_some() {
            self.deadline = self.deadline.min(Instant::now() + self.after_first.unwrap());
        }
        self.violations.push(Violation { label: label.into(), detail: detail.into(), stack, trace, sha });
        Ok(())
    }
    fn call(
        &mut self,
        st: &mut State,
        fid: u32,
        av: Vec<Val>,
        args: &[(Ty, Opd)],
        rt: &Ty,
        dst: u32,
        next: u32,
    ) -> X0<bool> {
        let done = |st: &mut State, v: Val| {
            Self::set(st, dst, v);
            if next != u32::MAX {
                Self::jump(st, next);
            }
        };
        match self.kind[fid as usize] {
            None => {}
            Some(Ext::Intr) => {
                let v = self.intrinsic(st, fid, &av, args, rt)?;
                done(st, v);
                return Ok(false);
            }
            Some(Ext::Ret0) => {
                done(st, Self::zero_val(rt));
                return Ok(false);
            }
            Some(Ext::HashOne) => {
                done(st, C(0x5bd1e995_5bd1e995));
                return Ok(false);
            }
            Some(Ext::Abort) => return self.panic(st, "abort"),
            Some(Ext::Panic) => {
                let mut w = String::from("panic");
                if let Some(C(l)) = av.last() {
                    let r = (|| -> X0<String> {
                        let p = self.rd(st, *l, 8)?;
                        let n = self.rd(st, *l + 8, 8)?;
                        let line = self.rd(st, *l + 16, 4)?;
                        match (p, n, line) {
                            (C(p), C(n), C(line)) if n < 300 => Ok(format!("panic at {}:{}", self.str_at(st, p, n)?, line)),
                            _ => fatal("?"),
                        }
                    })();
                    if let Ok(s) = r {
                        w = s.replace('\0', "");
                    }
                }
                return self.panic(st, &w);
            }
            Some(Ext::Sym(k)) => {
                return self.sym(st, k, &av, dst, next);
            }
            Some(Ext::Libc) => {
                let name = self.m.fns[fid as usize].name.clone();
                let v = self.libc(st, &name, &av)?;
                done(st, v);
                return Ok(false);
            }
            Some(Ext::Format) => {
                if st.spec.is_none() {
                    // may be abandoned: what is formatted is only a message then
                    let mut snap = st.clone();
                    Self::set(&mut snap, dst, C(0));
                    if next != u32::MAX {
                        Self::jump(&mut snap, next);
                    }
                    let ret = self.conc(st, &av[0], 64)?;
                    self.enter(st, fid, av, dst, next, false)?;
                    Rc::make_mut(st.frames.last_mut().unwrap()).spec = true;
                    st.spec = Some(Rc::new((snap, ret)));
                    return Ok(false);
                }
            }
        }
        self.enter(st, fid, av, dst, next, false)?;
        Ok(false)
    }
    fn enter(&mut self, st: &mut State, fid: u32, av: Vec<Val>, dst: u32, next: u32, marker: bool) -> X0<()> {
        if st.frames.len() > 3000 {
            return fatal("stack depth");
        }
        self.executed.insert(fid);
        let f = self.func(fid).map_err(Ctl::Fatal)?;
        let mut regs = vec![C(0); f.nregs as usize];
        if f.params.len() > av.len() {
            return fatal("arity");
        }
        for (p, v) in f.params.iter().zip(av) {
            regs[*p as usize] = v;
        }
        st.frames.push(Rc::new(Frame {
            f,
            fid,
            blk: 0,
            idx: 0,
            regs,
            allocas: vec![],
            dst,
            next,
            marker,
            spec: false,
        }));
        Ok(())
    }
    fn sym(&mut self, st: &mut State, k: u16, av: &[Val], dst: u32, next: u32) -> X0<bool> {
        let mut av: Vec<Val> = av.to_vec();
        for i in 0..av.len() {
            if !(i == 0 && matches!(k, 1 | 2)) {
                if let X(_) = av[i] {
                    av[i] = C(self.conc(st, &av[i].clone(), 64)?);
                }
            }
        }
        let c = |i: usize| -> X0<u64> {
            match &av[i] {
                C(x) => Ok(*x),
                _ => fatal("aggregate argument of an engine call"),
            }
        };
        let mut out = C(0);
        match k {
            0 => {
                let (p, n) = (c(0)?, c(1)?);
                let name = self.str_at(st, c(2)?, c(3)?)?;
                let occ = {
                    let m = Rc::make_mut(&mut st.names);
                    let o = m.entry(name.clone()).or_insert(0);
                    *o += 1;
                    *o - 1
                };
                let full = if occ == 0 { name.clone() } else { format!("{}#{}", name, occ) };
                let mut b = vec![];
                for i in 0..n as u32 {
                    let e = *self.vars.entry((full.clone(), i)).or_insert_with(|| var(format!("{}[{}]", full, i), 8));
                    b.push(e);
                }
                self.set_bytes(st, p, &b)?;
                st.trace.push((name.into(), Tr::Bytes(b)));
            }
            1 => match &st.reduce(av[0].clone()) {
                C(0) => return Err(Ctl::Kill),
                C(_) => {}
                X(e) => {
                    let e = *e;
                    if !st.model.holds(e) {
                        match self.sat(st, e)? {
                            None => return Err(Ctl::Kill),
                            Some(m) => st.model = Rc::new(m),
                        }
                    }
                    self.add(st, e);
                }
                _ => return fatal("assume"),
            },
            2 => {
                self.asserts += 1;
                let msg = self.str_at(st, c(1)?, c(2)?)?;
                self.covers.insert(format!("check: {}", msg));
                match &st.reduce(av[0].clone()) {
                    C(0) => {
                        self.asserts_concrete += 1;
                        self.violation(st, &msg, "assertion fails", tt())?;
                        return Err(Ctl::Kill);
                    }
                    C(_) => self.asserts_concrete += 1,
                    X(e) => {
                        let e = *e;
                        if !st.known.contains(&e) {
                            if self.sat(st, not(e))?.is_some() {
                                self.violation(st, &msg, "assertion can fail", not(e))?;
                                if !st.model.holds(e) {
                                    match self.sat(st, e)? {
                                        None => return Err(Ctl::Kill),
                                        Some(m) => st.model = Rc::new(m),
                                    }
                                }
                                self.add(st, e);
                            }
                        }
                    }
                    _ => return fatal("assert"),
                }
            }
            3 => {
                let m = self.str_at(st, c(0)?, c(1)?)?;
                self.covers.insert(m);
            }
            4 => {
                let n = self.conc(st, &av[1], 64)?;
                let p = if n == 0 { 0 } else { c(0)? };
                let b = self.bytes(st, p, n)?;
                let h = sha(&b);
                let o: Vec<E> = (0..32).map(|i| extract(h, 256 - 8 - i * 8, 8)).collect();
                self.set_bytes(st, c(2)?, &o)?;
            }
            5 => {
                let n = self.conc(st, &av[0], 64)?;
                let name = self.str_at(st, c(1)?, c(2)?)?;
                out = C(self.choose(st, n, &name)?);
            }
            6 => {
                let f = c(0)?;
                let fid = ((f - FN_BASE) / 16) as u32;
                self.enter(st, fid, vec![av[1].clone()], dst, next, true)?;
                return Ok(false);
            }
            7 => {
                if !self.throw(st, 1)? {
                    return fatal("throw without try");
                }
                return Err(Ctl::Jump);
            }
            8 => out = C(0),
            9 => {
                let name = self.str_at(st, c(0)?, c(1)?)?;
                let b = self.bytes(st, c(2)?, c(3)?)?;
                st.trace.push((name.into(), Tr::Note(b)));
            }
            10 => st.crash = c(0)? != 0,
            12 => {
                out = C(st.io_failed as u64 | (st.io as u64) << 1);
                let s = c(0)?;
                (st.io, st.io_failed) = (s & 2 != 0, s & 1 != 0);
            }
            11 => {
                let s = b"/v";
                let b: Vec<E> = s.iter().map(|x| konst(8, *x as u64)).collect();
                self.set_bytes(st, c(0)?, &b)?;
                out = C(s.len() as u64);
            }
            _ => return fatal("unknown engine call"),
        }
        Self::set(st, dst, out);
        if next != u32::MAX {
            Self::jump(st, next);
        }
        Ok(false)
    }
    /// A mutating file operation: the process may die just before it.
    pub fn crash_point(&mut self, st: &mut State, kinds: u64) -> X0<u64> {
        if !st.crash {
            return Ok(0);
        }
        let k = self.choose(st, 1 + kinds, "crash")?;
        if k == 1 {
            if !self.throw(st, 1)? {
                return fatal("crash without try");
            }
            return Err(Ctl::Jump);
        }
        Ok(k)
    }
    /// A file operation: it may fail (1) or, if it writes, be cut short (2).
    pub fn io_fault(&mut self, st: &mut State, kinds: u64) -> X0<u64> {
        if !st.io {
            return Ok(0);
        }
        let k = self.choose(st, 1 + kinds, "io")?;
        if k > 0 {
            st.io = false;
            st.io_failed = k == 1;
        }
        Ok(k)
    }
    pub fn crash_now(&mut self, st: &mut State) -> X0<()> {
        if !self.throw(st, 1)? {
            return fatal("crash without try");
        }
        Err(Ctl::Jump)
    }
    fn intrinsic(&mut self, st: &mut State, fid: u32, av: &[Val], args: &[(Ty, Opd)], rt: &Ty) -> X0<Val> {
        let name = self.m.fns[fid as usize].name.clone();
        let base = name[5..].to_string();
        let k = args.first().map(|a| a.0.bits() as u32).unwrap_or(0);
        let sw = |p: &str| base.starts_with(p);
        if sw("lifetime") || sw("experimental.noalias") || sw("assume") || sw("dbg") || sw("donothing") || sw("x86.sse2.pause") || sw("prefetch") || sw("invariant") {
            return Ok(C(0));
        }
        if sw("memcpy") || sw("memmove") {
            let n = self.conc(st, &av[2], 64)?;
            if n == 0 {
                return Ok(C(0));
            }
            let d = self.conc(st, &av[0], 64)?;
            let s = self.conc(st, &av[1], 64)?;
            self.copy(st, d, s, n)?;
            return Ok(C(0));
        }
        if sw("memset") {
            let n = self.conc(st, &av[2], 64)?;
            if n == 0 {
                return Ok(C(0));
            }
            let d = self.conc(st, &av[0], 64)?;
            let e = av[1].e(8);
            let b = vec![e; n as usize];
            self.set_bytes(st, d, &b)?;
            return Ok(C(0));
        }
        if sw("threadlocal.address") || sw("expect") || sw("ptrmask") || sw("launder") || sw("strip") || sw("ssa.copy") {
            return Ok(av[0].clone());
        }
        if sw("is.constant") {
            return Ok(C(0));
        }
        if sw("objectsize") {
            return Ok(C(u64::MAX));
        }
        if sw("trap") || sw("ubsantrap") || sw("debugtrap") {
            self.panic(st, "trap")?;
        }
        if sw("umax") || sw("umin") || sw("smax") || sw("smin") {
            let p = match &base[..4] {
                "umax" => Pred::Ugt,
                "umin" => Pred::Ult,
                "smax" => Pred::Sgt,
                _ => Pred::Slt,
            };
            let c = self.icmp(p, &args[0].0, &av[0], &av[1])?;
            return Ok(match c {
                C(0) => av[1].clone(),
                C(_) => av[0].clone(),
                X(c) => norm(ite(c, av[0].e(k), av[1].e(k))),
                _ => return fatal("vector max"),
            });
        }
        if sw("fshl") || sw("fshr") {
            let a = concat(&[av[0].e(k), av[1].e(k)]);
            let s = bin(Op::URem, av[2].e(k), konst(k, k as u64));
            let s2 = zext(s, 2 * k);
            return Ok(norm(if sw("fshl") {
                extract(bin(Op::Shl, a, s2), k, k)
            } else {
                extract(bin(Op::LShr, a, s2), 0, k)
            }));
        }
        if sw("ctlz") || sw("cttz") || sw("ctpop") {
            return Ok(match &av[0] {
                C(x) => C(if sw("ctlz") {
                    if *x == 0 { k as u64 } else { (x.leading_zeros() - (64 - k)) as u64 }
                } else if sw("cttz") {
                    if *x == 0 { k as u64 } else { x.trailing_zeros() as u64 }
                } else {
                    x.count_ones() as u64
                }),
                X(e) => norm(if sw("ctlz") {
                    // split on the first byte that is not zero; what is left
                    // depends on one byte only
                    let e = *e;
                    let mut i = k / 8;
                    while k % 8 == 0 && i > 1 {
                        let b = extract(e, (i - 1) * 8, 8);
                        let z = norm(eq(b, konst(8, 0)));
                        if self.conc(st, &z, 1)? == 0 {
                            break;
                        }
                        i -= 1;
                    }
                    if k % 8 == 0 {
                        let b = extract(e, (i - 1) * 8, 8);
                        add(zext(ctlz(b), k), konst(k, (k - 8 * i) as u64))
                    } else {
                        ctlz(e)
                    }
                } else if sw("cttz") {
                    cttz(*e)
                } else {
                    ctpop(*e)
                }),
                _ => return fatal("vector ctlz"),
            });
        }
        if sw("bswap") {
            let e = av[0].e(k);
            let p: Vec<E> = (0..k / 8).map(|i| extract(e, i * 8, 8)).collect();
            return Ok(norm(concat(&p)));
        }
        if sw("bitreverse") {
            let e = av[0].e(k);
            let p: Vec<E> = (0..k).map(|i| extract(e, i, 1)).collect();
            return Ok(norm(concat(&p)));
        }
        if sw("abs") {
            let e = av[0].e(k);
            let n = extract(e, k - 1, 1);
            return Ok(norm(ite(n, crate::expr::sub(konst(k, 0), e), e)));
        }
        if sw("ucmp") || sw("scmp") {
            let r = rt.bits() as u32;
            let (a, b) = (av[0].e(k), av[1].e(k));
            let lt = if sw("ucmp") { ult(a, b) } else { bin(Op::Slt, a, b) };
            return Ok(norm(ite(eq(a, b), konst(r, 0), ite(lt, kb(Bv::ones(r)), konst(r, 1)))));
        }
        if sw("uadd.sat") || sw("usub.sat") {
            let (a, b) = (av[0].e(k), av[1].e(k));
            return Ok(norm(if sw("uadd") {
                let s = crate::expr::add(a, b);
                ite(ult(s, a), kb(Bv::ones(k)), s)
            } else {
                ite(ult(a, b), konst(k, 0), crate::expr::sub(a, b))
            }));
        }
        for (n, o, signed) in [
            ("uadd.with", Op::Add, false),
            ("usub.with", Op::Sub, false),
            ("umul.with", Op::Mul, false),
            ("sadd.with", Op::Add, true),
            ("ssub.with", Op::Sub, true),
            ("smul.with", Op::Mul, true),
        ] {
            if sw(n) {
                let (a, b) = (av[0].e(k), av[1].e(k));
                let r = bin(o, a, b);
                let ov = match (o, signed) {
                    (Op::Add, false) => ult(r, a),
                    (Op::Sub, false) => ult(a, b),
                    _ => {
                        let ex = |x| if signed { sext(x, 2 * k) } else { zext(x, 2 * k) };
                        let wide = bin(o, ex(a), ex(b));
                        not(eq(wide, ex(r)))
                    }
                };
                return Ok(A(Rc::new(vec![norm(r), norm(ov)])));
            }
        }
        if sw("vector.reduce") {
            return fatal(format!("intrinsic {}", name));
        }
        fatal(format!("intrinsic {}", name))
    }
    fn libc(&mut self, st: &mut State, name: &str, av: &[Val]) -> X0<Val> {
        macro_rules! c {
            ($i:expr) => {
                self.conc(st, &av[$i], 64)?
            };
        }
        Ok(match name {
            "malloc" => {
                let n = c!(0);
                C(self.alloc(st, n)?)
            }
            "calloc" => {
                let (a, b) = (c!(0), c!(1));
                C(self.alloc(st, a * b)?)
            }
            "realloc" => {
                let (p, n) = (c!(0), c!(1));
                if p == 0 {
                    C(self.alloc(st, n)?)
                } else {
                    let (id, off) = self.loc(st, p, 0)?;
                    if off != 0 {
                        return fatal("realloc of inner pointer");
                    }
                    let old = st.mem.get(id).unwrap().size;
                    let q = self.alloc(st, n)?;
                    self.copy(st, q, p, old.min(n))?;
                    st.mem.free(id);
                    C(q)
                }
            }
            "free" => {
                let p = c!(0);
                if p != 0 {
                    if p & ((1 << SHIFT) - 1) != 0 || !st.mem.free((p >> SHIFT) as usize) {
                        return fatal("memory: bad free");
                    }
                }
                C(0)
            }
            "posix_memalign" => {
                let (o, n) = (c!(0), c!(2));
                let p = self.alloc(st, n)?;
                self.wr(st, o, 8, p)?;
                C(0)
            }
            "bcmp" | "memcmp" => {
                let n = c!(2);
                if n == 0 {
                    return Ok(C(0));
                }
                let (a, b) = (c!(0), c!(1));
                let x = concat(&self.bytes(st, a, n)?);
                let y = concat(&self.bytes(st, b, n)?);
                let e = eq(x, y);
                if name == "bcmp" || e == tt() {
                    norm(ite(e, konst(32, 0), konst(32, 1)))
                } else {
                    norm(ite(e, konst(32, 0), ite(ult(x, y), konst(32, 0xffff_ffff), konst(32, 1))))
                }
            }
            "strlen" => {
                let p = c!(0);
                C(self.cstr(st, p)?.len() as u64)
            }
            "memcpy" | "memmove" => {
                let n = c!(2);
                let (d, s) = (c!(0), c!(1));
                self.copy(st, d, s, n)?;
                C(d)
            }
            "memset" => {
                let n = c!(2);
                let d = c!(0);
                let e = av[1].e(32);
                let b = vec![extract(e, 0, 8); n as usize];
                self.set_bytes(st, d, &b)?;
                C(d)
            }
            "__errno_location" => C(self.errno_addr),
            "getenv" => C(0),
            "pthread_key_create" => {
                let p = c!(0);
                self.wr(st, p, 4, 1)?;
                C(0)
            }
            "pthread_setspecific" | "pthread_key_delete" | "__cxa_thread_atexit_impl" | "pthread_getspecific" | "poll" | "sched_yield" | "signal" | "sigaction" => C(0),
            "syscall" => match c!(0) {
                186 => C(1),
                202 => C(0),
                318 => {
                    let (p, n) = (c!(1), c!(2));
                    let b = vec![konst(8, 7); n as usize];
                    self.set_bytes(st, p, &b)?;
                    C(n)
                }
                332 => {
                    // statx: not available, the caller falls back to stat
                    self.wr(st, self.errno_addr, 4, 38)?;
                    C(u64::MAX)
                }
                326 => {
                    // copy_file_range
                    let (i, po, o, pi, n) = (c!(1), c!(2), c!(3), c!(4), c!(5));
                    if po != 0 || pi != 0 {
                        return fatal("copy_file_range with offsets");
                    }
                    return self.copy_range(st, i, o, n);
                }
                n => return fatal(format!("syscall {}", n)),
            },
            "getrandom" => {
                let (p, n) = (c!(0), c!(1));
                let b = vec![konst(8, 7); n as usize];
                self.set_bytes(st, p, &b)?;
                C(n)
            }
            "clock_gettime" => {
                let p = c!(1);
                self.wr(st, p, 8, 1_700_000_000)?;
                self.wr(st, p + 8, 8, 0)?;
                C(0)
            }
            "gettid" | "getpid" => C(1),
            "abort" | "_exit" | "exit" => {
                self.panic(st, "abort")?;
                C(0)
            }
            "_Unwind_Backtrace" => C(5),
            "__udivti3" | "__umodti3" => {
                let o = if name == "__udivti3" { Op::UDiv } else { Op::URem };
                norm(bin(o, av[0].e(128), av[1].e(128)))
            }
            _ => return self.file_op(st, name, av),
        })
    }
}
