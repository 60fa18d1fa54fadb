//! Reader of textual LLVM IR (what `rustc --emit=llvm-ir` prints).  Function
//! bodies are decoded the first time they are called.
use crate::bv::Bv;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float(u32),
    Arr(u64, Rc<Ty>),
    Vec(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Other,
}
impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(k) => {
                let b = (*k as u64).div_ceil(8).next_power_of_two();
                b.min(16)
            }
            Ty::Ptr => 8,
            Ty::Float(k) => *k as u64 / 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(n, t) => (n * t.bits()).div_ceil(8).next_power_of_two().min(16),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn bits(&self) -> u64 {
        match self {
            Ty::Int(k) | Ty::Float(k) => *k as u64,
            Ty::Ptr => 64,
            _ => self.size() * 8,
        }
    }
    /// allocation size in bytes
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(k) => {
                let b = (*k as u64).div_ceil(8);
                let a = self.align();
                b.div_ceil(a) * a
            }
            Ty::Ptr => 8,
            Ty::Float(k) => *k as u64 / 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => {
                let b = (n * t.bits()).div_ceil(8);
                b.div_ceil(self.align()) * self.align()
            }
            Ty::Struct(f, _) => {
                let (_, e) = self.layout();
                let _ = f;
                e
            }
            _ => 0,
        }
    }
    pub fn layout(&self) -> (Vec<u64>, u64) {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0u64;
                let mut v = vec![];
                for t in f.iter() {
                    if !packed {
                        o = o.div_ceil(t.align()) * t.align();
                    }
                    v.push(o);
                    o += t.size();
                }
                if !packed {
                    let a = self.align();
                    o = o.div_ceil(a) * a;
                }
                (v, o)
            }
            _ => (vec![], self.size()),
        }
    }
    /// bytes actually stored (iN with N not a multiple of 8 rounds up)
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(k) => (*k as u64).div_ceil(8),
            _ => self.size(),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    C(u64),
    Big(Bv),
    Agg(Rc<Vec<Opd>>),
    Zero(Rc<Ty>),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cast {
    Trunc,
    Zext,
    Sext,
    Same,
    Bitcast,
}
#[derive(Clone, Debug)]
pub enum Callee {
    Fn(u32),
    Reg(Opd),
    Asm,
}
#[derive(Clone, Debug)]
pub enum Ins {
    Bin(BinOp, Ty, Opd, Opd),
    Icmp(Pred, Ty, Opd, Opd),
    Cast(Cast, Ty, Ty, Opd),
    Load(Ty, Opd),
    Store(Ty, Opd, Opd),
    Gep(Opd, u64, Vec<(Opd, u32, u64)>),
    Alloca(u64, Opd),
    Select(Ty, Opd, Opd, Opd, bool),
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(u32, Opd, u32, Rc<Vec<(u64, u32)>>),
    Ret(Option<(Ty, Opd)>),
    Unreachable,
    Call(Callee, Rc<Vec<(Ty, Opd)>>, Ty, u32 /* next block for invoke, u32::MAX otherwise */),
    ExtractValue(Opd, Vec<u32>),
    InsertValue(Ty, Opd, Opd, Vec<u32>),
    ExtractElement(Opd, Opd),
    InsertElement(Ty, Opd, Opd, Opd),
    Shuffle(Ty, Opd, Opd, Rc<Vec<u32>>),
    Rmw(String, Ty, Opd, Opd),
    CmpXchg(Ty, Opd, Opd, Opd),
    Nop,
    Freeze(Opd),
    Bad(String),
}
pub struct Block {
    pub name: String,
    pub phis: Vec<(u32, HashMap<u32, Opd>)>,
    pub ins: Vec<(u32, Ins)>, // (dst register or MAX, instruction)
}
pub struct Func {
    pub name: String,
    pub params: Vec<u32>,
    pub blocks: Vec<Block>,
    pub nregs: u32,
}
pub struct FnDecl {
    pub name: String,
    pub pretty: String,
    pub body: Option<(usize, usize)>, // byte range of "define ... }" in the text
    pub weak: bool,
}
pub struct GlobalDecl {
    pub name: String,
    pub text: (usize, usize),
    pub constant: bool,
    pub external: bool,
}
pub struct Module {
    pub text: String,
    pub fns: Vec<FnDecl>,
    pub fn_ix: HashMap<String, u32>,
    pub globals: Vec<GlobalDecl>,
    pub gl_ix: HashMap<String, u32>,
    pub types: HashMap<String, Ty>,
    pub aliases: HashMap<String, String>,
}
pub const FN_BASE: u64 = 0x7000_0000_0000_0000;
pub const SHIFT: u32 = 24;
/// object numbers: 1.. are globals, in order
pub fn gl_addr(i: u32) -> u64 {
    (i as u64 + 1) << SHIFT
}
pub fn fn_addr(i: u32) -> u64 {
    FN_BASE + i as u64 * 16
}

struct P<'a> {
    s: &'a [u8],
    i: usize,
    m: &'a Module,
}
type R<T> = Result<T, String>;
fn is_id(c: u8) -> bool {
    c.is_ascii_alphanumeric() || matches!(c, b'_' | b'.' | b'$' | b'-')
}
impl<'a> P<'a> {
    fn new(m: &'a Module, s: &'a str) -> P<'a> {
        P { s: s.as_bytes(), i: 0, m }
    }
    fn ws(&mut self) {
        while self.i < self.s.len() && matches!(self.s[self.i], b' ' | b'\n' | b'\t' | b'\r') {
            self.i += 1;
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        *self.s.get(self.i).unwrap_or(&0)
    }
    fn rest(&self) -> String {
        String::from_utf8_lossy(&self.s[self.i..self.s.len().min(self.i + 60)]).into()
    }
    fn eat(&mut self, t: &str) -> bool {
        self.ws();
        if self.s[self.i..].starts_with(t.as_bytes()) {
            self.i += t.len();
            true
        } else {
            false
        }
    }
    fn need(&mut self, t: &str) -> R<()> {
        if self.eat(t) {
            Ok(())
        } else {
            Err(format!("expected {:?} at {:?}", t, self.rest()))
        }
    }
    fn peek_word(&mut self) -> &'a str {
        self.ws();
        let mut j = self.i;
        while j < self.s.len() && is_id(self.s[j]) {
            j += 1;
        }
        std::str::from_utf8(&self.s[self.i..j]).unwrap_or("")
    }
    fn word(&mut self) -> &'a str {
        let w = self.peek_word();
        self.i += w.len();
        w
    }
    fn eat_word(&mut self, t: &str) -> bool {
        if self.peek_word() == t {
            self.i += t.len();
            true
        } else {
            false
        }
    }
    /// after % or @
    fn name(&mut self) -> R<String> {
        if self.s.get(self.i) == Some(&b'"') {
            let (v, _) = self.quoted()?;
            return Ok(String::from_utf8_lossy(&v).into());
        }
        Ok(self.word().to_string())
    }
    fn quoted(&mut self) -> R<(Vec<u8>, ())> {
        self.need("\"")?;
        let mut v = vec![];
        loop {
            match self.s.get(self.i) {
                None => return Err("unterminated string".into()),
                Some(b'"') => {
                    self.i += 1;
                    return Ok((v, ()));
                }
                Some(b'\\') => {
                    if self.s.get(self.i + 1) == Some(&b'\\') {
                        v.push(b'\\');
                        self.i += 2;
                    } else {
                        let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap();
                        v.push(u8::from_str_radix(h, 16).map_err(|e| e.to_string())?);
                        self.i += 3;
                    }
                }
                Some(c) => {
                    v.push(*c);
                    self.i += 1;
                }
            }
        }
    }
    fn balanced(&mut self) -> R<()> {
        // at '(' or '['
        let mut d = 0;
        loop {
            match self.s.get(self.i) {
                None => return Err("unbalanced".into()),
                Some(b'"') => {
                    self.quoted()?;
                    continue;
                }
                Some(b'(') | Some(b'[') => d += 1,
                Some(b')') | Some(b']') => d -= 1,
                _ => {}
            }
            self.i += 1;
            if d == 0 {
                return Ok(());
            }
        }
    }
    fn num(&mut self) -> R<u64> {
        let w = self.word();
        w.parse::<u64>().or_else(|_| w.parse::<i64>().map(|x| x as u64)).map_err(|_| format!("number {:?}", w))
    }
    fn ty(&mut self) -> R<Ty> {
        let t = match self.peek() {
            b'[' => {
                self.i += 1;
                let n = self.num()?;
                self.need("x")?;
                let t = self.ty()?;
                self.need("]")?;
                Ty::Arr(n, Rc::new(t))
            }
            b'<' => {
                self.i += 1;
                if self.peek() == b'{' {
                    let f = self.fields()?;
                    self.need(">")?;
                    Ty::Struct(Rc::new(f), true)
                } else {
                    let n = self.num()?;
                    self.need("x")?;
                    let t = self.ty()?;
                    self.need(">")?;
                    Ty::Vec(n, Rc::new(t))
                }
            }
            b'{' => Ty::Struct(Rc::new(self.fields()?), false),
            b'%' => {
                self.i += 1;
                let n = self.name()?;
                self.m.types.get(&n).cloned().ok_or(format!("type %{}", n))?
            }
            _ => {
                let w = self.word();
                match w {
                    "void" => Ty::Void,
                    "ptr" => {
                        if self.eat(" addrspace(") {
                            self.num()?;
                            self.need(")")?;
                        }
                        Ty::Ptr
                    }
                    "half" => Ty::Float(16),
                    "float" => Ty::Float(32),
                    "double" => Ty::Float(64),
                    "fp128" => Ty::Float(128),
                    "x86_fp80" => Ty::Float(128),
                    "metadata" | "label" | "token" => Ty::Other,
                    _ if w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()) => {
                        Ty::Int(w[1..].parse().unwrap())
                    }
                    _ => return Err(format!("type {:?} {:?}", w, self.rest())),
                }
            }
        };
        Ok(t)
    }
    fn fields(&mut self) -> R<Vec<Ty>> {
        self.need("{")?;
        let mut v = vec![];
        if self.eat("}") {
            return Ok(v);
        }
        loop {
            v.push(self.ty()?);
            if self.eat("}") {
                return Ok(v);
            }
            self.need(",")?;
        }
    }
    fn attrs(&mut self) -> R<()> {
        loop {
            let c = self.peek();
            if c == b'"' {
                self.quoted()?;
                if self.eat("=") {
                    self.quoted()?;
                }
                continue;
            }
            if c == b'#' {
                self.i += 1;
                self.word();
                continue;
            }
            let w = self.peek_word();
            match w {
                "" | "null" | "true" | "false" | "undef" | "poison" | "zeroinitializer" | "getelementptr"
                | "inttoptr" | "ptrtoint" | "ptrtoaddr" | "sub" | "add" | "xor" | "trunc" | "c" | "splat" | "asm" | "none" | "to" => {
                    return Ok(())
                }
                _ if w.as_bytes()[0].is_ascii_digit() || w.as_bytes()[0] == b'-' => return Ok(()),
                // types end return attributes
                "void" | "ptr" | "float" | "double" | "metadata" | "half" | "fp128" => return Ok(()),
                _ if w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()) => return Ok(()),
                "align" => {
                    self.word();
                    if self.peek() == b'(' {
                        self.balanced()?;
                    } else {
                        self.word();
                    }
                }
                _ => {
                    self.word();
                    if self.s.get(self.i) == Some(&b'(') {
                        self.balanced()?;
                    }
                }
            }
        }
    }
}

/// Register names of one function.
struct Regs {
    ix: HashMap<String, u32>,
}
impl Regs {
    fn get(&mut self, n: &str) -> u32 {
        let k = self.ix.len() as u32;
        *self.ix.entry(n.to_string()).or_insert(k)
    }
}

impl<'a> P<'a> {
    fn opd(&mut self, t: &Ty, rg: &mut Regs) -> R<Opd> {
        match self.peek() {
            b'%' => {
                self.i += 1;
                let n = self.name()?;
                Ok(Opd::R(rg.get(&n)))
            }
            b'@' => {
                self.i += 1;
                let n = self.name()?;
                Ok(Opd::C(self.m.addr(&n)?))
            }
            b'"' => Err("string operand".into()),
            b'{' => {
                self.i += 1;
                self.agg("}", rg)
            }
            b'[' => {
                self.i += 1;
                self.agg("]", rg)
            }
            b'<' => {
                self.i += 1;
                if self.eat("{") {
                    let r = self.agg("}", rg)?;
                    self.need(">")?;
                    Ok(r)
                } else {
                    self.agg(">", rg)
                }
            }
            b'!' => {
                // metadata operand: skip to , or )
                self.i += 1;
                self.word();
                if self.peek() == b'{' || self.peek() == b'(' {
                    return Err("metadata".into());
                }
                Ok(Opd::C(0))
            }
            _ => {
                let w = self.word();
                match w {
                    "true" => Ok(Opd::C(1)),
                    "false" | "null" => Ok(Opd::C(0)),
                    "undef" | "poison" | "zeroinitializer" | "none" => Ok(zero(t)),
                    "splat" => {
                        self.need("(")?;
                        let et = self.ty()?;
                        let o = self.opd(&et, rg)?;
                        self.need(")")?;
                        match t {
                            Ty::Vec(n, _) | Ty::Arr(n, _) => Ok(Opd::Agg(Rc::new(vec![o; *n as usize]))),
                            _ => Err("splat".into()),
                        }
                    }
                    "c" => {
                        let (v, _) = self.quoted()?;
                        Ok(Opd::Agg(Rc::new(v.into_iter().map(|b| Opd::C(b as u64)).collect())))
                    }
                    "getelementptr" => {
                        while matches!(self.peek_word(), "inbounds" | "nuw" | "nusw" | "inrange") {
                            self.word();
                            if self.s.get(self.i) == Some(&b'(') && self.s[self.i - 1] != b' ' {
                                self.balanced()?;
                            }
                        }
                        self.need("(")?;
                        let (b, off, sc) = self.gep_body(rg)?;
                        self.need(")")?;
                        let mut a = cval(&b)?.wrapping_add(off);
                        for (o, _, s) in sc {
                            a = a.wrapping_add(cval(&o)?.wrapping_mul(s));
                        }
                        Ok(Opd::C(a))
                    }
                    "inttoptr" | "ptrtoint" | "ptrtoaddr" | "trunc" | "bitcast" => {
                        self.need("(")?;
                        let t1 = self.ty()?;
                        let o = self.opd(&t1, rg)?;
                        self.need("to")?;
                        let t2 = self.ty()?;
                        self.need(")")?;
                        let v = cval(&o)?;
                        let k = t2.bits();
                        Ok(Opd::C(if k < 64 { v & ((1 << k) - 1) } else { v }))
                    }
                    "sub" | "add" | "xor" => {
                        while matches!(self.peek_word(), "nuw" | "nsw") {
                            self.word();
                        }
                        self.need("(")?;
                        let t1 = self.ty()?;
                        let a = self.opd(&t1, rg)?;
                        self.need(",")?;
                        let t2 = self.ty()?;
                        let b = self.opd(&t2, rg)?;
                        self.need(")")?;
                        let (a, b) = (cval(&a)?, cval(&b)?);
                        let v = match w {
                            "sub" => a.wrapping_sub(b),
                            "add" => a.wrapping_add(b),
                            _ => a ^ b,
                        };
                        let k = t1.bits();
                        Ok(Opd::C(if k < 64 { v & ((1 << k) - 1) } else { v }))
                    }
                    _ => match t {
                        Ty::Int(k) => int(w, *k),
                        Ty::Float(k) => {
                            if let Some(h) = w.strip_prefix("0x") {
                                let v = u64::from_str_radix(h, 16).map_err(|_| format!("float {}", w))?;
                                Ok(Opd::C(if *k == 32 { (f64::from_bits(v) as f32).to_bits() as u64 } else { v }))
                            } else {
                                let v: f64 = w.parse().map_err(|_| format!("float {}", w))?;
                                Ok(Opd::C(if *k == 32 { (v as f32).to_bits() as u64 } else { v.to_bits() }))
                            }
                        }
                        _ => Err(format!("operand {:?} {:?} of {:?}", w, self.rest(), t)),
                    },
                }
            }
        }
    }
    fn agg(&mut self, end: &str, rg: &mut Regs) -> R<Opd> {
        let mut v = vec![];
        if self.eat(end) {
            return Ok(Opd::Agg(Rc::new(v)));
        }
        loop {
            let t = self.ty()?;
            v.push(self.opd(&t, rg)?);
            if self.eat(end) {
                return Ok(Opd::Agg(Rc::new(v)));
            }
            self.need(",")?;
        }
    }
    fn gep_body(&mut self, rg: &mut Regs) -> R<(Opd, u64, Vec<(Opd, u32, u64)>)> {
        let st = self.ty()?;
        self.need(",")?;
        let pt = self.ty()?;
        let base = self.opd(&pt, rg)?;
        let mut off = 0u64;
        let mut sc = vec![];
        let mut cur = st;
        let mut first = true;
        while self.eat(",") {
            if self.peek() == b'!' {
                break;
            }
            self.eat_word("inrange");
            let it = self.ty()?;
            let o = self.opd(&it, rg)?;
            let (step, next) = if first {
                (cur.size(), cur.clone())
            } else {
                match &cur {
                    Ty::Arr(_, t) | Ty::Vec(_, t) => (t.size(), (**t).clone()),
                    Ty::Struct(f, _) => {
                        let k = cval(&o)? as usize;
                        off = off.wrapping_add(cur.layout().0[k]);
                        let n = f[k].clone();
                        cur = n;
                        continue;
                    }
                    _ => return Err("gep into scalar".into()),
                }
            };
            first = false;
            cur = next;
            match o {
                Opd::C(v) => {
                    let k = it.bits() as u32;
                    let v = if k < 64 { ((v << (64 - k)) as i64 >> (64 - k)) as u64 } else { v };
                    off = off.wrapping_add(v.wrapping_mul(step))
                }
                o => sc.push((o, it.bits() as u32, step)),
            }
        }
        Ok((base, off, sc))
    }
}
fn zero(t: &Ty) -> Opd {
    match t {
        Ty::Int(k) if *k > 64 => Opd::Big(Bv::zero(*k)),
        Ty::Int(_) | Ty::Ptr | Ty::Float(_) => Opd::C(0),
        _ => Opd::Zero(Rc::new(t.clone())),
    }
}
fn cval(o: &Opd) -> R<u64> {
    match o {
        Opd::C(v) => Ok(*v),
        _ => Err("constant expression".into()),
    }
}
fn int(w: &str, k: u32) -> R<Opd> {
    let (neg, d) = match w.strip_prefix('-') {
        Some(d) => (true, d),
        None => (false, w),
    };
    if d.is_empty() || !d.bytes().all(|c| c.is_ascii_digit()) {
        return Err(format!("integer {:?}", w));
    }
    if k <= 64 {
        let v = d.parse::<u64>().map_err(|e| e.to_string())?;
        let v = if neg { v.wrapping_neg() } else { v };
        return Ok(Opd::C(if k < 64 { v & ((1u64 << k) - 1) } else { v }));
    }
    let mut b = Bv::zero(k);
    let ten = Bv::u(k, 10);
    for c in d.bytes() {
        b = b.mul(&ten).add(&Bv::u(k, (c - b'0') as u64));
    }
    Ok(Opd::Big(if neg { b.neg() } else { b }))
}

impl Module {
    pub fn addr(&self, n: &str) -> R<u64> {
        let n = self.aliases.get(n).map(|s| s.as_str()).unwrap_or(n);
        if let Some(i) = self.gl_ix.get(n) {
            return Ok(gl_addr(*i));
        }
        if let Some(i) = self.fn_ix.get(n) {
            return Ok(if self.fns[*i as usize].weak { 0 } else { fn_addr(*i) });
        }
        Err(format!("symbol @{}", n))
    }
    pub fn load(text: String) -> R<Module> {
        let mut m = Module {
            text: String::new(),
            fns: vec![],
            fn_ix: HashMap::new(),
            globals: vec![],
            gl_ix: HashMap::new(),
            types: HashMap::new(),
            aliases: HashMap::new(),
        };
        let mut pos = 0;
        let mut pretty: HashMap<String, String> = HashMap::new();
        let mut last_comment: Option<&str> = None;
        let mut lines: Vec<(usize, usize)> = vec![];
        for l in text.split_inclusive('\n') {
            lines.push((pos, pos + l.len()));
            pos += l.len();
        }
        fn fname(l: &str) -> Option<String> {
            let i = l.find('@')?;
            let r = &l[i + 1..];
            if let Some(q) = r.strip_prefix('"') {
                return Some(q[..q.find('"')?].to_string());
            }
            let j = r.bytes().position(|c| !is_id(c)).unwrap_or(r.len());
            Some(r[..j].to_string())
        }
        let mut i = 0;
        let mut named = vec![];
        while i < lines.len() {
            let (a, b) = lines[i];
            let l = text[a..b].trim_end();
            if let Some(c) = l.strip_prefix("; ") {
                last_comment = Some(c);
                i += 1;
                continue;
            }
            if l.starts_with("define ") {
                let name = fname(l).ok_or("define")?;
                let mut j = i + 1;
                while j < lines.len() && text[lines[j].0..lines[j].1].trim_end() != "}" {
                    let t = &text[lines[j].0..lines[j].1];
                    if let Some(c) = t.strip_prefix("; call ").or(t.strip_prefix("; invoke ")) {
                        if let Some(&(x, y)) = lines.get(j + 1) {
                            if let Some(n) = fname(&text[x..y]) {
                                pretty.entry(n).or_insert_with(|| c.trim_end().to_string());
                            }
                        }
                    }
                    j += 1;
                }
                if let Some(c) = last_comment.take() {
                    if !c.starts_with("Function Attrs") {
                        pretty.insert(name.clone(), c.to_string());
                    }
                }
                m.fn_ix.insert(name.clone(), m.fns.len() as u32);
                m.fns.push(FnDecl { name, pretty: String::new(), body: Some((a, lines[j].1)), weak: false });
                i = j + 1;
                continue;
            }
            if l.starts_with("declare ") {
                let name = fname(l).ok_or("declare")?;
                let weak = l.contains("extern_weak");
                m.fn_ix.insert(name.clone(), m.fns.len() as u32);
                m.fns.push(FnDecl { name, pretty: String::new(), body: None, weak });
            } else if l.starts_with('@') {
                let name = fname(l).ok_or("global")?;
                let eq = l.find(" = ").ok_or("global =")?;
                let body = &l[eq + 3..];
                if body.contains(" alias ") && !body.contains("constant") {
                    let k = body.rfind('@').ok_or("alias")?;
                    let t = fname(&body[k..]).ok_or("alias")?;
                    m.aliases.insert(name, t);
                } else {
                    let words: Vec<&str> = body.split(' ').take(14).collect();
                    let constant = words.iter().position(|w| *w == "constant");
                    let global = words.iter().position(|w| *w == "global");
                    let is_const = match (constant, global) {
                        (Some(c), Some(g)) => c < g,
                        (Some(_), None) => true,
                        _ => false,
                    };
                    let external = words[0] == "external" || words[0] == "extern_weak";
                    m.gl_ix.insert(name.clone(), m.globals.len() as u32);
                    m.globals.push(GlobalDecl { name, text: (a + eq + 3, b), constant: is_const, external });
                }
            } else if l.starts_with('%') {
                named.push((a, b));
            }
            last_comment = None;
            i += 1;
        }
        m.text = text;
        for (a, b) in named {
            let l = m.text[a..b].trim_end().to_string();
            let Some(eq) = l.find(" = type ") else { continue };
            let n = l[1..eq].trim_matches('"').to_string();
            let t = {
                let mut p = P::new(&m, &l[eq + 8..]);
                if p.eat_word("opaque") { Ty::Other } else { p.ty()? }
            };
            m.types.insert(n, t);
        }
        for f in m.fns.iter_mut() {
            f.pretty = pretty.get(&f.name).cloned().unwrap_or_else(|| f.name.clone());
        }
        Ok(m)
    }
    /// (type, initial value) of a global
    pub fn global(&self, i: u32) -> R<(Ty, Option<Opd>)> {
        let g = &self.globals[i as usize];
        let s = &self.text[g.text.0..g.text.1];
        let mut p = P::new(self, s);
        loop {
            let w = p.word();
            match w {
                "constant" | "global" => break,
                "" => return Err(format!("global {}: {}", g.name, p.rest())),
                _ => {
                    if p.s.get(p.i) == Some(&b'(') {
                        p.balanced()?;
                    }
                }
            }
        }
        let t = p.ty()?;
        if g.external {
            return Ok((t, None));
        }
        let mut rg = Regs { ix: HashMap::new() };
        let v = p.opd(&t, &mut rg)?;
        Ok((t, Some(v)))
    }
    pub fn func(&self, i: u32) -> R<Func> {
        let f = &self.fns[i as usize];
        let (a, b) = f.body.ok_or(format!("no body: {}", f.name))?;
        let mut lines: Vec<String> = vec![];
        let mut it = self.text[a..b].lines();
        let head = it.next().unwrap();
        let mut open_switch = false;
        for l in it {
            if l == "}" || l.is_empty() || l.starts_with(';') {
                continue;
            }
            if open_switch {
                let k = lines.last_mut().unwrap();
                k.push(' ');
                k.push_str(l.trim());
                if l.trim_start().starts_with(']') {
                    open_switch = false;
                }
                continue;
            }
            let t = l.trim_start();
            if t.starts_with("to label ") || t.starts_with("cleanup") || t.starts_with("catch ") || t.starts_with("filter ") {
                let k = lines.last_mut().unwrap();
                k.push(' ');
                k.push_str(t);
                continue;
            }
            lines.push(l.to_string());
            if t.starts_with("switch ") && !t.contains(']') {
                open_switch = true;
            }
        }
        let mut rg = Regs { ix: HashMap::new() };
        // parameters
        let mut params = vec![];
        {
            let mut p = P::new(self, head);
            let k = head.find('@').unwrap();
            p.i = k + 1;
            p.name()?;
            p.need("(")?;
            let mut anon = 0;
            if !p.eat(")") {
                loop {
                    if p.eat("...") {
                        p.need(")")?;
                        break;
                    }
                    p.ty()?;
                    p.attrs()?;
                    let n = if p.peek() == b'%' {
                        p.i += 1;
                        p.name()?
                    } else {
                        anon += 1;
                        format!("{}", anon - 1)
                    };
                    params.push(rg.get(&n));
                    if p.eat(")") {
                        break;
                    }
                    p.need(",")?;
                }
            }
        }
        // labels
        let label = |l: &str| -> Option<String> {
            if l.starts_with(' ') {
                return None;
            }
            if let Some(q) = l.strip_prefix('"') {
                return Some(q[..q.find('"')?].to_string());
            }
            let j = l.find(':')?;
            Some(l[..j].to_string())
        };
        let mut bix: HashMap<String, u32> = HashMap::new();
        let first_labeled = lines.first().and_then(|l| label(l)).is_some();
        if !first_labeled {
            // entry block numbered after the parameters
            bix.insert(format!("{}", params.len()), 0);
        }
        for l in &lines {
            if let Some(n) = label(l) {
                let k = bix.len() as u32;
                bix.insert(n, k);
            }
        }
        let mut blocks: Vec<Block> = vec![];
        if !first_labeled {
            blocks.push(Block { name: "entry".into(), phis: vec![], ins: vec![] });
        }
        for l in &lines {
            if let Some(n) = label(l) {
                blocks.push(Block { name: n, phis: vec![], ins: vec![] });
                continue;
            }
            let mut p = P::new(self, l);
            p.ws();
            let mut dst = u32::MAX;
            if p.peek() == b'%' {
                p.i += 1;
                let n = p.name()?;
                p.need("=")?;
                dst = rg.get(&n);
            }
            let save = p.i;
            let blk = blocks.last_mut().unwrap();
            if p.peek_word() == "phi" {
                p.word();
                let t = p.ty()?;
                let mut h = HashMap::new();
                loop {
                    p.need("[")?;
                    let o = p.opd(&t, &mut rg)?;
                    p.need(",")?;
                    p.need("%")?;
                    let n = p.name()?;
                    p.need("]")?;
                    if let Some(k) = bix.get(&n) {
                        h.insert(*k, o);
                    }
                    if !p.eat(",") || p.peek() == b'!' {
                        break;
                    }
                }
                blk.phis.push((dst, h));
                continue;
            }
            match ins(&mut p, &mut rg, &bix) {
                Ok(i) => blk.ins.push((dst, i)),
                Err(e) => {
                    let _ = save;
                    blk.ins.push((dst, Ins::Bad(format!("{} in {:?}", e, l.trim()))))
                }
            }
        }
        Ok(Func { name: f.name.clone(), params, blocks, nregs: rg.ix.len() as u32 })
    }
}
fn ins(p: &mut P, rg: &mut Regs, bix: &HashMap<String, u32>) -> R<Ins> {
    let op = p.word();
    fn lbl(p: &mut P, bix: &HashMap<String, u32>) -> R<u32> {
        p.need("label")?;
        p.need("%")?;
        let n = p.name()?;
        bix.get(&n).copied().ok_or(format!("label {}", n))
    }
    let flags = |p: &mut P| {
        while matches!(
            p.peek_word(),
            "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "inbounds" | "nusw" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "volatile" | "weak"
        ) {
            p.word();
        }
    };
    let b = match op {
        "add" => Some(BinOp::Add),
        "sub" => Some(BinOp::Sub),
        "mul" => Some(BinOp::Mul),
        "udiv" => Some(BinOp::UDiv),
        "urem" => Some(BinOp::URem),
        "sdiv" => Some(BinOp::SDiv),
        "srem" => Some(BinOp::SRem),
        "and" => Some(BinOp::And),
        "or" => Some(BinOp::Or),
        "xor" => Some(BinOp::Xor),
        "shl" => Some(BinOp::Shl),
        "lshr" => Some(BinOp::LShr),
        "ashr" => Some(BinOp::AShr),
        _ => None,
    };
    if let Some(b) = b {
        flags(p);
        let t = p.ty()?;
        let x = p.opd(&t, rg)?;
        p.need(",")?;
        let y = p.opd(&t, rg)?;
        return Ok(Ins::Bin(b, t, x, y));
    }
    match op {
        "icmp" => {
            flags(p);
            let pr = match p.word() {
                "eq" => Pred::Eq,
                "ne" => Pred::Ne,
                "ult" => Pred::Ult,
                "ule" => Pred::Ule,
                "ugt" => Pred::Ugt,
                "uge" => Pred::Uge,
                "slt" => Pred::Slt,
                "sle" => Pred::Sle,
                "sgt" => Pred::Sgt,
                "sge" => Pred::Sge,
                w => return Err(format!("icmp {}", w)),
            };
            let t = p.ty()?;
            let x = p.opd(&t, rg)?;
            p.need(",")?;
            let y = p.opd(&t, rg)?;
            Ok(Ins::Icmp(pr, t, x, y))
        }
        "trunc" | "zext" | "sext" | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "bitcast" => {
            flags(p);
            let t = p.ty()?;
            let x = p.opd(&t, rg)?;
            p.need("to")?;
            let t2 = p.ty()?;
            let c = match op {
                "trunc" => Cast::Trunc,
                "zext" => Cast::Zext,
                "sext" => Cast::Sext,
                "bitcast" => Cast::Bitcast,
                _ if t2.bits() < t.bits() => Cast::Trunc,
                _ if t2.bits() > t.bits() => Cast::Zext,
                _ => Cast::Same,
            };
            Ok(Ins::Cast(c, t, t2, x))
        }
        "load" => {
            p.eat_word("atomic");
            flags(p);
            let t = p.ty()?;
            p.need(",")?;
            let pt = p.ty()?;
            let a = p.opd(&pt, rg)?;
            Ok(Ins::Load(t, a))
        }
        "store" => {
            p.eat_word("atomic");
            flags(p);
            let t = p.ty()?;
            let v = p.opd(&t, rg)?;
            p.need(",")?;
            let pt = p.ty()?;
            let a = p.opd(&pt, rg)?;
            Ok(Ins::Store(t, v, a))
        }
        "getelementptr" => {
            flags(p);
            let (b, o, s) = p.gep_body(rg)?;
            Ok(Ins::Gep(b, o, s))
        }
        "alloca" => {
            p.eat_word("inalloca");
            let t = p.ty()?;
            let mut n = Opd::C(1);
            if p.eat(",") {
                if p.peek_word() != "align" && p.peek() != b'!' {
                    let nt = p.ty()?;
                    n = p.opd(&nt, rg)?;
                }
            }
            Ok(Ins::Alloca(t.size(), n))
        }
        "select" => {
            flags(p);
            let ct = p.ty()?;
            let c = p.opd(&ct, rg)?;
            p.need(",")?;
            let t = p.ty()?;
            let x = p.opd(&t, rg)?;
            p.need(",")?;
            let t2 = p.ty()?;
            let y = p.opd(&t2, rg)?;
            Ok(Ins::Select(t, c, x, y, matches!(ct, Ty::Vec(..))))
        }
        "br" => {
            if p.peek_word() == "label" {
                return Ok(Ins::Br(lbl(p, bix)?));
            }
            let t = p.ty()?;
            let c = p.opd(&t, rg)?;
            p.need(",")?;
            let a = lbl(p, bix)?;
            p.need(",")?;
            let b = lbl(p, bix)?;
            Ok(Ins::CondBr(c, a, b))
        }
        "switch" => {
            let t = p.ty()?;
            let v = p.opd(&t, rg)?;
            p.need(",")?;
            let d = lbl(p, bix)?;
            p.need("[")?;
            let mut cs = vec![];
            while !p.eat("]") {
                let ct = p.ty()?;
                let c = cval(&p.opd(&ct, rg)?)?;
                p.need(",")?;
                cs.push((c, lbl(p, bix)?));
            }
            Ok(Ins::Switch(t.bits() as u32, v, d, Rc::new(cs)))
        }
        "ret" => {
            let t = p.ty()?;
            if t == Ty::Void {
                return Ok(Ins::Ret(None));
            }
            let v = p.opd(&t, rg)?;
            Ok(Ins::Ret(Some((t, v))))
        }
        "unreachable" => Ok(Ins::Unreachable),
        "fence" => Ok(Ins::Nop),
        "freeze" => {
            let t = p.ty()?;
            Ok(Ins::Freeze(p.opd(&t, rg)?))
        }
        "extractvalue" => {
            let t = p.ty()?;
            let v = p.opd(&t, rg)?;
            let mut ix = vec![];
            while p.eat(",") {
                if p.peek() == b'!' {
                    break;
                }
                ix.push(p.num()? as u32);
            }
            Ok(Ins::ExtractValue(v, ix))
        }
        "insertvalue" => {
            let t = p.ty()?;
            let v = p.opd(&t, rg)?;
            p.need(",")?;
            let t2 = p.ty()?;
            let x = p.opd(&t2, rg)?;
            let mut ix = vec![];
            while p.eat(",") {
                if p.peek() == b'!' {
                    break;
                }
                ix.push(p.num()? as u32);
            }
            Ok(Ins::InsertValue(t, v, x, ix))
        }
        "extractelement" => {
            let t = p.ty()?;
            let v = p.opd(&t, rg)?;
            p.need(",")?;
            let t2 = p.ty()?;
            let i = p.opd(&t2, rg)?;
            Ok(Ins::ExtractElement(v, i))
        }
        "insertelement" => {
            let t = p.ty()?;
            let v = p.opd(&t, rg)?;
            p.need(",")?;
            let t2 = p.ty()?;
            let x = p.opd(&t2, rg)?;
            p.need(",")?;
            let t3 = p.ty()?;
            let i = p.opd(&t3, rg)?;
            Ok(Ins::InsertElement(t, v, x, i))
        }
        "shufflevector" => {
            let t = p.ty()?;
            let a = p.opd(&t, rg)?;
            p.need(",")?;
            let t2 = p.ty()?;
            let b = p.opd(&t2, rg)?;
            p.need(",")?;
            let t3 = p.ty()?;
            let m = p.opd(&t3, rg)?;
            let n = match &t3 {
                Ty::Vec(n, _) => *n as usize,
                _ => return Err("shuffle mask".into()),
            };
            let mask = match m {
                Opd::Zero(_) => vec![0; n],
                Opd::Agg(v) => v.iter().map(|o| cval(o).unwrap_or(0) as u32).collect(),
                _ => return Err("shuffle mask".into()),
            };
            Ok(Ins::Shuffle(t, a, b, Rc::new(mask)))
        }
        "atomicrmw" => {
            flags(p);
            let o = p.word().to_string();
            let pt = p.ty()?;
            let a = p.opd(&pt, rg)?;
            p.need(",")?;
            let t = p.ty()?;
            let v = p.opd(&t, rg)?;
            Ok(Ins::Rmw(o, t, a, v))
        }
        "cmpxchg" => {
            flags(p);
            let pt = p.ty()?;
            let a = p.opd(&pt, rg)?;
            p.need(",")?;
            let t = p.ty()?;
            let e = p.opd(&t, rg)?;
            p.need(",")?;
            let t2 = p.ty()?;
            let n = p.opd(&t2, rg)?;
            Ok(Ins::CmpXchg(t, a, e, n))
        }
        "tail" | "musttail" | "notail" | "call" | "invoke" => {
            let inv = op == "invoke";
            if op != "call" && op != "invoke" {
                p.need("call")?;
            }
            flags(p);
            if matches!(p.peek_word(), "fastcc" | "coldcc" | "ccc" | "preserve_mostcc" | "preserve_allcc") {
                p.word();
            }
            p.attrs()?;
            let rt = p.ty()?;
            p.ws();
            if p.peek() == b'(' {
                p.balanced()?;
            }
            let callee = if p.peek_word() == "asm" {
                p.word();
                while matches!(p.peek_word(), "sideeffect" | "alignstack" | "inteldialect" | "unwind") {
                    p.word();
                }
                p.quoted()?;
                p.need(",")?;
                p.quoted()?;
                Callee::Asm
            } else if p.peek() == b'@' {
                p.i += 1;
                let n = p.name()?;
                let n = p.m.aliases.get(&n).cloned().unwrap_or(n);
                Callee::Fn(*p.m.fn_ix.get(&n).ok_or(format!("function @{}", n))?)
            } else {
                Callee::Reg(p.opd(&Ty::Ptr, rg)?)
            };
            p.need("(")?;
            let mut args = vec![];
            if !p.eat(")") {
                loop {
                    let t = p.ty()?;
                    if t == Ty::Other {
                        // metadata argument
                        let mut d = 0;
                        while p.i < p.s.len() {
                            match p.s[p.i] {
                                b'(' => d += 1,
                                b')' if d == 0 => break,
                                b')' => d -= 1,
                                b',' if d == 0 => break,
                                _ => {}
                            }
                            p.i += 1;
                        }
                        args.push((Ty::Other, Opd::C(0)));
                    } else {
                        p.attrs()?;
                        let o = p.opd(&t, rg)?;
                        args.push((t, o));
                    }
                    if p.eat(")") {
                        break;
                    }
                    p.need(",")?;
                }
            }
            let mut next = u32::MAX;
            if inv {
                p.attrs()?;
                if p.peek() == b'[' {
                    p.balanced()?;
                }
                p.need("to")?;
                next = lbl(p, bix)?;
            }
            Ok(Ins::Call(callee, Rc::new(args), rt, next))
        }
        _ => Err(format!("instruction {:?}", op)),
    }
}
