//! Parser for textual LLVM IR (as printed by the rustc-bundled llvm-dis) into a
//! compact, executable form.  Functions are decoded lazily.
use std::collections::HashMap;
use std::sync::{Arc, OnceLock};

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Array(u64, Arc<Ty>),
    Struct(Vec<Ty>, bool),
    Vector(u64, Arc<Ty>),
    Other,
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match w { 0..=8 => 1, 9..=16 => 2, 17..=32 => 4, 33..=64 => 8, _ => 16 },
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Array(_, t) => t.align(),
            Ty::Struct(f, packed) => if *packed { 1 } else { f.iter().map(|t| t.align()).max().unwrap_or(1) },
            Ty::Vector(n, t) => (n * t.bits() / 8).next_power_of_two().max(1),
            _ => 1,
        }
    }
    /// bytes touched by a load or store (an i40 takes 8 bytes in an array but only 5 are accessed)
    pub fn store_size(&self) -> u64 { match self { Ty::Int(w) => (*w as u64 + 7) / 8, t => t.size() } }
    pub fn bits(&self) -> u64 {
        match self { Ty::Int(w) => *w as u64, Ty::Ptr | Ty::F64 => 64, Ty::F32 => 32, _ => self.size() * 8 }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => { let b = (*w as u64 + 7) / 8; let a = self.align(); (b + a - 1) / a * a }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Array(n, t) => n * t.size(),
            Ty::Vector(n, t) => (n * t.bits() + 7) / 8,
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f { if !packed { let a = t.align(); o = (o + a - 1) / a * a; } o += t.size(); }
                if !packed { let a = self.align(); o = (o + a - 1) / a * a; }
                o
            }
            _ => 0,
        }
    }
    pub fn offset(&self, i: usize) -> (u64, Ty) {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !packed { let a = t.align(); o = (o + a - 1) / a * a; }
                    if k == i { return (o, t.clone()); }
                    o += t.size();
                }
                panic!("field index")
            }
            Ty::Array(_, t) => (t.size() * i as u64, (**t).clone()),
            Ty::Vector(_, t) => (t.bits() / 8 * i as u64, (**t).clone()),
            _ => panic!("offset of {:?}", self),
        }
    }
    pub fn nelem(&self) -> usize {
        match self { Ty::Struct(f, _) => f.len(), Ty::Array(n, _) | Ty::Vector(n, _) => *n as usize, _ => 0 }
    }
    pub fn is_agg(&self) -> bool { matches!(self, Ty::Struct(..) | Ty::Array(..) | Ty::Vector(..)) }
}

#[derive(Clone, Debug)]
pub enum KV { I(u64), W(u128), A(Vec<KV>) }

#[derive(Clone, Debug)]
pub enum Opd { R(u32), I(u64), K(Arc<KV>) }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum BinOp { Add, Sub, Mul, UDiv, URem, SDiv, SRem, And, Or, Xor, Shl, LShr, AShr, FAdd, FSub, FMul, FDiv }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastOp { ZExt, SExt, Trunc, PtrToInt, IntToPtr, BitCast, UIToFP, SIToFP, FPToUI, FPToSI, FPExt, FPTrunc }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Rmw { Xchg, Add, Sub, And, Or, Xor, Nand, Max, Min, UMax, UMin }

#[derive(Debug)]
pub struct Edge { pub pc: u32, pub moves: Box<[(u32, Opd)]> }

#[derive(Debug)]
pub enum Callee { Direct(u32), Intrinsic(Intr), Indirect(Opd), AsmNop }

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Intr {
    Nop, Memcpy, Memset, Ctlz, Cttz, Ctpop, Bswap, BitReverse, Fshl, Fshr, UMax, UMin, SMax, SMin, Abs,
    UAddO, USubO, UMulO, SAddO, SSubO, SMulO, UAddSat, USubSat, SAddSat, SSubSat, Ucmp, Scmp, Assume, Expect, IsConstant,
    Trap, TlsAddr, LoadRelative, ObjectSize, PtrMask, VecReduceOr, VecReduceAnd, VecReduceAdd, VecReduceXor, Unsupported,
}

#[derive(Debug)]
pub enum Inst {
    Bin { op: BinOp, w: u8, d: u32, a: Opd, b: Opd },
    VBin { op: BinOp, ty: Ty, d: u32, a: Opd, b: Opd },
    Icmp { p: Pred, w: u8, d: u32, a: Opd, b: Opd },
    VIcmp { p: Pred, w: u8, d: u32, a: Opd, b: Opd },
    Fcmp { p: String, w: u8, d: u32, a: Opd, b: Opd },
    FNeg { w: u8, d: u32, a: Opd },
    Load { d: u32, ty: Ty, w: u8, sz: u32, p: Opd },
    Store { ty: Ty, w: u8, sz: u32, v: Opd, p: Opd },
    Gep { d: u32, base: Opd, off: u64, idx: Box<[(Opd, u64, u8)]> },
    Select { d: u32, vec: bool, c: Opd, a: Opd, b: Opd, w: u8 },
    Cast { op: CastOp, d: u32, from: Ty, to: Ty, fw: u8, tw: u8, a: Opd },
    Mov { d: u32, a: Opd },
    Br(Edge),
    CondBr { c: Opd, t: Edge, e: Edge },
    Switch { v: Opd, w: u8, cases: Vec<(u64, u32)>, edges: Vec<Edge>, map: HashMap<u64, u32>, default: u32 },
    Ret(Option<Opd>),
    Unreachable,
    Call { d: Option<u32>, callee: Callee, args: Box<[Opd]>, w: u8, rty: Ty, argw: Box<[u8]>, next: Option<Edge> },
    Extract { d: u32, a: Opd, path: Box<[u32]> },
    Insert { d: u32, a: Opd, v: Opd, path: Box<[u32]> },
    ExtractElt { d: u32, a: Opd, i: Opd },
    InsertElt { d: u32, a: Opd, v: Opd, i: Opd },
    Shuffle { d: u32, a: Opd, b: Opd, n: u32, mask: Vec<u32> },
    Alloca { d: u32, sz: u64 },
    AtomicRmw { op: Rmw, d: u32, p: Opd, v: Opd, w: u8, sz: u32 },
    CmpXchg { d: u32, p: Opd, c: Opd, n: Opd, w: u8, sz: u32 },
    Nop,
    Unsupported(String),
}

pub struct Func {
    pub nregs: u32,
    pub params: Vec<u32>,
    pub code: Vec<Inst>,
}

pub struct FuncSlot {
    pub name: String,
    pub text: (usize, usize), // empty for declarations
    pub weak: bool,
    pub func: OnceLock<Arc<Func>>,
}

pub struct Global {
    pub name: String,
    pub addr: u64,
    pub size: u64,
    pub constant: bool,
    pub data: Arc<Vec<u8>>,
}

pub struct Module {
    pub text: String,
    pub types: HashMap<String, Ty>,
    pub funcs: Vec<FuncSlot>,
    pub fidx: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub gsym: HashMap<String, u64>,
    pub gmap: Vec<u32>, // (addr>>4) - GBASE>>4 -> global index+1
    pub gend: u64,
}

pub const GBASE: u64 = 0x10000;
pub const FBASE: u64 = 0x6000_0000;

#[derive(Clone, Debug, PartialEq)]
enum Tok<'a> { W(&'a str), L(&'a str), G(&'a str), M(&'a str), Int(&'a str), Str(&'a str), P(u8), End }

struct Lex<'a> { s: &'a [u8], t: &'a str, i: usize, peeked: Option<(Tok<'a>, usize)> }

fn isw(c: u8) -> bool { c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-' }

impl<'a> Lex<'a> {
    fn new(t: &'a str) -> Self { Lex { s: t.as_bytes(), t, i: 0, peeked: None } }
    fn raw(&mut self) -> Tok<'a> {
        let s = self.s;
        loop {
            while self.i < s.len() && (s[self.i] == b' ' || s[self.i] == b'\n' || s[self.i] == b'\t' || s[self.i] == b'\r') { self.i += 1; }
            if self.i < s.len() && s[self.i] == b';' { while self.i < s.len() && s[self.i] != b'\n' { self.i += 1; } continue; }
            break;
        }
        if self.i >= s.len() { return Tok::End; }
        let c = s[self.i];
        let st = self.i;
        match c {
            b'%' | b'@' | b'!' | b'#' => {
                self.i += 1;
                if self.i < s.len() && s[self.i] == b'"' {
                    let q = self.i + 1;
                    self.i += 1;
                    while s[self.i] != b'"' { self.i += 1; }
                    self.i += 1;
                    let n = &self.t[q..self.i - 1];
                    return match c { b'%' => Tok::L(n), b'@' => Tok::G(n), _ => Tok::M(n) };
                }
                let q = self.i;
                while self.i < s.len() && isw(s[self.i]) { self.i += 1; }
                let n = &self.t[q..self.i];
                match c { b'%' => Tok::L(n), b'@' => Tok::G(n), _ => Tok::M(n) }
            }
            b'"' => {
                self.i += 1;
                while s[self.i] != b'"' { self.i += 1; }
                self.i += 1;
                Tok::Str(&self.t[st + 1..self.i - 1])
            }
            b'c' if s.get(self.i + 1) == Some(&b'"') => {
                self.i += 2;
                while s[self.i] != b'"' { self.i += 1; }
                self.i += 1;
                Tok::Str(&self.t[st + 2..self.i - 1])
            }
            b'0'..=b'9' | b'-' => {
                self.i += 1;
                while self.i < s.len() && (s[self.i].is_ascii_alphanumeric() || s[self.i] == b'.' || ((s[self.i] == b'+' || s[self.i] == b'-') && s[self.i - 1] == b'e')) { self.i += 1; }
                Tok::Int(&self.t[st..self.i])
            }
            _ if isw(c) => {
                while self.i < s.len() && isw(s[self.i]) { self.i += 1; }
                Tok::W(&self.t[st..self.i])
            }
            b'.' => { while self.i < s.len() && s[self.i] == b'.' { self.i += 1; } Tok::P(b'.') }
            _ => { self.i += 1; Tok::P(c) }
        }
    }
    fn next(&mut self) -> Tok<'a> { if let Some((t, _)) = self.peeked.take() { return t; } self.raw() }
    fn peek(&mut self) -> &Tok<'a> {
        if self.peeked.is_none() { let st = self.i; let t = self.raw(); self.peeked = Some((t, st)); }
        &self.peeked.as_ref().unwrap().0
    }
    fn eat(&mut self, c: u8) -> bool { if *self.peek() == Tok::P(c) { self.next(); true } else { false } }
    fn expect(&mut self, c: u8) { let t = self.next(); if t != Tok::P(c) { panic!("expected {:?} got {:?} near {:?}", c as char, t, self.near()); } }
    fn eatw(&mut self, w: &str) -> bool { if *self.peek() == Tok::W(w) { self.next(); true } else { false } }
    fn near(&self) -> &'a str { let a = self.i.saturating_sub(200); let b = (self.i + 80).min(self.t.len()); let mut a = a; while !self.t.is_char_boundary(a) { a += 1; } let mut b = b; while !self.t.is_char_boundary(b) { b -= 1; } &self.t[a..b] }
    fn skip_parens(&mut self) {
        // just consumed '('
        let mut d = 1;
        while d > 0 { match self.next() { Tok::P(b'(') => d += 1, Tok::P(b')') => d -= 1, Tok::End => panic!("eof"), _ => {} } }
    }
}

fn unescape(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut o = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            if b[i + 1] == b'\\' { o.push(b'\\'); i += 2; continue; }
            let h = std::str::from_utf8(&b[i + 1..i + 3]).unwrap();
            o.push(u8::from_str_radix(h, 16).unwrap());
            i += 3;
        } else { o.push(b[i]); i += 1; }
    }
    o
}

fn parse_int(s: &str) -> u128 { if let Some(x) = s.strip_prefix('-') { (x.parse::<u128>().unwrap() as i128).wrapping_neg() as u128 } else { s.parse::<u128>().unwrap() } }
fn mask(w: u32) -> u128 { if w >= 128 { u128::MAX } else { (1u128 << w) - 1 } }

impl Module {
    pub fn load(path: &str) -> Module {
        let text = std::fs::read_to_string(path).expect("read ir");
        let mut m = Module { text: String::new(), types: HashMap::new(), funcs: vec![], fidx: HashMap::new(), globals: vec![], gsym: HashMap::new(), gmap: vec![], gend: 0 };
        let mut gl: Vec<(usize, usize)> = vec![];
        let mut tys: Vec<(usize, usize)> = vec![];
        let mut aliases: Vec<(String, String)> = vec![];
        let b = text.as_bytes();
        let mut i = 0;
        while i < b.len() {
            let e = memchr(b, b'\n', i);
            let line = &text[i..e];
            if line.starts_with("define ") {
                // find end: line equal to "}"
                let mut j = e + 1;
                loop { let k = memchr(b, b'\n', j); if &text[j..k] == "}" { j = k; break; } j = k + 1; }
                let name = fname(line);
                m.fidx.insert(name.clone(), m.funcs.len() as u32);
                m.funcs.push(FuncSlot { name, text: (i, j), weak: false, func: OnceLock::new() });
                i = j + 1;
                continue;
            } else if line.starts_with("declare ") {
                let name = fname(line);
                if !m.fidx.contains_key(&name) {
                    m.fidx.insert(name.clone(), m.funcs.len() as u32);
                    m.funcs.push(FuncSlot { name, text: (0, 0), weak: line.contains("extern_weak"), func: OnceLock::new() });
                }
            } else if line.starts_with('@') {
                if line.contains(" alias ") {
                    let n = line[1..line.find(' ').unwrap()].trim_matches('"').to_string();
                    let t = line[line.rfind('@').unwrap() + 1..].split(|c: char| c == ',' || c == ' ').next().unwrap().trim_matches('"').to_string();
                    aliases.push((n, t));
                } else { gl.push((i, e)); }
            } else if line.starts_with('%') && line.contains(" = type ") { tys.push((i, e)); }
            i = e + 1;
        }
        for (a, e) in tys {
            let mut lx = Lex::new(&text[a..e]);
            let n = match lx.next() { Tok::L(n) => n.to_string(), _ => panic!() };
            lx.next(); lx.next();
            let t = m.ty(&mut lx);
            m.types.insert(n, t);
        }
        for (i, f) in m.funcs.iter().enumerate() { if !f.weak { m.gsym.insert(f.name.clone(), FBASE + 16 * i as u64); } else { m.gsym.insert(f.name.clone(), crate::ext::weak_addr(&f.name, FBASE + 16 * i as u64)); } }
        // globals: pass 1 addresses
        let mut inits: Vec<(usize, usize, usize, Ty)> = vec![];
        let mut addr = GBASE;
        for (a, e) in gl {
            let line = &text[a..e];
            let mut lx = Lex::new(line);
            let n = match lx.next() { Tok::G(n) => n.to_string(), t => panic!("{:?}", t) };
            lx.expect(b'=');
            let mut constant = false;
            let mut external = false;
            loop {
                match lx.peek().clone() {
                    Tok::W("global") => { lx.next(); break; }
                    Tok::W("constant") => { lx.next(); constant = true; break; }
                    Tok::W("external") | Tok::W("extern_weak") => { external = true; lx.next(); }
                    Tok::W("thread_local") | Tok::W("addrspace") => { lx.next(); if lx.eat(b'(') { lx.skip_parens(); } }
                    Tok::W(_) => { lx.next(); }
                    t => panic!("global {:?} {}", t, line),
                }
            }
            let t = m.ty(&mut lx);
            let size = t.size();
            let al = 16u64.max(line.rfind(", align ").and_then(|p| line[p + 8..].split(|c: char| !c.is_ascii_digit()).next().unwrap().parse().ok()).unwrap_or(16));
            addr = (addr + al - 1) / al * al;
            m.gsym.insert(n.clone(), addr);
            let gi = m.globals.len();
            m.globals.push(Global { name: n, addr, size, constant, data: Arc::new(vec![]) });
            if !external {
                let st = if let Some((_, p)) = &lx.peeked { *p } else { lx.i };
                inits.push((gi, a + st, e, t));
            } else { m.globals[gi].data = Arc::new(vec![0; size as usize]); }
            addr += (size + 16 + 15) / 16 * 16;
        }
        m.gend = addr;
        assert!(addr < FBASE);
        for (n, t) in aliases {
            let v = m.gsym[&t];
            m.gsym.insert(n.clone(), v);
            if let Some(&f) = m.fidx.get(&t) { m.fidx.insert(n, f); }
        }
        m.gmap = vec![0; ((addr - GBASE) / 16 + 1) as usize];
        for (i, g) in m.globals.iter().enumerate() {
            let a = (g.addr - GBASE) / 16;
            for k in 0..=(g.size / 16) { m.gmap[(a + k) as usize] = i as u32 + 1; }
        }
        for (gi, a, e, t) in inits {
            let mut lx = Lex::new(&text[a..e]);
            let v = m.konst(&mut lx, &t);
            let mut buf = vec![0u8; t.size() as usize];
            m.emit(&t, &v, &mut buf);
            m.globals[gi].data = Arc::new(buf);
        }
        m.text = text;
        m
    }
    fn emit(&self, t: &Ty, v: &KV, b: &mut [u8]) {
        match v {
            KV::I(x) => { if t.is_agg() { if *x != 0 { panic!("agg nonzero") } } else { let n = (t.size() as usize).min(8).min(b.len()); b[..n].copy_from_slice(&x.to_le_bytes()[..n]); } }
            KV::W(x) => { let n = b.len().min(t.size() as usize).min(16); b[..n].copy_from_slice(&x.to_le_bytes()[..n]); }
            KV::A(vs) => for (i, e) in vs.iter().enumerate() { let (o, et) = t.offset(i); let o = o as usize; let n = et.size() as usize; self.emit(&et, e, &mut b[o..o + n]); },
        }
    }
    fn ty(&self, lx: &mut Lex) -> Ty {
        let t = match lx.next() {
            Tok::W("void") => Ty::Void,
            Tok::W("ptr") => { if lx.eatw("addrspace") { lx.expect(b'('); lx.skip_parens(); } Ty::Ptr }
            Tok::W("float") => Ty::F32,
            Tok::W("double") => Ty::F64,
            Tok::W("metadata") | Tok::W("label") | Tok::W("token") | Tok::W("half") | Tok::W("fp128") | Tok::W("x86_fp80") => Ty::Other,
            Tok::W(w) if w.starts_with('i') && w[1..].bytes().all(|c| c.is_ascii_digit()) && w.len() > 1 => Ty::Int(w[1..].parse().unwrap()),
            Tok::P(b'[') => { let n = match lx.next() { Tok::Int(n) => n.parse().unwrap(), t => panic!("{:?}", t) }; lx.next(); let t = self.ty(lx); lx.expect(b']'); Ty::Array(n, Arc::new(t)) }
            Tok::P(b'{') => Ty::Struct(self.fields(lx, b'}'), false),
            Tok::P(b'<') => {
                if lx.eat(b'{') { let f = self.fields(lx, b'}'); lx.expect(b'>'); Ty::Struct(f, true) }
                else { let n = match lx.next() { Tok::Int(n) => n.parse().unwrap(), t => panic!("{:?}", t) }; lx.next(); let t = self.ty(lx); lx.expect(b'>'); Ty::Vector(n, Arc::new(t)) }
            }
            Tok::L(n) => self.types.get(n).cloned().unwrap_or(Ty::Other),
            t => panic!("type? {:?} near {}", t, lx.near()),
        };
        // function type (for varargs callees)
        t
    }
    fn fields(&self, lx: &mut Lex, end: u8) -> Vec<Ty> {
        let mut v = vec![];
        if lx.eat(end) { return v; }
        loop { v.push(self.ty(lx)); if lx.eat(b',') { continue; } lx.expect(end); return v; }
    }
    fn zero(&self, t: &Ty) -> KV {
        match t {
            Ty::Struct(f, _) => KV::A(f.iter().map(|t| self.zero(t)).collect()),
            Ty::Array(n, e) | Ty::Vector(n, e) => KV::A((0..*n).map(|_| self.zero(e)).collect()),
            Ty::Int(w) if *w > 64 => KV::W(0),
            _ => KV::I(0),
        }
    }
    fn sym(&self, n: &str) -> u64 { *self.gsym.get(n).unwrap_or_else(|| panic!("unknown symbol {}", n)) }
    /// constant of type t (type already consumed)
    fn konst(&self, lx: &mut Lex, t: &Ty) -> KV {
        match lx.next() {
            Tok::Int(s) => match t {
                Ty::F64 => KV::I(if let Some(h) = s.strip_prefix("0x") { u64::from_str_radix(h, 16).unwrap() } else { s.parse::<f64>().unwrap().to_bits() }),
                Ty::F32 => KV::I(if let Some(h) = s.strip_prefix("0x") { (f64::from_bits(u64::from_str_radix(h, 16).unwrap()) as f32).to_bits() as u64 } else { s.parse::<f32>().unwrap().to_bits() as u64 }),
                Ty::Int(w) if *w > 64 => KV::W(parse_int(s) & mask(*w)),
                Ty::Int(w) => KV::I((parse_int(s) & mask(*w)) as u64),
                _ => panic!("int const of {:?}", t),
            },
            Tok::W("true") => KV::I(1),
            Tok::W("false") => KV::I(0),
            Tok::W("null") | Tok::W("none") => KV::I(0),
            Tok::W("zeroinitializer") | Tok::W("undef") | Tok::W("poison") => self.zero(t),
            Tok::Str(s) => KV::A(unescape(s).into_iter().map(|b| KV::I(b as u64)).collect()),
            Tok::G(n) => KV::I(self.sym(n)),
            Tok::P(b'[') => self.list(lx, b']'),
            Tok::P(b'{') => self.list(lx, b'}'),
            Tok::P(b'<') => { if lx.eat(b'{') { let v = self.list(lx, b'}'); lx.expect(b'>'); v } else { self.list(lx, b'>') } }
            Tok::W("splat") => { lx.expect(b'('); let et = self.ty(lx); let v = self.konst(lx, &et); lx.expect(b')'); KV::A(vec![v; t.nelem()]) }
            Tok::W("getelementptr") => {
                while !lx.eat(b'(') { lx.next(); if *lx.peek() == Tok::P(b'(') { /* inrange(...)? */ } }
                let bt = self.ty(lx);
                lx.expect(b',');
                let pt = self.ty(lx);
                let base = self.ki(lx, &pt);
                let mut a = base as u64;
                let mut cur = bt.clone();
                let mut first = true;
                while lx.eat(b',') {
                    let it = self.ty(lx);
                    let v = self.ki(lx, &it);
                    let v = sext64(v as u64, it.bits() as u32);
                    if first { a = a.wrapping_add((bt.size() as i64).wrapping_mul(v) as u64); first = false; }
                    else if let Ty::Struct(..) = cur { let (o, t) = cur.offset(v as usize); a = a.wrapping_add(o); cur = t; }
                    else { let (_, t) = cur.offset(0); a = a.wrapping_add((t.size() as i64).wrapping_mul(v) as u64); cur = t; }
                }
                lx.expect(b')');
                KV::I(a)
            }
            Tok::W(op @ ("ptrtoint" | "inttoptr" | "trunc" | "zext" | "sext" | "bitcast" | "addrspacecast")) => {
                lx.expect(b'(');
                let ft = self.ty(lx);
                let v = self.ki(lx, &ft);
                if !lx.eatw("to") { panic!("cast {}", lx.near()); }
                let tt = self.ty(lx);
                lx.expect(b')');
                let v = if op == "sext" { sext64(v as u64, ft.bits() as u32) as i128 as u128 } else { v };
                let v = v & mask(tt.bits() as u32);
                if tt.bits() > 64 { KV::W(v) } else { KV::I(v as u64) }
            }
            Tok::W(op @ ("add" | "sub" | "xor" | "mul" | "and" | "or" | "shl")) => {
                while !lx.eat(b'(') { lx.next(); }
                let ta = self.ty(lx);
                let a = self.ki(lx, &ta);
                lx.expect(b',');
                let tb = self.ty(lx);
                let b = self.ki(lx, &tb);
                lx.expect(b')');
                let r = match op { "add" => a.wrapping_add(b), "sub" => a.wrapping_sub(b), "xor" => a ^ b, "mul" => a.wrapping_mul(b), "and" => a & b, "or" => a | b, _ => a << b } & mask(ta.bits() as u32);
                KV::I(r as u64)
            }
            Tok::W("blockaddress") => { lx.expect(b'('); lx.skip_parens(); KV::I(0) }
            t => panic!("const? {:?} of {:?} near {}", t, (), lx.near()),
        }
    }
    fn ki(&self, lx: &mut Lex, t: &Ty) -> u128 { match self.konst(lx, t) { KV::I(x) => x as u128, KV::W(x) => x, _ => panic!("agg const") } }
    fn list(&self, lx: &mut Lex, end: u8) -> KV {
        let mut v = vec![];
        if lx.eat(end) { return KV::A(v); }
        loop {
            let t = self.ty(lx);
            v.push(self.konst(lx, &t));
            if lx.eat(b',') { continue; }
            lx.expect(end);
            return KV::A(v);
        }
    }
    pub fn func(&self, i: u32) -> Arc<Func> {
        self.funcs[i as usize].func.get_or_init(|| Arc::new(FnParser::parse(self, i))).clone()
    }
}

fn sext64(v: u64, w: u32) -> i64 { let s = 64 - w.min(64); ((v << s) as i64) >> s }
fn memchr(b: &[u8], c: u8, i: usize) -> usize { let mut j = i; while j < b.len() && b[j] != c { j += 1; } j }
fn fname(line: &str) -> String {
    let p = line.find('@').unwrap();
    let r = &line[p + 1..];
    if let Some(q) = r.strip_prefix('"') { q[..q.find('"').unwrap()].to_string() } else { r[..r.find('(').unwrap()].to_string() }
}

struct FnParser<'a> {
    m: &'a Module,
    regs: HashMap<&'a str, u32>,
}

struct RawBlock<'a> { name: &'a str, phis: Vec<(u32, Vec<(Opd, &'a str)>)>, insts: Vec<RInst<'a>> }
enum RInst<'a> { I(Inst), Br(&'a str), CondBr(Opd, &'a str, &'a str), Switch(Opd, u8, Vec<(u64, &'a str)>, &'a str), Invoke(Inst, &'a str) }

const VALSTART: &[&str] = &["true", "false", "null", "none", "zeroinitializer", "undef", "poison", "splat", "getelementptr", "ptrtoint", "inttoptr", "trunc", "zext", "sext", "bitcast", "add", "sub", "xor", "mul", "and", "or", "shl", "blockaddress", "asm"];

impl<'a> FnParser<'a> {
    fn reg(&mut self, n: &'a str) -> u32 { let k = self.regs.len() as u32; *self.regs.entry(n).or_insert(k) }
    fn kopd(k: KV) -> Opd { match k { KV::I(x) => Opd::I(x), k => Opd::K(Arc::new(k)) } }
    fn val(&mut self, lx: &mut Lex<'a>, t: &Ty) -> Opd {
        if let Tok::L(n) = lx.peek().clone() { lx.next(); return Opd::R(self.reg(n)); }
        if *t == Ty::Other { // metadata operand
            match lx.next() { Tok::M(_) => { if *lx.peek() == Tok::P(b'(') { lx.next(); lx.skip_parens(); } else if lx.eat(b'{') { let mut d = 1; while d > 0 { match lx.next() { Tok::P(b'{') => d += 1, Tok::P(b'}') => d -= 1, _ => {} } } } } _ => { /* metadata ptr %x etc: skip to , or ) */ loop { match lx.peek() { Tok::P(b',') | Tok::P(b')') => break, _ => { lx.next(); } } } } }
            return Opd::I(0);
        }
        Self::kopd(self.m.konst(lx, t))
    }
    fn skip_attrs(&mut self, lx: &mut Lex<'a>) {
        loop {
            match lx.peek().clone() {
                Tok::W("align") => { lx.next(); lx.next(); }
                Tok::W(w) if !VALSTART.contains(&w) => { lx.next(); if *lx.peek() == Tok::P(b'(') { lx.next(); lx.skip_parens(); } }
                Tok::M(_) => return,
                _ => return,
            }
        }
    }
    fn tval(&mut self, lx: &mut Lex<'a>) -> (Ty, Opd) { let t = self.m.ty(lx); if t != Ty::Other { self.skip_attrs(lx); } let v = self.val(lx, &t); (t, v) }
    fn w8(t: &Ty) -> u8 { match t { Ty::Int(w) => *w as u8, Ty::Ptr | Ty::F64 => 64, Ty::F32 => 32, _ => 0 } }

    fn parse(m: &'a Module, i: u32) -> Func {
        let (a, b) = m.funcs[i as usize].text;
        assert!(b > a, "no body for {}", m.funcs[i as usize].name);
        let text: &'a str = &m.text[a..b];
        let mut p = FnParser { m, regs: HashMap::new() };
        let hl = text.find('\n').unwrap();
        // header params
        let head = &text[..hl];
        let mut params = vec![];
        {
            let at = head.find('@').unwrap();
            let mut lx = Lex::new(&head[at..]);
            lx.next();
            lx.expect(b'(');
            if !lx.eat(b')') {
                loop {
                    if matches!(lx.peek(), Tok::W("...")) { lx.next(); lx.expect(b')'); break; }
                    let _t = m.ty(&mut lx);
                    p.skip_attrs(&mut lx);
                    if let Tok::L(n) = lx.peek().clone() { lx.next(); params.push(p.reg(n)); } else { params.push(u32::MAX); }
                    if lx.eat(b',') { continue; }
                    lx.expect(b')');
                    break;
                }
            }
        }
        let nparams = params.len();
        for (k, q) in params.iter_mut().enumerate() { if *q == u32::MAX { let s: &'a str = Box::leak(format!("$anon{}", k).into_boxed_str()); *q = p.reg(s); } }
        let _ = nparams;
        let mut blocks: Vec<RawBlock<'a>> = vec![];
        let mut rest = &text[hl + 1..];
        let mut first = true;
        while !rest.is_empty() {
            let e = rest.find('\n').unwrap_or(rest.len());
            let mut line = &rest[..e];
            let mut adv = e + 1;
            if line == "}" || line.is_empty() { rest = &rest[adv.min(rest.len())..]; continue; }
            if !line.starts_with(' ') {
                // label
                let l = line.split(';').next().unwrap().trim_end();
                let l = l.strip_suffix(':').unwrap_or_else(|| panic!("label {:?}", line));
                let l = l.trim_matches('"');
                blocks.push(RawBlock { name: l, phis: vec![], insts: vec![] });
                first = false;
                rest = &rest[adv.min(rest.len())..];
                continue;
            }
            if first { blocks.push(RawBlock { name: "$entry", phis: vec![], insts: vec![] }); first = false; }
            // multi-line: switch [...], landingpad clauses, invoke "to label"
            let tl = line.trim_start();
            if tl.starts_with("switch ") {
                let end = rest.find("\n  ]").unwrap();
                let e2 = rest[end + 1..].find('\n').map(|x| x + end + 1).unwrap_or(rest.len());
                line = &rest[..e2];
                adv = e2 + 1;
            } else if tl.contains("invoke ") {
                let e2 = rest[e + 1..].find('\n').map(|x| x + e + 1).unwrap_or(rest.len());
                line = &rest[..e2];
                adv = e2 + 1;
            } else if tl.contains("= landingpad ") {
                let mut k = e + 1;
                loop {
                    let e2 = rest[k..].find('\n').map(|x| x + k).unwrap_or(rest.len());
                    let l2 = rest[k..e2].trim_start();
                    if l2.starts_with("cleanup") || l2.starts_with("catch") || l2.starts_with("filter") { k = e2 + 1; } else { break; }
                }
                adv = k;
            }
            let bi = blocks.len() - 1;
            p.inst(line, &mut blocks[bi]);
            rest = &rest[adv.min(rest.len())..];
        }
        // entry block may be unnamed: it takes the number after params
        // layout
        let mut start: HashMap<&str, u32> = HashMap::new();
        let mut pc = 0u32;
        for b in &blocks { start.insert(b.name, pc); pc += b.insts.len() as u32; }
        let entry_alias = format!("{}", params.len());
        let phis: HashMap<&str, &Vec<(u32, Vec<(Opd, &'a str)>)>> = blocks.iter().map(|b| (b.name, &b.phis)).collect();
        let edge = |from: &str, to: &str| -> Edge {
            let mut moves = vec![];
            for (d, inc) in phis[to].iter() {
                let f = inc.iter().find(|(_, l)| *l == from || (from == "$entry" && (*l == entry_alias || *l == "0" || !phis.contains_key(*l)))).unwrap_or_else(|| panic!("phi edge {} -> {} in {}", from, to, m.funcs[i as usize].name));
                moves.push((*d, f.0.clone()));
            }
            Edge { pc: start[to], moves: moves.into_boxed_slice() }
        };
        let mut code = Vec::with_capacity(pc as usize);
        let names: Vec<&str> = blocks.iter().map(|b| b.name).collect();
        let mut edges_of: Vec<Vec<Inst>> = vec![];
        for (bi, b) in blocks.iter().enumerate() {
            let mut v = vec![];
            for ri in &b.insts {
                match ri {
                    RInst::Br(t) => v.push(Inst::Br(edge(names[bi], t))),
                    RInst::CondBr(c, t, e) => v.push(Inst::CondBr { c: c.clone(), t: edge(names[bi], t), e: edge(names[bi], e) }),
                    RInst::Switch(val, w, cases, d) => {
                        let mut edges = vec![];
                        let mut eidx: HashMap<&str, u32> = HashMap::new();
                        let mut get = |l: &'a str| -> u32 { *eidx.entry(l).or_insert_with(|| { edges.push(edge(names[bi], l)); edges.len() as u32 - 1 }) };
                        let default = get(d);
                        let cs: Vec<(u64, u32)> = cases.iter().map(|(c, l)| (*c, get(l))).collect();
                        let map = cs.iter().copied().collect();
                        v.push(Inst::Switch { v: val.clone(), w: *w, cases: cs, edges, map, default });
                    }
                    _ => v.push(Inst::Nop),
                }
            }
            edges_of.push(v);
        }
        let inv: Vec<Vec<Option<Edge>>> = blocks.iter().enumerate().map(|(bi, b)| b.insts.iter().map(|r| if let RInst::Invoke(_, l) = r { Some(edge(names[bi], l)) } else { None }).collect()).collect();
        drop(phis);
        for ((b, mut ev), iv) in blocks.into_iter().zip(edges_of).zip(inv) {
            for ((k, ri), ie) in b.insts.into_iter().enumerate().zip(iv) {
                match ri {
                    RInst::I(x) => code.push(x),
                    RInst::Invoke(mut x, _) => { if let Inst::Call { next, .. } = &mut x { *next = ie; } code.push(x) }
                    _ => code.push(std::mem::replace(&mut ev[k], Inst::Nop)),
                }
            }
        }
        Func { nregs: p.regs.len() as u32, params, code }
    }

    fn label(&mut self, lx: &mut Lex<'a>) -> &'a str { if !lx.eatw("label") { panic!("label {}", lx.near()); } match lx.next() { Tok::L(n) => n, t => panic!("{:?}", t) } }

    fn inst(&mut self, line: &'a str, b: &mut RawBlock<'a>) {
        let mut lx = Lex::new(line);
        let mut d = None;
        if let Tok::L(n) = lx.peek().clone() { lx.next(); lx.expect(b'='); d = Some(self.reg(n)); }
        let op = match lx.next() { Tok::W(w) => w, t => panic!("inst {:?} in {}", t, line) };
        let i = match op {
            "phi" => {
                while matches!(lx.peek(), Tok::W("nnan" | "ninf" | "nsz" | "fast" | "contract" | "reassoc" | "afn" | "arcp")) { lx.next(); }
                let t = self.m.ty(&mut lx);
                let mut inc = vec![];
                loop {
                    lx.expect(b'[');
                    let v = self.val(&mut lx, &t);
                    lx.expect(b',');
                    let l = match lx.next() { Tok::L(n) => n, t => panic!("{:?}", t) };
                    lx.expect(b']');
                    inc.push((v, l));
                    if lx.eat(b',') { if *lx.peek() == Tok::P(b'[') { continue; } }
                    break;
                }
                b.phis.push((d.unwrap(), inc));
                return;
            }
            "br" => {
                if matches!(lx.peek(), Tok::W("label")) { let l = self.label(&mut lx); RInst::Br(l) }
                else { let (_, c) = self.tval(&mut lx); lx.expect(b','); let t = self.label(&mut lx); lx.expect(b','); let e = self.label(&mut lx); RInst::CondBr(c, t, e) }
            }
            "switch" => {
                let (t, v) = self.tval(&mut lx);
                lx.expect(b',');
                let dl = self.label(&mut lx);
                lx.expect(b'[');
                let mut cs = vec![];
                while !lx.eat(b']') {
                    let (_, c) = self.tval(&mut lx);
                    lx.expect(b',');
                    let l = self.label(&mut lx);
                    cs.push((match c { Opd::I(x) => x, _ => panic!("switch const") }, l));
                }
                RInst::Switch(v, Self::w8(&t), cs, dl)
            }
            "invoke" => {
                let x = self.call(&mut lx, d);
                if !lx.eatw("to") { // attributes before 'to'
                    loop { match lx.next() { Tok::W("to") => break, Tok::P(b'[') => { while !lx.eat(b']') { lx.next(); } } Tok::End => panic!("invoke to"), _ => {} } }
                }
                let l = self.label(&mut lx);
                RInst::Invoke(x, l)
            }
            _ => RInst::I(self.simple(op, d, &mut lx, line)),
        };
        b.insts.push(i);
    }

    fn call(&mut self, lx: &mut Lex<'a>, d: Option<u32>) -> Inst {
        // [fmf] [cconv] [ret attrs] ty [fnty] callee(args)
        loop {
            match lx.peek().clone() {
                Tok::W("align") => { lx.next(); lx.next(); }
                Tok::W("void" | "ptr" | "float" | "double" | "metadata" | "half") => break,
                Tok::W(w) if w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()) => break,
                Tok::W(_) => { lx.next(); if *lx.peek() == Tok::P(b'(') { lx.next(); lx.skip_parens(); } }
                _ => break,
            }
        }
        let rty = self.m.ty(lx);
        if *lx.peek() == Tok::P(b'(') { lx.next(); lx.skip_parens(); }
        let callee = match lx.next() {
            Tok::G(n) => {
                if let Some(s) = n.strip_prefix("llvm.") { let i = intr(s); if i == Intr::Unsupported { return Inst::Unsupported(format!("intrinsic {}", n)); } Callee::Intrinsic(i) }
                else { Callee::Direct(*self.m.fidx.get(n).unwrap_or_else(|| panic!("callee {}", n))) }
            }
            Tok::L(n) => Callee::Indirect(Opd::R(self.reg(n))),
            Tok::W("asm") => {
                loop { match lx.next() { Tok::Str(_) => break, _ => {} } }
                lx.expect(b','); lx.next();
                Callee::AsmNop
            }
            Tok::W("null") | Tok::W("poison") | Tok::W("undef") => Callee::Indirect(Opd::I(0)),
            Tok::W("inttoptr") => { lx.expect(b'('); let t = self.m.ty(lx); let v = self.m.ki(lx, &t); lx.skip_parens(); Callee::Indirect(Opd::I(v as u64)) }
            t => panic!("callee {:?} near {}", t, lx.near()),
        };
        lx.expect(b'(');
        let mut args = vec![];
        let mut argw = vec![];
        if !lx.eat(b')') {
            loop {
                let (t, v) = self.tval(lx);
                argw.push(Self::w8(&t));
                args.push(v);
                if lx.eat(b',') { continue; }
                lx.expect(b')');
                break;
            }
        }
        if let Callee::AsmNop = callee { if rty != Ty::Void { return Inst::Unsupported("asm with result".into()); } }
        Inst::Call { d, callee, args: args.into_boxed_slice(), w: Self::w8(&rty), rty, argw: argw.into_boxed_slice(), next: None }
    }

    fn simple(&mut self, op: &str, d: Option<u32>, lx: &mut Lex<'a>, line: &str) -> Inst {
        let dd = d.unwrap_or(0);
        let bop = match op {
            "add" => Some(BinOp::Add), "sub" => Some(BinOp::Sub), "mul" => Some(BinOp::Mul), "udiv" => Some(BinOp::UDiv), "urem" => Some(BinOp::URem),
            "sdiv" => Some(BinOp::SDiv), "srem" => Some(BinOp::SRem), "and" => Some(BinOp::And), "or" => Some(BinOp::Or), "xor" => Some(BinOp::Xor),
            "shl" => Some(BinOp::Shl), "lshr" => Some(BinOp::LShr), "ashr" => Some(BinOp::AShr),
            "fadd" => Some(BinOp::FAdd), "fsub" => Some(BinOp::FSub), "fmul" => Some(BinOp::FMul), "fdiv" => Some(BinOp::FDiv), _ => None,
        };
        if let Some(bop) = bop {
            while matches!(lx.peek(), Tok::W("nuw" | "nsw" | "exact" | "disjoint" | "fast" | "nnan" | "ninf" | "nsz" | "contract" | "reassoc" | "afn" | "arcp")) { lx.next(); }
            let t = self.m.ty(lx);
            let a = self.val(lx, &t);
            lx.expect(b',');
            let b = self.val(lx, &t);
            if let Ty::Vector(..) = t { return Inst::VBin { op: bop, ty: t, d: dd, a, b }; }
            return Inst::Bin { op: bop, w: Self::w8(&t), d: dd, a, b };
        }
        let cop = match op {
            "zext" => Some(CastOp::ZExt), "sext" => Some(CastOp::SExt), "trunc" => Some(CastOp::Trunc), "ptrtoint" | "ptrtoaddr" => Some(CastOp::PtrToInt), "inttoptr" => Some(CastOp::IntToPtr),
            "bitcast" | "addrspacecast" => Some(CastOp::BitCast), "uitofp" => Some(CastOp::UIToFP), "sitofp" => Some(CastOp::SIToFP), "fptoui" => Some(CastOp::FPToUI), "fptosi" => Some(CastOp::FPToSI),
            "fpext" => Some(CastOp::FPExt), "fptrunc" => Some(CastOp::FPTrunc), _ => None,
        };
        if let Some(cop) = cop {
            while matches!(lx.peek(), Tok::W("nneg" | "nuw" | "nsw")) { lx.next(); }
            let (from, a) = self.tval(lx);
            if !lx.eatw("to") { panic!("cast {}", line); }
            let to = self.m.ty(lx);
            let (fw, tw) = (Self::w8(&from), Self::w8(&to));
            return Inst::Cast { op: cop, d: dd, from, to, fw, tw, a };
        }
        match op {
            "call" | "tail" | "musttail" | "notail" => {
                if op != "call" { lx.next(); }
                self.call(lx, d)
            }
            "icmp" => {
                while matches!(lx.peek(), Tok::W("samesign")) { lx.next(); }
                let p = match lx.next() { Tok::W(p) => match p { "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule, "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, "sle" => Pred::Sle, _ => panic!() }, _ => panic!() };
                let t = self.m.ty(lx);
                let a = self.val(lx, &t);
                lx.expect(b',');
                let b = self.val(lx, &t);
                if let Ty::Vector(_, e) = &t { return Inst::VIcmp { p, w: e.bits() as u8, d: dd, a, b }; }
                Inst::Icmp { p, w: Self::w8(&t), d: dd, a, b }
            }
            "fcmp" => {
                let mut p = String::new();
                loop { match lx.peek().clone() { Tok::W(x) if !matches!(x, "float" | "double") => { p = x.to_string(); lx.next(); } _ => break } }
                let t = self.m.ty(lx);
                let a = self.val(lx, &t);
                lx.expect(b',');
                let b = self.val(lx, &t);
                Inst::Fcmp { p, w: Self::w8(&t), d: dd, a, b }
            }
            "fneg" => { let (t, a) = self.tval(lx); Inst::FNeg { w: Self::w8(&t), d: dd, a } }
            "load" => {
                while matches!(lx.peek(), Tok::W("atomic" | "volatile")) { lx.next(); }
                let t = self.m.ty(lx);
                lx.expect(b',');
                let (_, p) = self.tval(lx);
                let sz = t.store_size() as u32;
                Inst::Load { d: dd, w: Self::w8(&t), sz, ty: t, p }
            }
            "store" => {
                while matches!(lx.peek(), Tok::W("atomic" | "volatile")) { lx.next(); }
                let (t, v) = self.tval(lx);
                lx.expect(b',');
                let (_, p) = self.tval(lx);
                let sz = t.store_size() as u32;
                Inst::Store { w: Self::w8(&t), sz, ty: t, v, p }
            }
            "getelementptr" => {
                while matches!(lx.peek(), Tok::W("inbounds" | "nuw" | "nusw")) { lx.next(); }
                let bt = self.m.ty(lx);
                lx.expect(b',');
                let (pt, base) = self.tval(lx);
                if pt != Ty::Ptr { return Inst::Unsupported("vector gep".into()); }
                let mut off = 0u64;
                let mut idx = vec![];
                let mut cur = bt.clone();
                let mut first = true;
                while lx.eat(b',') {
                    if matches!(lx.peek(), Tok::M(_)) { break; }
                    let (it, v) = self.tval(lx);
                    let iw = it.bits() as u32;
                    let sz;
                    if first { sz = bt.size(); first = false; }
                    else if let Ty::Struct(..) = cur {
                        let k = match v { Opd::I(x) => x as usize, _ => panic!("struct gep") };
                        let (o, t) = cur.offset(k);
                        off = off.wrapping_add(o);
                        cur = t;
                        continue;
                    } else { let (_, t) = cur.offset(0); sz = t.size(); cur = t; }
                    match v {
                        Opd::I(x) => off = off.wrapping_add((sext64(x, iw)).wrapping_mul(sz as i64) as u64),
                        v => idx.push((v, sz, iw as u8)),
                    }
                }
                Inst::Gep { d: dd, base, off, idx: idx.into_boxed_slice() }
            }
            "select" => {
                while matches!(lx.peek(), Tok::W("nnan" | "ninf" | "nsz" | "fast" | "contract" | "reassoc" | "afn" | "arcp")) { lx.next(); }
                let (ct, c) = self.tval(lx);
                lx.expect(b',');
                let (t, a) = self.tval(lx);
                lx.expect(b',');
                let (_, b) = self.tval(lx);
                Inst::Select { d: dd, vec: matches!(ct, Ty::Vector(..)), c, a, b, w: Self::w8(&t) }
            }
            "freeze" => { let (_, a) = self.tval(lx); Inst::Mov { d: dd, a } }
            "ret" => { if matches!(lx.peek(), Tok::W("void")) { Inst::Ret(None) } else { let (_, v) = self.tval(lx); Inst::Ret(Some(v)) } }
            "unreachable" => Inst::Unreachable,
            "alloca" => {
                let t = self.m.ty(lx);
                let mut n = 1;
                if lx.eat(b',') { if !matches!(lx.peek(), Tok::W("align") | Tok::M(_)) { let (_, v) = self.tval(lx); n = match v { Opd::I(x) => x, _ => return Inst::Unsupported("dynamic alloca".into()) }; } }
                Inst::Alloca { d: dd, sz: t.size() * n }
            }
            "extractvalue" => {
                let (_, a) = self.tval(lx);
                let mut path = vec![];
                while lx.eat(b',') { match lx.peek().clone() { Tok::Int(n) => { lx.next(); path.push(n.parse().unwrap()) } _ => break } }
                Inst::Extract { d: dd, a, path: path.into_boxed_slice() }
            }
            "insertvalue" => {
                let (_, a) = self.tval(lx);
                lx.expect(b',');
                let (_, v) = self.tval(lx);
                let mut path = vec![];
                while lx.eat(b',') { match lx.peek().clone() { Tok::Int(n) => { lx.next(); path.push(n.parse().unwrap()) } _ => break } }
                Inst::Insert { d: dd, a, v, path: path.into_boxed_slice() }
            }
            "extractelement" => { let (_, a) = self.tval(lx); lx.expect(b','); let (_, i) = self.tval(lx); Inst::ExtractElt { d: dd, a, i } }
            "insertelement" => { let (_, a) = self.tval(lx); lx.expect(b','); let (_, v) = self.tval(lx); lx.expect(b','); let (_, i) = self.tval(lx); Inst::InsertElt { d: dd, a, v, i } }
            "shufflevector" => {
                let (t, a) = self.tval(lx);
                lx.expect(b',');
                let (_, b) = self.tval(lx);
                lx.expect(b',');
                let (mt, mk) = self.tval(lx);
                let mask = match mk {
                    Opd::K(k) => match &*k { KV::A(v) => v.iter().map(|x| if let KV::I(i) = x { *i as u32 } else { 0 }).collect(), _ => panic!() },
                    _ => vec![0; mt.nelem()],
                };
                Inst::Shuffle { d: dd, a, b, n: t.nelem() as u32, mask }
            }
            "atomicrmw" => {
                while matches!(lx.peek(), Tok::W("volatile")) { lx.next(); }
                let o = match lx.next() { Tok::W(w) => match w { "xchg" => Rmw::Xchg, "add" => Rmw::Add, "sub" => Rmw::Sub, "and" => Rmw::And, "or" => Rmw::Or, "xor" => Rmw::Xor, "nand" => Rmw::Nand, "max" => Rmw::Max, "min" => Rmw::Min, "umax" => Rmw::UMax, "umin" => Rmw::UMin, _ => return Inst::Unsupported(format!("rmw {}", w)) }, _ => panic!() };
                let (_, p) = self.tval(lx);
                lx.expect(b',');
                let (t, v) = self.tval(lx);
                Inst::AtomicRmw { op: o, d: dd, p, v, w: Self::w8(&t), sz: t.size() as u32 }
            }
            "cmpxchg" => {
                while matches!(lx.peek(), Tok::W("weak" | "volatile")) { lx.next(); }
                let (_, p) = self.tval(lx);
                lx.expect(b',');
                let (t, c) = self.tval(lx);
                lx.expect(b',');
                let (_, n) = self.tval(lx);
                Inst::CmpXchg { d: dd, p, c, n, w: Self::w8(&t), sz: t.size() as u32 }
            }
            "fence" => Inst::Nop,
            "landingpad" | "resume" => Inst::Unreachable,
            _ => Inst::Unsupported(line.trim().to_string()),
        }
    }
}

fn intr(s: &str) -> Intr {
    let p = |x: &str| s.starts_with(x);
    if p("memcpy") || p("memmove") { Intr::Memcpy }
    else if p("memset") { Intr::Memset }
    else if p("lifetime") || p("dbg") || p("experimental.noalias") || p("x86.sse2.pause") || p("invariant") || p("prefetch") || p("donothing") || p("fake.use") { Intr::Nop }
    else if p("assume") { Intr::Assume }
    else if p("ctlz") { Intr::Ctlz } else if p("cttz") { Intr::Cttz } else if p("ctpop") { Intr::Ctpop }
    else if p("bswap") { Intr::Bswap } else if p("bitreverse") { Intr::BitReverse }
    else if p("fshl") { Intr::Fshl } else if p("fshr") { Intr::Fshr }
    else if p("umax") { Intr::UMax } else if p("umin") { Intr::UMin } else if p("smax") { Intr::SMax } else if p("smin") { Intr::SMin }
    else if p("abs") { Intr::Abs }
    else if p("uadd.with") { Intr::UAddO } else if p("usub.with") { Intr::USubO } else if p("umul.with") { Intr::UMulO }
    else if p("sadd.with") { Intr::SAddO } else if p("ssub.with") { Intr::SSubO } else if p("smul.with") { Intr::SMulO }
    else if p("uadd.sat") { Intr::UAddSat } else if p("usub.sat") { Intr::USubSat } else if p("sadd.sat") { Intr::SAddSat } else if p("ssub.sat") { Intr::SSubSat }
    else if p("ucmp") { Intr::Ucmp } else if p("scmp") { Intr::Scmp }
    else if p("expect") { Intr::Expect } else if p("is.constant") { Intr::IsConstant }
    else if p("trap") || p("ubsantrap") { Intr::Trap }
    else if p("threadlocal.address") { Intr::TlsAddr }
    else if p("load.relative") { Intr::LoadRelative }
    else if p("objectsize") { Intr::ObjectSize }
    else if p("ptrmask") { Intr::PtrMask }
    else if p("vector.reduce.or") { Intr::VecReduceOr } else if p("vector.reduce.and") { Intr::VecReduceAnd } else if p("vector.reduce.add") { Intr::VecReduceAdd } else if p("vector.reduce.xor") { Intr::VecReduceXor }
    else { Intr::Unsupported }
}
