//! Hash-consed bit-vector expressions with a small, state-independent simplifier.
use std::collections::HashMap;
use std::rc::Rc;

pub type Id = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Add, Sub, Mul, UDiv, URem, SDiv, SRem, And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Ule, Slt, Sle,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Const(u128),
    Sym(u32),
    Bin(Op, Id, Id),
    Ite(Id, Id, Id),
    ZExt(Id),
    SExt(Id),
    Extract(Id, u8),
    Concat(Id, Id),
    Table(u32, Id),
}

#[derive(PartialEq, Eq, Hash, Clone)]
pub struct Tab {
    pub lo: u64,
    pub stride: u64,
    pub vals: Vec<u64>,
    pub w: u8,
}

pub struct Info {
    pub n: Node,
    pub w: u8,
    pub lo: u128,
    pub hi: u128,
    pub sup: u32,
}

pub struct Arena {
    pub nodes: Vec<Info>,
    map: HashMap<(Node, u8), Id, FxB>,
    pub tabs: Vec<Rc<Tab>>,
    tabmap: HashMap<Rc<Tab>, u32>,
    pub sups: Vec<Rc<[u32]>>,
    supmap: HashMap<Rc<[u32]>, u32>,
    unions: HashMap<(u32, u32), u32, FxB>,
    pub syms: Vec<(u8, Id)>, // width, node
    // eval memo
    memo: Vec<(u32, u128)>,
    epoch: u32,
}

#[derive(Default, Clone)]
pub struct FxB;
pub struct Fx(u64);
impl std::hash::BuildHasher for FxB {
    type Hasher = Fx;
    fn build_hasher(&self) -> Fx { Fx(0) }
}
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut x = [0u8; 8];
            x[..c.len()].copy_from_slice(c);
            self.write_u64(u64::from_le_bytes(x));
        }
    }
    fn write_u8(&mut self, i: u8) { self.write_u64(i as u64) }
    fn write_u32(&mut self, i: u32) { self.write_u64(i as u64) }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_usize(&mut self, i: usize) { self.write_u64(i as u64) }
    fn write_u128(&mut self, i: u128) { self.write_u64(i as u64); self.write_u64((i >> 64) as u64) }
    fn write_isize(&mut self, i: isize) { self.write_u64(i as u64) }
}

#[inline]
pub fn mask(w: u8) -> u128 {
    if w >= 128 { u128::MAX } else { (1u128 << w) - 1 }
}
#[inline]
pub fn sx(v: u128, w: u8) -> i128 {
    let s = 128 - w as u32;
    ((v << s) as i128) >> s
}

pub fn fold(op: Op, w: u8, a: u128, b: u128) -> u128 {
    let m = mask(w);
    match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => if b == 0 { m } else { a / b },
        Op::URem => if b == 0 { a } else { a % b },
        Op::SDiv => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 { if x >= 0 { m } else { 1 } } else { (x.wrapping_div(y)) as u128 & m }
        }
        Op::SRem => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 { a } else { (x.wrapping_rem(y)) as u128 & m }
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => if b >= w as u128 { 0 } else { (a << b) & m },
        Op::LShr => if b >= w as u128 { 0 } else { a >> b },
        Op::AShr => {
            let s = if b >= w as u128 { w as u32 - 1 } else { b as u32 };
            (sx(a, w) >> s) as u128 & m
        }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sx(a, w) < sx(b, w)) as u128,
        Op::Sle => (sx(a, w) <= sx(b, w)) as u128,
    }
}

fn is_cmp(op: Op) -> bool { matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle) }

impl Arena {
    pub fn new() -> Self {
        let mut a = Arena {
            nodes: vec![],
            map: HashMap::default(),
            tabs: vec![],
            tabmap: HashMap::new(),
            sups: vec![Rc::from([])],
            supmap: HashMap::new(),
            unions: HashMap::default(),
            syms: vec![],
            memo: vec![],
            epoch: 1,
        };
        a.supmap.insert(a.sups[0].clone(), 0);
        // id 0 is reserved (means "concrete" in memory overlays)
        a.intern(Node::Const(0), 1);
        a
    }
    #[inline] pub fn w(&self, i: Id) -> u8 { self.nodes[i as usize].w }
    #[inline] pub fn node(&self, i: Id) -> Node { self.nodes[i as usize].n }
    #[inline] pub fn konst(&self, i: Id) -> Option<u128> {
        match self.nodes[i as usize].n { Node::Const(c) => Some(c), _ => None }
    }
    pub fn sup(&self, i: Id) -> &Rc<[u32]> { &self.sups[self.nodes[i as usize].sup as usize] }
    fn supunion(&mut self, a: u32, b: u32) -> u32 {
        if a == b || b == 0 { return a; }
        if a == 0 { return b; }
        let k = if a < b { (a, b) } else { (b, a) };
        if let Some(&r) = self.unions.get(&k) { return r; }
        let mut v: Vec<u32> = self.sups[a as usize].iter().chain(self.sups[b as usize].iter()).copied().collect();
        v.sort_unstable();
        v.dedup();
        let r = self.supintern(v);
        self.unions.insert(k, r);
        r
    }
    fn supintern(&mut self, v: Vec<u32>) -> u32 {
        let rc: Rc<[u32]> = Rc::from(v);
        if let Some(&r) = self.supmap.get(&rc) { return r; }
        let r = self.sups.len() as u32;
        self.sups.push(rc.clone());
        self.supmap.insert(rc, r);
        r
    }
    fn intern(&mut self, n: Node, w: u8) -> Id {
        if let Some(&i) = self.map.get(&(n, w)) { return i; }
        let m = mask(w);
        let (mut lo, mut hi) = (0u128, m);
        let sup;
        match n {
            Node::Const(c) => { lo = c; hi = c; sup = 0; }
            Node::Sym(i) => { sup = self.supintern(vec![i]); }
            Node::Bin(op, a, b) => {
                let (ia, ib) = (&self.nodes[a as usize], &self.nodes[b as usize]);
                let s = (ia.sup, ib.sup);
                match op {
                    Op::Add => { if let (Some(l), Some(h)) = (ia.lo.checked_add(ib.lo), ia.hi.checked_add(ib.hi)) { if h <= m { lo = l; hi = h; } } }
                    Op::Sub => { if ia.lo >= ib.hi { lo = ia.lo - ib.hi; hi = ia.hi - ib.lo; } }
                    Op::Mul => { if let Some(h) = ia.hi.checked_mul(ib.hi) { if h <= m { lo = ia.lo * ib.lo; hi = h; } } }
                    Op::UDiv => { if ib.lo > 0 { lo = ia.lo / ib.hi; hi = ia.hi / ib.lo; } }
                    Op::URem => { if ib.lo > 0 { hi = ia.hi.min(ib.hi - 1); } }
                    Op::And => { hi = ia.hi.min(ib.hi); }
                    Op::Or => { lo = ia.lo.max(ib.lo); hi = fillbits(ia.hi | ib.hi); }
                    Op::Xor => { hi = fillbits(ia.hi | ib.hi); }
                    Op::Shl => { if ib.lo == ib.hi && ib.hi < 128 { let k = ib.hi as u32; if k < w as u32 && ia.hi <= (m >> k) { lo = ia.lo << k; hi = ia.hi << k; } } }
                    Op::LShr => { if ib.lo == ib.hi && ib.hi < w as u128 { lo = ia.lo >> ib.hi; hi = ia.hi >> ib.hi; } else { hi = ia.hi; } }
                    _ => {}
                }
                sup = self.supunion(s.0, s.1);
            }
            Node::Ite(c, a, b) => {
                let (ia, ib) = (&self.nodes[a as usize], &self.nodes[b as usize]);
                lo = ia.lo.min(ib.lo);
                hi = ia.hi.max(ib.hi);
                let s = (ia.sup, ib.sup, self.nodes[c as usize].sup);
                let t = self.supunion(s.0, s.1);
                sup = self.supunion(t, s.2);
            }
            Node::ZExt(a) => { let ia = &self.nodes[a as usize]; lo = ia.lo; hi = ia.hi; sup = ia.sup; }
            Node::SExt(a) => {
                let ia = &self.nodes[a as usize];
                if ia.hi <= mask(ia.w) >> 1 { lo = ia.lo; hi = ia.hi; }
                sup = ia.sup;
            }
            Node::Extract(a, l) => {
                let ia = &self.nodes[a as usize];
                if l == 0 && ia.hi <= m { lo = ia.lo; hi = ia.hi; } else { hi = (ia.hi >> l).min(m); }
                sup = ia.sup;
            }
            Node::Concat(a, b) => {
                let (ia, ib) = (&self.nodes[a as usize], &self.nodes[b as usize]);
                lo = (ia.lo << ib.w) | ib.lo;
                hi = (ia.hi << ib.w) | ib.hi;
                let s = (ia.sup, ib.sup);
                sup = self.supunion(s.0, s.1);
            }
            Node::Table(t, a) => {
                let tb = &self.tabs[t as usize];
                lo = *tb.vals.iter().min().unwrap() as u128;
                hi = *tb.vals.iter().max().unwrap() as u128;
                sup = self.nodes[a as usize].sup;
            }
        }
        let i = self.nodes.len() as Id;
        self.nodes.push(Info { n, w, lo, hi, sup });
        self.memo.push((0, 0));
        self.map.insert((n, w), i);
        i
    }
    pub fn c(&mut self, w: u8, v: u128) -> Id { let v = v & mask(w); if w == 1 && v == 0 { return self.intern(Node::Const(0), 1); } self.intern(Node::Const(v), w) }
    pub fn sym(&mut self, idx: u32, w: u8) -> Id {
        let i = self.intern(Node::Sym(idx), w);
        while self.syms.len() <= idx as usize { self.syms.push((0, 0)); }
        self.syms[idx as usize] = (w, i);
        i
    }
    pub fn table(&mut self, t: Tab, off: Id) -> Id {
        let w = t.w;
        if t.vals.iter().all(|&v| v == t.vals[0]) { return self.c(w, t.vals[0] as u128); }
        let rc = Rc::new(t);
        let ti = match self.tabmap.get(&rc) {
            Some(&x) => x,
            None => { let x = self.tabs.len() as u32; self.tabs.push(rc.clone()); self.tabmap.insert(rc, x); x }
        };
        self.intern(Node::Table(ti, off), w)
    }
    pub fn not(&mut self, a: Id) -> Id {
        debug_assert!(self.w(a) == 1);
        match self.node(a) {
            Node::Const(c) => { self.c(1, 1 - c) }
            Node::Bin(Op::Ult, x, y) => self.bin(Op::Ule, y, x),
            Node::Bin(Op::Ule, x, y) => self.bin(Op::Ult, y, x),
            Node::Bin(Op::Slt, x, y) => self.bin(Op::Sle, y, x),
            Node::Bin(Op::Sle, x, y) => self.bin(Op::Slt, y, x),
            _ => { let one = self.c(1, 1); self.bin(Op::Xor, a, one) }
        }
    }
    pub fn is_not(&self, a: Id) -> Option<Id> {
        if let Node::Bin(Op::Xor, x, y) = self.node(a) { if self.w(a) == 1 && self.konst(y) == Some(1) { return Some(x); } }
        None
    }
    pub fn bin(&mut self, op: Op, a: Id, b: Id) -> Id {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "width mismatch {:?}", op);
        let rw = if is_cmp(op) { 1 } else { w };
        let (ka, kb) = (self.konst(a), self.konst(b));
        if let (Some(x), Some(y)) = (ka, kb) { let v = fold(op, w, x, y); return self.c(rw, v); }
        let m = mask(w);
        // constants to the right for commutative operators
        if ka.is_some() && kb.is_none() && matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq) {
            return self.bin(op, b, a);
        }
        match op {
            Op::Add => {
                if let Some(c) = kb {
                    if c == 0 { return a; }
                    if let Node::Bin(Op::Add, x, y) = self.node(a) { if let Some(d) = self.konst(y) { let k = self.c(w, c.wrapping_add(d)); return self.bin(Op::Add, x, k); } }
                }
                // (x - y) + y
                if let Node::Bin(Op::Sub, x, y) = self.node(a) { if y == b { return x; } }
                if let Node::Bin(Op::Sub, x, y) = self.node(b) { if y == a { return x; } }
                // move constants outward
                if let Node::Bin(Op::Add, x, y) = self.node(a) { if self.konst(y).is_some() && kb.is_none() { let t = self.bin(Op::Add, x, b); return self.bin(Op::Add, t, y); } }
                if let Node::Bin(Op::Add, x, y) = self.node(b) { if self.konst(y).is_some() { let t = self.bin(Op::Add, a, x); return self.bin(Op::Add, t, y); } }
            }
            Op::Sub => {
                if a == b { return self.c(w, 0); }
                if let Some(c) = kb { let k = self.c(w, 0u128.wrapping_sub(c)); return self.bin(Op::Add, a, k); }
                if let Node::Bin(Op::Add, x, y) = self.node(a) {
                    if y == b { return x; }
                    if x == b { return y; }
                    if self.konst(y).is_some() { let t = self.bin(Op::Sub, x, b); return self.bin(Op::Add, t, y); }
                }
                if let Node::Bin(Op::Add, x, y) = self.node(b) {
                    if let Some(c) = self.konst(y) { let t = self.bin(Op::Sub, a, x); let k = self.c(w, 0u128.wrapping_sub(c)); return self.bin(Op::Add, t, k); }
                }
            }
            Op::Mul => {
                if let Some(c) = kb {
                    if c == 0 { return b; }
                    if c == 1 { return a; }
                    if c.is_power_of_two() { let k = self.c(w, c.trailing_zeros() as u128); return self.bin(Op::Shl, a, k); }
                }
            }
            Op::UDiv => { if kb == Some(1) { return a; } if let Some(c) = kb { if c.is_power_of_two() { let k = self.c(w, c.trailing_zeros() as u128); return self.bin(Op::LShr, a, k); } } }
            Op::URem => { if let Some(c) = kb { if c.is_power_of_two() { let k = self.c(w, c - 1); return self.bin(Op::And, a, k); } } }
            Op::And => {
                if a == b { return a; }
                if let Some(c) = kb {
                    if c == 0 { return b; }
                    if c == m { return a; }
                    // mask covering all possible bits
                    let hi = self.nodes[a as usize].hi;
                    if fillbits(hi) & c == fillbits(hi) { return a; }
                    if let Node::Bin(Op::And, x, y) = self.node(a) { if let Some(d) = self.konst(y) { let k = self.c(w, c & d); return self.bin(Op::And, x, k); } }
                    // low mask -> zext(extract)
                    if (c + 1).is_power_of_two() && w > 1 {
                        let nb = c.trailing_ones() as u8;
                        let e = self.extract(a, 0, nb);
                        return self.zext(e, w);
                    }
                    if let Node::ZExt(x) = self.node(a) {
                        let xw = self.w(x);
                        let k = self.c(xw, c);
                        let t = self.bin(Op::And, x, k);
                        return self.zext(t, w);
                    }
                    if let Node::Concat(x, y) = self.node(a) {
                        let (wx, wy) = (self.w(x), self.w(y));
                        let k1 = self.c(wx, c >> wy); let k2 = self.c(wy, c);
                        let t1 = self.bin(Op::And, x, k1); let t2 = self.bin(Op::And, y, k2);
                        return self.concat(t1, t2);
                    }
                }
                if w == 1 { if self.is_not(a) == Some(b) || self.is_not(b) == Some(a) { return self.c(1, 0); } }
            }
            Op::Or => {
                if a == b { return a; }
                if let Some(c) = kb {
                    if c == 0 { return a; }
                    if c == m { return b; }
                }
                if w == 1 { if self.is_not(a) == Some(b) || self.is_not(b) == Some(a) { return self.c(1, 1); } }
                // disjoint or of zext / shl: concat
                if let Some(r) = self.or_concat(a, b) { return r; }
                if let Some(r) = self.or_concat(b, a) { return r; }
            }
            Op::Xor => {
                if a == b { return self.c(w, 0); }
                if let Some(c) = kb {
                    if c == 0 { return a; }
                    if let Node::Bin(Op::Xor, x, y) = self.node(a) { if let Some(d) = self.konst(y) { let k = self.c(w, c ^ d); return self.bin(Op::Xor, x, k); } }
                    if w == 1 && c == 1 {
                        match self.node(a) {
                            Node::Bin(Op::Ult, x, y) => return self.bin(Op::Ule, y, x),
                            Node::Bin(Op::Ule, x, y) => return self.bin(Op::Ult, y, x),
                            Node::Bin(Op::Slt, x, y) => return self.bin(Op::Sle, y, x),
                            Node::Bin(Op::Sle, x, y) => return self.bin(Op::Slt, y, x),
                            _ => {}
                        }
                    }
                    if let Node::ZExt(x) = self.node(a) { let xw = self.w(x); if c <= mask(xw) { let k = self.c(xw, c); let t = self.bin(Op::Xor, x, k); return self.zext(t, w); } }
                }
            }
            Op::Shl => {
                if let Some(k) = kb {
                    if k == 0 { return a; }
                    if k >= w as u128 { return self.c(w, 0); }
                    let k = k as u8;
                    // shl x k = concat(extract(x,0,w-k), 0_k)
                    let e = self.extract(a, 0, w - k);
                    let z = self.c(k, 0);
                    return self.concat(e, z);
                }
            }
            Op::LShr => {
                if let Some(k) = kb {
                    if k == 0 { return a; }
                    if k >= w as u128 { return self.c(w, 0); }
                    let e = self.extract(a, k as u8, w - k as u8);
                    return self.zext(e, w);
                }
            }
            Op::AShr => {
                if let Some(k) = kb {
                    if k == 0 { return a; }
                    let k = k.min(w as u128 - 1) as u8;
                    let e = self.extract(a, k, w - k);
                    return self.sext(e, w);
                }
            }
            Op::Eq => {
                if a == b { return self.c(1, 1); }
                if let Some(c) = kb {
                    let ia = &self.nodes[a as usize];
                    if c < ia.lo || c > ia.hi { return self.c(1, 0); }
                    if w == 1 { return if c == 1 { a } else { self.not(a) }; }
                    match self.node(a) {
                        Node::ZExt(x) => { let xw = self.w(x); let k = self.c(xw, c); return self.bin(Op::Eq, x, k); }
                        Node::SExt(x) => {
                            let xw = self.w(x);
                            if sx(c, w) == sx(c & mask(xw), xw) { let k = self.c(xw, c); return self.bin(Op::Eq, x, k); }
                            return self.c(1, 0);
                        }
                        Node::Concat(x, y) => {
                            let (wx, wy) = (self.w(x), self.w(y));
                            let k1 = self.c(wx, c >> wy); let k2 = self.c(wy, c);
                            let t1 = self.bin(Op::Eq, x, k1); let t2 = self.bin(Op::Eq, y, k2);
                            return self.bin(Op::And, t1, t2);
                        }
                        Node::Bin(Op::Add, x, y) => { if let Some(d) = self.konst(y) { let k = self.c(w, c.wrapping_sub(d)); return self.bin(Op::Eq, x, k); } }
                        Node::Bin(Op::Xor, x, y) => {
                            if let Some(d) = self.konst(y) { let k = self.c(w, c ^ d); return self.bin(Op::Eq, x, k); }
                            if c == 0 { return self.bin(Op::Eq, x, y); }
                        }
                        Node::Bin(Op::Sub, x, y) => { if c == 0 { return self.bin(Op::Eq, x, y); } if let Some(d) = self.konst(x) { let k = self.c(w, d.wrapping_sub(c)); return self.bin(Op::Eq, y, k); } }
                        Node::Bin(Op::Or, x, y) => { if c == 0 { let t1 = self.bin(Op::Eq, x, b); let t2 = self.bin(Op::Eq, y, b); return self.bin(Op::And, t1, t2); } }
                        Node::Ite(p, x, y) => {
                            if let (Some(cx), Some(cy)) = (self.konst(x), self.konst(y)) {
                                return match (cx == c, cy == c) { (true, true) => self.c(1, 1), (false, false) => self.c(1, 0), (true, false) => p, (false, true) => self.not(p) };
                            }
                            if self.konst(x).is_some() || self.konst(y).is_some() {
                                let t1 = self.bin(Op::Eq, x, b); let t2 = self.bin(Op::Eq, y, b);
                                return self.ite(p, t1, t2);
                            }
                        }
                        Node::Table(t, off) => {
                            let tb = self.tabs[t as usize].clone();
                            let vals: Vec<u64> = tb.vals.iter().map(|&v| (v as u128 == c) as u64).collect();
                            return self.table(Tab { lo: tb.lo, stride: tb.stride, vals, w: 1 }, off);
                        }
                        _ => {}
                    }
                } else {
                    if let (Node::ZExt(x), Node::ZExt(y)) = (self.node(a), self.node(b)) {
                        let (wx, wy) = (self.w(x), self.w(y));
                        if wx == wy { return self.bin(Op::Eq, x, y); }
                    }
                    if let (Node::Concat(x, y), Node::Concat(p, q)) = (self.node(a), self.node(b)) {
                        if self.w(x) == self.w(p) { let t1 = self.bin(Op::Eq, x, p); let t2 = self.bin(Op::Eq, y, q); return self.bin(Op::And, t1, t2); }
                    }
                    if w == 1 { let x = self.bin(Op::Xor, a, b); return self.not(x); }
                    let (ia, ib) = (&self.nodes[a as usize], &self.nodes[b as usize]);
                    if ia.hi < ib.lo || ib.hi < ia.lo { return self.c(1, 0); }
                }
            }
            Op::Ult | Op::Ule => {
                if a == b { return self.c(1, (op == Op::Ule) as u128); }
                let (ia, ib) = (&self.nodes[a as usize], &self.nodes[b as usize]);
                if op == Op::Ult {
                    if ia.hi < ib.lo { return self.c(1, 1); }
                    if ia.lo >= ib.hi { return self.c(1, 0); }
                } else {
                    if ia.hi <= ib.lo { return self.c(1, 1); }
                    if ia.lo > ib.hi { return self.c(1, 0); }
                }
                if w == 1 {
                    let na = self.not(a);
                    return if op == Op::Ult { self.bin(Op::And, na, b) } else { self.bin(Op::Or, na, b) };
                }
                if let (Node::ZExt(x), Some(c)) = (self.node(a), kb) { let xw = self.w(x); if c <= mask(xw) { let k = self.c(xw, c); return self.bin(op, x, k); } }
                if let (Some(c), Node::ZExt(x)) = (ka, self.node(b)) { let xw = self.w(x); if c <= mask(xw) { let k = self.c(xw, c); return self.bin(op, k, x); } }
                if let (Node::ZExt(x), Node::ZExt(y)) = (self.node(a), self.node(b)) { if self.w(x) == self.w(y) { return self.bin(op, x, y); } }
                // normalise constant comparisons: x <= c  -> x < c+1
                if op == Op::Ule { if let Some(c) = kb { if c < m { let k = self.c(w, c + 1); return self.bin(Op::Ult, a, k); } } if let Some(c) = ka { if c > 0 { let k = self.c(w, c - 1); return self.bin(Op::Ult, k, b); } } }
                if op == Op::Ult && kb == Some(1) { let z = self.c(w, 0); return self.bin(Op::Eq, a, z); }
                if op == Op::Ult && ka == Some(0) { let z = self.c(w, 0); let e = self.bin(Op::Eq, b, z); return self.not(e); }
                if let (Node::Table(t, off), Some(c)) = (self.node(a), kb) {
                    let tb = self.tabs[t as usize].clone();
                    let vals: Vec<u64> = tb.vals.iter().map(|&v| fold(op, w, v as u128, c) as u64).collect();
                    return self.table(Tab { lo: tb.lo, stride: tb.stride, vals, w: 1 }, off);
                }
            }
            Op::Slt | Op::Sle => {
                if a == b { return self.c(1, (op == Op::Sle) as u128); }
                let half = m >> 1;
                let (ia, ib) = (&self.nodes[a as usize], &self.nodes[b as usize]);
                if ia.hi <= half && ib.hi <= half { return self.bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b); }
                // sign tests of extensions
                if let (Node::SExt(x), Node::SExt(y)) = (self.node(a), self.node(b)) { if self.w(x) == self.w(y) { return self.bin(op, x, y); } }
                if let (Node::SExt(x), Some(c)) = (self.node(a), kb) { let xw = self.w(x); if sx(c, w) == sx(c & mask(xw), xw) { let k = self.c(xw, c); return self.bin(op, x, k); } }
                if let (Some(c), Node::SExt(x)) = (ka, self.node(b)) { let xw = self.w(x); if sx(c, w) == sx(c & mask(xw), xw) { let k = self.c(xw, c); return self.bin(op, k, x); } }
            }
            _ => {}
        }
        // push operators through ite / tables with constants
        if let Some(c) = kb {
            match self.node(a) {
                Node::Ite(p, x, y) if self.konst(x).is_some() && self.konst(y).is_some() => {
                    let t1 = self.bin(op, x, b); let t2 = self.bin(op, y, b);
                    return self.ite(p, t1, t2);
                }
                Node::Table(t, off) if w <= 64 && rw <= 64 => {
                    let tb = self.tabs[t as usize].clone();
                    if tb.vals.len() <= 4096 {
                        let vals: Vec<u64> = tb.vals.iter().map(|&v| fold(op, w, v as u128, c) as u64).collect();
                        return self.table(Tab { lo: tb.lo, stride: tb.stride, vals, w: rw }, off);
                    }
                }
                _ => {}
            }
        } else if ka.is_some() {
            match self.node(b) {
                Node::Ite(p, x, y) if self.konst(x).is_some() && self.konst(y).is_some() => {
                    let t1 = self.bin(op, a, x); let t2 = self.bin(op, a, y);
                    return self.ite(p, t1, t2);
                }
                _ => {}
            }
        }
        self.intern(Node::Bin(op, a, b), rw)
    }
    // a = concat(x, 0_k) (i.e. shifted), b < 2^k  -> concat(x, extract(b,0,k))
    fn or_concat(&mut self, a: Id, b: Id) -> Option<Id> {
        if let Node::Concat(x, z) = self.node(a) {
            let k = self.w(z);
            if self.konst(z) == Some(0) && self.nodes[b as usize].hi <= mask(k) {
                let e = self.extract(b, 0, k);
                return Some(self.concat(x, e));
            }
        }
        None
    }
    pub fn zext(&mut self, a: Id, w: u8) -> Id {
        let aw = self.w(a);
        if aw == w { return a; }
        if let Some(c) = self.konst(a) { return self.c(w, c); }
        match self.node(a) {
            Node::ZExt(x) => return self.zext(x, w),
            Node::Ite(c, x, y) if self.konst(x).is_some() && self.konst(y).is_some() => { let t = self.zext(x, w); let e = self.zext(y, w); return self.ite(c, t, e); }
            Node::Table(t, off) if w <= 64 => { let tb = self.tabs[t as usize].clone(); return self.table(Tab { w, lo: tb.lo, stride: tb.stride, vals: tb.vals.clone() }, off); }
            Node::Concat(x, y) if self.konst(x) == Some(0) => return self.zext(y, w),
            _ => {}
        }
        self.intern(Node::ZExt(a), w)
    }
    pub fn sext(&mut self, a: Id, w: u8) -> Id {
        let aw = self.w(a);
        if aw == w { return a; }
        if let Some(c) = self.konst(a) { return self.c(w, sx(c, aw) as u128); }
        if self.nodes[a as usize].hi <= mask(aw) >> 1 { return self.zext(a, w); }
        match self.node(a) {
            Node::SExt(x) => return self.sext(x, w),
            Node::Ite(c, x, y) if self.konst(x).is_some() && self.konst(y).is_some() => { let t = self.sext(x, w); let e = self.sext(y, w); return self.ite(c, t, e); }
            _ => {}
        }
        if aw == 1 { let t = self.c(w, mask(w)); let f = self.c(w, 0); return self.ite(a, t, f); }
        self.intern(Node::SExt(a), w)
    }
    pub fn extract(&mut self, a: Id, lo: u8, w: u8) -> Id {
        let aw = self.w(a);
        if lo == 0 && w == aw { return a; }
        if let Some(c) = self.konst(a) { return self.c(w, c >> lo); }
        if (self.nodes[a as usize].hi >> lo) == 0 { return self.c(w, 0); }
        match self.node(a) {
            Node::Extract(x, l2) => return self.extract(x, l2 + lo, w),
            Node::ZExt(x) => {
                let xw = self.w(x);
                if lo >= xw { return self.c(w, 0); }
                if lo + w <= xw { return self.extract(x, lo, w); }
                let e = self.extract(x, lo, xw - lo);
                return self.zext(e, w);
            }
            Node::SExt(x) => {
                let xw = self.w(x);
                if lo + w <= xw { return self.extract(x, lo, w); }
                if lo == 0 { return self.sext(x, w); }
            }
            Node::Concat(h, l) => {
                let lw = self.w(l);
                if lo + w <= lw { return self.extract(l, lo, w); }
                if lo >= lw { return self.extract(h, lo - lw, w); }
                let e1 = self.extract(l, lo, lw - lo);
                let e2 = self.extract(h, 0, w - (lw - lo));
                return self.concat(e2, e1);
            }
            Node::Ite(c, x, y) if self.konst(x).is_some() || self.konst(y).is_some() => { let t = self.extract(x, lo, w); let e = self.extract(y, lo, w); return self.ite(c, t, e); }
            Node::Bin(op @ (Op::And | Op::Or | Op::Xor), x, y) => {
                let t = self.extract(x, lo, w); let e = self.extract(y, lo, w);
                return self.bin(op, t, e);
            }
            Node::Bin(op @ (Op::Add | Op::Sub | Op::Mul), x, y) if lo == 0 => {
                let t = self.extract(x, 0, w); let e = self.extract(y, 0, w);
                return self.bin(op, t, e);
            }
            Node::Table(t, off) => {
                let tb = self.tabs[t as usize].clone();
                let vals: Vec<u64> = tb.vals.iter().map(|&v| ((v as u128 >> lo) & mask(w)) as u64).collect();
                return self.table(Tab { lo: tb.lo, stride: tb.stride, vals, w }, off);
            }
            _ => {}
        }
        self.intern(Node::Extract(a, lo), w)
    }
    pub fn concat(&mut self, h: Id, l: Id) -> Id {
        let (hw, lw) = (self.w(h), self.w(l));
        let w = hw + lw;
        if let (Some(x), Some(y)) = (self.konst(h), self.konst(l)) { return self.c(w, (x << lw) | y); }
        if self.konst(h) == Some(0) { return self.zext(l, w); }
        match (self.node(h), self.node(l)) {
            (Node::Extract(x, l1), Node::Extract(y, l2)) if x == y && l1 == l2 + lw => return self.extract(x, l2, w),
            // concat(extract(x,k..), x[0..k]) where l is the low part through zext etc.
            _ => {}
        }
        // full low part: concat(extract(x,lw,hw), extract(x,0,lw)) covered above; l may have been simplified
        if let Node::Concat(hh, hl) = self.node(h) {
            // re-associate to the right so neighbours can fuse
            let t = self.concat(hl, l);
            if !matches!(self.node(t), Node::Concat(a, b) if a == hl && b == l) { return self.concat(hh, t); }
        }
        if let Node::Concat(lh, ll) = self.node(l) {
            let t = self.concat(h, lh);
            if !matches!(self.node(t), Node::Concat(a, b) if a == h && b == lh) { return self.concat(t, ll); }
        }
        if let (Some(_), Node::Concat(lh, ll)) = (self.konst(h), self.node(l)) {
            if self.konst(lh).is_some() { let t = self.concat(h, lh); return self.concat(t, ll); }
        }
        self.intern(Node::Concat(h, l), w)
    }
    pub fn ite(&mut self, c: Id, t: Id, e: Id) -> Id {
        if let Some(k) = self.konst(c) { return if k == 1 { t } else { e }; }
        if t == e { return t; }
        if let Some(n) = self.is_not(c) { return self.ite(n, e, t); }
        let w = self.w(t);
        if w == 1 {
            match (self.konst(t), self.konst(e)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Op::Or, c, e),
                (Some(0), None) => { let n = self.not(c); return self.bin(Op::And, n, e); }
                (None, Some(0)) => return self.bin(Op::And, c, t),
                (None, Some(1)) => { let n = self.not(c); return self.bin(Op::Or, n, t); }
                _ => {}
            }
        }
        if let Node::Ite(c2, x, _) = self.node(t) { if c2 == c { return self.ite(c, x, e); } }
        if let Node::Ite(c2, _, y) = self.node(e) { if c2 == c { return self.ite(c, t, y); } }
        self.intern(Node::Ite(c, t, e), w)
    }
    /// Largest known divisor (power-of-two safe) of the unsigned value.
    pub fn stride(&self, e: Id) -> u64 {
        match self.node(e) {
            Node::Const(c) => c as u64,
            Node::Concat(h, l) if self.konst(l) == Some(0) => {
                let s = self.stride(h);
                let k = self.w(l);
                if k >= 63 { 0 } else { s.max(1) << k }
            }
            Node::ZExt(x) => self.stride(x),
            Node::Bin(Op::Add, a, b) => gcd(self.stride(a), self.stride(b)),
            Node::Bin(Op::Mul, a, b) => {
                let n = &self.nodes[e as usize];
                if n.hi == mask(n.w) { return 1; } // may wrap
                match self.konst(b) { Some(c) => (c as u64).saturating_mul(self.stride(a).max(1)), None => 1 }
            }
            Node::Ite(_, a, b) => gcd(self.stride(a), self.stride(b)),
            Node::Table(t, _) => self.tabs[t as usize].vals.iter().fold(0, |g, &v| gcd(g, v)),
            _ => 1,
        }
    }
    pub fn new_epoch(&mut self) { self.epoch += 1; }
    pub fn eval(&mut self, e: Id, model: &[u64]) -> u128 {
        let (ep, v) = self.memo[e as usize];
        if ep == self.epoch { return v; }
        let info = &self.nodes[e as usize];
        let w = info.w;
        let v = match info.n {
            Node::Const(c) => c,
            Node::Sym(i) => model.get(i as usize).copied().unwrap_or(0) as u128 & mask(w),
            Node::Bin(op, a, b) => { let x = self.eval(a, model); let y = self.eval(b, model); fold(op, self.w(a), x, y) }
            Node::Ite(c, a, b) => if self.eval(c, model) == 1 { self.eval(a, model) } else { self.eval(b, model) },
            Node::ZExt(a) => self.eval(a, model),
            Node::SExt(a) => { let x = self.eval(a, model); sx(x, self.w(a)) as u128 & mask(w) }
            Node::Extract(a, l) => (self.eval(a, model) >> l) & mask(w),
            Node::Concat(a, b) => { let x = self.eval(a, model); let y = self.eval(b, model); (x << self.w(b)) | y }
            Node::Table(t, a) => { let x = self.eval(a, model) as u64; tab_get(&self.tabs[t as usize], x) as u128 }
        };
        self.memo[e as usize] = (self.epoch, v);
        v
    }
}

pub fn tab_get(t: &Tab, off: u64) -> u64 {
    if off <= t.lo { return t.vals[0]; }
    let k = ((off - t.lo).div_ceil(t.stride) as usize).min(t.vals.len() - 1);
    t.vals[k]
}
fn fillbits(x: u128) -> u128 { if x == 0 { 0 } else { u128::MAX >> x.leading_zeros() } }
pub fn gcd(a: u64, b: u64) -> u64 { let (mut a, mut b) = (a, b); while b != 0 { let t = a % b; a = b; b = t; } a }
