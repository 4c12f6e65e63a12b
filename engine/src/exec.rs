//! The symbolic executor: states, memory, branching, path constraints.
use crate::expr::*;
use crate::ext::Ext;
use crate::ir::*;
use crate::z3::{Res, Z3};
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Condvar, Mutex};

#[derive(Clone, Debug)]
pub enum Val { I(u64), E(Id), W(Rc<u128>), A(Rc<Vec<Val>>) }

pub struct Obj { pub data: Vec<u8>, pub sym: Vec<Id>, pub stack: bool }
impl Clone for Obj { fn clone(&self) -> Obj { Obj { data: self.data.clone(), sym: self.sym.clone(), stack: self.stack } } }

#[derive(Clone)]
pub struct Slot { pub gen: u32, pub obj: Option<Rc<Obj>> }

#[derive(Clone)]
pub struct Frame {
    pub f: &'static Func,
    pub fi: u32,
    pub pc: u32,
    pub regs: Vec<Val>,
    pub allocas: Vec<u32>,
}

pub struct Group {
    pub syms: Vec<u32>,
    pub cons: Vec<Id>,
    /// every assignment of `syms` (one byte each) that satisfies the first n constraints, when that set is small
    pub tup: std::cell::RefCell<Option<(usize, Rc<Vec<u8>>)>>,
}
const TUP_LIMIT: usize = 4096;
const TUP_PRODUCT: usize = 16384;

pub struct TraceNode { pub v: u64, pub prev: Option<Rc<TraceNode>>, pub len: u32 }

#[derive(Clone)]
pub struct State {
    pub slots: Vec<Slot>,
    pub free: Vec<u32>,
    pub gmut: Vec<(u32, Rc<Obj>)>,
    pub cur: Frame,
    pub stack: Vec<Rc<Frame>>,
    pub groups: Vec<Option<Rc<Group>>>,
    pub symgrp: Vec<u32>,
    pub dom: Vec<u32>,
    pub model: Rc<Vec<u64>>,
    pub modelv: u64,
    pub forced: Vec<(Id, u64)>,
    pub trace: Option<Rc<TraceNode>>,
    pub replay: Rc<Vec<u64>>,
    pub rpos: usize,
    pub syms: Vec<(u32, u8)>, // name id, width
    pub steps: u64,
    pub ctx: Vec<(u32, u64)>,
    pub ev: Option<Rc<EvNode>>,
    /// contexts of the threads that are not running; the running one's place is empty
    pub threads: Vec<Option<Rc<Thread>>>,
    pub tid: usize,
}

#[derive(Clone)]
pub struct Thread { pub cur: Frame, pub stack: Vec<Rc<Frame>> }

/// Observable event of a path: a cover label or a noted value.
pub struct EvNode { pub name: u32, pub v: EvVal, pub prev: Option<Rc<EvNode>> }
pub enum EvVal { Cover, I(u64), E(Id) }

#[derive(Debug)]
pub enum Stop {
    End,
    Silent,
    Violation { kind: String, id: String, msg: String },
    Inconclusive(String),
}

pub struct Job { pub trace: Vec<u64>, pub model: Vec<u64> }

pub struct Found { pub kind: String, pub id: String, pub msg: String, pub stack: Vec<String>, pub inputs: Vec<(String, u8, u64)>, pub path: usize, pub ctx: Vec<(String, u64)> }

/// A completed path: concrete inputs that drive it and the events it must show.
pub struct Sample { pub inputs: Vec<(String, u8, u64)>, pub events: Vec<(String, Option<u64>)>, pub steps: u64 }

pub struct Shared {
    pub samples: Mutex<Vec<Sample>>,
    pub q: Mutex<Vec<Job>>,
    pub cv: Condvar,
    pub idle: AtomicUsize,
    pub want: AtomicUsize,
    pub stop: AtomicBool,
    pub paths: AtomicU64,
    pub n: usize,
    pub found: Mutex<Vec<Found>>,
    pub inconcl: Mutex<BTreeMap<String, u64>>,
    pub deadline: std::time::Instant,
    pub max_steps: u64,
    pub max_fan: usize,
    pub keep_going: bool,
    pub known: Vec<String>,
    pub verbose: bool,
}

#[derive(Default)]
pub struct Stats {
    pub instrs: u64, pub forks: u64, pub paths_end: u64, pub paths_silent: u64, pub paths_viol: u64,
    pub q_total: u64, pub q_eval: u64, pub q_dom: u64, pub q_cache: u64, pub q_tup: u64, pub q_z3: u64, pub z3_time: f64, pub z3_max: f64,
    pub asserts: u64, pub asserts_sym: u64, pub xcheck: u64, pub replayed: u64,
    pub cover: BTreeMap<String, u64>,
    pub funcs: std::collections::HashSet<u32>,
    pub max_syms: usize, pub max_depth: u32, pub notes: BTreeMap<String, u64>,
    pub concrete_allocs: u64, pub sampled: u64,
}

#[derive(Clone)]
enum CRes { Sat(Rc<Vec<(u32, u64)>>), Unsat, Unknown }

pub struct Ex {
    pub m: &'static Module,
    pub exts: &'static [Ext],
    pub ar: Arena,
    pub z: Z3,
    pub sh: &'static Shared,
    pub work: std::collections::VecDeque<State>,
    pub st_: Stats,
    /// seconds this thread spends on re-deciding finite-domain answers with z3, and the one-byte queries seen
    pub xbudget: f64, pub xspent: f64, pub xseen: std::collections::HashSet<(Id, u32)>,
    cache: HashMap<Box<[u32]>, CRes>,
    doms: Vec<[u64; 4]>,
    dommap: HashMap<[u64; 4], u32>,
    truth: HashMap<Id, Rc<[u64; 4]>>,
    cur_epoch_model: u64,
    model_ctr: u64,
    pub names: Vec<String>,
    pub nameid: HashMap<String, u32>,
    budget_check: u32,
}

type R<T> = Result<T, Stop>;

pub fn symclass(w: u8) -> u32 { match w { 8 => 0, 16 => 1, 32 => 2, _ => 3 } }

impl Ex {
    pub fn new(m: &'static Module, exts: &'static [Ext], sh: &'static Shared, tmo: u32) -> Ex {
        let full = [u64::MAX; 4];
        let mut dommap = HashMap::new();
        dommap.insert(full, 0);
        Ex { m, exts, ar: Arena::new(), z: Z3::new(tmo), sh, work: Default::default(), st_: Stats::default(), xbudget: 0.0, xspent: 0.0, xseen: Default::default(), cache: HashMap::new(), doms: vec![full], dommap, truth: HashMap::new(), cur_epoch_model: 0, model_ctr: 1, names: vec![], nameid: HashMap::new(), budget_check: 0 }
    }
    pub fn name(&mut self, s: &str) -> u32 {
        if let Some(&i) = self.nameid.get(s) { return i; }
        let i = self.names.len() as u32;
        self.names.push(s.to_string());
        self.nameid.insert(s.to_string(), i);
        i
    }

    pub fn initial(&self, fi: u32, job: Job) -> State {
        let f: &'static Func = leak(self.m, fi);
        State {
            slots: vec![], free: vec![], gmut: vec![],
            cur: Frame { f, fi, pc: 0, regs: vec![Val::I(0); f.nregs as usize], allocas: vec![] },
            stack: vec![], groups: vec![], symgrp: vec![], dom: vec![],
            model: Rc::new(job.model), modelv: 0, forced: vec![], trace: None, replay: Rc::new(job.trace), rpos: 0, syms: vec![], steps: 0, ctx: vec![], ev: None, threads: vec![None], tid: 0,
        }
    }

    // ---------- expressions / values ----------
    #[inline]
    pub fn ex(&mut self, v: &Val, w: u8) -> Id {
        match v {
            Val::I(x) => self.ar.c(w, *x as u128),
            Val::E(e) => { let ew = self.ar.w(*e); if ew == w { *e } else if ew > w { self.ar.extract(*e, 0, w) } else { self.ar.zext(*e, w) } }
            Val::W(x) => self.ar.c(w, **x),
            Val::A(_) => panic!("aggregate as scalar"),
        }
    }
    #[inline]
    pub fn mk(&self, e: Id) -> Val {
        match self.ar.konst(e) { Some(c) => if self.ar.w(e) <= 64 { Val::I(c as u64) } else { Val::W(Rc::new(c)) }, None => Val::E(e) }
    }
    pub fn eval(&mut self, st: &mut State, e: Id) -> u128 {
        if st.modelv == 0 || st.modelv != self.cur_epoch_model {
            if st.modelv == 0 { self.model_ctr += 1; st.modelv = self.model_ctr; }
            self.ar.new_epoch();
            self.cur_epoch_model = st.modelv;
        }
        let m = st.model.clone();
        self.ar.eval(e, &m)
    }
    pub fn set_model_pub(&mut self, st: &mut State, upd: &[(u32, u64)]) { self.set_model(st, upd) }
    fn set_model(&mut self, st: &mut State, upd: &[(u32, u64)]) {
        if upd.is_empty() { return; }
        let m = Rc::make_mut(&mut st.model);
        for &(s, v) in upd {
            if m.len() <= s as usize { m.resize(s as usize + 1, 0); }
            m[s as usize] = v;
        }
        st.modelv = 0;
    }

    // ---------- constraints ----------
    fn truthset(&mut self, e: Id) -> Rc<[u64; 4]> {
        if let Some(t) = self.truth.get(&e) { return t.clone(); }
        let s = self.ar.sup(e)[0];
        let mut t = [0u64; 4];
        let mut model = vec![0u64; s as usize + 1];
        for v in 0..256u64 {
            model[s as usize] = v;
            self.ar.new_epoch();
            if self.ar.eval(e, &model) == 1 { t[(v / 64) as usize] |= 1 << (v % 64); }
        }
        self.cur_epoch_model = 0;
        self.ar.new_epoch();
        let t = Rc::new(t);
        self.truth.insert(e, t.clone());
        t
    }
    fn domid(&mut self, d: [u64; 4]) -> u32 {
        if let Some(&i) = self.dommap.get(&d) { return i; }
        let i = self.doms.len() as u32;
        self.doms.push(d);
        self.dommap.insert(d, i);
        i
    }
    fn getdom(&self, st: &State, s: u32) -> [u64; 4] { self.doms[st.dom.get(s as usize).copied().unwrap_or(0) as usize] }
    fn unary_only(&self, st: &State, s: u32) -> bool {
        match st.symgrp.get(s as usize).copied() { None | Some(u32::MAX) => true, Some(g) => st.groups[g as usize].as_ref().unwrap().syms.len() == 1 }
    }
    pub fn add(&mut self, st: &mut State, c: Id) {
        if self.ar.konst(c).is_some() { return; }
        if let Node::Bin(Op::And, a, b) = self.ar.node(c) { self.add(st, a); self.add(st, b); return; }
        let sup = self.ar.sup(c).clone();
        let mx = *sup.last().unwrap() as usize;
        if st.symgrp.len() <= mx { st.symgrp.resize(mx + 1, u32::MAX); }
        if st.dom.len() <= mx { st.dom.resize(mx + 1, 0); }
        if sup.len() == 1 && sup[0] % 4 == 0 {
            let t = self.truthset(c);
            let d = self.getdom(st, sup[0]);
            let n = [d[0] & t[0], d[1] & t[1], d[2] & t[2], d[3] & t[3]];
            if n == d && st.symgrp[mx] != u32::MAX { return; } // implied
            let id = self.domid(n);
            st.dom[sup[0] as usize] = id;
        }
        let mut gs: Vec<u32> = vec![];
        let mut newsyms: Vec<u32> = vec![];
        for &s in sup.iter() { let g = st.symgrp[s as usize]; if g == u32::MAX { newsyms.push(s); } else if !gs.contains(&g) { gs.push(g); } }
        if gs.is_empty() {
            let gi = st.groups.len() as u32;
            for &s in &newsyms { st.symgrp[s as usize] = gi; }
            st.groups.push(Some(Rc::new(Group { syms: newsyms, cons: vec![c], tup: Default::default() })));
            return;
        }
        let g0 = gs[0];
        let base = st.groups[g0 as usize].take().unwrap();
        if gs.len() == 1 && newsyms.is_empty() && base.cons.contains(&c) { st.groups[g0 as usize] = Some(base); return; }
        let mut g = Group { syms: base.syms.clone(), cons: base.cons.clone(), tup: if gs.len() == 1 && newsyms.is_empty() { base.tup.clone() } else { Default::default() } };
        for &o in &gs[1..] {
            let og = st.groups[o as usize].take().unwrap();
            for &s in &og.syms { st.symgrp[s as usize] = g0; }
            g.syms.extend_from_slice(&og.syms);
            g.cons.extend_from_slice(&og.cons);
        }
        for &s in &newsyms { st.symgrp[s as usize] = g0; }
        g.syms.extend_from_slice(&newsyms);
        g.cons.push(c);
        st.groups[g0 as usize] = Some(Rc::new(g));
    }
    /// Is `c` satisfiable together with the path constraints?  Ok(Some(model update)) / Ok(None) = unsat.
    pub fn feasible(&mut self, st: &mut State, c: Id) -> Result<Option<Rc<Vec<(u32, u64)>>>, ()> {
        self.st_.q_total += 1;
        if let Some(k) = self.ar.konst(c) { return Ok(if k == 1 { Some(Rc::new(vec![])) } else { None }); }
        if self.eval(st, c) == 1 { self.st_.q_eval += 1; return Ok(Some(Rc::new(vec![]))); }
        let sup = self.ar.sup(c).clone();
        if sup.len() == 1 && sup[0] % 4 == 0 {
            let t = self.truthset(c);
            let d = self.getdom(st, sup[0]);
            let n = [d[0] & t[0], d[1] & t[1], d[2] & t[2], d[3] & t[3]];
            let decided = if n == [0; 4] { Some(None) } else if self.unary_only(st, sup[0]) {
                let k = (0..4).find(|&k| n[k] != 0).unwrap();
                Some(Some(Rc::new(vec![(sup[0], k as u64 * 64 + n[k].trailing_zeros() as u64)])))
            } else { None };
            if let Some(r) = decided {
                self.st_.q_dom += 1;
                let di = self.domid(d);
                if self.st_.q_dom % 256 == 1 || self.xspent < self.xbudget && self.xseen.insert((c, di)) {
                    // cross-check a sample of the finite-domain decisions with the SMT solver
                    let mut cons = match st.symgrp.get(sup[0] as usize) { None | Some(&u32::MAX) => vec![], Some(&g) => st.groups[g as usize].as_ref().unwrap().cons.clone() };
                    cons.push(c);
                    self.st_.xcheck += 1;
                    let t0 = std::time::Instant::now();
                    let z = self.z.check(&self.ar, &cons, &[], &[]);
                    self.xspent += t0.elapsed().as_secs_f64();
                    let agree = match (&z, &r) { (Res::Sat(_), Some(_)) | (Res::Unsat, None) | (Res::Unknown, _) => true, _ => false };
                    if !agree { eprintln!("hx: domain decision disagrees with z3"); std::process::exit(3); }
                }
                return Ok(r);
            }
        }
        let mut cons: Vec<Id> = vec![];
        let mut syms: Vec<u32> = vec![];
        let mut gs: Vec<u32> = vec![];
        for &s in sup.iter() {
            match st.symgrp.get(s as usize) { None | Some(&u32::MAX) => syms.push(s), Some(&g) => if !gs.contains(&g) { gs.push(g); let gr = st.groups[g as usize].as_ref().unwrap(); for &k in &gr.cons { let s = self.ar.sup(k); if !(s.len() == 1 && s[0] % 4 == 0) { cons.push(k); } } syms.extend_from_slice(&gr.syms); } }
        }
        // one-byte constraints are summarised exactly by the symbol's domain
        cons.sort_unstable();
        syms.sort_unstable();
        cons.push(c);
        let ncons = cons.len();
        let mut doms = vec![];
        for &s in &syms { let d = st.dom.get(s as usize).copied().unwrap_or(0); if d != 0 { doms.push((s, self.doms[d as usize])); cons.push(u32::MAX - s); cons.push(d); } }
        if let Some(r) = self.cache.get(&cons[..]) {
            self.st_.q_cache += 1;
            return match r { CRes::Sat(m) => Ok(Some(m.clone())), CRes::Unsat => Ok(None), CRes::Unknown => Err(()) };
        }
        if let Some(r) = self.by_tuples(st, c, &sup, &gs) {
            self.st_.q_tup += 1;
            if self.st_.q_tup % 128 == 1 || self.xspent < self.xbudget {
                self.st_.xcheck += 1;
                let t0 = std::time::Instant::now();
                let z = self.z.check(&self.ar, &cons[..ncons], &doms, &[]);
                self.xspent += t0.elapsed().as_secs_f64();
                let agree = match (&z, &r) { (Res::Sat(_), Some(_)) | (Res::Unsat, None) | (Res::Unknown, _) => true, _ => false };
                if !agree { eprintln!("hx: tuple decision disagrees with z3"); std::process::exit(3); }
            }
            let r = r.map(Rc::new);
            self.cache.insert(cons.into_boxed_slice(), match &r { Some(m) => CRes::Sat(m.clone()), None => CRes::Unsat });
            return Ok(r);
        }
        self.st_.q_z3 += 1;
        let r = match self.z.check(&self.ar, &cons[..ncons], &doms, &syms) { Res::Sat(m) => CRes::Sat(Rc::new(m)), Res::Unsat => CRes::Unsat, Res::Unknown => CRes::Unknown };
        self.cache.insert(cons.into_boxed_slice(), r.clone());
        match r { CRes::Sat(m) => Ok(Some(m)), CRes::Unsat => Ok(None), CRes::Unknown => { self.inconclusive("solver returned unknown (timeout)"); Err(()) } }
    }
    fn domvals(&self, st: &State, s: u32) -> Vec<u8> { let d = self.getdom(st, s); (0..256usize).filter(|v| d[v / 64] >> (v % 64) & 1 == 1).map(|v| v as u8).collect() }
    /// Exact decision over the (small) set of assignments of the byte symbols involved.
    fn by_tuples(&mut self, st: &State, c: Id, sup: &[u32], gs: &[u32]) -> Option<Option<Vec<(u32, u64)>>> {
        if sup.iter().any(|s| s % 4 != 0) { return None; }
        let mut sets: Vec<(Vec<u32>, Rc<Vec<u8>>)> = vec![];
        let mut total = 1usize;
        let base = st.model.clone();
        for &g in gs {
            let gr = st.groups[g as usize].as_ref().unwrap().clone();
            if gr.syms.iter().any(|s| s % 4 != 0) { return None; }
            let k = gr.syms.len();
            let (done, mut tup) = match gr.tup.borrow().as_ref() {
                Some((n, t)) => (*n, t.clone()),
                None => {
                    let mut n = 1usize;
                    for &s in &gr.syms { n = n.saturating_mul(self.getdom(st, s).iter().map(|x| x.count_ones() as usize).sum()); if n > TUP_LIMIT { return None; } }
                    let mut t: Vec<u8> = vec![];
                    let ds: Vec<Vec<u8>> = gr.syms.iter().map(|&s| self.domvals(st, s)).collect();
                    let mut ix = vec![0usize; k];
                    if n > 0 { 'o: loop {
                        for j in 0..k { t.push(ds[j][ix[j]]); }
                        let mut j = 0;
                        loop { if j == k { break 'o; } ix[j] += 1; if ix[j] < ds[j].len() { break; } ix[j] = 0; j += 1; }
                    } }
                    (0, Rc::new(t))
                }
            };
            if done < gr.cons.len() {
                let mx = *gr.syms.iter().max().unwrap() as usize;
                let mut m = (*base).clone();
                if m.len() <= mx { m.resize(mx + 1, 0); }
                let mut out = Vec::with_capacity(tup.len());
                for row in tup.chunks(k) {
                    for j in 0..k { m[gr.syms[j] as usize] = row[j] as u64; }
                    self.ar.new_epoch();
                    if gr.cons[done..].iter().all(|&x| self.ar.eval(x, &m) == 1) { out.extend_from_slice(row); }
                }
                self.cur_epoch_model = 0;
                tup = Rc::new(out);
                *gr.tup.borrow_mut() = Some((gr.cons.len(), tup.clone()));
            }
            total = total.saturating_mul(tup.len() / k);
            sets.push((gr.syms.clone(), tup));
        }
        for &s in sup { if matches!(st.symgrp.get(s as usize), None | Some(&u32::MAX)) { let v = self.domvals(st, s); total = total.saturating_mul(v.len()); sets.push((vec![s], Rc::new(v))); } }
        if total > TUP_PRODUCT { return None; }
        let mx = sets.iter().flat_map(|x| x.0.iter()).max().copied().unwrap_or(0) as usize;
        let mut m = (*base).clone();
        if m.len() <= mx { m.resize(mx + 1, 0); }
        let mut ix = vec![0usize; sets.len()];
        let mut found = None;
        self.cur_epoch_model = 0;
        if total > 0 { 'p: loop {
            for (j, (ss, t)) in sets.iter().enumerate() { let k = ss.len(); for q in 0..k { m[ss[q] as usize] = t[ix[j] * k + q] as u64; } }
            self.ar.new_epoch();
            if self.ar.eval(c, &m) == 1 { found = Some(sets.iter().flat_map(|x| x.0.iter()).map(|&s| (s, m[s as usize])).collect()); break; }
            let mut j = 0;
            loop { if j == sets.len() { break 'p; } ix[j] += 1; if ix[j] < sets[j].1.len() / sets[j].0.len() { break; } ix[j] = 0; j += 1; }
        } }
        self.ar.new_epoch();
        Some(found)
    }
    pub fn inconclusive(&self, s: &str) { *self.sh.inconcl.lock().unwrap().entry(s.to_string()).or_insert(0) += 1; }

    fn push_trace(st: &mut State, v: u64) {
        let len = st.trace.as_ref().map_or(0, |t| t.len) + 1;
        st.trace = Some(Rc::new(TraceNode { v, prev: st.trace.take(), len }));
    }
    pub fn trace_vec(st: &State) -> Vec<u64> {
        let mut v = vec![];
        let mut t = st.trace.as_ref();
        while let Some(n) = t { v.push(n.v); t = n.prev.as_ref(); }
        v.reverse();
        v
    }
    fn eqc(&mut self, e: Id, v: u64) -> Id { let w = self.ar.w(e); if w == 1 { return if v == 1 { e } else { self.ar.not(e) }; } let k = self.ar.c(w, v as u128); self.ar.bin(Op::Eq, e, k) }

    /// Fork over every feasible value of `e`; the current state continues with one of them.
    pub fn concretize(&mut self, st: &mut State, e: Id) -> R<u64> {
        if let Some(c) = self.ar.konst(e) { return Ok(c as u64); }
        for &(x, v) in &st.forced { if x == e { return Ok(v); } }
        if self.ar.w(e) > 64 { return Err(Stop::Inconclusive("concretize of a wide value".into())); }
        if st.rpos < st.replay.len() {
            let v = st.replay[st.rpos];
            st.rpos += 1;
            self.st_.replayed += 1;
            let c = self.eqc(e, v);
            if self.ar.konst(c) == Some(0) { return Err(Stop::Inconclusive("replay divergence".into())); }
            self.add(st, c);
            Self::push_trace(st, v);
            st.forced.push((e, v));
            return Ok(v);
        }
        let w = self.ar.w(e);
        let v0 = self.eval(st, e) as u64;
        let mut alts: Vec<(u64, Rc<Vec<(u32, u64)>>)> = vec![];
        if w == 1 {
            let o = if v0 == 1 { self.ar.not(e) } else { e };
            if let Ok(Some(m)) = self.feasible(st, o) { alts.push((1 - v0, m)); }
        } else {
            let mut seen = vec![v0];
            let k = self.ar.c(w, v0 as u128);
            let q = self.ar.bin(Op::Eq, e, k);
            let mut ex = self.ar.not(q);
            let save = (st.model.clone(), st.modelv);
            loop {
                match self.feasible(st, ex) {
                    Ok(Some(m)) => {
                        // value of e under the updated model
                        self.set_model(st, &m);
                        let v = self.eval(st, e) as u64;
                        if seen.contains(&v) { return Err(Stop::Inconclusive("concretize loop".into())); }
                        // the update must be relative to the original model
                        alts.push((v, m));
                        st.model = save.0.clone();
                        st.modelv = save.1;
                        seen.push(v);
                        if seen.len() > self.sh.max_fan { return Err(Stop::Inconclusive(format!("more than {} values at one concretisation in {}", self.sh.max_fan, demangle(&self.m.funcs[st.cur.fi as usize].name)))); }
                        let k = self.ar.c(w, v as u128);
                        let q = self.ar.bin(Op::Eq, e, k);
                        let n = self.ar.not(q);
                        ex = self.ar.bin(Op::And, ex, n);
                    }
                    Ok(None) => break,
                    Err(()) => break,
                }
            }
        }
        for (v, m) in alts {
            let mut s2 = st.clone();
            self.set_model(&mut s2, &m);
            let c = self.eqc(e, v);
            self.add(&mut s2, c);
            Self::push_trace(&mut s2, v);
            s2.forced.push((e, v));
            self.st_.forks += 1;
            self.work.push_back(s2);
        }
        let c = self.eqc(e, v0);
        self.add(st, c);
        Self::push_trace(st, v0);
        st.forced.push((e, v0));
        Ok(v0)
    }
    pub fn conc(&mut self, st: &mut State, v: &Val) -> R<u64> {
        match v { Val::I(x) => Ok(*x), Val::E(e) => self.concretize(st, *e), Val::W(x) => Ok(**x as u64), _ => Err(Stop::Inconclusive("aggregate scalar".into())) }
    }

    // ---------- memory ----------
    pub fn alloc(&mut self, st: &mut State, size: u64, stack: bool) -> u64 {
        let slot = match st.free.pop() {
            Some(s) => s,
            None => { st.slots.push(Slot { gen: 0, obj: None }); st.slots.len() as u32 - 1 }
        };
        if slot > 0xfff0 { panic!("too many objects"); }
        let s = &mut st.slots[slot as usize];
        s.gen = (s.gen + 1) & 0x7fff;
        if s.gen == 0 { s.gen = 1; }
        s.obj = Some(Rc::new(Obj { data: vec![0; size as usize], sym: vec![], stack }));
        ((s.gen as u64) << 48) | ((slot as u64) << 32) | 0x10000
    }
    pub fn free_addr(&mut self, st: &mut State, addr: u64) -> R<()> {
        if addr == 0 { return Ok(()); }
        let slot = ((addr >> 32) & 0xffff) as usize;
        let ok = addr as u32 == 0x10000 && slot < st.slots.len() && st.slots[slot].gen as u64 == addr >> 48 && st.slots[slot].obj.as_ref().map_or(false, |o| !o.stack);
        if !ok { return Err(self.memerr(st, addr, 0, "invalid or double free")); }
        st.slots[slot].obj = None;
        st.free.push(slot as u32);
        Ok(())
    }
    pub fn memerr(&self, st: &State, addr: u64, n: u64, what: &str) -> Stop {
        Stop::Violation { kind: "memory".into(), id: format!("memory-safety in {}", demangle(&self.m.funcs[st.cur.fi as usize].name)), msg: format!("{} at {:#x} size {}", what, addr, n) }
    }
    /// (is_global, index, offset)
    #[inline]
    pub fn resolve(&self, st: &State, addr: u64, n: u64) -> Option<(bool, u32, u32)> {
        if addr >> 32 == 0 {
            if addr < GBASE || addr >= self.m.gend { return None; }
            let gi = self.m.gmap[((addr - GBASE) >> 4) as usize];
            if gi == 0 { return None; }
            let g = &self.m.globals[gi as usize - 1];
            let off = addr.wrapping_sub(g.addr);
            if off + n > g.size || addr < g.addr { return None; }
            Some((true, gi - 1, off as u32))
        } else {
            let slot = ((addr >> 32) & 0xffff) as usize;
            if slot >= st.slots.len() { return None; }
            let s = &st.slots[slot];
            if s.gen as u64 != addr >> 48 { return None; }
            let o = s.obj.as_ref()?;
            let off = (addr as u32).wrapping_sub(0x10000);
            if off as u64 + n > o.data.len() as u64 { return None; }
            Some((false, slot as u32, off))
        }
    }
    pub fn objsize(&self, st: &State, r: (bool, u32, u32)) -> u64 {
        if r.0 { self.m.globals[r.1 as usize].size } else { st.slots[r.1 as usize].obj.as_ref().unwrap().data.len() as u64 }
    }
    pub fn ro<'b>(&'b self, st: &'b State, g: bool, i: u32) -> (&'b [u8], &'b [Id]) {
        if g {
            let gl = &self.m.globals[i as usize];
            if !gl.constant { for (k, o) in &st.gmut { if *k == i { return (&o.data, &o.sym); } } }
            (&gl.data, &[])
        } else { let o = st.slots[i as usize].obj.as_ref().unwrap(); (&o.data, &o.sym) }
    }
    pub fn rw<'b>(&self, st: &'b mut State, g: bool, i: u32) -> &'b mut Obj {
        if g {
            let p = st.gmut.iter().position(|(k, _)| *k == i);
            let p = match p { Some(p) => p, None => { st.gmut.push((i, Rc::new(Obj { data: (*self.m.globals[i as usize].data).clone(), sym: vec![], stack: false }))); st.gmut.len() - 1 } };
            Rc::make_mut(&mut st.gmut[p].1)
        } else { Rc::make_mut(st.slots[i as usize].obj.as_mut().unwrap()) }
    }
    fn read_at(&mut self, st: &State, r: (bool, u32, u32), n: usize, w: u8) -> Val {
        let o = r.2 as usize;
        let (data, sym) = self.ro(st, r.0, r.1);
        if sym.is_empty() || sym[o..o + n].iter().all(|&x| x == 0) {
            if n <= 8 {
                let mut b = [0u8; 8];
                b[..n].copy_from_slice(&data[o..o + n]);
                let v = u64::from_le_bytes(b);
                return Val::I(if w < 64 { v & ((1u64 << w) - 1) } else { v });
            }
            let mut b = [0u8; 16];
            b[..n].copy_from_slice(&data[o..o + n]);
            return Val::W(Rc::new(u128::from_le_bytes(b)));
        }
        let bytes: Vec<(u8, Id)> = (0..n).map(|k| (data[o + k], sym[o + k])).collect();
        let mut e = 0;
        for (k, (b, s)) in bytes.into_iter().enumerate() {
            let x = if s != 0 { s } else { self.ar.c(8, b as u128) };
            e = if k == 0 { x } else { self.ar.concat(x, e) };
        }
        let ew = self.ar.w(e);
        if w < ew { e = self.ar.extract(e, 0, w); }
        self.mk(e)
    }
    /// Turn an address value into something resolvable; symbolic addresses stay symbolic if provably inside one object.
    fn sym_addr(&mut self, st: &mut State, e: Id, n: u64) -> R<((bool, u32, u32), u64, Id)> {
        loop {
            let a = self.eval(st, e) as u64;
            let r = match self.resolve(st, a, n) {
                Some(r) => r,
                None => { // the current model already reaches an invalid address
                    return Err(self.memerr(st, a, n, "out-of-bounds or dangling access (symbolic address)"));
                }
            };
            let base = a - r.2 as u64;
            let size = self.objsize(st, r);
            let k = self.ar.c(64, base as u128);
            let off = self.ar.bin(Op::Sub, e, k);
            let lim = self.ar.c(64, (size - n) as u128);
            let inb = self.ar.bin(Op::Ule, off, lim);
            if self.ar.konst(inb) == Some(1) { return Ok((r, base, off)); }
            let oob = self.ar.not(inb);
            match self.feasible(st, oob) {
                Ok(None) => return Ok((r, base, off)),
                Err(()) => return Err(Stop::Inconclusive("bounds query unknown".into())),
                Ok(Some(_)) => { if self.concretize(st, inb)? == 1 { return Ok((r, base, off)); } }
            }
        }
    }
    pub fn load(&mut self, st: &mut State, p: &Val, n: usize, w: u8) -> R<Val> {
        match p {
            Val::I(a) => match self.resolve(st, *a, n as u64) { Some(r) => Ok(self.read_at(st, r, n, w)), None => Err(self.memerr(st, *a, n as u64, "invalid read")) },
            Val::E(e) => {
                let (r, base, off) = self.sym_addr(st, *e, n as u64)?;
                let size = self.objsize(st, r);
                let info = &self.ar.nodes[off as usize];
                let (mut lo, mut hi) = (info.lo.min(u64::MAX as u128) as u64, info.hi.min(u64::MAX as u128) as u64);
                hi = hi.min(size - n as u64);
                let stride = { let s = self.ar.stride(off); if s == 0 { 1 } else { s } };
                lo = (lo + stride - 1) / stride * stride;
                if lo > hi { return Err(Stop::Inconclusive("empty address range".into())); }
                let cnt = (hi - lo) / stride + 1;
                let conc = { let (_, sym) = self.ro(st, r.0, r.1); sym.is_empty() || sym[lo as usize..(hi as usize + n)].iter().all(|&x| x == 0) };
                if n <= 8 && conc && cnt <= 70000 {
                    let (data, _) = self.ro(st, r.0, r.1);
                    let mut vals = Vec::with_capacity(cnt as usize);
                    for k in 0..cnt {
                        let o = (lo + k * stride) as usize;
                        let mut b = [0u8; 8];
                        b[..n].copy_from_slice(&data[o..o + n]);
                        let v = u64::from_le_bytes(b);
                        vals.push(if w < 64 { v & ((1u64 << w) - 1) } else { v });
                    }
                    let t = self.ar.table(Tab { lo, stride, vals, w }, off);
                    return Ok(self.mk(t));
                }
                if n <= 8 && cnt <= 64 {
                    let mut acc: Option<Id> = None;
                    for k in (0..cnt).rev() {
                        let o = lo + k * stride;
                        let v = self.read_at(st, (r.0, r.1, o as u32), n, w);
                        let v = self.ex(&v, w);
                        acc = Some(match acc { None => v, Some(a) => { let c = self.eqc(off, o); self.ar.ite(c, v, a) } });
                    }
                    return Ok(self.mk(acc.unwrap()));
                }
                let o = self.concretize(st, off)?;
                match self.resolve(st, base + o, n as u64) { Some(r) => Ok(self.read_at(st, r, n, w)), None => Err(self.memerr(st, base + o, n as u64, "invalid read")) }
            }
            _ => Err(Stop::Inconclusive("odd pointer".into())),
        }
    }
    pub fn load_ty(&mut self, st: &mut State, p: &Val, ty: &Ty) -> R<Val> {
        match ty {
            Ty::Vector(n, et) if et.bits() % 8 != 0 => {
                let v = self.load(st, p, ty.size() as usize, (ty.size() * 8) as u8)?;
                let e = self.ex(&v, (ty.size() * 8) as u8);
                let b = et.bits() as u8;
                let mut out = vec![];
                for k in 0..*n { let x = self.ar.extract(e, k as u8 * b, b); out.push(self.mk(x)); }
                Ok(Val::A(Rc::new(out)))
            }
            Ty::Struct(..) | Ty::Array(..) | Ty::Vector(..) => {
                let p = Val::I(self.conc(st, p)?);
                let mut out = vec![];
                for k in 0..ty.nelem() {
                    let (o, et) = ty.offset(k);
                    let a = match p { Val::I(a) => a.wrapping_add(o), _ => unreachable!() };
                    out.push(self.load_ty(st, &Val::I(a), &et)?);
                }
                Ok(Val::A(Rc::new(out)))
            }
            t => self.load(st, p, t.store_size() as usize, t.bits() as u8),
        }
    }
    fn write_at(&mut self, st: &mut State, r: (bool, u32, u32), n: usize, v: &Val) {
        let o = r.2 as usize;
        match v {
            Val::I(x) => {
                let ob = self.rw(st, r.0, r.1);
                if n <= 8 { ob.data[o..o + n].copy_from_slice(&x.to_le_bytes()[..n]); } else { for k in 0..n { ob.data[o + k] = if k < 8 { (x >> (8 * k)) as u8 } else { 0 }; } }
                if !ob.sym.is_empty() { for s in &mut ob.sym[o..o + n] { *s = 0; } }
            }
            Val::W(x) => {
                let ob = self.rw(st, r.0, r.1);
                ob.data[o..o + n].copy_from_slice(&x.to_le_bytes()[..n]);
                if !ob.sym.is_empty() { for s in &mut ob.sym[o..o + n] { *s = 0; } }
            }
            Val::E(e) => {
                let e = { let ew = self.ar.w(*e); if (ew as usize) < n * 8 { self.ar.zext(*e, (n * 8) as u8) } else { *e } };
                let mut parts = vec![];
                for k in 0..n { let x = self.ar.extract(e, (k * 8) as u8, 8); parts.push((self.ar.konst(x), x)); }
                let ob = self.rw(st, r.0, r.1);
                if ob.sym.is_empty() { ob.sym = vec![0; ob.data.len()]; }
                for (k, (c, x)) in parts.into_iter().enumerate() {
                    match c { Some(c) => { ob.data[o + k] = c as u8; ob.sym[o + k] = 0; } None => { ob.data[o + k] = 0; ob.sym[o + k] = x; } }
                }
            }
            Val::A(_) => unreachable!(),
        }
    }
    pub fn store(&mut self, st: &mut State, p: &Val, n: usize, v: &Val) -> R<()> {
        let a = match p {
            Val::I(a) => *a,
            Val::E(e) => {
                let (_, base, off) = self.sym_addr(st, *e, n as u64)?;
                base + self.concretize(st, off)?
            }
            _ => return Err(Stop::Inconclusive("odd pointer".into())),
        };
        match self.resolve(st, a, n as u64) {
            Some(r) => {
                if r.0 && self.m.globals[r.1 as usize].constant { return Err(self.memerr(st, a, n as u64, "write to constant")); }
                self.write_at(st, r, n, v);
                Ok(())
            }
            None => Err(self.memerr(st, a, n as u64, "invalid write")),
        }
    }
    pub fn store_ty(&mut self, st: &mut State, p: &Val, ty: &Ty, v: &Val) -> R<()> {
        if let Val::A(vs) = v {
            if let Ty::Vector(_, et) = ty { if et.bits() % 8 != 0 {
                let x = self.vec_to_int(vs, et.bits() as u8);
                return self.store(st, p, ty.size() as usize, &x);
            } }
            let a = self.conc(st, p)?;
            for k in 0..ty.nelem() {
                let (o, et) = ty.offset(k);
                self.store_ty(st, &Val::I(a.wrapping_add(o)), &et, &vs[k])?;
            }
            return Ok(());
        }
        self.store(st, p, ty.store_size() as usize, v)
    }
    fn vec_to_int(&mut self, vs: &[Val], b: u8) -> Val {
        let mut e = 0;
        for (k, v) in vs.iter().enumerate() { let x = self.ex(v, b); e = if k == 0 { x } else { self.ar.concat(x, e) }; }
        self.mk(e)
    }
    /// Read a run of bytes (concrete address/length).
    pub fn bytes(&self, st: &State, a: u64, n: u64) -> R<(Vec<u8>, Vec<Id>)> {
        if n == 0 { return Ok((vec![], vec![])); }
        match self.resolve(st, a, n) {
            Some(r) => {
                let (d, s) = self.ro(st, r.0, r.1);
                let o = r.2 as usize;
                let n = n as usize;
                Ok((d[o..o + n].to_vec(), if s.is_empty() || s[o..o + n].iter().all(|&x| x == 0) { vec![] } else { s[o..o + n].to_vec() }))
            }
            None => Err(self.memerr(st, a, n, "invalid read")),
        }
    }
    pub fn put_bytes(&mut self, st: &mut State, a: u64, d: &[u8], s: &[Id]) -> R<()> {
        if d.is_empty() { return Ok(()); }
        match self.resolve(st, a, d.len() as u64) {
            Some(r) => {
                if r.0 && self.m.globals[r.1 as usize].constant { return Err(self.memerr(st, a, d.len() as u64, "write to constant")); }
                let ob = self.rw(st, r.0, r.1);
                let o = r.2 as usize;
                ob.data[o..o + d.len()].copy_from_slice(d);
                if !s.is_empty() { if ob.sym.is_empty() { ob.sym = vec![0; ob.data.len()]; } ob.sym[o..o + d.len()].copy_from_slice(s); }
                else if !ob.sym.is_empty() { for x in &mut ob.sym[o..o + d.len()] { *x = 0; } }
                Ok(())
            }
            None => Err(self.memerr(st, a, d.len() as u64, "invalid write")),
        }
    }
    pub fn cstr(&self, st: &State, p: u64, n: u64) -> String {
        match self.bytes(st, p, n) { Ok((d, _)) => String::from_utf8_lossy(&d).into_owned(), Err(_) => "?".into() }
    }

    // ---------- instruction execution ----------
    #[inline]
    fn get(&self, st: &State, o: &Opd) -> Val {
        match o { Opd::R(r) => st.cur.regs[*r as usize].clone(), Opd::I(x) => Val::I(*x), Opd::K(k) => kv(k) }
    }
    #[inline]
    fn goto(&self, st: &mut State, e: &Edge) {
        match e.moves.len() {
            0 => {}
            1 => { let v = self.get(st, &e.moves[0].1); st.cur.regs[e.moves[0].0 as usize] = v; }
            _ => {
                let vs: Vec<Val> = e.moves.iter().map(|(_, o)| self.get(st, o)).collect();
                for ((d, _), v) in e.moves.iter().zip(vs) { st.cur.regs[*d as usize] = v; }
            }
        }
        st.cur.pc = e.pc;
    }
    fn binop(&mut self, op: BinOp, w: u8, a: &Val, b: &Val) -> R<Val> {
        if let (Val::I(x), Val::I(y)) = (a, b) {
            if w <= 64 {
                let m = if w == 64 { u64::MAX } else { (1u64 << w) - 1 };
                let (x, y) = (*x, *y);
                let s = |v: u64| -> i64 { ((v << (64 - w)) as i64) >> (64 - w) };
                let r = match op {
                    BinOp::Add => x.wrapping_add(y), BinOp::Sub => x.wrapping_sub(y), BinOp::Mul => x.wrapping_mul(y),
                    BinOp::And => x & y, BinOp::Or => x | y, BinOp::Xor => x ^ y,
                    BinOp::Shl => if y >= w as u64 { 0 } else { x << y }, BinOp::LShr => if y >= w as u64 { 0 } else { x >> y },
                    BinOp::AShr => (s(x) >> y.min(w as u64 - 1)) as u64,
                    BinOp::UDiv => if y == 0 { 0 } else { x / y }, BinOp::URem => if y == 0 { 0 } else { x % y },
                    BinOp::SDiv => if y == 0 { 0 } else { s(x).wrapping_div(s(y)) as u64 }, BinOp::SRem => if y == 0 { 0 } else { s(x).wrapping_rem(s(y)) as u64 },
                    BinOp::FAdd | BinOp::FSub | BinOp::FMul | BinOp::FDiv => {
                        if w == 64 { let (p, q) = (f64::from_bits(x), f64::from_bits(y)); (match op { BinOp::FAdd => p + q, BinOp::FSub => p - q, BinOp::FMul => p * q, _ => p / q }).to_bits() }
                        else { let (p, q) = (f32::from_bits(x as u32), f32::from_bits(y as u32)); (match op { BinOp::FAdd => p + q, BinOp::FSub => p - q, BinOp::FMul => p * q, _ => p / q }).to_bits() as u64 }
                    }
                };
                return Ok(Val::I(r & m));
            }
        }
        let o = match op {
            BinOp::Add => Op::Add, BinOp::Sub => Op::Sub, BinOp::Mul => Op::Mul, BinOp::UDiv => Op::UDiv, BinOp::URem => Op::URem, BinOp::SDiv => Op::SDiv, BinOp::SRem => Op::SRem,
            BinOp::And => Op::And, BinOp::Or => Op::Or, BinOp::Xor => Op::Xor, BinOp::Shl => Op::Shl, BinOp::LShr => Op::LShr, BinOp::AShr => Op::AShr,
            _ => return Err(Stop::Inconclusive("symbolic float arithmetic".into())),
        };
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let r = self.ar.bin(o, x, y);
        Ok(self.mk(r))
    }
    pub fn icmp(&mut self, p: Pred, w: u8, a: &Val, b: &Val) -> Val {
        if let (Val::I(x), Val::I(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let s = |v: u64| -> i64 { ((v << (64 - w)) as i64) >> (64 - w) };
            return Val::I(match p { Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ugt => x > y, Pred::Uge => x >= y, Pred::Ult => x < y, Pred::Ule => x <= y, Pred::Sgt => s(x) > s(y), Pred::Sge => s(x) >= s(y), Pred::Slt => s(x) < s(y), Pred::Sle => s(x) <= s(y) } as u64);
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let r = match p {
            Pred::Eq => self.ar.bin(Op::Eq, x, y),
            Pred::Ne => { let e = self.ar.bin(Op::Eq, x, y); self.ar.not(e) }
            Pred::Ult => self.ar.bin(Op::Ult, x, y), Pred::Ule => self.ar.bin(Op::Ule, x, y), Pred::Ugt => self.ar.bin(Op::Ult, y, x), Pred::Uge => self.ar.bin(Op::Ule, y, x),
            Pred::Slt => self.ar.bin(Op::Slt, x, y), Pred::Sle => self.ar.bin(Op::Sle, x, y), Pred::Sgt => self.ar.bin(Op::Slt, y, x), Pred::Sge => self.ar.bin(Op::Sle, y, x),
        };
        self.mk(r)
    }
    fn select(&mut self, c: &Val, a: &Val, b: &Val, w: u8) -> R<Val> {
        match c {
            Val::I(x) => Ok(if *x & 1 == 1 { a.clone() } else { b.clone() }),
            Val::E(e) => {
                match (a, b) {
                    (Val::A(x), Val::A(y)) => {
                        let mut o = vec![];
                        for (p, q) in x.iter().zip(y.iter()) {
                            let w = self.valw(p).max(self.valw(q));
                            o.push(self.select(c, p, q, w)?);
                        }
                        Ok(Val::A(Rc::new(o)))
                    }
                    _ => { let (x, y) = (self.ex(a, w), self.ex(b, w)); let r = self.ar.ite(*e, x, y); Ok(self.mk(r)) }
                }
            }
            _ => Err(Stop::Inconclusive("select".into())),
        }
    }
    fn valw(&self, v: &Val) -> u8 { match v { Val::E(e) => self.ar.w(*e), Val::W(_) => 128, _ => 64 } }

    fn ret(&mut self, st: &mut State, v: Option<Val>) -> R<()> {
        // release allocas
        let al = std::mem::take(&mut st.cur.allocas);
        for s in al.into_iter().rev() { st.slots[s as usize].obj = None; st.free.push(s); }
        match st.stack.pop() {
            None => Err(Stop::End),
            Some(fr) => {
                let fr = Rc::try_unwrap(fr).unwrap_or_else(|r| (*r).clone());
                st.cur = fr;
                let inst = &st.cur.f.code[st.cur.pc as usize];
                if let Inst::Call { d, next, .. } = inst {
                    if let (Some(d), Some(v)) = (d, v) { st.cur.regs[*d as usize] = v; }
                    match next { Some(e) => self.goto(st, e), None => st.cur.pc += 1 }
                    Ok(())
                } else { unreachable!() }
            }
        }
    }
    fn finish_call(&mut self, st: &mut State, inst: &'static Inst, v: Option<Val>) {
        if let Inst::Call { d, next, .. } = inst {
            if let (Some(d), Some(v)) = (d, v) { st.cur.regs[*d as usize] = v; }
            match next { Some(e) => self.goto(st, e), None => st.cur.pc += 1 }
        }
    }
    fn enter(&mut self, st: &mut State, fi: u32, args: Vec<Val>) -> R<()> {
        if st.stack.len() > 400 { return Err(Stop::Violation { kind: "stack".into(), id: "stack-overflow".into(), msg: "call depth > 400".into() }); }
        self.st_.funcs.insert(fi);
        let f: &'static Func = leak(self.m, fi);
        let mut regs = vec![Val::I(0); f.nregs as usize];
        for (p, a) in f.params.iter().zip(args) { regs[*p as usize] = a; }
        let fr = std::mem::replace(&mut st.cur, Frame { f, fi, pc: 0, regs, allocas: vec![] });
        st.stack.push(Rc::new(fr));
        Ok(())
    }

    pub fn run(&mut self, st: &mut State) -> Stop {
        loop {
            match self.step(st) {
                Ok(()) => {
                    if !st.forced.is_empty() { st.forced.clear(); }
                    st.steps += 1;
                    if st.steps & 0xfff == 0 {
                        if st.steps > self.sh.max_steps {
                            return Stop::Violation { kind: "steps".into(), id: "non-termination".into(), msg: format!("path exceeded {} instructions", st.steps) };
                        }
                        if self.sh.stop.load(Ordering::Relaxed) { return Stop::Silent; }
                        if std::time::Instant::now() > self.sh.deadline { self.inconclusive("time budget exhausted before exploration finished"); self.sh.stop.store(true, Ordering::Relaxed); return Stop::Silent; }
                    }
                }
                Err(s) => { self.st_.instrs += st.steps; return s; }
            }
        }
    }

    #[inline]
    fn step(&mut self, st: &mut State) -> R<()> {
        let inst: &'static Inst = &st.cur.f.code[st.cur.pc as usize];
        macro_rules! set { ($d:expr, $v:expr) => {{ let v = $v; st.cur.regs[*$d as usize] = v; st.cur.pc += 1; }} }
        match inst {
            Inst::Bin { op, w, d, a, b } => { let (x, y) = (self.get(st, a), self.get(st, b)); set!(d, self.binop(*op, *w, &x, &y)?) }
            Inst::Icmp { p, w, d, a, b } => { let (x, y) = (self.get(st, a), self.get(st, b)); set!(d, self.icmp(*p, *w, &x, &y)) }
            Inst::Load { d, ty, w, sz, p } => {
                let a = self.get(st, p);
                let v = if ty.is_agg() { self.load_ty(st, &a, ty)? } else { self.load(st, &a, *sz as usize, *w)? };
                set!(d, v)
            }
            Inst::Store { ty, sz, v, p, .. } => {
                let (x, a) = (self.get(st, v), self.get(st, p));
                if let Val::A(_) = x { self.store_ty(st, &a, ty, &x)? } else { self.store(st, &a, *sz as usize, &x)? }
                st.cur.pc += 1;
            }
            Inst::Gep { d, base, off, idx } => {
                let b = self.get(st, base);
                if idx.is_empty() { if let Val::I(x) = b { set!(d, Val::I(x.wrapping_add(*off))); return Ok(()); } }
                if idx.len() == 1 {
                    if let (Val::I(x), Val::I(i)) = (&b, self.get(st, &idx[0].0)) {
                        let w = idx[0].2;
                        let i = ((i << (64 - w)) as i64) >> (64 - w);
                        set!(d, Val::I(x.wrapping_add(*off).wrapping_add((i as u64).wrapping_mul(idx[0].1))));
                        return Ok(());
                    }
                }
                let mut e = self.ex(&b, 64);
                for (o, s, w) in idx.iter() {
                    let v = self.get(st, o);
                    let x = self.ex(&v, *w);
                    let x = self.ar.sext(x, 64);
                    let k = self.ar.c(64, *s as u128);
                    let t = self.ar.bin(Op::Mul, x, k);
                    e = self.ar.bin(Op::Add, e, t);
                }
                let k = self.ar.c(64, *off as u128);
                let e = self.ar.bin(Op::Add, e, k);
                set!(d, self.mk(e))
            }
            Inst::Br(e) => self.goto(st, e),
            Inst::CondBr { c, t, e } => {
                let v = match self.get(st, c) { Val::I(x) => x & 1, Val::E(x) => self.concretize(st, x)?, _ => return Err(Stop::Inconclusive("br".into())) };
                self.goto(st, if v == 1 { t } else { e })
            }
            Inst::Switch { v, w, cases, edges, map, default } => {
                let k = match self.get(st, v) {
                    Val::I(x) => map.get(&x).copied().unwrap_or(*default),
                    Val::E(x) => {
                        // one symbolic "which target" expression
                        let x = self.ex(&Val::E(x), *w);
                        let mut conds: Vec<Option<Id>> = vec![None; edges.len()];
                        for (c, t) in cases {
                            if t == default { continue; }
                            let q = self.eqc(x, *c);
                            conds[*t as usize] = Some(match conds[*t as usize] { None => q, Some(o) => self.ar.bin(Op::Or, o, q) });
                        }
                        let mut e = self.ar.c(32, *default as u128);
                        for (t, c) in conds.iter().enumerate() { if let Some(c) = c { let k = self.ar.c(32, t as u128); e = self.ar.ite(*c, k, e); } }
                        self.concretize(st, e)? as u32
                    }
                    _ => return Err(Stop::Inconclusive("switch".into())),
                };
                self.goto(st, &edges[k as usize])
            }
            Inst::Select { d, vec, c, a, b, w } => {
                let (x, p, q) = (self.get(st, c), self.get(st, a), self.get(st, b));
                if *vec {
                    let (x, p, q) = match (x, p, q) { (Val::A(x), Val::A(p), Val::A(q)) => (x, p, q), _ => return Err(Stop::Inconclusive("vselect".into())) };
                    let mut o = vec![];
                    for k in 0..x.len() { let w = self.valw(&p[k]).max(self.valw(&q[k])); o.push(self.select(&x[k], &p[k], &q[k], w)?); }
                    set!(d, Val::A(Rc::new(o)))
                } else { set!(d, self.select(&x, &p, &q, *w)?) }
            }
            Inst::Cast { op, d, from, to, fw, tw, a } => {
                let x = self.get(st, a);
                set!(d, self.cast(*op, from, to, *fw, *tw, x)?)
            }
            Inst::Mov { d, a } => { let x = self.get(st, a); set!(d, x) }
            Inst::Ret(o) => { let v = o.as_ref().map(|o| self.get(st, o)); return self.ret(st, v); }
            Inst::Call { callee, args, .. } => {
                let av: Vec<Val> = args.iter().map(|o| self.get(st, o)).collect();
                match callee {
                    Callee::AsmNop => self.finish_call(st, inst, None),
                    Callee::Intrinsic(i) => { let v = self.intrinsic(st, *i, inst, &av)?; self.finish_call(st, inst, v); }
                    Callee::Direct(f) => return self.call(st, *f, inst, av),
                    Callee::Indirect(o) => {
                        let p = self.get(st, o);
                        let a = self.conc(st, &p)?;
                        if a < FBASE || (a - FBASE) / 16 >= self.m.funcs.len() as u64 || (a - FBASE) % 16 != 0 { return Err(self.memerr(st, a, 0, "call through invalid function pointer")); }
                        return self.call(st, ((a - FBASE) / 16) as u32, inst, av);
                    }
                }
            }
            Inst::Extract { d, a, path } => {
                let mut v = self.get(st, a);
                for &i in path.iter() { v = match v { Val::A(x) => x[i as usize].clone(), Val::I(0) => Val::I(0), _ => return Err(Stop::Inconclusive("extractvalue".into())) }; }
                set!(d, v)
            }
            Inst::Insert { d, a, v, path } => {
                let mut agg = self.get(st, a);
                let x = self.get(st, v);
                insert(&mut agg, path, x);
                set!(d, agg)
            }
            Inst::ExtractElt { d, a, i } => {
                let (x, k) = (self.get(st, a), self.get(st, i));
                let k = self.conc(st, &k)?;
                if let Val::A(x) = x { set!(d, x[k as usize].clone()) } else { return Err(Stop::Inconclusive("extractelement".into())); }
            }
            Inst::InsertElt { d, a, v, i } => {
                let (x, y, k) = (self.get(st, a), self.get(st, v), self.get(st, i));
                let k = self.conc(st, &k)?;
                if let Val::A(mut x) = x { Rc::make_mut(&mut x)[k as usize] = y; set!(d, Val::A(x)) } else { return Err(Stop::Inconclusive("insertelement".into())); }
            }
            Inst::Shuffle { d, a, b, n, mask } => {
                let (x, y) = (self.get(st, a), self.get(st, b));
                if let (Val::A(x), Val::A(y)) = (x, y) {
                    let o = mask.iter().map(|&k| if k < *n { x[k as usize].clone() } else { y[(k - n) as usize].clone() }).collect();
                    set!(d, Val::A(Rc::new(o)))
                } else { return Err(Stop::Inconclusive("shuffle".into())); }
            }
            Inst::VBin { op, ty, d, a, b } => {
                let (x, y) = (self.get(st, a), self.get(st, b));
                let w = if let Ty::Vector(_, e) = ty { e.bits() as u8 } else { 0 };
                if let (Val::A(x), Val::A(y)) = (x, y) {
                    let mut o = vec![];
                    for k in 0..x.len() { o.push(self.binop(*op, w, &x[k], &y[k])?); }
                    set!(d, Val::A(Rc::new(o)))
                } else { return Err(Stop::Inconclusive("vbin".into())); }
            }
            Inst::VIcmp { p, w, d, a, b } => {
                let (x, y) = (self.get(st, a), self.get(st, b));
                if let (Val::A(x), Val::A(y)) = (x, y) {
                    let mut o = vec![];
                    for k in 0..x.len() { o.push(self.icmp(*p, *w, &x[k], &y[k])); }
                    set!(d, Val::A(Rc::new(o)))
                } else { return Err(Stop::Inconclusive("vicmp".into())); }
            }
            Inst::Alloca { d, sz } => {
                let a = self.alloc(st, *sz, true);
                st.cur.allocas.push(((a >> 32) & 0xffff) as u32);
                set!(d, Val::I(a))
            }
            Inst::AtomicRmw { op, d, p, v, w, sz } => {
                let (a, y) = (self.get(st, p), self.get(st, v));
                let a = Val::I(self.conc(st, &a)?);
                let x = self.load(st, &a, *sz as usize, *w)?;
                let n = match op {
                    Rmw::Xchg => y,
                    Rmw::Add => self.binop(BinOp::Add, *w, &x, &y)?, Rmw::Sub => self.binop(BinOp::Sub, *w, &x, &y)?,
                    Rmw::And => self.binop(BinOp::And, *w, &x, &y)?, Rmw::Or => self.binop(BinOp::Or, *w, &x, &y)?, Rmw::Xor => self.binop(BinOp::Xor, *w, &x, &y)?,
                    Rmw::Nand => { let t = self.binop(BinOp::And, *w, &x, &y)?; self.binop(BinOp::Xor, *w, &t, &Val::I(u64::MAX >> (64 - *w)))? }
                    Rmw::Max => { let c = self.icmp(Pred::Sgt, *w, &x, &y); self.select(&c, &x, &y, *w)? } Rmw::Min => { let c = self.icmp(Pred::Slt, *w, &x, &y); self.select(&c, &x, &y, *w)? }
                    Rmw::UMax => { let c = self.icmp(Pred::Ugt, *w, &x, &y); self.select(&c, &x, &y, *w)? } Rmw::UMin => { let c = self.icmp(Pred::Ult, *w, &x, &y); self.select(&c, &x, &y, *w)? }
                };
                self.store(st, &a, *sz as usize, &n)?;
                set!(d, x)
            }
            Inst::CmpXchg { d, p, c, n, w, sz } => {
                let (a, e, y) = (self.get(st, p), self.get(st, c), self.get(st, n));
                let a = Val::I(self.conc(st, &a)?);
                let x = self.load(st, &a, *sz as usize, *w)?;
                let q = self.icmp(Pred::Eq, *w, &x, &e);
                let q = self.conc(st, &q)?;
                if q == 1 { self.store(st, &a, *sz as usize, &y)?; }
                set!(d, Val::A(Rc::new(vec![x, Val::I(q)])))
            }
            Inst::Fcmp { p, w, d, a, b } => {
                let (x, y) = match (self.get(st, a), self.get(st, b)) { (Val::I(x), Val::I(y)) => (x, y), _ => return Err(Stop::Inconclusive("symbolic float".into())) };
                let (x, y) = if *w == 64 { (f64::from_bits(x), f64::from_bits(y)) } else { (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64) };
                let un = x.is_nan() || y.is_nan();
                let r = match p.as_str() { "oeq" => x == y, "ogt" => x > y, "oge" => x >= y, "olt" => x < y, "ole" => x <= y, "one" => !un && x != y, "ord" => !un, "uno" => un, "ueq" => un || x == y, "ugt" => un || x > y, "uge" => un || x >= y, "ult" => un || x < y, "ule" => un || x <= y, "une" => un || x != y, _ => return Err(Stop::Inconclusive("fcmp".into())) };
                set!(d, Val::I(r as u64))
            }
            Inst::FNeg { w, d, a } => { let x = match self.get(st, a) { Val::I(x) => x, _ => return Err(Stop::Inconclusive("symbolic float".into())) }; set!(d, Val::I(x ^ (1u64 << (w - 1)))) }
            Inst::Nop => st.cur.pc += 1,
            Inst::Unreachable => return Err(Stop::Violation { kind: "unreachable".into(), id: format!("unreachable code reached in {}", demangle(&self.m.funcs[st.cur.fi as usize].name)), msg: "unreachable instruction (undefined behaviour) reached".into() }),
            Inst::Unsupported(s) => return Err(Stop::Inconclusive(format!("unsupported: {}", s))),
        }
        Ok(())
    }
    fn call(&mut self, st: &mut State, f: u32, inst: &'static Inst, av: Vec<Val>) -> R<()> {
        match self.exts[f as usize] {
            Ext::Normal => self.enter(st, f, av),
            Ext::SxSwitch => {
                let t = self.conc(st, &av[0])? as usize;
                self.finish_call(st, inst, None);
                if t == st.tid { return Ok(()); }
                let th = match st.threads.get_mut(t) { Some(x) => x.take().expect("thread has no context"), None => return Err(Stop::Inconclusive("switch to an unknown thread".into())) };
                let Thread { cur, stack } = Rc::try_unwrap(th).unwrap_or_else(|r| (*r).clone());
                let me = Thread { cur: std::mem::replace(&mut st.cur, cur), stack: std::mem::replace(&mut st.stack, stack) };
                st.threads[st.tid] = Some(Rc::new(me));
                st.tid = t;
                Ok(())
            }
            Ext::SxSpawn => {
                let p = self.conc(st, &av[0])?;
                let arg = Val::I(self.conc(st, &av[1])?);
                let fi = match p.checked_sub(FBASE).map(|d| (d / 16, d % 16)) { Some((f, 0)) if f < self.m.funcs.len() as u64 && matches!(self.exts[f as usize], Ext::Normal) => f as u32, _ => return Err(Stop::Inconclusive("spawn of an unknown function".into())) };
                self.st_.funcs.insert(fi);
                let g: &'static Func = leak(self.m, fi);
                let mut regs = vec![Val::I(0); g.nregs as usize];
                if let Some(p) = g.params.first() { regs[*p as usize] = arg; }
                st.threads.push(Some(Rc::new(Thread { cur: Frame { f: g, fi, pc: 0, regs, allocas: vec![] }, stack: vec![] })));
                let t = st.threads.len() as u64 - 1;
                self.finish_call(st, inst, Some(Val::I(t)));
                Ok(())
            }
            e => { let v = self.extern_call(st, e, f, &av)?; self.finish_call(st, inst, v); Ok(()) }
        }
    }
    fn cast(&mut self, op: CastOp, from: &Ty, to: &Ty, fw: u8, tw: u8, x: Val) -> R<Val> {
        if let Val::A(vs) = &x {
            match op {
                CastOp::BitCast => {
                    let eb = if let Ty::Vector(_, e) = from { e.bits() as u8 } else { return Err(Stop::Inconclusive("bitcast agg".into())) };
                    if let Ty::Vector(n2, e2) = to {
                        let tot: u32 = eb as u32 * vs.len() as u32;
                        if tot > 128 { return Err(Stop::Inconclusive("bitcast wide".into())); }
                        let v = self.vec_to_int(vs, eb);
                        let e = self.ex(&v, tot as u8);
                        let b = e2.bits() as u8;
                        let mut o = vec![];
                        for k in 0..*n2 { let y = self.ar.extract(e, k as u8 * b, b); o.push(self.mk(y)); }
                        return Ok(Val::A(Rc::new(o)));
                    }
                    return Ok(self.vec_to_int(vs, eb));
                }
                _ => {
                    let (fb, tb) = match (from, to) { (Ty::Vector(_, a), Ty::Vector(_, b)) => (a.clone(), b.clone()), _ => return Err(Stop::Inconclusive("vcast".into())) };
                    let mut o = vec![];
                    for v in vs.iter() { o.push(self.cast(op, &fb, &tb, fb.bits() as u8, tb.bits() as u8, v.clone())?); }
                    return Ok(Val::A(Rc::new(o)));
                }
            }
        }
        if let (CastOp::BitCast, Ty::Vector(n2, e2)) = (op, to) {
            let e = self.ex(&x, from.bits() as u8);
            let b = e2.bits() as u8;
            let mut o = vec![];
            for k in 0..*n2 { let y = self.ar.extract(e, k as u8 * b, b); o.push(self.mk(y)); }
            return Ok(Val::A(Rc::new(o)));
        }
        if let Val::I(v) = x {
            let m = if tw >= 64 { u64::MAX } else { (1u64 << tw) - 1 };
            let s = if fw == 0 { 0 } else { ((v << (64 - fw.min(64))) as i64) >> (64 - fw.min(64)) };
            if tw <= 64 || matches!(op, CastOp::BitCast) {
                return Ok(Val::I(match op {
                    CastOp::ZExt | CastOp::PtrToInt | CastOp::IntToPtr | CastOp::BitCast | CastOp::Trunc => v & m,
                    CastOp::SExt => s as u64 & m,
                    CastOp::UIToFP => if tw == 64 { (v as f64).to_bits() } else { (v as f32).to_bits() as u64 },
                    CastOp::SIToFP => if tw == 64 { (s as f64).to_bits() } else { (s as f32).to_bits() as u64 },
                    CastOp::FPToUI => { let f = if fw == 64 { f64::from_bits(v) } else { f32::from_bits(v as u32) as f64 }; (f as u64) & m }
                    CastOp::FPToSI => { let f = if fw == 64 { f64::from_bits(v) } else { f32::from_bits(v as u32) as f64 }; (f as i64) as u64 & m }
                    CastOp::FPExt => (f32::from_bits(v as u32) as f64).to_bits(),
                    CastOp::FPTrunc => (f64::from_bits(v) as f32).to_bits() as u64,
                }));
            }
        }
        let e = self.ex(&x, fw);
        let r = match op {
            CastOp::ZExt => self.ar.zext(e, tw),
            CastOp::SExt => self.ar.sext(e, tw),
            CastOp::Trunc => self.ar.extract(e, 0, tw),
            CastOp::PtrToInt | CastOp::IntToPtr | CastOp::BitCast => if tw < fw { self.ar.extract(e, 0, tw) } else { self.ar.zext(e, tw) },
            _ => return Err(Stop::Inconclusive("symbolic float cast".into())),
        };
        Ok(self.mk(r))
    }

    fn intrinsic(&mut self, st: &mut State, i: Intr, inst: &'static Inst, a: &[Val]) -> R<Option<Val>> {
        let (w, aw0, aw): (u8, u8, &[u8]) = if let Inst::Call { w, argw, .. } = inst { (*w, argw.first().copied().unwrap_or(0), argw) } else { unreachable!() };
        let _ = aw;
        Ok(match i {
            Intr::Nop => None,
            Intr::Assume => None,
            Intr::Trap => return Err(Stop::Violation { kind: "trap".into(), id: format!("trap in {}", demangle(&self.m.funcs[st.cur.fi as usize].name)), msg: "trap".into() }),
            Intr::Memcpy => {
                let n = self.conc(st, &a[2])?;
                if n > 0 {
                    let s = self.conc(st, &a[1])?;
                    let d = self.conc(st, &a[0])?;
                    let (data, sym) = self.bytes(st, s, n)?;
                    self.put_bytes(st, d, &data, &sym)?;
                }
                None
            }
            Intr::Memset => {
                let n = self.conc(st, &a[2])?;
                if n > 0 {
                    let d = self.conc(st, &a[0])?;
                    match &a[1] {
                        Val::I(v) => self.put_bytes(st, d, &vec![*v as u8; n as usize], &[])?,
                        v => { let e = self.ex(v, 8); self.put_bytes(st, d, &vec![0; n as usize], &vec![e; n as usize])? }
                    }
                }
                None
            }
            Intr::TlsAddr | Intr::Expect => Some(a[0].clone()),
            Intr::IsConstant => Some(Val::I(0)),
            Intr::ObjectSize => Some(Val::I(u64::MAX)),
            Intr::PtrMask => Some(self.binop(BinOp::And, 64, &a[0], &a[1])?),
            Intr::LoadRelative => {
                let p = self.binop(BinOp::Add, 64, &a[0], &a[1])?;
                let v = self.load(st, &p, 4, 32)?;
                let e = self.ex(&v, 32);
                let e = self.ar.sext(e, 64);
                let b = self.ex(&a[0], 64);
                let r = self.ar.bin(Op::Add, e, b);
                Some(self.mk(r))
            }
            Intr::UMax | Intr::UMin | Intr::SMax | Intr::SMin => {
                let p = match i { Intr::UMax => Pred::Ugt, Intr::UMin => Pred::Ult, Intr::SMax => Pred::Sgt, _ => Pred::Slt };
                if let (Val::A(x), Val::A(y)) = (&a[0], &a[1]) {
                    let ew = if let Inst::Call { rty: Ty::Vector(_, e), .. } = inst { e.bits() as u8 } else { 0 };
                    let mut o = vec![];
                    for k in 0..x.len() { let c = self.icmp(p, ew, &x[k], &y[k]); o.push(self.select(&c, &x[k], &y[k], ew)?); }
                    return Ok(Some(Val::A(Rc::new(o))));
                }
                let c = self.icmp(p, w, &a[0], &a[1]);
                Some(self.select(&c, &a[0], &a[1], w)?)
            }
            Intr::Abs => { let c = self.icmp(Pred::Slt, w, &a[0], &Val::I(0)); let n = self.binop(BinOp::Sub, w, &Val::I(0), &a[0])?; Some(self.select(&c, &n, &a[0], w)?) }
            Intr::Ucmp | Intr::Scmp => {
                let (lt, gt) = if i == Intr::Ucmp { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) };
                let l = self.icmp(lt, aw0, &a[0], &a[1]);
                let g = self.icmp(gt, aw0, &a[0], &a[1]);
                let m = if w >= 64 { u64::MAX } else { (1 << w) - 1 };
                let t = self.select(&g, &Val::I(1), &Val::I(0), w)?;
                Some(self.select(&l, &Val::I(m), &t, w)?)
            }
            Intr::Ctpop => match &a[0] { Val::I(x) => Some(Val::I(x.count_ones() as u64)), v => { let e = self.ex(v, w); let mut acc = self.ar.c(w, 0); for k in 0..w { let b = self.ar.extract(e, k, 1); let z = self.ar.zext(b, w); acc = self.ar.bin(Op::Add, acc, z); } Some(self.mk(acc)) } },
            Intr::Cttz => match &a[0] {
                Val::I(x) => Some(Val::I(if *x == 0 { w as u64 } else { x.trailing_zeros() as u64 })),
                v => { let e = self.ex(v, w); let mut acc = self.ar.c(w, w as u128); for k in (0..w).rev() { let b = self.ar.extract(e, k, 1); let c = self.ar.c(w, k as u128); acc = self.ar.ite(b, c, acc); } Some(self.mk(acc)) }
            },
            Intr::Ctlz => match &a[0] {
                Val::I(x) => Some(Val::I(if *x == 0 { w as u64 } else { x.leading_zeros() as u64 - (64 - w as u64) })),
                v => { let e = self.ex(v, w); let mut acc = self.ar.c(w, w as u128); for k in 0..w { let b = self.ar.extract(e, k, 1); let c = self.ar.c(w, (w - 1 - k) as u128); acc = self.ar.ite(b, c, acc); } Some(self.mk(acc)) }
            },
            Intr::Bswap => match &a[0] {
                Val::I(x) => Some(Val::I(x.swap_bytes() >> (64 - w))),
                v => { let e = self.ex(v, w); let mut acc = self.ar.extract(e, 0, 8); for k in 1..w / 8 { let b = self.ar.extract(e, k * 8, 8); acc = self.ar.concat(acc, b); } Some(self.mk(acc)) }
            },
            Intr::BitReverse => match &a[0] {
                Val::I(x) => Some(Val::I(x.reverse_bits() >> (64 - w))),
                v => { let e = self.ex(v, w); let mut acc = self.ar.extract(e, 0, 1); for k in 1..w { let b = self.ar.extract(e, k, 1); acc = self.ar.concat(acc, b); } Some(self.mk(acc)) }
            },
            Intr::Fshl | Intr::Fshr => {
                let s = self.conc(st, &a[2])? % w as u64;
                if s == 0 { return Ok(Some(if i == Intr::Fshl { a[0].clone() } else { a[1].clone() })); }
                let (l, r) = if i == Intr::Fshl { (s, w as u64 - s) } else { (w as u64 - s, s) };
                let x = self.binop(BinOp::Shl, w, &a[0], &Val::I(l))?;
                let y = self.binop(BinOp::LShr, w, &a[1], &Val::I(r))?;
                Some(self.binop(BinOp::Or, w, &x, &y)?)
            }
            Intr::UAddO | Intr::USubO | Intr::UMulO | Intr::SAddO | Intr::SSubO | Intr::SMulO => {
                let w = aw0;
                if let (Val::I(x), Val::I(y)) = (&a[0], &a[1]) {
                    let m = if w == 64 { u64::MAX } else { (1u64 << w) - 1 };
                    let (x, y) = (*x as u128, *y as u128);
                    let (sx_, sy) = (sx(x, w), sx(y, w));
                    let (r, o) = match i {
                        Intr::UAddO => (x + y, x + y > m as u128),
                        Intr::USubO => (x.wrapping_sub(y), x < y),
                        Intr::UMulO => (x * y, x * y > m as u128),
                        _ => {
                            let t = match i { Intr::SAddO => sx_ + sy, Intr::SSubO => sx_ - sy, _ => sx_ * sy };
                            (t as u128, t != sx(t as u128 & m as u128, w))
                        }
                    };
                    return Ok(Some(Val::A(Rc::new(vec![Val::I(r as u64 & m), Val::I(o as u64)]))));
                }
                let (x, y) = (self.ex(&a[0], w), self.ex(&a[1], w));
                let (r, o) = match i {
                    Intr::UAddO => { let r = self.ar.bin(Op::Add, x, y); let z = if self.ar.konst(y).is_some() { y } else { x }; (r, self.ar.bin(Op::Ult, r, z)) }
                    Intr::USubO => (self.ar.bin(Op::Sub, x, y), self.ar.bin(Op::Ult, x, y)),
                    Intr::UMulO => {
                        let r = self.ar.bin(Op::Mul, x, y);
                        let (k, v) = if let Some(c) = self.ar.konst(y) { (Some(c), x) } else { (self.ar.konst(x), y) };
                        match k {
                            Some(0) => (r, self.ar.c(1, 0)),
                            Some(c) => { let l = self.ar.c(w, mask(w) / c); (r, self.ar.bin(Op::Ult, l, v)) }
                            None => {
                                let (xx, yy) = (self.ar.zext(x, 2 * w), self.ar.zext(y, 2 * w));
                                let p = self.ar.bin(Op::Mul, xx, yy);
                                let h = self.ar.extract(p, w, w);
                                let z = self.ar.c(w, 0);
                                let e = self.ar.bin(Op::Eq, h, z);
                                (r, self.ar.not(e))
                            }
                        }
                    }
                    _ => {
                        let ww = if i == Intr::SMulO { 2 * w } else { w + 1 };
                        let (xx, yy) = (self.ar.sext(x, ww), self.ar.sext(y, ww));
                        let op = match i { Intr::SAddO => Op::Add, Intr::SSubO => Op::Sub, _ => Op::Mul };
                        let p = self.ar.bin(op, xx, yy);
                        let r = self.ar.bin(op, x, y);
                        let rr = self.ar.sext(r, ww);
                        let e = self.ar.bin(Op::Eq, p, rr);
                        (r, self.ar.not(e))
                    }
                };
                Some(Val::A(Rc::new(vec![self.mk(r), self.mk(o)])))
            }
            Intr::UAddSat | Intr::USubSat => {
                if let Val::A(_) = a[0] { return Err(Stop::Inconclusive("vector sat".into())); }
                let m = if w == 64 { u64::MAX } else { (1u64 << w) - 1 };
                if i == Intr::UAddSat {
                    let r = self.binop(BinOp::Add, w, &a[0], &a[1])?;
                    let o = self.icmp(Pred::Ult, w, &r, &a[0]);
                    Some(self.select(&o, &Val::I(m), &r, w)?)
                } else {
                    let r = self.binop(BinOp::Sub, w, &a[0], &a[1])?;
                    let o = self.icmp(Pred::Ult, w, &a[0], &a[1]);
                    Some(self.select(&o, &Val::I(0), &r, w)?)
                }
            }
            Intr::VecReduceOr | Intr::VecReduceAnd | Intr::VecReduceAdd | Intr::VecReduceXor => {
                let op = match i { Intr::VecReduceOr => BinOp::Or, Intr::VecReduceAnd => BinOp::And, Intr::VecReduceAdd => BinOp::Add, _ => BinOp::Xor };
                if let Val::A(v) = &a[0] {
                    let mut acc = v[0].clone();
                    for x in &v[1..] { acc = self.binop(op, w, &acc, x)?; }
                    Some(acc)
                } else { return Err(Stop::Inconclusive("reduce".into())); }
            }
            Intr::SAddSat | Intr::SSubSat | Intr::Unsupported => return Err(Stop::Inconclusive("intrinsic".into())),
        })
    }

    pub fn fresh(&mut self, st: &mut State, name: u32, w: u8) -> Id {
        let idx = st.syms.len() as u32 * 4 + symclass(w);
        st.syms.push((name, w));
        self.st_.max_syms = self.st_.max_syms.max(st.syms.len());
        self.ar.sym(idx, w)
    }
    pub fn report(&mut self, st: &State, kind: String, id: String, msg: String, upd: Option<Rc<Vec<(u32, u64)>>>) {
        let mut model = (*st.model).clone();
        if let Some(u) = upd { for &(s, v) in u.iter() { if model.len() <= s as usize { model.resize(s as usize + 1, 0); } model[s as usize] = v; } }
        // the model must satisfy every path constraint
        self.ar.new_epoch();
        self.cur_epoch_model = 0;
        for g in st.groups.iter().flatten() { for &c in &g.cons { if self.ar.eval(c, &model) != 1 { eprintln!("hx: internal error: model does not satisfy the path condition"); std::process::exit(3); } } }
        let inputs = self.inputs_of(st, &model);
        let mut stack = vec![demangle(&self.m.funcs[st.cur.fi as usize].name)];
        for f in st.stack.iter().rev() { stack.push(demangle(&self.m.funcs[f.fi as usize].name)); }
        let ctx = st.ctx.iter().map(|&(n, v)| (self.names[n as usize].clone(), v)).collect();
        let mut f = self.sh.found.lock().unwrap();
        let known = self.sh.known.contains(&id);
        let dup = f.iter().filter(|x| x.id == id).count();
        if dup < 3 { f.push(Found { kind, id, msg, stack, inputs, path: 0, ctx }); }
        if !known && !self.sh.keep_going { self.sh.stop.store(true, Ordering::Relaxed); }
    }

    fn inputs_of(&self, st: &State, model: &[u64]) -> Vec<(String, u8, u64)> {
        st.syms.iter().enumerate().map(|(i, &(n, w))| { let k = i * 4 + symclass(w) as usize; (self.names[n as usize].clone(), w, model.get(k).copied().unwrap_or(0)) }).collect()
    }
    fn sample(&mut self, st: &State) {
        let model = (*st.model).clone();
        self.ar.new_epoch();
        self.cur_epoch_model = 0;
        for g in st.groups.iter().flatten() { for &c in &g.cons { if self.ar.eval(c, &model) != 1 { self.inconclusive("internal: model does not satisfy the path condition"); return; } } }
        let mut events = vec![];
        let mut e = st.ev.as_ref();
        while let Some(x) = e {
            let v = match x.v { EvVal::Cover => None, EvVal::I(v) => Some(v), EvVal::E(id) => Some(self.ar.eval(id, &model) as u64) };
            events.push((self.names[x.name as usize].clone(), v));
            e = x.prev.as_ref();
        }
        events.reverse();
        let inputs = self.inputs_of(st, &model);
        self.sh.samples.lock().unwrap().push(Sample { inputs, events, steps: st.steps });
    }

    /// Give away the shallowest pending state if some worker is idle.
    fn share(&mut self) {
        if self.sh.want.load(Ordering::Relaxed) == 0 || self.work.is_empty() { return; }
        let mut q = self.sh.q.lock().unwrap();
        let mut give = self.sh.want.load(Ordering::Relaxed).saturating_sub(q.len());
        while give > 0 && self.work.len() > 1 {
            let s = self.work.pop_front().unwrap();
            q.push(Job { trace: { let mut t = Self::trace_vec(&s); t.extend_from_slice(&s.replay[s.rpos..]); t }, model: (*s.model).clone() });
            give -= 1;
        }
        self.sh.cv.notify_all();
    }

    pub fn worker(&mut self, entry: u32) {
        loop {
            let mut st = match self.work.pop_back() {
                Some(s) => s,
                None => {
                    let mut q = self.sh.q.lock().unwrap();
                    let job = loop {
                        if self.sh.stop.load(Ordering::Relaxed) { self.sh.cv.notify_all(); return; }
                        if let Some(j) = q.pop() { break j; }
                        let idle = self.sh.idle.fetch_add(1, Ordering::SeqCst) + 1;
                        if idle == self.sh.n { self.sh.stop.store(true, Ordering::Relaxed); self.sh.cv.notify_all(); return; }
                        self.sh.want.fetch_add(1, Ordering::SeqCst);
                        q = self.sh.cv.wait_timeout(q, std::time::Duration::from_millis(200)).unwrap().0;
                        self.sh.want.fetch_sub(1, Ordering::SeqCst);
                        self.sh.idle.fetch_sub(1, Ordering::SeqCst);
                    };
                    drop(q);
                    self.initial(entry, job)
                }
            };
            let r = self.run(&mut st);
            self.st_.max_depth = self.st_.max_depth.max(st.trace.as_ref().map_or(0, |t| t.len));
            self.sh.paths.fetch_add(1, Ordering::Relaxed);
            match r {
                Stop::End => { self.st_.paths_end += 1; let k = self.st_.paths_end; if k <= 2 || (k.is_power_of_two() && k >= 8) { self.sample(&st); } }
                Stop::Silent => self.st_.paths_silent += 1,
                Stop::Inconclusive(m) => { if self.sh.verbose { let mut s = vec![demangle(&self.m.funcs[st.cur.fi as usize].name)]; for f in st.stack.iter().rev() { s.push(demangle(&self.m.funcs[f.fi as usize].name)); } eprintln!("inconclusive: {} in {:?}", m, s); } self.inconclusive(&m) }
                Stop::Violation { kind, id, msg } => { self.st_.paths_viol += 1; self.report(&st, kind, id, msg, None); }
            }
            self.share();
            self.budget_check += 1;
            if self.cache.len() > 2_000_000 { self.cache.clear(); }
            if self.sh.stop.load(Ordering::Relaxed) { self.sh.cv.notify_all(); return; }
        }
    }
    pub fn share_pub(&mut self) { self.share() }
}

pub fn leak(m: &'static Module, fi: u32) -> &'static Func {
    let s = &m.funcs[fi as usize];
    if let Some(f) = s.func.get() { return f; }
    m.func(fi);
    s.func.get().unwrap()
}
fn kv(k: &KV) -> Val { match k { KV::I(x) => Val::I(*x), KV::W(x) => Val::W(Rc::new(*x)), KV::A(v) => Val::A(Rc::new(v.iter().map(kv).collect())) } }
fn insert(agg: &mut Val, path: &[u32], v: Val) {
    if path.is_empty() { *agg = v; return; }
    if let Val::A(x) = agg { insert(&mut Rc::make_mut(x)[path[0] as usize], &path[1..], v); }
}

/// Rough demangling of v0 symbols: the identifier sequence is what matters for reports.
pub fn demangle(s: &str) -> String {
    if !s.starts_with("_R") { return s.split('.').next().unwrap_or(s).to_string(); }
    let b = s.as_bytes();
    let mut i = 2;
    let mut parts: Vec<&str> = vec![];
    while i < b.len() {
        if b[i] == b's' || b[i] == b'B' {
            // disambiguator / back-reference: base-62 terminated by '_'
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() && j - i < 16 { j += 1; }
            if j < b.len() && b[j] == b'_' && (b[i] == b'B' || j > i + 6 || j <= i + 3) { i = j + 1; continue; }
        }
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let st = i;
            let mut n = 0usize;
            while i < b.len() && b[i].is_ascii_digit() { n = n * 10 + (b[i] - b'0') as usize; i += 1; }
            if i < b.len() && b[i] == b'_' { i += 1; }
            if n > 0 && i + n <= b.len() && n < 80 && st > 0 { parts.push(&s[i..i + n]); i += n; continue; }
            continue;
        }
        i += 1;
    }
    // stop at the generic instantiating crate noise: keep the first 9 identifiers
    parts.truncate(9);
    parts.join("::")
}
