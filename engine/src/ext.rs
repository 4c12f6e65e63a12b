//! Environment: libc functions, panic entry points and the harness (`sx_*`) interface.
use crate::exec::*;
use crate::expr::*;
use crate::ir::*;
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ext {
    Normal, Unknown, Panic,
    Malloc, Calloc, Realloc, Free, PosixMemalign, Memcmp, Bcmp, Strlen, Memcpy, Memset, Memchr, Memrchr,
    Zero, One, Errno, Abort, Syscall, Getrandom, Write, ThreadAtexit, ClockGettime,
    SxSym, SxAssume, SxAssert, SxFail, SxCover, SxConc, SxNote, SxTime, SxEnd, SxPick, SxSpawn, SxSwitch,
}

pub fn weak_addr(name: &str, addr: u64) -> u64 {
    match name { "getrandom" | "__cxa_thread_atexit_impl" => addr, _ => 0 }
}

pub fn classify(f: &FuncSlot) -> Ext {
    let n = f.name.as_str();
    let pats = ["9panicking9panic_fmt", "9panicking5panic", "9panicking18panic_bounds_check", "9panicking13assert_failed", "9panicking14panic_nounwind", "9panicking11panic_const", "9panicking13panic_display", "6option13expect_failed", "6option13unwrap_failed", "6result13unwrap_failed", "slice_error_fail", "slice_index_fail", "len_mismatch_fail", "raw_vec12handle_error", "raw_vec17capacity_overflow", "18handle_alloc_error", "begin_panic", "rust_panic", "panic_already", "cell22panic_already_borrowed", "9panicking19panic_cannot_unwind", "panic_misaligned", "panic_access_error", "4core5slice5index16slice_index_fail", "begin_unwind"];
    if n.starts_with("_R") || n.starts_with("rust_") || n.starts_with("__rust") {
        for p in pats { if n.contains(p) && !n.contains("PanicHookInfo") { return Ext::Panic; } }
    }
    match n {
        "sx_sym" => return Ext::SxSym, "sx_assume" => return Ext::SxAssume, "sx_assert" => return Ext::SxAssert, "sx_fail" => return Ext::SxFail, "sx_cover" => return Ext::SxCover,
        "sx_conc" => return Ext::SxConc, "sx_note" => return Ext::SxNote, "sx_end" => return Ext::SxEnd, "sx_pick" => return Ext::SxPick, "sx_spawn" => return Ext::SxSpawn, "sx_switch" => return Ext::SxSwitch,
        _ => {}
    }
    if f.text.1 > 0 { return Ext::Normal; }
    match n {
        "malloc" => Ext::Malloc, "calloc" => Ext::Calloc, "realloc" => Ext::Realloc, "free" => Ext::Free, "posix_memalign" | "aligned_alloc" => Ext::PosixMemalign,
        "memcmp" => Ext::Memcmp, "bcmp" => Ext::Bcmp, "strlen" => Ext::Strlen, "memcpy" | "memmove" => Ext::Memcpy, "memset" => Ext::Memset, "memchr" => Ext::Memchr, "memrchr" => Ext::Memrchr,
        "getenv" | "pthread_setspecific" | "pthread_key_create" | "pthread_key_delete" | "sched_yield" | "pthread_getspecific" => Ext::Zero,
        "gettid" | "pthread_self" | "getpid" => Ext::One,
        "__errno_location" => Ext::Errno,
        "abort" | "exit" | "_exit" => Ext::Abort,
        "syscall" => Ext::Syscall,
        "getrandom" => Ext::Getrandom,
        "write" | "writev" => Ext::Write,
        "__cxa_thread_atexit_impl" => Ext::ThreadAtexit,
        "clock_gettime" => Ext::ClockGettime,
        _ => Ext::Unknown,
    }
}

impl Ex {
    fn s(&mut self, st: &mut State, p: &Val, n: &Val) -> Result<String, Stop> {
        let p = self.conc(st, p)?;
        let n = self.conc(st, n)?;
        Ok(self.cstr(st, p, n))
    }
    fn malloc(&mut self, st: &mut State, n: u64) -> Result<u64, Stop> {
        if n > (1 << 28) { return Err(Stop::Violation { kind: "alloc".into(), id: "huge-allocation".into(), msg: format!("allocation of {} bytes", n) }); }
        Ok(self.alloc(st, n, false))
    }
    pub fn panic_msg(&mut self, st: &State, f: u32, a: &[Val]) -> String {
        let mut m = String::new();
        // (ptr,len) string pairs among the arguments
        for k in 0..a.len().saturating_sub(1) {
            if let (Val::I(p), Val::I(n)) = (&a[k], &a[k + 1]) {
                if *n > 0 && *n < 300 && *p > 0xffff { let s = self.cstr(st, *p, *n); if s != "?" && s.chars().all(|c| !c.is_control() && c != '\u{fffd}') { m = s; break; } }
            }
        }
        // trailing &Location
        for v in a.iter().rev() {
            if let Val::I(p) = v {
                if let Ok((d, s)) = self.bytes(st, *p, 24) {
                    if s.is_empty() {
                        let fp = u64::from_le_bytes(d[0..8].try_into().unwrap());
                        let fl = u64::from_le_bytes(d[8..16].try_into().unwrap());
                        let line = u32::from_le_bytes(d[16..20].try_into().unwrap());
                        if fl > 3 && fl < 300 && line < 100000 { let file = self.cstr(st, fp, fl); if file.ends_with(".rs") { return format!("{} at {}:{}", m, file, line); } }
                    }
                }
            }
        }
        format!("{} [{}]", m, demangle(&self.m.funcs[f as usize].name))
    }
    pub fn extern_call(&mut self, st: &mut State, e: Ext, f: u32, a: &[Val]) -> Result<Option<Val>, Stop> {
        Ok(match e {
            Ext::Normal | Ext::SxSpawn | Ext::SxSwitch => unreachable!(),
            Ext::Unknown => return Err(Stop::Inconclusive(format!("call to unmodelled external function {}", self.m.funcs[f as usize].name))),
            Ext::Panic => {
                let m = self.panic_msg(st, f, a);
                let loc = m.rsplit(" at ").next().unwrap_or("").to_string();
                // identify a panic by file and function, not by line, so that unrelated edits do not rename it
                let file = loc.split(':').next().unwrap_or("").to_string();
                let caller = demangle(&self.m.funcs[st.cur.fi as usize].name);
                return Err(Stop::Violation { kind: "panic".into(), id: format!("panic in {} ({})", file, caller), msg: format!("panic: {}", m) });
            }
            Ext::Malloc => { let n = self.conc(st, &a[0])?; Some(Val::I(self.malloc(st, n)?)) }
            Ext::Calloc => { let n = self.conc(st, &a[0])?; let k = self.conc(st, &a[1])?; Some(Val::I(self.malloc(st, n.saturating_mul(k))?)) }
            Ext::PosixMemalign => {
                let out = self.conc(st, &a[0])?;
                let n = self.conc(st, &a[2])?;
                let p = self.malloc(st, n)?;
                self.store(st, &Val::I(out), 8, &Val::I(p))?;
                Some(Val::I(0))
            }
            Ext::Realloc => {
                let p = self.conc(st, &a[0])?;
                let n = self.conc(st, &a[1])?;
                if p == 0 { return Ok(Some(Val::I(self.malloc(st, n)?))); }
                let r = match self.resolve(st, p, 0) { Some(r) if r.2 == 0 && !r.0 => r, _ => return Err(self.memerr(st, p, n, "invalid realloc")) };
                let old = self.objsize(st, r);
                let k = old.min(n);
                let (d, s) = self.bytes(st, p, k)?;
                let q = self.malloc(st, n)?;
                self.put_bytes(st, q, &d, &s)?;
                self.free_addr(st, p)?;
                Some(Val::I(q))
            }
            Ext::Free => { let p = self.conc(st, &a[0])?; self.free_addr(st, p)?; None }
            Ext::Memcpy => {
                let n = self.conc(st, &a[2])?;
                if n > 0 { let s = self.conc(st, &a[1])?; let d = self.conc(st, &a[0])?; let (x, y) = self.bytes(st, s, n)?; self.put_bytes(st, d, &x, &y)?; }
                Some(a[0].clone())
            }
            Ext::Memset => {
                let n = self.conc(st, &a[2])?;
                let d = self.conc(st, &a[0])?;
                let v = self.conc(st, &a[1])?;
                self.put_bytes(st, d, &vec![v as u8; n as usize], &[])?;
                Some(a[0].clone())
            }
            Ext::Bcmp | Ext::Memcmp => {
                let n = self.conc(st, &a[2])?;
                if n == 0 { return Ok(Some(Val::I(0))); }
                let p = self.conc(st, &a[0])?;
                let q = self.conc(st, &a[1])?;
                let (xd, xs) = self.bytes(st, p, n)?;
                let (yd, ys) = self.bytes(st, q, n)?;
                if xs.is_empty() && ys.is_empty() {
                    return Ok(Some(Val::I(match xd.cmp(&yd) { std::cmp::Ordering::Less => 0xffff_ffff, std::cmp::Ordering::Equal => 0, _ => 1 })));
                }
                let mut xe = vec![];
                let mut ye = vec![];
                for k in 0..n as usize {
                    let x = if !xs.is_empty() && xs[k] != 0 { xs[k] } else { self.ar.c(8, xd[k] as u128) };
                    let y = if !ys.is_empty() && ys[k] != 0 { ys[k] } else { self.ar.c(8, yd[k] as u128) };
                    xe.push(x);
                    ye.push(y);
                }
                if e == Ext::Bcmp {
                    let mut acc = self.ar.c(1, 1);
                    for k in 0..n as usize { let q = self.ar.bin(Op::Eq, xe[k], ye[k]); acc = self.ar.bin(Op::And, acc, q); if self.ar.konst(acc) == Some(0) { break; } }
                    let (z, o) = (self.ar.c(32, 0), self.ar.c(32, 1));
                    let r = self.ar.ite(acc, z, o);
                    Some(self.mk(r))
                } else {
                    let mut acc = self.ar.c(32, 0);
                    let (o, m) = (self.ar.c(32, 1), self.ar.c(32, 0xffff_ffff));
                    for k in (0..n as usize).rev() {
                        let l = self.ar.bin(Op::Ult, xe[k], ye[k]);
                        let q = self.ar.bin(Op::Eq, xe[k], ye[k]);
                        let d = self.ar.ite(l, m, o);
                        acc = self.ar.ite(q, acc, d);
                    }
                    Some(self.mk(acc))
                }
            }
            Ext::Strlen => {
                let p = self.conc(st, &a[0])?;
                let mut k = 0;
                loop {
                    let v = self.load(st, &Val::I(p + k), 1, 8)?;
                    if self.conc(st, &v)? == 0 { break; }
                    k += 1;
                }
                Some(Val::I(k))
            }
            Ext::Memchr | Ext::Memrchr => {
                let p = self.conc(st, &a[0])?;
                let c = self.conc(st, &a[1])? & 0xff;
                let n = self.conc(st, &a[2])?;
                let mut res = 0;
                for i in 0..n {
                    let k = if e == Ext::Memchr { i } else { n - 1 - i };
                    let v = self.load(st, &Val::I(p + k), 1, 8)?;
                    let q = self.icmp(Pred::Eq, 8, &v, &Val::I(c));
                    if self.conc(st, &q)? == 1 { res = p + k; break; }
                }
                Some(Val::I(res))
            }
            Ext::Zero | Ext::ThreadAtexit => Some(Val::I(0)),
            Ext::One => Some(Val::I(1)),
            Ext::Errno => {
                // one static cell: allocate lazily, kept in ctx
                let id = self.name("$errno");
                let p = match st.ctx.iter().find(|(n, _)| *n == id) { Some((_, p)) => *p, None => { let p = self.alloc(st, 4, false); st.ctx.push((id, p)); p } };
                Some(Val::I(p))
            }
            Ext::Abort => return Err(Stop::Violation { kind: "abort".into(), id: format!("abort in {}", demangle(&self.m.funcs[st.cur.fi as usize].name)), msg: "process abort".into() }),
            Ext::Syscall => {
                let n = self.conc(st, &a[0])?;
                // futex wake is a no-op with one thread; anything else is outside the model
                if n == 202 { Some(Val::I(0)) } else { return Err(Stop::Inconclusive(format!("syscall {}", n))); }
            }
            Ext::Getrandom => {
                let p = self.conc(st, &a[0])?;
                let n = self.conc(st, &a[1])?;
                self.put_bytes(st, p, &vec![0x42; n as usize], &[])?;
                Some(Val::I(n))
            }
            Ext::Write => {
                let n = self.conc(st, &a[2])?;
                if self.sh.verbose { let p = self.conc(st, &a[1])?; eprint!("{}", self.cstr(st, p, n)); }
                Some(Val::I(n))
            }
            Ext::ClockGettime => return Err(Stop::Inconclusive("clock_gettime not provided by the harness".into())),
            Ext::SxTime => Some(Val::I(0)),
            Ext::SxSym => {
                let w = self.conc(st, &a[0])? as u8;
                let n = self.s(st, &a[1], &a[2])?;
                let id = self.name(&n);
                let e = self.fresh(st, id, w);
                let r = self.ar.zext(e, 64);
                Some(Val::E(r))
            }
            Ext::SxPick => {
                // fresh value in 0..n, concretised at once (every feasible value is explored)
                let n = self.conc(st, &a[0])?;
                // may be re-executed after the fork: reuse the symbol created before
                let key = st.forced.iter().find(|(x, _)| matches!(self.ar.node(*x), Node::Sym(_))).map(|x| *x);
                if let Some((_, v)) = key { return Ok(Some(Val::I(v))); }
                let nm = self.s(st, &a[1], &a[2])?;
                let id = self.name(&nm);
                let e = self.fresh(st, id, 8);
                let k = self.ar.c(8, n as u128);
                let c = self.ar.bin(Op::Ult, e, k);
                // model default is 0, which satisfies the bound, unless replaying
                self.add(st, c);
                let v = self.concretize(st, e)?;
                Some(Val::I(v))
            }
            Ext::SxConc => Some(Val::I(self.conc(st, &a[0])?)),
            Ext::SxAssume => {
                match &a[0] {
                    Val::I(x) => { if x & 1 == 0 { return Err(Stop::Silent); } None }
                    v => {
                        let e = self.ex(v, 1);
                        // an assumption is a constraint: take only the true side
                        if self.eval(st, e) == 1 { self.add(st, e); return Ok(None); }
                        match self.feasible(st, e) {
                            Ok(Some(m)) => { self.upd(st, &m); self.add(st, e); None }
                            Ok(None) => return Err(Stop::Silent),
                            Err(()) => return Err(Stop::Inconclusive("assume unknown".into())),
                        }
                    }
                }
            }
            Ext::SxAssert => {
                self.st_.asserts += 1;
                match &a[0] {
                    Val::I(x) => {
                        if x & 1 == 0 { let id = self.s(st, &a[1], &a[2])?; return Err(Stop::Violation { kind: "assert".into(), msg: format!("assertion failed: {}", id), id }); }
                        None
                    }
                    v => {
                        self.st_.asserts_sym += 1;
                        let e = self.ex(v, 1);
                        let n = self.ar.not(e);
                        match self.feasible(st, n) {
                            Ok(None) => None,
                            Ok(Some(m)) => {
                                let id = self.s(st, &a[1], &a[2])?;
                                self.upd(st, &m);
                                self.add(st, n);
                                return Err(Stop::Violation { kind: "assert".into(), msg: format!("assertion can fail: {}", id), id });
                            }
                            Err(()) => return Err(Stop::Inconclusive("assert unknown".into())),
                        }
                    }
                }
            }
            Ext::SxFail => { let id = self.s(st, &a[0], &a[1])?; return Err(Stop::Violation { kind: "assert".into(), msg: format!("assertion failed: {}", id), id }); }
            Ext::SxCover => {
                let id = self.s(st, &a[0], &a[1])?;
                let n = self.name(&id);
                *self.st_.cover.entry(id).or_insert(0) += 1;
                st.ev = Some(Rc::new(EvNode { name: n, v: EvVal::Cover, prev: st.ev.take() }));
                None
            }
            Ext::SxNote => {
                let id = self.s(st, &a[0], &a[1])?;
                let n = self.name(&id);
                let (v, ev) = match &a[2] { Val::I(x) => (*x, EvVal::I(*x)), v => { let e = self.ex(v, 64); (self.eval(st, e) as u64, EvVal::E(e)) } };
                st.ev = Some(Rc::new(EvNode { name: n, v: ev, prev: st.ev.take() }));
                st.ctx.push((n, v));
                if self.sh.verbose { eprintln!("note {} = {:#x}", id, v); }
                None
            }
            Ext::SxEnd => return Err(Stop::End),
        })
    }
    fn upd(&mut self, st: &mut State, m: &Rc<Vec<(u32, u64)>>) { self.set_model_pub(st, m); }
}
