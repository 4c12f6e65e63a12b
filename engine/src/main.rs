mod exec;
mod expr;
mod ext;
mod ir;
mod z3;
use exec::*;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
    o.push('"');
    o
}

fn main() {
    let mut args = std::env::args().skip(1);
    let ll = args.next().expect("usage: hx FILE.ll ENTRY [options]");
    let entry = args.next().expect("entry");
    let (mut threads, mut secs, mut tmo, mut steps, mut fan, mut out, mut keep, mut known, mut verbose, mut dump, mut xb) = (8usize, 600u64, 20000u32, 60_000_000u64, 300usize, None, false, vec![], false, None, 1.0f64);
    while let Some(a) = args.next() {
        let mut v = || args.next().expect("value");
        match a.as_str() {
            "--threads" => threads = v().parse().unwrap(),
            "--time" => secs = v().parse().unwrap(),
            "--solver-timeout" => tmo = v().parse().unwrap(),
            "--max-steps" => steps = v().parse().unwrap(),
            "--max-fan" => fan = v().parse().unwrap(),
            "--out" => out = Some(v()),
            "--keep-going" => keep = true,
            "--known" => known.push(v()),
            "--verbose" => verbose = true,
            "--xcheck" => xb = v().parse().unwrap(),
            "--dump" => dump = Some(std::path::PathBuf::from(v())),
            x => panic!("unknown option {}", x),
        }
    }
    let t0 = Instant::now();
    let m: &'static ir::Module = Box::leak(Box::new(ir::Module::load(&ll)));
    let load_s = t0.elapsed().as_secs_f64();
    let exts: &'static [ext::Ext] = Box::leak(m.funcs.iter().map(ext::classify).collect::<Vec<_>>().into_boxed_slice());
    let fi = match m.fidx.get(&entry) { Some(&f) => f, None => { eprintln!("hx: no function {}", entry); std::process::exit(3); } };
    let sh: &'static Shared = Box::leak(Box::new(Shared {
        q: Mutex::new(vec![Job { trace: vec![], model: vec![] }]), cv: Condvar::new(), idle: AtomicUsize::new(0), want: AtomicUsize::new(0), stop: AtomicBool::new(false), paths: AtomicU64::new(0),
        n: threads, found: Mutex::new(vec![]), samples: Mutex::new(vec![]), inconcl: Mutex::new(Default::default()), deadline: t0 + Duration::from_secs(secs), max_steps: steps, max_fan: fan, keep_going: keep, known, verbose,
    }));
    let hs: Vec<_> = (0..threads).map(|_| {
        let dump = dump.clone();
        std::thread::Builder::new().stack_size(512 << 20).spawn(move || {
            let mut ex = Ex::new(m, exts, sh, tmo);
            ex.z.dump = dump;
            ex.xbudget = xb;
            ex.worker(fi);
            let mut s = std::mem::take(&mut ex.st_);
            s.z3_time = ex.z.time;
            s.z3_max = ex.z.max_t;
            s
        }).unwrap()
    }).collect();
    let mut t = Stats::default();
    let mut died = 0;
    for h in hs {
        match h.join() {
            Ok(s) => {
                t.instrs += s.instrs; t.forks += s.forks; t.paths_end += s.paths_end; t.paths_silent += s.paths_silent; t.paths_viol += s.paths_viol;
                t.q_total += s.q_total; t.q_eval += s.q_eval; t.q_dom += s.q_dom; t.q_cache += s.q_cache; t.q_tup += s.q_tup; t.q_z3 += s.q_z3; t.z3_time += s.z3_time; t.z3_max = t.z3_max.max(s.z3_max);
                t.asserts += s.asserts; t.asserts_sym += s.asserts_sym; t.xcheck += s.xcheck; t.replayed += s.replayed;
                for (k, v) in s.cover { *t.cover.entry(k).or_insert(0) += v; }
                t.funcs.extend(s.funcs);
                t.max_syms = t.max_syms.max(s.max_syms);
                t.max_depth = t.max_depth.max(s.max_depth);
            }
            Err(_) => died += 1,
        }
    }
    if died > 0 { *sh.inconcl.lock().unwrap().entry("engine worker died".into()).or_insert(0) += died; }
    let found = sh.found.lock().unwrap();
    let inc = sh.inconcl.lock().unwrap();
    let mut o = String::new();
    o.push_str(&format!("{{\n \"entry\": {}, \"wall_s\": {:.2}, \"load_s\": {:.2}, \"threads\": {},\n", js(&entry), t0.elapsed().as_secs_f64(), load_s, threads));
    o.push_str(&format!(" \"paths\": {}, \"paths_assumed_away\": {}, \"paths_violating\": {}, \"instructions\": {}, \"forks\": {}, \"max_decisions\": {}, \"max_symbols\": {},\n", t.paths_end, t.paths_silent, t.paths_viol, t.instrs, t.forks, t.max_depth, t.max_syms));
    o.push_str(&format!(" \"queries\": {}, \"by_model\": {}, \"by_domain\": {}, \"by_cache\": {}, \"by_tuples\": {}, \"by_z3\": {}, \"z3_s\": {:.2}, \"z3_max_s\": {:.3}, \"domain_crosschecked_z3\": {},\n", t.q_total, t.q_eval, t.q_dom, t.q_cache, t.q_tup, t.q_z3, t.z3_time, t.z3_max, t.xcheck));
    o.push_str(&format!(" \"asserts\": {}, \"asserts_symbolic\": {},\n", t.asserts, t.asserts_sym));
    o.push_str(&format!(" \"cover\": {{{}}},\n", t.cover.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", ")));
    o.push_str(&format!(" \"inconclusive\": {{{}}},\n", inc.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", ")));
    let mut fs: Vec<String> = t.funcs.iter().map(|&f| demangle(&m.funcs[f as usize].name)).collect();
    fs.sort();
    fs.dedup();
    o.push_str(&format!(" \"functions\": [{}],\n", fs.iter().map(|f| js(f)).collect::<Vec<_>>().join(", ")));
    o.push_str(&format!(" \"samples\": [{}],\n", sh.samples.lock().unwrap().iter().map(|f| format!("\n  {{\"steps\": {}, \"inputs\": [{}], \"events\": [{}]}}", f.steps, f.inputs.iter().map(|(n, w, v)| format!("[{}, {}, {}]", js(n), w, v)).collect::<Vec<_>>().join(", "), f.events.iter().map(|(n, v)| format!("[{}, {}]", js(n), v.map_or("null".to_string(), |v| v.to_string()))).collect::<Vec<_>>().join(", "))).collect::<Vec<_>>().join(",")));
    o.push_str(&format!(" \"violations\": [{}]\n}}\n", found.iter().map(|f| format!("\n  {{\"kind\": {}, \"id\": {}, \"msg\": {}, \"stack\": [{}], \"notes\": [{}], \"inputs\": [{}]}}", js(&f.kind), js(&f.id), js(&f.msg), f.stack.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "), f.ctx.iter().map(|(n, v)| format!("[{}, {}]", js(n), v)).collect::<Vec<_>>().join(", "), f.inputs.iter().map(|(n, w, v)| format!("[{}, {}, {}]", js(n), w, v)).collect::<Vec<_>>().join(", "))).collect::<Vec<_>>().join(",")));
    match &out { Some(p) => std::fs::write(p, &o).unwrap(), None => print!("{}", o) }
    let unk = found.iter().any(|f| !sh.known.contains(&f.id));
    let code = if unk { 1 } else if !inc.is_empty() { 2 } else { 0 };
    let _ = Ordering::Relaxed;
    std::process::exit(code);
}
