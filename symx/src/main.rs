mod exec;
mod expr;
mod fx;
mod intrin;
mod ir;
mod parse;
mod z3;

use exec::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::atomic::*;
use std::sync::{Condvar, Mutex};

pub fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
    o.push('"');
    o
}

struct Job { harness: u64, name: String, time: u64, max_steps: u64, params: Vec<u64>, out: String, samples: usize, random: bool }

fn main() {
    let mut a = std::env::args().skip(1);
    let mut ll = String::new();
    let mut entry = "__sym_entry".to_string();
    let mut threads = 8usize;
    let mut time = 300u64;
    let mut max_steps = 40_000_000u64;
    let mut z3_timeout = 20_000u32;
    let mut samples = 24usize;
    let mut xcheck = 200u64;
    let mut verbose = false;
    let mut compile_all = false;
    let mut jobs: Vec<Job> = vec![];
    let mut random = false;
    let mut max_viol = 3usize;
    while let Some(x) = a.next() {
        let mut v = || a.next().expect("argument value");
        match x.as_str() {
            "--ll" => ll = v(),
            "--entry" => entry = v(),
            "--threads" => threads = v().parse().unwrap(),
            "--time" => time = v().parse().unwrap(),
            "--max-steps" => max_steps = v().parse().unwrap(),
            "--z3-timeout" => z3_timeout = v().parse().unwrap(),
            "--samples" => samples = v().parse().unwrap(),
            "--xcheck" => xcheck = v().parse().unwrap(),
            "--max-viol" => max_viol = v().parse().unwrap(),
            "--random" => random = true,
            "-v" => verbose = true,
            "--compile-all" => compile_all = true,
            // --job name,harness,time,params(:-separated),out
            "--job" => {
                let s = v();
                let f: Vec<&str> = s.split(',').collect();
                jobs.push(Job { name: f[0].into(), harness: f[1].parse().unwrap(), time: f[2].parse().unwrap_or(time), params: f[3].split(':').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect(), out: f[4].into(), max_steps: f.get(5).and_then(|x| x.parse().ok()).unwrap_or(max_steps), samples, random });
            }
            _ => panic!("unknown option {x}"),
        }
    }
    let t0 = std::time::Instant::now();
    let m = match parse::load(&ll) { Ok(m) => m, Err(e) => { eprintln!("parse error: {e}"); std::process::exit(3) } };
    let ext = intrin::table(&m);
    // globals
    let mut consts: Vec<Vec<u8>> = vec![];
    let mut mem = Mem::new();
    let mut tls_ids = vec![];
    for g in &m.globals {
        if g.ext && g.obj == 0 { continue; }
        let init = match parse::global_init(&m, g) { Ok(b) => b, Err(e) => { eprintln!("global {}: {e}", g.name); std::process::exit(3) } };
        let id = g.obj as u64;
        if id & parse::CONST_FLAG != 0 {
            let i = (id & !parse::CONST_FLAG) as usize;
            while consts.len() <= i { consts.push(vec![]); }
            consts[i].extend(init); // sections are concatenated in order
        } else {
            if g.tls { tls_ids.push(id as u32); }
            // members of one link section are laid out one after the other
            let mut all = mem.take(id as u32);
            all.extend(init);
            mem.put(id as u32, Obj { data: all, sym: None, symsize: 0 });
        }
    }
    let errno_addr = mem.alloc(Obj::new(64));
    tls_ids.push((errno_addr >> 32) as u32);
    eprintln!("loaded {} functions, {} globals in {:.1}s", m.funcs.len(), m.globals.len(), t0.elapsed().as_secs_f64());
    if compile_all {
        let mut bad = 0;
        for i in 0..m.funcs.len() { if m.funcs[i].defined { if let Err(e) = m.func(i) { bad += 1; eprintln!("COMPILE {e}"); } } }
        eprintln!("compile-all: {bad} failures");
    }
    let mut worst = 0;
    for j in &jobs {
        let Some(&ei) = m.fmap.get(&entry) else { eprintln!("no entry {entry}"); std::process::exit(3) };
        let cfg = Cfg { harness: j.harness, max_steps: j.max_steps, z3_timeout, samples: j.samples, max_viol, xcheck, seed: 1, random: j.random, verbose, params: j.params.clone() };
        let f = match m.func(ei) { Ok(f) => f, Err(e) => { eprintln!("{e}"); std::process::exit(3) } };
        let start = std::time::Instant::now();
        let sh = Shared {
            queue: Mutex::new(vec![vec![]]), cv: Condvar::new(), idle: AtomicUsize::new(0), nthreads: threads, stop: AtomicBool::new(false), deadline: start + std::time::Duration::from_secs(j.time),
            found: Mutex::new(vec![]), samples: Mutex::new(vec![]), npaths: AtomicU64::new(0), stats: Mutex::new(Stats::default()), reached: Mutex::new(BTreeMap::new()), funcs: Mutex::new(BTreeSet::new()),
            timeup: AtomicBool::new(false), sig_seen: Mutex::new(HashMap::new()), errno_addr, tls_ids: tls_ids.clone(),
        };
        let initp = &InitPtr(&mem as *const Mem);
        let running = AtomicUsize::new(threads);
        std::thread::scope(|s| {
            for w in 0..threads {
                let (m, consts, ext, cfg, sh, running) = (&m, &consts[..], &ext[..], &cfg, &sh, &running);
                std::thread::Builder::new().stack_size(1 << 30).spawn_scoped(s, move || {
                    // deep copy: reference counts are not atomic
                    let init = unsafe { (*initp.0).deep() };
                    let mut w = W::new(m, consts, ext, init, cfg, sh, w as u64);
                    w.work(f);
                    w.flush_reach();
                    sh.stats.lock().unwrap().merge(&w.stats);
                    running.fetch_sub(1, Ordering::SeqCst);
                }).unwrap();
            }
            // a worker may sit in a solver call when the time is up: interrupt it, and end the run if that does not help
            let late = sh.deadline + std::time::Duration::from_secs(15);
            while running.load(Ordering::SeqCst) > 0 {
                std::thread::sleep(std::time::Duration::from_millis(5));
                let now = std::time::Instant::now();
                if now > sh.deadline {
                    sh.timeup.store(true, Ordering::SeqCst);
                    sh.stop.store(true, Ordering::SeqCst);
                    z3::interrupt_all();
                }
                if now > late {
                    emit(&m, j, &sh, start);
                    std::process::exit(if sh.found.lock().unwrap().is_empty() { worst } else { 1 });
                }
            }
        });
        emit(&m, j, &sh, start);
        let found = sh.found.lock().unwrap();
        if !found.is_empty() { worst = 1; }
    }
    std::process::exit(worst);
}
fn emit(m: &parse::Module, j: &Job, sh: &Shared, start: std::time::Instant) {
        let st = sh.stats.lock().unwrap().clone();
        let complete = !sh.timeup.load(Ordering::SeqCst) && st.unsup.is_empty() && st.limit.is_empty();
        let found = sh.found.lock().unwrap();
        let samples = sh.samples.lock().unwrap();
        let reached = sh.reached.lock().unwrap();
        let funcs = sh.funcs.lock().unwrap();
        let map = |b: &BTreeMap<String, u64>| format!("{{{}}}", b.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", "));
        let fj = |f: &Found| format!("{{\"kind\": {}, \"msg\": {}, \"input\": {}, \"obs\": {}, \"z3_confirmed\": {}, \"stack\": [{}]}}", js(&f.kind), js(&f.msg), js(&hex(&f.input)), f.obs.map_or("null".into(), |o| js(&format!("{o:016x}"))), f.z3_confirmed, f.stack.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "));
        let fnames: Vec<String> = funcs.iter().map(|i| js(&intrin::demangle(&m.funcs[*i as usize].name))).collect();
        let o = format!(
            "{{\"name\": {}, \"harness\": {}, \"complete\": {}, \"timeup\": {}, \"wall\": {:.2}, \"paths\": {}, \"done\": {}, \"assumed\": {}, \"panics\": {}, \"fails\": {}, \"mems\": {}, \"hangs\": {}, \"exits\": {}, \"steps\": {}, \"forks\": {}, \"branches\": {}, \"dom_dec\": {}, \"trial_dec\": {}, \"cache_dec\": {}, \"z3q\": {}, \"z3sat\": {}, \"z3unsat\": {}, \"z3unk\": {}, \"z3ms\": {}, \"xchecked\": {}, \"confirms\": {}, \"max_sym\": {}, \"abandoned\": {}, \"unsup\": {}, \"limit\": {}, \"reached\": {{{}}}, \"functions\": [{}], \"found\": [{}], \"samples\": [{}]}}\n",
            js(&j.name), j.harness, complete, sh.timeup.load(Ordering::SeqCst), start.elapsed().as_secs_f64(), sh.npaths.load(Ordering::SeqCst), st.done, st.assumed, st.panics, st.fails, st.mems, st.hangs, st.exits, st.steps, st.forks, st.branches, st.dom_dec, st.trial_dec, st.cache_dec, st.z3q, st.z3sat, st.z3unsat, st.z3unk, st.z3ms, st.xchecked, st.confirms, st.max_sym, st.abandoned,
            map(&st.unsup), map(&st.limit), reached.iter().map(|(k, v)| format!("{}: {v}", js(k))).collect::<Vec<_>>().join(", "), fnames.join(", "), found.iter().map(fj).collect::<Vec<_>>().join(", "), samples.iter().map(fj).collect::<Vec<_>>().join(", "));
        std::fs::write(&j.out, o).unwrap();
        eprintln!("{}: {} paths ({} done, {} assumed out, {} panics, {} fails, {} mem, {} hang) {} steps, {} z3 queries {} ms, {} exprs, {:.1}s complete={} unsup={:?} limit={:?}", j.name, sh.npaths.load(Ordering::SeqCst), st.done, st.assumed, st.panics, st.fails, st.mems, st.hangs, st.steps, st.z3q, st.z3ms, st.exprs, start.elapsed().as_secs_f64(), complete, st.unsup, st.limit);
}

struct InitPtr(*const Mem);
unsafe impl Sync for InitPtr {}
unsafe impl Send for InitPtr {}
