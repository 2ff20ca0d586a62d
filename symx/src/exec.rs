//! The symbolic executor proper: states, memory, path forking.
use crate::expr::*;
use crate::fx::FxMap;
use crate::intrin::ExtK;
use crate::ir::*;
use crate::parse::{Module, CONST_FLAG, FN_OBJ, OBJ_OFF, STACK_FLAG};
use crate::z3::{Res, Z3};
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Condvar, Mutex};

/// a scalar: concrete when `e == 0`
#[derive(Clone, Copy, Debug)]
pub struct Val { pub c: u64, pub e: E }
#[inline(always)]
pub fn cv(c: u64) -> Val { Val { c, e: 0 } }

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: Option<Box<[u32]>>,
    pub symsize: E,
}
impl Obj {
    pub fn new(n: usize) -> Self { Obj { data: vec![0; n], sym: None, symsize: 0 } }
    pub fn set_sym(&mut self, off: usize, e: E) {
        let n = self.data.len();
        let s = self.sym.get_or_insert_with(|| vec![0u32; n].into_boxed_slice());
        s[off] = e;
    }
}
type Page = [Option<Rc<Obj>>; 64];
#[derive(Clone)]
pub struct Mem { pub pages: Vec<Rc<Page>>, pub next: u32, pub stack: Vec<Rc<Obj>> }
const NONE: Option<Rc<Obj>> = None;
impl Mem {
    pub fn new() -> Self { Mem { pages: vec![], next: 16, stack: vec![] } }
    pub fn put(&mut self, id: u32, o: Obj) {
        let p = (id >> 6) as usize;
        while self.pages.len() <= p { self.pages.push(Rc::new([NONE; 64])); }
        Rc::make_mut(&mut self.pages[p])[(id & 63) as usize] = Some(Rc::new(o));
        if id >= self.next { self.next = id + 1; }
    }
    pub fn alloc(&mut self, o: Obj) -> u64 {
        let id = self.next;
        self.put(id, o);
        crate::parse::obj_addr(id as u64)
    }
    pub fn take(&mut self, id: u32) -> Vec<u8> {
        let p = (id >> 6) as usize;
        if p >= self.pages.len() { return vec![]; }
        Rc::make_mut(&mut self.pages[p])[(id & 63) as usize].take().map_or(vec![], |o| o.data.clone())
    }
    /// a copy sharing no reference counts
    pub fn deep(&self) -> Mem {
        let mut m = Mem::new();
        for (pi, p) in self.pages.iter().enumerate() {
            for (i, o) in p.iter().enumerate() { if let Some(o) = o { m.put((pi * 64 + i) as u32, (**o).clone()); } }
        }
        m.next = self.next;
        m
    }
    pub fn free(&mut self, id: u32) -> bool {
        let p = (id >> 6) as usize;
        if p >= self.pages.len() || self.pages[p][(id & 63) as usize].is_none() { return false; }
        Rc::make_mut(&mut self.pages[p])[(id & 63) as usize] = None;
        true
    }
}

#[derive(Clone)]
pub struct Frame { pub func: &'static Func, pub pc: u32, pub base: u32, pub has_obj: bool, pub thread: bool }

#[derive(Clone, Copy, Debug)]
pub struct Dec { pub val: u64, pub taken: bool }

pub struct Model { pub id: u64, pub b: [u8; MAXSYM] }

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub regs: Vec<Val>,
    pub mem: Mem,
    pub cons: Vec<E>,
    pub dom: Rc<Vec<Set>>,
    pub model: Rc<Model>,
    pub coupled: Supp,
    pub fixed: Supp,
    pub nsym: u32,
    pub decs: Vec<Dec>,
    pub obs: Vec<Val>,
    pub steps: u64,
    pub start_steps: u64,
    pub clock: u64,
    pub flags: u64,
    /// saved thread-local blocks while a spawned thread runs
    pub tls: Vec<Vec<(u32, Rc<Obj>)>>,
}

#[derive(Clone, Debug)]
pub enum Stop {
    Done,
    Assume,
    Panic(String),
    Fail(String),
    Mem(String),
    Hang,
    Unsup(String),
    Limit(String),
    Exit(i32),
}

pub struct Found { pub kind: String, pub msg: String, pub input: Vec<u8>, pub stack: Vec<String>, pub obs: Option<u64>, pub z3_confirmed: bool }

#[derive(Clone)]
pub struct Cfg {
    pub harness: u64,
    pub max_steps: u64,
    pub z3_timeout: u32,
    pub samples: usize,
    pub max_viol: usize,
    pub xcheck: u64,
    pub seed: u64,
    pub random: bool,
    pub verbose: bool,
    pub params: Vec<u64>,
}

pub struct Shared {
    pub queue: Mutex<Vec<Vec<Dec>>>,
    pub cv: Condvar,
    pub idle: AtomicUsize,
    pub nthreads: usize,
    pub stop: AtomicBool,
    pub deadline: std::time::Instant,
    pub found: Mutex<Vec<Found>>,
    pub samples: Mutex<Vec<Found>>,
    pub npaths: AtomicU64,
    pub stats: Mutex<Stats>,
    pub reached: Mutex<std::collections::BTreeMap<String, u64>>,
    pub funcs: Mutex<std::collections::BTreeSet<u32>>,
    pub timeup: AtomicBool,
    pub errno_addr: u64,
    pub tls_ids: Vec<u32>,
    pub sig_seen: Mutex<std::collections::HashMap<String, u64>>,
}
#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub done: u64, pub assumed: u64, pub panics: u64, pub fails: u64, pub mems: u64, pub hangs: u64, pub exits: u64,
    pub unsup: std::collections::BTreeMap<String, u64>,
    pub limit: std::collections::BTreeMap<String, u64>,
    pub steps: u64, pub forks: u64, pub branches: u64, pub dom_dec: u64, pub trial_dec: u64, pub cache_dec: u64, pub z3q: u64, pub z3sat: u64, pub z3unsat: u64, pub z3unk: u64, pub z3ms: u64,
    pub xchecked: u64, pub xbad: u64, pub exprs: u64, pub max_sym: u32, pub abandoned: u64, pub confirms: u64,
}

impl Stats {
    pub fn merge(&mut self, o: &Stats) {
        macro_rules! a { ($($f:ident)*) => { $( self.$f += o.$f; )* } }
        a!(done assumed panics fails mems hangs exits steps forks branches dom_dec trial_dec cache_dec z3q z3sat z3unsat z3unk z3ms xchecked xbad exprs abandoned confirms);
        self.max_sym = self.max_sym.max(o.max_sym);
        for (k, v) in &o.unsup { *self.unsup.entry(k.clone()).or_default() += v; }
        for (k, v) in &o.limit { *self.limit.entry(k.clone()).or_default() += v; }
    }
}

pub struct W<'a> {
    pub m: &'a Module,
    pub consts: &'a [Vec<u8>],
    pub ext: &'a [ExtK],
    pub init: Mem,
    pub ar: Arena,
    pub z: Z3,
    pub st: State,
    pub pending: Vec<State>,
    pub prefix: Vec<Dec>,
    pub ppos: usize,
    pub cfg: &'a Cfg,
    pub sh: &'a Shared,
    pub stats: Stats,
    mid: u64,
    qcache: FxMap<u128, Option<Vec<(usize, u8)>>>,
    recent: Vec<[u8; MAXSYM]>,
    recent_i: usize,
    pool: Vec<Obj>,
    pub fseen: Vec<bool>,
    pub reach_local: std::collections::BTreeMap<String, u64>,
    rng: u64,
    tmpv: Vec<Val>,
}

pub type SR<T> = Result<T, Stop>;

fn full() -> Set { [u64::MAX; 4] }

impl<'a> W<'a> {
    pub fn new(m: &'a Module, consts: &'a [Vec<u8>], ext: &'a [ExtK], init: Mem, cfg: &'a Cfg, sh: &'a Shared, wid: u64) -> Self {
        let st = State {
            frames: vec![], regs: vec![], mem: init.clone(), cons: vec![], dom: Rc::new(vec![]), model: Rc::new(Model { id: 0, b: [0; MAXSYM] }),
            coupled: 0, fixed: 0, nsym: 0, decs: vec![], obs: vec![], steps: 0, start_steps: 0, clock: 0, flags: 0, tls: vec![],
        };
        W {
            m, consts, ext, init, ar: Arena::new(), z: Z3::new(cfg.z3_timeout), st, pending: vec![], prefix: vec![], ppos: 0, cfg, sh, stats: Stats::default(), mid: 1,
            qcache: FxMap::default(), recent: vec![], recent_i: 0, pool: vec![], fseen: vec![false; m.funcs.len()], reach_local: Default::default(),
            rng: cfg.seed.wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ (wid + 1), tmpv: vec![],
        }
    }
    fn rnd(&mut self) -> u64 { self.rng ^= self.rng << 13; self.rng ^= self.rng >> 7; self.rng ^= self.rng << 17; self.rng }

    // ---------------- values ----------------
    #[inline(always)]
    pub fn ex(&mut self, v: Val, w: u8) -> E { if v.e != 0 { v.e } else { self.ar.konst(w, v.c as u128) } }
    #[inline]
    pub fn mv(&self, e: E) -> Val {
        let n = self.ar.n(e);
        if n.op == Op::Const && n.w <= 64 { Val { c: n.k, e: 0 } } else { Val { c: 0, e } }
    }
    pub fn wide(&self, e: E) -> Option<u128> { self.ar.cval(e) }

    // ---------------- constraints ----------------
    pub fn new_sym(&mut self) -> E {
        let i = self.st.nsym;
        if i as usize >= MAXSYM { return 0; }
        self.st.nsym += 1;
        let d = Rc::make_mut(&mut self.st.dom);
        d.push(full());
        self.stats.max_sym = self.stats.max_sym.max(i + 1);
        self.ar.sym(i)
    }
    fn eval(&mut self, e: E) -> u128 {
        let m = self.st.model.clone();
        self.ar.eval(e, m.id, &m.b)
    }
    fn new_model(&mut self, b: [u8; MAXSYM]) -> Rc<Model> {
        self.mid += 1;
        Rc::new(Model { id: self.mid, b })
    }
    /// witness side of `cond`, and a model for the other side if it is feasible
    fn sides(&mut self, cond: E) -> SR<(bool, Option<Rc<Model>>)> {
        self.stats.branches += 1;
        let wit = self.eval(cond) != 0;
        let want = !wit;
        let supp = self.ar.supp[cond as usize];
        let eff = supp & !self.st.fixed;
        if eff == 0 { return Ok((wit, None)); }
        let model = self.st.model.clone();
        if eff.count_ones() == 1 {
            let v = eff.trailing_zeros() as usize;
            let s = if supp == eff { self.ar.bset(cond) } else { self.ar.bset_under(cond, v, &model.b) };
            let s = if want { s } else { set_not(&s) };
            let c = set_and(&s, &self.st.dom[v]);
            if set_empty(&c) {
                self.stats.dom_dec += 1;
                self.xcheck(cond, want)?;
                return Ok((wit, None));
            }
            if self.st.coupled >> v & 1 == 0 {
                self.stats.dom_dec += 1;
                let mut b = model.b;
                b[v] = set_first(&c).unwrap();
                return Ok((wit, Some(self.new_model(b))));
            }
            // coupled: try a few values first
            let cl = self.closure(eff).0;
            let mut tries = 0;
            let mut x = c;
            while let Some(val) = set_first(&x) {
                x[(val >> 6) as usize] &= !(1u64 << (val & 63));
                let mut b = model.b;
                b[v] = val;
                let mm = self.new_model(b);
                if cl.iter().all(|&e| self.ar.eval(e, mm.id, &mm.b) != 0) {
                    self.stats.trial_dec += 1;
                    return Ok((wit, Some(mm)));
                }
                tries += 1;
                if tries >= 12 { break; }
            }
        }
        let r = self.solve(cond, want, eff)?;
        Ok((wit, r))
    }
    /// constraints transitively connected to `vars`, and all variables they mention
    fn closure(&self, vars: Supp) -> (Vec<E>, Supp) {
        let mut vs = vars;
        let mut used = vec![false; self.st.cons.len()];
        let mut out = vec![];
        loop {
            let mut ch = false;
            for (i, &c) in self.st.cons.iter().enumerate() {
                if used[i] { continue; }
                let s = self.ar.supp[c as usize] & !self.st.fixed;
                if s & vs != 0 { used[i] = true; out.push(c); vs |= s; ch = true; }
            }
            if !ch { break; }
        }
        (out, vs)
    }
    fn solve(&mut self, cond: E, want: bool, eff: Supp) -> SR<Option<Rc<Model>>> {
        let (mut cl, vars) = self.closure(eff);
        cl.sort_unstable();
        let model = self.st.model.clone();
        // recent models
        for k in 0..self.recent.len() {
            let r = self.recent[k];
            let mut b = model.b;
            let mut ok = true;
            let mut vv = vars;
            while vv != 0 {
                let v = vv.trailing_zeros() as usize;
                vv &= vv - 1;
                if !set_has(&self.st.dom[v], r[v]) { ok = false; break; }
                b[v] = r[v];
            }
            if !ok { continue; }
            let mm = self.new_model(b);
            if (self.ar.eval(cond, mm.id, &mm.b) != 0) == want && cl.iter().all(|&e| self.ar.eval(e, mm.id, &mm.b) != 0) {
                self.stats.trial_dec += 1;
                return Ok(Some(mm));
            }
        }
        let mut allv = vars | self.ar.supp[cond as usize];
        for &c in &cl { allv |= self.ar.supp[c as usize]; }
        let mut doms = vec![];
        let mut vv = allv;
        while vv != 0 {
            let v = vv.trailing_zeros() as usize;
            vv &= vv - 1;
            doms.push((v, self.st.dom[v]));
        }
        // cache key
        let key = {
            let mut h1: u64 = 0x1234_5678_9abc_def1 ^ (cond as u64) << 1 ^ want as u64;
            let mut h2: u64 = 0x0fed_cba9_8765_4321 ^ (cond as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15);
            let mut add = |x: u64| {
                h1 = (h1.rotate_left(7) ^ x).wrapping_mul(0x517c_c1b7_2722_0a95);
                h2 = (h2.rotate_left(23).wrapping_add(x)).wrapping_mul(0xd6e8_feb8_6659_fd93) ^ (h2 >> 31);
            };
            add(want as u64);
            for &c in &cl { add(c as u64); }
            for (v, d) in &doms { add(*v as u64); for x in d { add(*x); } }
            (h1 as u128) << 64 | h2 as u128
        };
        if let Some(r) = self.qcache.get(&key) {
            self.stats.cache_dec += 1;
            let r = r.clone();
            return Ok(r.map(|a| { let mut b = model.b; for (v, x) in a { b[v] = x; } self.new_model(b) }));
        }
        // floating-point conditions over few values are decided by evaluating them on all of them
        let fp = self.ar.fp[cond as usize] || cl.iter().any(|&c| self.ar.fp[c as usize]);
        if fp {
            let size = |d: &[u64; 4]| d.iter().map(|x| x.count_ones() as u64).sum::<u64>();
            let prod = doms.iter().fold(1u64, |p, (_, d)| p.saturating_mul(size(d)));
            if prod <= 1 << 18 {
                let vals: Vec<Vec<u8>> = doms.iter().map(|(_, d)| (0..=255u8).filter(|x| set_has(d, *x)).collect()).collect();
                let mut ix = vec![0usize; doms.len()];
                let mut b = model.b;
                for (i, (v, _)) in doms.iter().enumerate() { b[*v] = vals[i][0]; }
                let mut sat = false;
                'all: loop {
                    let mm = self.new_model(b);
                    if (self.ar.eval(cond, mm.id, &mm.b) != 0) == want && cl.iter().all(|&e| self.ar.eval(e, mm.id, &mm.b) != 0) { sat = true; break; }
                    let mut i = 0;
                    loop {
                        if i == ix.len() { break 'all; }
                        ix[i] += 1;
                        if ix[i] < vals[i].len() { b[doms[i].0] = vals[i][ix[i]]; break; }
                        ix[i] = 0;
                        b[doms[i].0] = vals[i][0];
                        i += 1;
                    }
                }
                self.stats.dom_dec += 1;
                if !sat { self.qcache.insert(key, None); return Ok(None); }
                self.qcache.insert(key, Some(doms.iter().map(|(v, _)| (*v, b[*v])).collect()));
                return Ok(Some(self.new_model(b)));
            }
        }
        let mut cons: Vec<(E, bool)> = cl.iter().map(|&c| (c, true)).collect();
        cons.push((cond, want));
        let r = self.z.check(&self.ar, &cons, &doms, allv);
        match r {
            Res::Sat(a) => {
                self.qcache.insert(key, Some(a.clone()));
                let mut b = model.b;
                for (v, x) in a { b[v] = x; }
                if self.recent.len() < 12 { self.recent.push(b); } else { self.recent[self.recent_i] = b; self.recent_i = (self.recent_i + 1) % 12; }
                let mm = self.new_model(b);
                debug_assert!((self.ar.eval(cond, mm.id, &mm.b) != 0) == want);
                if (self.ar.eval(cond, mm.id, &mm.b) != 0) != want {
                    return Err(Stop::Unsup("solver model does not satisfy the query (encoding mismatch)".into()));
                }
                Ok(Some(mm))
            }
            Res::Unsat => { self.qcache.insert(key, None); Ok(None) }
            Res::Unknown if self.sh.stop.load(Relaxed) => Err(Stop::Limit("time budget".into())),
            Res::Unknown => { 
                // the path goes on with the side its model takes
                *self.stats.limit.entry("z3 timeout (side not explored)".into()).or_default() += 1;
                Self::add(&mut self.st, &mut self.ar, cond, !want);
                Ok(None)
            }
        }
    }
    /// cross-check (bounded number) of domain-decided infeasibility with z3
    fn xcheck(&mut self, cond: E, want: bool) -> SR<()> {
        if self.stats.xchecked >= self.cfg.xcheck { return Ok(()); }
        self.stats.xchecked += 1;
        let s = self.ar.supp[cond as usize];
        let mut doms = vec![];
        for v in 0..self.st.nsym as usize { if s >> v & 1 == 1 { doms.push((v, self.st.dom[v])); } }
        if let Res::Sat(_) = self.z.check(&self.ar, &[(cond, want)], &doms, s) {
            self.stats.xbad += 1;
            return Err(Stop::Unsup("domain decision contradicted by z3".into()));
        }
        Ok(())
    }
    /// ask z3 for the satisfiability of the complete path condition of the current state
    pub fn confirm(&mut self) -> bool {
        let mut doms = vec![];
        let mut all: Supp = 0;
        for v in 0..self.st.nsym as usize { doms.push((v, self.st.dom[v])); all |= 1 << v; }
        // floating-point constraints are evaluated on the model, the rest goes to the solver
        let model = self.st.model.clone();
        let all_cons = self.st.cons.clone();
        let (fp, cons): (Vec<E>, Vec<E>) = all_cons.iter().partition(|&&c| self.ar.fp[c as usize]);
        if fp.iter().any(|&c| self.ar.eval(c, model.id, &model.b) == 0) { return false; }
        let cons: Vec<(E, bool)> = cons.into_iter().map(|c| (c, true)).collect();
        self.stats.confirms += 1;
        matches!(self.z.check(&self.ar, &cons, &doms, all), Res::Sat(_))
    }
    fn add(st: &mut State, ar: &mut Arena, cond: E, pol: bool) {
        let n = ar.n(cond);
        if n.w == 1 {
            match (n.op, pol) {
                (Op::And, true) => { Self::add(st, ar, n.a, true); Self::add(st, ar, n.b, true); return; }
                (Op::Or, false) => { Self::add(st, ar, n.a, false); Self::add(st, ar, n.b, false); return; }
                (Op::Xor, _) if ar.cval(n.b) == Some(1) => { Self::add(st, ar, n.a, !pol); return; }
                _ => {}
            }
        }
        let supp = ar.supp[cond as usize];
        let eff = supp & !st.fixed;
        if eff == 0 { return; }
        if eff.count_ones() == 1 {
            let v = eff.trailing_zeros() as usize;
            let s = if supp == eff { ar.bset(cond) } else { ar.bset_under(cond, v, &st.model.b) };
            let s = if pol { s } else { set_not(&s) };
            let d = Rc::make_mut(&mut st.dom);
            d[v] = set_and(&d[v], &s);
            if set_len(&d[v]) == 1 { st.fixed |= 1 << v; }
            return;
        }
        let e = if pol { cond } else { ar.not(cond) };
        if !st.cons.contains(&e) { st.cons.push(e); }
        st.coupled |= eff;
    }
    fn replaying(&self) -> bool { self.ppos < self.prefix.len() }

    /// decide a boolean; forks when both sides are feasible
    pub fn branch(&mut self, cond: E) -> SR<bool> {
        if let Some(v) = self.ar.cval(cond) { return Ok(v != 0); }
        let (wit, other) = self.sides(cond)?;
        let Some(om) = other else { return Ok(wit) };
        self.stats.forks += 1;
        if self.replaying() {
            let d = self.prefix[self.ppos];
            self.ppos += 1;
            if d.taken != wit { self.st.model = om; }
            Self::add(&mut self.st, &mut self.ar, cond, d.taken);
            self.st.decs.push(d);
            return Ok(d.taken);
        }
        let mut o = self.st.clone();
        o.model = om;
        Self::add(&mut o, &mut self.ar, cond, !wit);
        o.decs.push(Dec { val: 0, taken: !wit });
        o.start_steps = o.steps;
        self.pending.push(o);
        Self::add(&mut self.st, &mut self.ar, cond, wit);
        self.st.decs.push(Dec { val: 0, taken: wit });
        Ok(wit)
    }
    /// assume a boolean (path ends when infeasible)
    pub fn assume(&mut self, cond: E) -> SR<()> {
        if let Some(v) = self.ar.cval(cond) { return if v != 0 { Ok(()) } else { Err(Stop::Assume) }; }
        let (wit, other) = self.sides(cond)?;
        if !wit {
            match other { Some(m) => self.st.model = m, None => return Err(Stop::Assume) }
        }
        Self::add(&mut self.st, &mut self.ar, cond, true);
        Ok(())
    }
    /// fix an expression to one value, forking for the others
    pub fn concretize(&mut self, e: E) -> SR<u64> {
        if let Some(v) = self.ar.cval(e) { return Ok(v as u64); }
        let w = self.ar.w(e);
        loop {
            let v = self.eval(e) as u64;
            let k = self.ar.konst(w, v as u128);
            let eq = self.ar.bin(Op::Eq, e, k);
            if let Some(c) = self.ar.cval(eq) { if c != 0 { return Ok(v); } }
            let (_, other) = self.sides(eq)?;
            let Some(om) = other else { return Ok(v) };
            self.stats.forks += 1;
            if self.replaying() {
                let d = self.prefix[self.ppos];
                self.ppos += 1;
                let k = self.ar.konst(w, d.val as u128);
                let eq = self.ar.bin(Op::Eq, e, k);
                let (wit, other) = self.sides(eq)?;
                if wit != d.taken {
                    match other { Some(m) => self.st.model = m, None => return Err(Stop::Unsup("replay divergence".into())) }
                }
                Self::add(&mut self.st, &mut self.ar, eq, d.taken);
                self.st.decs.push(d);
                if d.taken { return Ok(d.val); }
                continue;
            }
            let mut o = self.st.clone();
            o.model = om;
            Self::add(&mut o, &mut self.ar, eq, false);
            o.decs.push(Dec { val: v, taken: false });
            o.start_steps = o.steps;
            self.pending.push(o);
            Self::add(&mut self.st, &mut self.ar, eq, true);
            self.st.decs.push(Dec { val: v, taken: true });
            return Ok(v);
        }
    }
    pub fn conc(&mut self, v: Val) -> SR<u64> { if v.e == 0 { Ok(v.c) } else { self.concretize(v.e) } }

    // ---------------- memory ----------------
    #[inline(always)]
    fn obj(&self, addr: u64) -> Option<&Obj> {
        let id = (addr >> 32) as u32;
        if id as u64 & STACK_FLAG != 0 { return self.st.mem.stack.get((id & !(STACK_FLAG as u32)) as usize).map(|r| &**r); }
        let p = self.st.mem.pages.get((id >> 6) as usize)?;
        p[(id & 63) as usize].as_deref()
    }
    #[inline(always)]
    fn obj_mut(&mut self, addr: u64) -> Option<&mut Obj> {
        let id = (addr >> 32) as u32;
        if id as u64 & STACK_FLAG != 0 { return self.st.mem.stack.get_mut((id & !(STACK_FLAG as u32)) as usize).map(Rc::make_mut); }
        let p = self.st.mem.pages.get_mut((id >> 6) as usize)?;
        Rc::make_mut(p)[(id & 63) as usize].as_mut().map(Rc::make_mut)
    }
    fn memerr<T>(&self, what: &str, addr: u64, n: u64) -> SR<T> {
        let sz = if (addr >> 32) & CONST_FLAG != 0 { self.consts.get(((addr >> 32) & !CONST_FLAG) as usize).map(|x| x.len()) } else { self.obj(addr).map(|o| o.data.len()) };
        Err(Stop::Mem(format!("{what} of {n} bytes at offset {} of an object of size {:?}", (addr as u32).wrapping_sub(OBJ_OFF as u32) as i32, sz)))
    }
    fn chk_symsize(&mut self, symsize: E, end: u64) -> SR<()> {
        let w = self.ar.w(symsize);
        let k = self.ar.konst(w, end as u128);
        let c = self.ar.bin(Op::Ult, symsize, k); // size < end → out of bounds
        if self.branch(c)? { return Err(Stop::Mem(format!("access up to {end} beyond a symbolically sized allocation"))); }
        Ok(())
    }
    pub fn load_bytes(&mut self, addr: u64, n: u64) -> SR<(Vec<u8>, Option<Vec<u32>>)> {
        if n == 0 { return Ok((vec![], None)); }
        let off = (addr as u32).wrapping_sub(OBJ_OFF as u32) as u64;
        let id = addr >> 32;
        if id & CONST_FLAG != 0 {
            if let Some(d) = self.consts.get((id & !CONST_FLAG) as usize) {
                if off + n <= d.len() as u64 { return Ok((d[off as usize..(off + n) as usize].to_vec(), None)); }
            }
            return self.memerr("read", addr, n);
        }
        let ss = match self.obj(addr) {
            Some(o) if off + n <= o.data.len() as u64 => o.symsize,
            Some(o) if o.symsize != 0 => return Err(Stop::Limit("access beyond the capped symbolic allocation".into())),
            _ => return self.memerr("read", addr, n),
        };
        if ss != 0 { self.chk_symsize(ss, off + n)?; }
        let o = self.obj(addr).unwrap();
        let r = off as usize..(off + n) as usize;
        let s = o.sym.as_ref().and_then(|s| { let x = &s[r.clone()]; if x.iter().all(|v| *v == 0) { None } else { Some(x.to_vec()) } });
        Ok((o.data[r].to_vec(), s))
    }
    pub fn store_bytes(&mut self, addr: u64, d: &[u8], s: Option<&[u32]>) -> SR<()> {
        let n = d.len() as u64;
        if n == 0 { return Ok(()); }
        let off = (addr as u32).wrapping_sub(OBJ_OFF as u32) as u64;
        if (addr >> 32) & CONST_FLAG != 0 { return self.memerr("write to constant", addr, n); }
        let ss = match self.obj(addr) {
            Some(o) if off + n <= o.data.len() as u64 => o.symsize,
            Some(o) if o.symsize != 0 => return Err(Stop::Limit("access beyond the capped symbolic allocation".into())),
            _ => return self.memerr("write", addr, n),
        };
        if ss != 0 { self.chk_symsize(ss, off + n)?; }
        let o = self.obj_mut(addr).unwrap();
        let (a, b) = (off as usize, (off + n) as usize);
        o.data[a..b].copy_from_slice(d);
        match s {
            Some(s) => {
                let len = o.data.len();
                let m = o.sym.get_or_insert_with(|| vec![0u32; len].into_boxed_slice());
                m[a..b].copy_from_slice(s);
            }
            None => if let Some(m) = &mut o.sym { m[a..b].fill(0); },
        }
        Ok(())
    }
    #[inline(always)]
    fn load_c(&mut self, addr: u64, nb: u8, w: u8) -> SR<Val> {
        let off = (addr as u32).wrapping_sub(OBJ_OFF as u32) as usize;
        let id = addr >> 32;
        let n = nb as usize;
        let raw;
        if id & CONST_FLAG != 0 {
            match self.consts.get((id & !CONST_FLAG) as usize) {
                Some(d) if off + n <= d.len() => raw = rd(&d[off..off + n]),
                _ => return self.memerr("read", addr, nb as u64),
            }
        } else {
            match self.obj(addr) {
                Some(o) if off + n <= o.data.len() && o.symsize == 0 => {
                    if let Some(s) = &o.sym {
                        if s[off..off + n].iter().any(|x| *x != 0) {
                            let mut es = [0u32; 16];
                            es[..n].copy_from_slice(&s[off..off + n]);
                            let mut db = [0u8; 16];
                            db[..n].copy_from_slice(&o.data[off..off + n]);
                            return Ok(self.from_bytes(&es[..n], &db[..n], w));
                        }
                    }
                    if n > 8 {
                        let mut b = [0u8; 16];
                        b[..n].copy_from_slice(&o.data[off..off + n]);
                        let e = self.ar.konst(w, u128::from_le_bytes(b));
                        return Ok(Val { c: 0, e });
                    }
                    raw = rd(&o.data[off..off + n]);
                }
                Some(o) if o.symsize != 0 => {
                    let (d, s) = self.load_bytes(addr, nb as u64)?;
                    let s = s.unwrap_or_else(|| vec![0; n]);
                    return Ok(self.from_bytes(&s, &d, w));
                }
                _ => return self.memerr("read", addr, nb as u64),
            }
        }
        if n > 8 {
            let (d, _) = self.load_bytes(addr, nb as u64)?;
            let mut b = [0u8; 16];
            b[..n].copy_from_slice(&d);
            let e = self.ar.konst(w, u128::from_le_bytes(b));
            return Ok(Val { c: 0, e });
        }
        Ok(cv(raw & mask64(w)))
    }
    pub fn from_bytes(&mut self, es: &[u32], db: &[u8], w: u8) -> Val {
        let n = es.len();
        let mut e = if es[n - 1] != 0 { es[n - 1] } else { self.ar.konst(8, db[n - 1] as u128) };
        for i in (0..n - 1).rev() {
            let b = if es[i] != 0 { es[i] } else { self.ar.konst(8, db[i] as u128) };
            e = self.ar.concat(e, b);
        }
        if (w as usize) < n * 8 { e = self.ar.extract(e, 0, w); }
        self.mv(e)
    }
    #[inline(always)]
    fn store_c(&mut self, addr: u64, v: Val, nb: u8, w: u8) -> SR<()> {
        let off = (addr as u32).wrapping_sub(OBJ_OFF as u32) as usize;
        let n = nb as usize;
        if (addr >> 32) & CONST_FLAG != 0 { return self.memerr("write to constant", addr, nb as u64); }
        if v.e == 0 {
            match self.obj_mut(addr) {
                Some(o) if off + n <= o.data.len() && o.symsize == 0 => {
                    let b = v.c.to_le_bytes();
                    if n <= 8 { o.data[off..off + n].copy_from_slice(&b[..n]); }
                    if let Some(s) = &mut o.sym { s[off..off + n].fill(0); }
                    return Ok(());
                }
                Some(o) if o.symsize != 0 => return self.store_bytes(addr, &v.c.to_le_bytes()[..n], None),
                _ => return self.memerr("write", addr, nb as u64),
            }
        }
        let mut d = [0u8; 16];
        let mut s = [0u32; 16];
        if let Some(x) = self.ar.cval(v.e) {
            d = x.to_le_bytes();
        } else {
            let e = if (w as usize) < n * 8 { self.ar.zext(v.e, nb * 8) } else { v.e };
            for i in 0..n {
                let b = self.ar.extract(e, i as u8 * 8, 8);
                match self.ar.cval(b) { Some(x) => d[i] = x as u8, None => s[i] = b }
            }
        }
        self.store_bytes(addr, &d[..n], Some(&s[..n]))
    }
    /// load from a symbolic address
    fn load_s(&mut self, a: E, nb: u8, w: u8) -> SR<Val> {
        let eff = self.ar.supp[a as usize] & !self.st.fixed;
        if eff == 0 { let x = self.eval(a) as u64; return self.load_c(x, nb, w); }
        if eff.count_ones() == 1 && nb <= 8 {
            // table lookup: the address depends on one byte
            let v = eff.trailing_zeros() as usize;
            let d = self.st.dom[v];
            let mut t = [0u64; 256];
            let mut ok = true;
            let mut addrs = [0u64; 256];
            if self.ar.supp[a as usize] == eff { addrs = *self.ar.tab(a); } else {
                let mut b = self.st.model.b;
                for i in 0..256usize { if set_has(&d, i as u8) { b[v] = i as u8; self.mid += 1; addrs[i] = self.ar.eval(a, self.mid, &b) as u64; } }
            }
            let mut last = 0;
            for i in 0..256usize {
                if !set_has(&d, i as u8) { continue; }
                match self.peek(addrs[i], nb as usize) { Some(x) => { t[i] = x & mask64(w); last = t[i]; } None => { ok = false; break; } }
            }
            if ok {
                for i in 0..256usize { if !set_has(&d, i as u8) { t[i] = last; } }
                let e = self.ar.mk_tbl(w, v as u32, &Rc::new(t));
                return Ok(self.mv(e));
            }
        } else if nb <= 8 {
            // several bytes: resolve inside one object when it is small
            if let Some(r) = self.load_multi(a, nb, w)? { return Ok(r); }
        }
        let x = self.concretize(a)?;
        self.load_c(x, nb, w)
    }
    fn load_multi(&mut self, a: E, nb: u8, w: u8) -> SR<Option<Val>> {
        let x0 = self.eval(a) as u64;
        let id = x0 >> 32;
        let (len, ss) = if id & CONST_FLAG != 0 { (self.consts.get((id & !CONST_FLAG) as usize).map_or(0, |d| d.len()), 0) } else { self.obj(x0).map_or((0, 0), |o| (o.data.len(), o.symsize)) };
        if len == 0 || len > 512 || ss != 0 || len < nb as usize { return Ok(None); }
        let base = id << 32 | OBJ_OFF;
        let kb = self.ar.konst(64, base as u128);
        let off = self.ar.bin(Op::Sub, a, kb);
        let lim = self.ar.konst(64, (len - nb as usize) as u128);
        let oob = self.ar.bin(Op::Ult, lim, off);
        if self.branch(oob)? { return Ok(None); }
        let mut acc: E = 0;
        for i in 0..=(len - nb as usize) {
            let v = self.load_c(base + i as u64, nb, w)?;
            let ve = self.ex(v, w);
            if acc == 0 { acc = ve; continue; }
            let k = self.ar.konst(64, i as u128);
            let c = self.ar.bin(Op::Eq, off, k);
            acc = self.ar.ite(c, ve, acc);
        }
        Ok(Some(self.mv(acc)))
    }
    fn peek(&self, addr: u64, n: usize) -> Option<u64> {
        let off = (addr as u32).wrapping_sub(OBJ_OFF as u32) as usize;
        let id = addr >> 32;
        if id & CONST_FLAG != 0 {
            let d = self.consts.get((id & !CONST_FLAG) as usize)?;
            if off + n <= d.len() { return Some(rd(&d[off..off + n])); }
            return None;
        }
        let o = self.obj(addr)?;
        if off + n > o.data.len() || o.symsize != 0 { return None; }
        if let Some(s) = &o.sym { if s[off..off + n].iter().any(|x| *x != 0) { return None; } }
        Some(rd(&o.data[off..off + n]))
    }
    pub fn load(&mut self, a: Val, nb: u8, w: u8) -> SR<Val> {
        if a.e == 0 { self.load_c(a.c, nb, w) } else { self.load_s(a.e, nb, w) }
    }
    pub fn store(&mut self, a: Val, v: Val, nb: u8, w: u8) -> SR<()> {
        let x = self.conc(a)?;
        self.store_c(x, v, nb, w)
    }

    // ---------------- main loop ----------------
    pub fn start(&mut self, entry: &'static Func, prefix: Vec<Dec>) {
        self.prefix = prefix;
        self.ppos = 0;
        self.st = State {
            frames: vec![], regs: vec![], mem: self.init.clone(), cons: vec![], dom: Rc::new(vec![]), model: Rc::new(Model { id: 0, b: [0; MAXSYM] }),
            coupled: 0, fixed: 0, nsym: 0, decs: vec![], obs: vec![], steps: 0, start_steps: 0, clock: 0, flags: 0, tls: vec![],
        };
        self.mid += 1;
        self.st.model = Rc::new(Model { id: self.mid, b: [0; MAXSYM] });
        self.push_frame(entry, &[cv(self.cfg.harness)]);
    }
    fn push_frame(&mut self, f: &'static Func, args: &[Val]) {
        let base = self.st.regs.len();
        let need = base + f.nslots as usize;
        self.st.regs.reserve(f.nslots as usize);
        unsafe { self.st.regs.set_len(need); }
        self.st.regs[base..base + args.len()].copy_from_slice(args);
        // keep stale data from looking like expressions of another arena
        for r in &mut self.st.regs[base + args.len()..need] { *r = cv(0); }
        let has_obj = f.frame_size > 0;
        if has_obj {
            let o = match self.pool.pop() {
                Some(mut o) => { o.data.clear(); o.data.resize(f.frame_size as usize, 0); o.sym = None; o }
                None => Obj::new(f.frame_size as usize),
            };
            self.st.mem.stack.push(Rc::new(o));
        }
        if !self.fseen[f.idx as usize] { self.fseen[f.idx as usize] = true; }
        self.st.frames.push(Frame { func: f, pc: 0, base: base as u32, has_obj, thread: false });
    }
    pub fn enter(&mut self, f: &'static Func, args: &[Val]) { self.push_frame(f, args); }
    pub fn obj_ref(&self, addr: u64) -> Option<&Obj> { self.obj(addr) }
    /// give a new thread fresh thread-locals, saving the current ones
    pub fn swap_tls(&mut self) {
        let mut saved = vec![];
        for id in self.sh.tls_ids.iter() {
            let (p, i) = ((*id >> 6) as usize, (*id & 63) as usize);
            if let Some(o) = &self.st.mem.pages[p][i] { saved.push((*id, o.clone())); }
            let f = self.init.pages[p][i].clone();
            Rc::make_mut(&mut self.st.mem.pages[p])[i] = f;
        }
        self.st.tls.push(saved);
    }
    fn pop_frame(&mut self) -> Frame {
        let fr = self.st.frames.pop().unwrap();
        if fr.has_obj {
            if let Some(o) = self.st.mem.stack.pop() {
                if let Ok(o) = Rc::try_unwrap(o) { if self.pool.len() < 64 && o.data.len() < 1 << 16 { self.pool.push(o); } }
            }
        }
        unsafe { self.st.regs.set_len(fr.base as usize); }
        if fr.thread {
            for (id, o) in self.st.tls.pop().unwrap_or_default() { Rc::make_mut(&mut self.st.mem.pages[(id >> 6) as usize])[(id & 63) as usize] = Some(o); }
        }
        fr
    }
    pub fn backtrace(&self) -> Vec<String> {
        self.st.frames.iter().rev().take(24).map(|f| crate::intrin::demangle(&f.func.name)).collect()
    }

    /// run the current state until the path ends
    pub fn run(&mut self) -> Stop {
        loop {
            match self.run_inner() { Ok(()) => return Stop::Done, Err(e) => return e }
        }
    }
    fn run_inner(&mut self) -> SR<()> {
        let mut budget: u32 = 0;
        loop {
            let (func, base, mut pc) = { let f = self.st.frames.last().unwrap(); (f.func, f.base as usize, f.pc as usize) };
            let code = &func.code[..];
            macro_rules! g { ($o:expr) => {{
                let o: O = $o;
                if o & CBIT == 0 { unsafe { *self.st.regs.get_unchecked(base + o as usize) } } else {
                    let v = unsafe { *func.consts.get_unchecked((o & !CBIT) as usize) };
                    if v.e == u32::MAX { let (w, k) = func.cwide[v.c as usize]; Val { c: 0, e: self.ar.konst(w, k) } } else { v }
                }
            }}; }
            macro_rules! s { ($d:expr, $v:expr) => {{ let v: Val = $v; unsafe { *self.st.regs.get_unchecked_mut(base + $d as usize) = v; } }}; }
            macro_rules! edge { ($e:expr) => {{
                let e = &func.edges[$e as usize];
                if e.overlap {
                    let mut t = std::mem::take(&mut self.tmpv);
                    t.clear();
                    for (_, o) in &e.moves { t.push(g!(*o)); }
                    for (i, (d, _)) in e.moves.iter().enumerate() { s!(*d, t[i]); }
                    self.tmpv = t;
                } else {
                    for (d, o) in &e.moves { let v = g!(*o); s!(*d, v); }
                }
                pc = e.target as usize;
            }}; }
            // inner loop for this frame
            loop {
                self.st.steps += 1;
                budget += 1;
                if budget & 0xffff == 0 {
                    if self.st.steps > self.cfg.max_steps { return Err(Stop::Hang); }
                    if self.sh.stop.load(Relaxed) { return Err(Stop::Limit("time budget".into())); }
                    if std::time::Instant::now() > self.sh.deadline { self.sh.timeup.store(true, Relaxed); self.sh.stop.store(true, Relaxed); }
                    self.maybe_share();
                }
                let ins = unsafe { code.get_unchecked(pc) };
                macro_rules! save { () => { self.st.frames.last_mut().unwrap().pc = pc as u32; }; }
                match ins {
                    I::Mov { d, a } => { let v = g!(*a); s!(*d, v); pc += 1; }
                    I::Bin { op, w, d, a, b } => {
                        let (x, y) = (g!(*a), g!(*b));
                        if x.e == 0 && y.e == 0 && *w <= 64 {
                            let m = mask64(*w);
                            let r = match op {
                                Op::Add => x.c.wrapping_add(y.c) & m,
                                Op::Sub => x.c.wrapping_sub(y.c) & m,
                                Op::And => x.c & y.c,
                                Op::Or => x.c | y.c,
                                Op::Xor => x.c ^ y.c,
                                Op::Mul => x.c.wrapping_mul(y.c) & m,
                                Op::Shl => if y.c >= *w as u64 { 0 } else { (x.c << y.c) & m },
                                Op::LShr => if y.c >= *w as u64 { 0 } else { x.c >> y.c },
                                _ => {
                                    if y.c == 0 && matches!(op, Op::UDiv | Op::SDiv | Op::URem | Op::SRem) { save!(); return Err(Stop::Panic("division by zero (trap)".into())); }
                                    fold(*op, *w, x.c as u128, y.c as u128) as u64
                                }
                            };
                            s!(*d, cv(r));
                        } else {
                            save!();
                            let (ea, eb) = (self.ex(x, *w), self.ex(y, *w));
                            if matches!(op, Op::UDiv | Op::SDiv | Op::URem | Op::SRem) {
                                let z = self.ar.konst(*w, 0);
                                let c = self.ar.bin(Op::Eq, eb, z);
                                if self.branch(c)? { return Err(Stop::Panic("division by zero (trap)".into())); }
                            }
                            let r = self.ar.bin(*op, ea, eb);
                            let v = self.mv(r);
                            s!(*d, v);
                        }
                        pc += 1;
                    }
                    I::Icmp { p, w, d, a, b } => {
                        let (x, y) = (g!(*a), g!(*b));
                        if x.e == 0 && y.e == 0 {
                            let (sa, sb) = (sx64(x.c, *w), sx64(y.c, *w));
                            let r = match p {
                                Pred::Eq => x.c == y.c, Pred::Ne => x.c != y.c,
                                Pred::Ult => x.c < y.c, Pred::Ule => x.c <= y.c, Pred::Ugt => x.c > y.c, Pred::Uge => x.c >= y.c,
                                Pred::Slt => sa < sb, Pred::Sle => sa <= sb, Pred::Sgt => sa > sb, Pred::Sge => sa >= sb,
                            };
                            s!(*d, cv(r as u64));
                        } else {
                            let (ea, eb) = (self.ex(x, *w), self.ex(y, *w));
                            let r = self.icmp(*p, ea, eb);
                            let v = self.mv(r);
                            s!(*d, v);
                        }
                        pc += 1;
                    }
                    I::Cast { k, fw, tw, d, a } => {
                        let x = g!(*a);
                        if x.e == 0 && *tw <= 64 {
                            let r = match k {
                                CastK::Trunc => x.c & mask64(*tw),
                                CastK::ZExt => x.c,
                                CastK::SExt => sx64(x.c, *fw) as u64 & mask64(*tw),
                                _ => fcast(*k, *fw, *tw, x.c),
                            };
                            s!(*d, cv(r));
                        } else {
                            let e = self.ex(x, *fw);
                            let r = match k {
                                CastK::Trunc => self.ar.extract(e, 0, *tw),
                                CastK::ZExt => self.ar.zext(e, *tw),
                                CastK::SExt => self.ar.sext(e, *tw),
                                _ => { save!(); self.fcast_sym(*k, *fw, *tw, e)? }
                            };
                            let v = self.mv(r);
                            s!(*d, v);
                        }
                        pc += 1;
                    }
                    I::Load { d, w, nb, a, off } => {
                        let p = g!(*a);
                        let v = if p.e == 0 {
                            match self.load_c(p.c.wrapping_add(*off as i64 as u64), *nb, *w) {
                                Ok(v) => v,
                                Err(e) => { save!(); return Err(e); }
                            }
                        } else {
                            save!();
                            let k = self.ar.konst(64, *off as i64 as u128);
                            let e = self.ar.bin(Op::Add, p.e, k);
                            let v = self.mv(e);
                            self.load(v, *nb, *w)?
                        };
                        s!(*d, v);
                        pc += 1;
                    }
                    I::Store { v, w, nb, a, off } => {
                        let p = g!(*a);
                        let x = g!(*v);
                        if p.e == 0 {
                            if let Err(e) = self.store_c(p.c.wrapping_add(*off as i64 as u64), x, *nb, *w) { save!(); return Err(e); }
                        } else {
                            save!();
                            let k = self.ar.konst(64, *off as i64 as u128);
                            let e = self.ar.bin(Op::Add, p.e, k);
                            let pv = self.mv(e);
                            self.store(pv, x, *nb, *w)?;
                        }
                        pc += 1;
                    }
                    I::Gep { d, a, off } => {
                        let p = g!(*a);
                        let v = if p.e == 0 { cv(p.c.wrapping_add(*off as u64)) } else {
                            let k = self.ar.konst(64, *off as u64 as u128);
                            let e = self.ar.bin(Op::Add, p.e, k);
                            self.mv(e)
                        };
                        s!(*d, v);
                        pc += 1;
                    }
                    I::GepI { d, a, i, iw, scale } => {
                        let p = g!(*a);
                        let x = g!(*i);
                        let v = if p.e == 0 && x.e == 0 {
                            cv(p.c.wrapping_add((sx64(x.c, *iw)).wrapping_mul(*scale) as u64))
                        } else {
                            let pe = self.ex(p, 64);
                            let xe = self.ex(x, *iw);
                            let xe = if *iw < 64 { self.ar.sext(xe, 64) } else if *iw > 64 { self.ar.extract(xe, 0, 64) } else { xe };
                            let k = self.ar.konst(64, *scale as u64 as u128);
                            let m = self.ar.bin(Op::Mul, xe, k);
                            let e = self.ar.bin(Op::Add, pe, m);
                            self.mv(e)
                        };
                        s!(*d, v);
                        pc += 1;
                    }
                    I::Sel { w, d, c, a, b } => {
                        let cc = g!(*c);
                        if cc.e == 0 { let v = if cc.c != 0 { g!(*a) } else { g!(*b) }; s!(*d, v); }
                        else {
                            let (x, y) = (g!(*a), g!(*b));
                            let (ex, ey) = (self.ex(x, *w), self.ex(y, *w));
                            let r = self.ar.ite(cc.e, ex, ey);
                            let v = self.mv(r);
                            s!(*d, v);
                        }
                        pc += 1;
                    }
                    I::Br { e } => edge!(*e),
                    I::CBr { c, t, f } => {
                        let cc = g!(*c);
                        let b = if cc.e == 0 { cc.c != 0 } else { save!(); self.branch(cc.e)? };
                        if b { edge!(*t) } else { edge!(*f) }
                    }
                    I::Switch { v, w, t } => {
                        let x = g!(*v);
                        let tb = &func.switches[*t as usize];
                        let e = if x.e == 0 {
                            match &tb.small {
                                Some((lo, v)) => { let i = x.c.wrapping_sub(*lo); if (i as usize) < v.len() { v[i as usize] } else { tb.default } }
                                None => tb.cases.iter().find(|c| c.0 == x.c as u128).map_or(tb.default, |c| c.1),
                            }
                        } else if let Some(k) = self.ar.cval(x.e) {
                            tb.cases.iter().find(|c| c.0 == k).map_or(tb.default, |c| c.1)
                        } else {
                            save!();
                            self.switch(x.e, *w, tb)?
                        };
                        edge!(e);
                    }
                    I::Call { ci } => {
                        save!();
                        let c = &func.calls[*ci as usize];
                        let fi = match &c.callee {
                            Callee::Fn(i) => *i,
                            Callee::Ext(i) => {
                                let mut args = [cv(0); 16];
                                for (k, o) in c.args.iter().enumerate().take(16) { args[k] = g!(*o); }
                                self.ext_call(*i as usize, &args[..c.args.len().min(16)], c, base)?;
                                // calls that push a frame (thread start) set pc themselves
                                let f = self.st.frames.last().unwrap();
                                if f.base as usize != base { break; }
                                pc += 1;
                                continue;
                            }
                            Callee::Dyn(o) => {
                                let v = g!(*o);
                                let a = self.conc(v)?;
                                if a >> 32 != FN_OBJ { return Err(Stop::Mem(format!("call through a non-function pointer {a:#x}"))); }
                                (((a & 0xffff_ffff) - OBJ_OFF) / 16) as u32
                            }
                            Callee::Nop => { pc += 1; continue; }
                        };
                        let k = self.ext[fi as usize];
                        if k != ExtK::Not || !self.m.funcs[fi as usize].defined {
                            let mut args = [cv(0); 16];
                            for (k, o) in c.args.iter().enumerate().take(16) { args[k] = g!(*o); }
                            self.ext_call(fi as usize, &args[..c.args.len().min(16)], c, base)?;
                            let f = self.st.frames.last().unwrap();
                            if f.base as usize != base { break; }
                            pc += 1;
                            continue;
                        }
                        let callee = self.m.func(fi as usize).map_err(|e| Stop::Unsup(format!("parse: {e}")))?;
                        if self.st.frames.len() > 20000 { return Err(Stop::Mem("stack overflow (call depth > 20000)".into())); }
                        let mut t = std::mem::take(&mut self.tmpv);
                        t.clear();
                        for o in &c.args { t.push(g!(*o)); }
                        if t.len() < callee.nparams as usize { return Err(Stop::Unsup(format!("argument mismatch calling {}", callee.name))); }
                        self.push_frame(callee, &t[..callee.nparams as usize]);
                        self.tmpv = t;
                        break;
                    }
                    I::Ret { start, n } => {
                        let mut t = std::mem::take(&mut self.tmpv);
                        t.clear();
                        for o in &func.pool[*start as usize..(*start + *n) as usize] { t.push(g!(*o)); }
                        self.pop_frame();
                        let Some(cf) = self.st.frames.last_mut() else { self.tmpv = t; return Ok(()); };
                        let I::Call { ci } = cf.func.code[cf.pc as usize] else { return Err(Stop::Unsup("return to non-call".into())) };
                        cf.pc += 1;
                        let c = &cf.func.calls[ci as usize];
                        let cb = cf.base as usize + c.d as usize;
                        let nn = (c.nret as usize).min(t.len());
                        self.st.regs[cb..cb + nn].copy_from_slice(&t[..nn]);
                        self.tmpv = t;
                        break;
                    }
                    I::Unreach => { save!(); return Err(Stop::Mem("unreachable executed".into())); }
                    I::Alloca { d, off } => {
                        let id = STACK_FLAG | (self.st.mem.stack.len() as u64 - 1);
                        s!(*d, cv(crate::parse::obj_addr(id) + *off as u64));
                        pc += 1;
                    }
                    I::AllocaDyn { d, n, elem } => {
                        save!();
                        let v = g!(*n);
                        let k = self.conc(v)?;
                        let a = self.st.mem.alloc(Obj::new((k * *elem as u64) as usize));
                        s!(*d, cv(a));
                        pc += 1;
                    }
                    I::Rmw { op, w, d, a, v } => {
                        save!();
                        let (p, x) = (g!(*a), g!(*v));
                        let nb = (*w + 7) / 8;
                        let p = cv(self.conc(p)?);
                        let old = self.load(p, nb, *w)?;
                        let (eo, ex) = (self.ex(old, *w), self.ex(x, *w));
                        let r = match op {
                            0 => ex,
                            1 => self.ar.bin(Op::Add, eo, ex),
                            2 => self.ar.bin(Op::Sub, eo, ex),
                            3 => self.ar.bin(Op::And, eo, ex),
                            4 => self.ar.bin(Op::Or, eo, ex),
                            5 => self.ar.bin(Op::Xor, eo, ex),
                            6 => { let c = self.ar.bin(Op::Slt, eo, ex); self.ar.ite(c, ex, eo) }
                            7 => { let c = self.ar.bin(Op::Slt, eo, ex); self.ar.ite(c, eo, ex) }
                            8 => { let c = self.ar.bin(Op::Ult, eo, ex); self.ar.ite(c, ex, eo) }
                            9 => { let c = self.ar.bin(Op::Ult, eo, ex); self.ar.ite(c, eo, ex) }
                            _ => { let a = self.ar.bin(Op::And, eo, ex); let o = self.ar.konst(*w, u128::MAX); self.ar.bin(Op::Xor, a, o) }
                        };
                        let r = self.mv(r);
                        self.store(p, r, nb, *w)?;
                        s!(*d, old);
                        pc += 1;
                    }
                    I::CmpX { w, d, a, c, n } => {
                        save!();
                        let (p, cc, nn) = (g!(*a), g!(*c), g!(*n));
                        let nb = (*w + 7) / 8;
                        let p = cv(self.conc(p)?);
                        let old = self.load(p, nb, *w)?;
                        let (eo, ec) = (self.ex(old, *w), self.ex(cc, *w));
                        let eq = self.ar.bin(Op::Eq, eo, ec);
                        let b = self.branch(eq)?;
                        if b { self.store(p, nn, nb, *w)?; }
                        s!(*d, old);
                        s!(*d + 1, cv(b as u64));
                        pc += 1;
                    }
                    I::Pack { d, ew, n, start } => {
                        let mut acc: u128 = 0;
                        let mut conc = true;
                        for i in 0..*n {
                            let v = g!(func.pool[(*start + i) as usize]);
                            if v.e != 0 { conc = false; break; }
                            acc |= (v.c as u128) << (i * *ew as u32);
                        }
                        let w = (*ew as u32 * *n) as u8;
                        let v = if conc { if w <= 64 { cv(acc as u64) } else { Val { c: 0, e: self.ar.konst(w, acc) } } } else {
                            let l = g!(func.pool[(*start + *n - 1) as usize]);
                            let mut e = self.ex(l, *ew);
                            for i in (0..*n - 1).rev() {
                                let v = g!(func.pool[(*start + i) as usize]);
                                let x = self.ex(v, *ew);
                                e = self.ar.concat(e, x);
                            }
                            self.mv(e)
                        };
                        s!(*d, v);
                        pc += 1;
                    }
                    I::Unpack { d, ew, n, a } => {
                        let v = g!(*a);
                        let w = (*ew as u32 * *n) as u8;
                        if v.e == 0 {
                            for i in 0..*n { s!(*d + i, cv((v.c >> (i * *ew as u32)) & mask64(*ew))); }
                        } else {
                            let e = self.ex(v, w);
                            for i in 0..*n { let x = self.ar.extract(e, (i * *ew as u32) as u8, *ew); let x = self.mv(x); s!(*d + i, x); }
                        }
                        pc += 1;
                    }
                    I::ExtDyn { d, start, n, i } => {
                        save!();
                        let v = g!(*i);
                        let k = self.conc(v)? as u32;
                        let x = if k < *n { g!(func.pool[(*start + k) as usize]) } else { cv(0) };
                        s!(*d, x);
                        pc += 1;
                    }
                    I::InsDyn { d, start, n, i, v } => {
                        save!();
                        let iv = g!(*i);
                        let k = self.conc(iv)? as u32;
                        let nv = g!(*v);
                        for j in 0..*n { let x = if j == k { nv } else { g!(func.pool[(*start + j) as usize]) }; s!(*d + j, x); }
                        pc += 1;
                    }
                    I::In { k, w, d, a, b, c } => {
                        let (x, y, z) = (g!(*a), g!(*b), g!(*c));
                        save!();
                        let (r, r2) = self.intr(*k, *w, x, y, z)?;
                        s!(*d, r);
                        if let Some(q) = r2 { s!(*d + 1, q); }
                        pc += 1;
                    }
                    I::FBin { op, w, d, a, b } => {
                        let (x, y) = (g!(*a), g!(*b));
                        let v = if x.e == 0 && y.e == 0 { cv(ffold(*op, *w, *w as u64, x.c as u128, y.c as u128) as u64) } else {
                            let (ea, eb) = (self.ex(x, *w), self.ex(y, *w));
                            let r = self.ar.fop(*op, *w, *w, ea, eb, 0);
                            self.mv(r)
                        };
                        s!(*d, v);
                        pc += 1;
                    }
                    I::FRem { w, d, a, b } => {
                        save!();
                        let (x, y) = (g!(*a), g!(*b));
                        let (x, y) = (self.conc(x)?, self.conc(y)?);
                        let r = if *w == 32 { (f32::from_bits(x as u32) % f32::from_bits(y as u32)).to_bits() as u64 } else { (f64::from_bits(x) % f64::from_bits(y)).to_bits() };
                        s!(*d, cv(r));
                        pc += 1;
                    }
                    I::FNeg { w, d, a } => {
                        let x = g!(*a);
                        let v = if x.e == 0 { cv(x.c ^ 1u64 << (*w - 1)) } else {
                            let k = self.ar.konst(*w, 1u128 << (*w - 1));
                            let r = self.ar.bin(Op::Xor, x.e, k);
                            self.mv(r)
                        };
                        s!(*d, v);
                        pc += 1;
                    }
                    I::FCmp { p, w, d, a, b } => {
                        let (x, y) = (g!(*a), g!(*b));
                        let (ea, eb) = (self.ex(x, *w), self.ex(y, *w));
                        let r = self.fcmp(*p, *w, ea, eb);
                        let v = self.mv(r);
                        s!(*d, v);
                        pc += 1;
                    }
                }
            }
        }
    }
    pub fn icmp(&mut self, p: Pred, a: E, b: E) -> E {
        match p {
            Pred::Eq => self.ar.bin(Op::Eq, a, b),
            Pred::Ne => { let e = self.ar.bin(Op::Eq, a, b); self.ar.not(e) }
            Pred::Ult => self.ar.bin(Op::Ult, a, b),
            Pred::Ugt => self.ar.bin(Op::Ult, b, a),
            Pred::Ule => { let e = self.ar.bin(Op::Ult, b, a); self.ar.not(e) }
            Pred::Uge => { let e = self.ar.bin(Op::Ult, a, b); self.ar.not(e) }
            Pred::Slt => self.ar.bin(Op::Slt, a, b),
            Pred::Sgt => self.ar.bin(Op::Slt, b, a),
            Pred::Sle => { let e = self.ar.bin(Op::Slt, b, a); self.ar.not(e) }
            Pred::Sge => { let e = self.ar.bin(Op::Slt, a, b); self.ar.not(e) }
        }
    }
    fn fcmp(&mut self, p: FPred, w: u8, a: E, b: E) -> E {
        let nan = |s: &mut Self| -> E {
            let x = s.ar.fop(Op::FIsNan, 1, w, a, 0, 0);
            let y = s.ar.fop(Op::FIsNan, 1, w, b, 0, 0);
            s.ar.bin(Op::Or, x, y)
        };
        let base = |s: &mut Self, p: FPred| -> E {
            match p {
                FPred::Oeq => s.ar.fop(Op::FEq, 1, w, a, b, 0),
                FPred::Olt => s.ar.fop(Op::FLt, 1, w, a, b, 0),
                FPred::Ole => s.ar.fop(Op::FLe, 1, w, a, b, 0),
                FPred::Ogt => s.ar.fop(Op::FLt, 1, w, b, a, 0),
                _ => s.ar.fop(Op::FLe, 1, w, b, a, 0),
            }
        };
        match p {
            FPred::False => self.ar.konst(1, 0),
            FPred::True => self.ar.konst(1, 1),
            FPred::Uno => nan(self),
            FPred::Ord => { let n = nan(self); self.ar.not(n) }
            FPred::Oeq | FPred::Olt | FPred::Ole | FPred::Ogt | FPred::Oge => base(self, p),
            FPred::One => { let n = nan(self); let e = base(self, FPred::Oeq); let o = self.ar.bin(Op::Or, n, e); self.ar.not(o) }
            FPred::Une => { let e = base(self, FPred::Oeq); self.ar.not(e) }
            FPred::Ueq => { let n = nan(self); let e = base(self, FPred::Oeq); self.ar.bin(Op::Or, n, e) }
            FPred::Ult => { let e = base(self, FPred::Oge); self.ar.not(e) }
            FPred::Ule => { let e = base(self, FPred::Ogt); self.ar.not(e) }
            FPred::Ugt => { let e = base(self, FPred::Ole); self.ar.not(e) }
            FPred::Uge => { let e = base(self, FPred::Olt); self.ar.not(e) }
        }
    }
    fn fcast_sym(&mut self, k: CastK, fw: u8, tw: u8, e: E) -> SR<E> {
        if !(fw == 32 || fw == 64 || matches!(k, CastK::SToF | CastK::UToF)) || tw > 64 { let c = self.concretize(e)?; let r = fcast(k, fw, tw, c); return Ok(self.ar.konst(tw, r as u128)); }
        Ok(match k {
            CastK::SToF => self.ar.fop(Op::FSToF, tw, fw, e, 0, 0),
            CastK::UToF => self.ar.fop(Op::FUToF, tw, fw, e, 0, 0),
            CastK::FToF => self.ar.fop(Op::FToF, tw, fw, e, 0, 0),
            CastK::FToS | CastK::FToU => self.ar.fop(if k == CastK::FToS { Op::FToS } else { Op::FToU }, tw, fw, e, 0, 0),
            CastK::FToSSat | CastK::FToUSat => {
                // saturation made explicit so that the solver term agrees
                let sg = k == CastK::FToSSat;
                let (lo, hi): (f64, f64) = if sg { (-(2f64.powi(tw as i32 - 1)), 2f64.powi(tw as i32 - 1)) } else { (0.0, 2f64.powi(tw as i32)) };
                let fk = |v: f64| -> u128 { if fw == 32 { (v as f32).to_bits() as u128 } else { v.to_bits() as u128 } };
                let klo = self.ar.konst(fw, fk(lo));
                let khi = self.ar.konst(fw, fk(hi));
                let nan = self.ar.fop(Op::FIsNan, 1, fw, e, 0, 0);
                let below = self.ar.fop(Op::FLt, 1, fw, e, klo, 0);
                let above = self.ar.fop(Op::FLe, 1, fw, khi, e, 0);
                let mid = self.ar.fop(if sg { Op::FToS } else { Op::FToU }, tw, fw, e, 0, 0);
                let vmin = self.ar.konst(tw, if sg { 1u128 << (tw - 1) } else { 0 });
                let vmax = self.ar.konst(tw, if sg { mask(tw - 1) } else { mask(tw) });
                let z = self.ar.konst(tw, 0);
                let r = self.ar.ite(above, vmax, mid);
                let r = self.ar.ite(below, vmin, r);
                self.ar.ite(nan, z, r)
            }
            _ => unreachable!(),
        })
    }
    fn switch(&mut self, e: E, w: u8, tb: &SwitchT) -> SR<u32> {
        // one decision per distinct target
        let mut groups: Vec<(u32, E)> = vec![];
        for (k, t) in &tb.cases {
            let kk = self.ar.konst(w, *k);
            let c = self.ar.bin(Op::Eq, e, kk);
            if self.ar.cval(c) == Some(0) { continue; }
            match groups.iter_mut().find(|g| g.0 == *t) {
                Some(g) => { let o = self.ar.bin(Op::Or, g.1, c); g.1 = o; }
                None => groups.push((*t, c)),
            }
        }
        for (t, c) in groups {
            if self.branch(c)? { return Ok(t); }
        }
        Ok(tb.default)
    }

    // ---------------- scheduling ----------------
    fn maybe_share(&mut self) {
        if self.sh.nthreads > 1 && self.pending.len() > 0 && self.sh.idle.load(Relaxed) > 0 {
            let q = self.sh.queue.lock().unwrap();
            let room = self.sh.idle.load(Relaxed) + 2 > q.len();
            drop(q);
            if room {
                let n = (self.pending.len() / 2).clamp(1, 8);
                let d: Vec<_> = self.pending.drain(..n).map(|s| s.decs).collect();
                self.sh.queue.lock().unwrap().extend(d);
                self.sh.cv.notify_all();
            }
        }
    }
    pub fn work(&mut self, entry: &'static Func) {
        loop {
            // obtain a job
            let job = {
                let mut q = self.sh.queue.lock().unwrap();
                self.sh.idle.fetch_add(1, SeqCst);
                loop {
                    if self.sh.stop.load(SeqCst) { break None; }
                    if let Some(j) = q.pop() { self.sh.idle.fetch_sub(1, SeqCst); break Some(j); }
                    if self.sh.idle.load(SeqCst) == self.sh.nthreads { self.sh.stop.store(true, SeqCst); self.sh.cv.notify_all(); break None; }
                    q = self.sh.cv.wait_timeout(q, std::time::Duration::from_millis(50)).unwrap().0;
                }
            };
            let Some(job) = job else { break };
            if self.ar.len() > 3_000_000 {
                self.stats.exprs += self.ar.len() as u64;
                self.ar = Arena::new();
                self.z.reset(self.cfg.z3_timeout);
                self.qcache.clear();
                self.recent.clear();
            }
            self.start(entry, job);
            self.one();
            while let Some(s) = self.next() {
                self.st = s;
                self.one();
                if self.sh.stop.load(Relaxed) { break; }
                // bound memory: hand states back as decision prefixes when the arena grows too large
                if self.ar.len() > 12_000_000 {
                    let d: Vec<_> = self.pending.drain(..).map(|s| s.decs).collect();
                    self.sh.queue.lock().unwrap().extend(d);
                    break;
                }
            }
            if self.sh.stop.load(Relaxed) { self.stats.abandoned += self.pending.len() as u64; self.pending.clear(); break; }
        }
        self.sh.cv.notify_all();
        self.stats.exprs += self.ar.len() as u64;
        self.stats.z3q = self.z.queries;
        self.stats.z3sat = self.z.sat;
        self.stats.z3unsat = self.z.unsat;
        self.stats.z3unk = self.z.unknown;
        self.stats.z3ms = self.z.time.as_millis() as u64;
    }
    fn next(&mut self) -> Option<State> {
        if self.cfg.random && self.pending.len() > 1 {
            let i = (self.rnd() % self.pending.len() as u64) as usize;
            return Some(self.pending.swap_remove(i));
        }
        self.pending.pop()
    }
    fn obs_hash(&mut self) -> u64 {
        let o = self.st.obs.clone();
        let mut h: u64 = 0xcbf2_9ce4_8422_2325;
        for v in o {
            let b = if v.e == 0 { v.c as u8 } else { self.eval(v.e) as u8 };
            h = (h ^ b as u64).wrapping_mul(0x0000_0100_0000_01b3);
        }
        h
    }
    fn one(&mut self) {
        let stop = self.run();
        self.sh.npaths.fetch_add(1, Relaxed);
        self.stats.steps += self.st.steps - self.st.start_steps;
        if self.sh.npaths.load(Relaxed) & 15 == 0 { self.maybe_share(); }
        let input: Vec<u8> = self.st.model.b[..self.st.nsym as usize].to_vec();
        let (kind, msg) = match &stop {
            Stop::Done => { self.stats.done += 1; ("done", String::new()) }
            Stop::Exit(c) => { self.stats.exits += 1; ("exit", format!("{c}")) }
            Stop::Assume => { self.stats.assumed += 1; return; }
            Stop::Panic(s) => { self.stats.panics += 1; ("panic", s.clone()) }
            Stop::Fail(c) => { self.stats.fails += 1; ("fail", c.clone()) }
            Stop::Mem(s) => { self.stats.mems += 1; ("memory", s.clone()) }
            Stop::Hang => { self.stats.hangs += 1; ("hang", format!("more than {} steps", self.cfg.max_steps)) }
            Stop::Unsup(s) => {
                let bt = self.backtrace();
                *self.stats.unsup.entry(format!("{s} @ {}", bt.iter().take(3).cloned().collect::<Vec<_>>().join(" < "))).or_default() += 1;
                if self.cfg.verbose { eprintln!("UNSUP {s}: {input:?}\n  {}", bt.join("\n  ")); }
                return;
            }
            Stop::Limit(s) => { *self.stats.limit.entry(s.clone()).or_default() += 1; return; }
        };
        let viol = !matches!(stop, Stop::Done);
        let h = self.obs_hash();
        if viol {
            let bt = self.backtrace();
            let sig = match &stop { Stop::Fail(c) => format!("fail {c}"), Stop::Hang => "hang".to_string(), _ => format!("{kind} {} {}", msg, bt.iter().take(4).cloned().collect::<Vec<_>>().join("<")) };
            let cnt = { let mut s = self.sh.sig_seen.lock().unwrap(); let c = s.entry(sig).or_insert(0); *c += 1; *c };
            if cnt <= self.cfg.max_viol as u64 {
                let z3_confirmed = self.confirm();
                if self.cfg.verbose { eprintln!("{kind} {msg}: {}\n  {}", crate::hex(&input), bt.join("\n  ")); }
                self.sh.found.lock().unwrap().push(Found { kind: kind.into(), msg, input, stack: bt, obs: None, z3_confirmed });
            }
        } else {
            let n = self.sh.npaths.load(Relaxed);
            let take = { let s = self.sh.samples.lock().unwrap(); s.len() < self.cfg.samples };
            if take {
                let c = if self.stats.confirms < 40 { self.confirm() } else { true };
                if !c { *self.stats.limit.entry("path condition not confirmed by z3".into()).or_default() += 1; }
                self.sh.samples.lock().unwrap().push(Found { kind: "done".into(), msg: String::new(), input, stack: vec![], obs: Some(h), z3_confirmed: c });
            } else {
                // reservoir sampling
                let r = self.rnd() % n.max(1);
                if (r as usize) < self.cfg.samples { self.sh.samples.lock().unwrap()[r as usize] = Found { kind: "done".into(), msg: String::new(), input, stack: vec![], obs: Some(h), z3_confirmed: true }; }
            }
        }
    }
    pub fn set_ret(&mut self, c: &CallI, base: usize, i: usize, v: Val) { self.st.regs[base + c.d as usize + i] = v; }
}

#[inline(always)]
fn rd(b: &[u8]) -> u64 {
    match b.len() {
        8 => u64::from_le_bytes(b.try_into().unwrap()),
        4 => u32::from_le_bytes(b.try_into().unwrap()) as u64,
        1 => b[0] as u64,
        2 => u16::from_le_bytes(b.try_into().unwrap()) as u64,
        _ => { let mut a = [0u8; 8]; let n = b.len().min(8); a[..n].copy_from_slice(&b[..n]); u64::from_le_bytes(a) }
    }
}
#[inline(always)]
pub fn sx64(v: u64, w: u8) -> i64 { if w >= 64 { v as i64 } else { ((v << (64 - w)) as i64) >> (64 - w) } }

pub fn fcast(k: CastK, fw: u8, tw: u8, x: u64) -> u64 {
    let f = if fw == 32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x) };
    match k {
        CastK::FToF => if tw == 32 { (f as f32).to_bits() as u64 } else { f.to_bits() },
        CastK::SToF => { let s = sx64(x, fw); if tw == 32 { (s as f32).to_bits() as u64 } else { (s as f64).to_bits() } }
        CastK::UToF => if tw == 32 { (x as f32).to_bits() as u64 } else { (x as f64).to_bits() },
        CastK::FToS | CastK::FToSSat => { let hi = mask64(tw - 1) as i128; let v = (f as i128).clamp(-hi - 1, hi); v as u64 & mask64(tw) }
        CastK::FToU | CastK::FToUSat => { let v = (f as u128).min(mask(tw)); v as u64 }
        _ => unreachable!(),
    }
}
