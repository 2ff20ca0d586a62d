//! Hash-consed bit-vector expressions over 8-bit symbolic input bytes.
use crate::fx::FxMap;
use std::rc::Rc;

pub type E = u32;

#[repr(u8)]
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const, Sym, Tbl,
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Slt, Ite, Concat, Extract, ZExt, SExt,
    // floating point: k = source width, operands are the IEEE bit patterns
    FAdd, FSub, FMul, FDiv, FEq, FLt, FLe, FIsNan,
    FToS, FToU, FSToF, FUToF, FToF, FRnd,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u8,
    pub a: u32,
    pub b: u32,
    pub c: u32,
    pub k: u64,
}

pub type Set = [u64; 4];
pub type Supp = u128;
pub const MAXSYM: usize = 128;

#[inline(always)]
pub fn mask(w: u8) -> u128 {
    if w >= 128 { u128::MAX } else { (1u128 << w) - 1 }
}
#[inline(always)]
pub fn mask64(w: u8) -> u64 {
    if w >= 64 { u64::MAX } else { (1u64 << w) - 1 }
}
pub fn sx(v: u128, w: u8) -> i128 {
    if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) }
}
pub fn set_and(a: &Set, b: &Set) -> Set { [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]] }
pub fn set_not(a: &Set) -> Set { [!a[0], !a[1], !a[2], !a[3]] }
pub fn set_empty(a: &Set) -> bool { a[0] | a[1] | a[2] | a[3] == 0 }
pub fn set_has(a: &Set, v: u8) -> bool { a[(v >> 6) as usize] >> (v & 63) & 1 == 1 }
pub fn set_len(a: &Set) -> u32 { a.iter().map(|x| x.count_ones()).sum() }
pub fn set_first(a: &Set) -> Option<u8> {
    for i in 0..4 { if a[i] != 0 { return Some((i * 64) as u8 + a[i].trailing_zeros() as u8); } }
    None
}

pub fn fold(op: Op, w: u8, a: u128, b: u128) -> u128 {
    let m = mask(w);
    match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => if b == 0 { m } else { a / b },
        Op::URem => if b == 0 { a } else { a % b },
        Op::SDiv => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 { if x < 0 { 1 } else { m } } else { (x.wrapping_div(y) as u128) & m }
        }
        Op::SRem => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 { a } else { (x.wrapping_rem(y) as u128) & m }
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => if b >= w as u128 { 0 } else { (a << b) & m },
        Op::LShr => if b >= w as u128 { 0 } else { a >> b },
        Op::AShr => {
            let s = if b >= w as u128 { w as u32 - 1 } else { b as u32 };
            ((sx(a, w) >> s) as u128) & m
        }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        _ => unreachable!("fold {op:?}"),
    }
}

fn f(w: u64, v: u128) -> f64 {
    if w == 32 { f32::from_bits(v as u32) as f64 } else { f64::from_bits(v as u64) }
}
fn tof(w: u64, v: f64) -> u128 {
    if w == 32 { (v as f32).to_bits() as u128 } else { v.to_bits() as u128 }
}
/// evaluate a floating-point node on concrete operands; `sw` source width, `w` result width
pub fn ffold(op: Op, w: u8, sw: u64, a: u128, b: u128) -> u128 {
    if sw == 32 && matches!(op, Op::FAdd | Op::FSub | Op::FMul | Op::FDiv) {
        let (x, y) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
        let r = match op { Op::FAdd => x + y, Op::FSub => x - y, Op::FMul => x * y, _ => x / y };
        return r.to_bits() as u128;
    }
    let (x, y) = (f(sw, a), f(sw, b));
    match op {
        Op::FAdd => (x + y).to_bits() as u128,
        Op::FSub => (x - y).to_bits() as u128,
        Op::FMul => (x * y).to_bits() as u128,
        Op::FDiv => (x / y).to_bits() as u128,
        Op::FEq => (x == y) as u128,
        Op::FLt => (x < y) as u128,
        Op::FLe => (x <= y) as u128,
        Op::FIsNan => x.is_nan() as u128,
        // saturating conversions (the plain LLVM ones are poison outside the range)
        Op::FToS => {
            let v = x as i128;
            let hi = (mask(w) >> 1) as i128;
            (v.clamp(-hi - 1, hi) as u128) & mask(w)
        }
        Op::FToU => (x as u128).min(mask(w)),
        Op::FSToF => if w == 32 { (sx(a, sw as u8) as f32).to_bits() as u128 } else { (sx(a, sw as u8) as f64).to_bits() as u128 },
        Op::FUToF => if w == 32 { (a as f32).to_bits() as u128 } else { (a as f64).to_bits() as u128 },
        Op::FToF => tof(w as u64, x),
        Op::FRnd => tof(w as u64, match b { 0 => x.trunc(), 1 => x.floor(), 2 => x.ceil(), 3 => x.round(), _ => x.round_ties_even() }),
        _ => unreachable!(),
    }
}

pub struct Arena {
    pub nodes: Vec<Node>,
    map: FxMap<Node, E>,
    pub supp: Vec<Supp>,
    pub fp: Vec<bool>,
    size: Vec<u16>,
    tabs: FxMap<E, Rc<[u64; 256]>>,
    bsets: FxMap<E, Set>,
    pub tbls: Vec<Rc<[u64; 256]>>,
    tblmap: FxMap<Vec<u64>, u32>,
    ev: Vec<u128>,
    evs: Vec<u32>,
    cur_stamp: u32,
    cur_model: u64,
    pub collapse: u16,
}

impl Arena {
    pub fn new() -> Self {
        let dummy = Node { op: Op::Const, w: 0, a: 0, b: 0, c: 0, k: 0 };
        Arena {
            nodes: vec![dummy], map: FxMap::default(), supp: vec![0], fp: vec![false], size: vec![0],
            tabs: FxMap::default(), bsets: FxMap::default(), tbls: vec![], tblmap: FxMap::default(),
            ev: vec![0], evs: vec![0], cur_stamp: 1, cur_model: u64::MAX, collapse: 10,
        }
    }
    pub fn len(&self) -> usize { self.nodes.len() }
    #[inline(always)]
    pub fn n(&self, e: E) -> Node { self.nodes[e as usize] }
    #[inline(always)]
    pub fn w(&self, e: E) -> u8 { self.nodes[e as usize].w }
    pub fn cval(&self, e: E) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const { Some(n.k as u128 | (n.a as u128) << 64 | (n.b as u128) << 96) } else { None }
    }
    pub fn konst(&mut self, w: u8, v: u128) -> E {
        let v = v & mask(w);
        self.intern_raw(Node { op: Op::Const, w, a: (v >> 64) as u32, b: (v >> 96) as u32, c: 0, k: v as u64 })
    }
    pub fn sym(&mut self, i: u32) -> E {
        self.intern_raw(Node { op: Op::Sym, w: 8, a: 0, b: 0, c: 0, k: i as u64 })
    }
    fn intern_raw(&mut self, n: Node) -> E {
        if let Some(&e) = self.map.get(&n) { return e; }
        let e = self.nodes.len() as u32;
        let (mut s, mut sz): (Supp, u32) = (0, 1);
        match n.op {
            Op::Const => {}
            Op::Sym => s = 1u128 << n.k,
            Op::Tbl => { s = self.supp[n.a as usize]; }
            _ => {
                for x in [n.a, n.b, n.c] {
                    if x != 0 { s |= self.supp[x as usize]; sz += self.size[x as usize] as u32; }
                }
            }
        }
        self.nodes.push(n);
        self.supp.push(s);
        let fpf = (n.op as u8) >= (Op::FAdd as u8) || (n.op != Op::Const && n.op != Op::Sym && [n.a, n.b, n.c].iter().any(|&x| x != 0 && self.fp[x as usize]));
        self.fp.push(fpf);
        self.size.push(sz.min(60000) as u16);
        self.ev.push(0);
        self.evs.push(0);
        self.map.insert(n, e);
        e
    }
    fn mk(&mut self, op: Op, w: u8, a: E, b: E, c: E, k: u64) -> E {
        let n = Node { op, w, a, b, c, k };
        if let Some(&e) = self.map.get(&n) {
            return if self.size[e as usize] == u16::MAX { self.supp_redirect(e) } else { e };
        }
        let e = self.intern_raw(n);
        let s = self.supp[e as usize];
        if s.count_ones() == 1 && w <= 64 && (w == 1 || self.size[e as usize] > self.collapse) {
            let t = self.tab(e);
            if w == 1 {
                let f = t.iter().all(|&x| x == 0);
                let tr = t.iter().all(|&x| x == 1);
                if f || tr {
                    let r = self.konst(1, tr as u128);
                    self.redirect(e, r);
                    return r;
                }
            } else if t.iter().all(|&x| x == t[0]) {
                let r = self.konst(w, t[0] as u128);
                self.redirect(e, r);
                return r;
            }
            if self.size[e as usize] > self.collapse {
                let var = s.trailing_zeros();
                let r = self.mk_tbl(w, var, &t);
                self.redirect(e, r);
                return r;
            }
        }
        e
    }
    // a node that was canonicalised away keeps size==u16::MAX and its replacement in ev slot of `redir`
    fn redirect(&mut self, e: E, r: E) {
        self.size[e as usize] = u16::MAX;
        self.bsets.remove(&e);
        self.tabs.remove(&e);
        self.nodes[e as usize].c = r;
    }
    fn supp_redirect(&self, e: E) -> E { self.nodes[e as usize].c }

    pub fn mk_tbl(&mut self, w: u8, var: u32, t: &Rc<[u64; 256]>) -> E {
        if t.iter().all(|&x| x == t[0]) { return self.konst(w, t[0] as u128); }
        let key = t.to_vec();
        let id = match self.tblmap.get(&key) {
            Some(&i) => i,
            None => {
                let i = self.tbls.len() as u32;
                self.tbls.push(t.clone());
                self.tblmap.insert(key, i);
                i
            }
        };
        let v = self.sym(var);
        self.intern_raw(Node { op: Op::Tbl, w, a: v, b: 0, c: 0, k: id as u64 })
    }
    /// table of values of a single-variable expression of width <= 64
    pub fn tab(&mut self, e: E) -> Rc<[u64; 256]> {
        if let Some(t) = self.tabs.get(&e) { return t.clone(); }
        let n = self.n(e);
        let mut r = [0u64; 256];
        if n.op == Op::Tbl { return self.tbls[n.k as usize].clone(); }
        let var = self.supp[e as usize].trailing_zeros() as usize;
        let small = [n.a, n.b, n.c].iter().all(|&x| x == 0 || (self.w(x) <= 64)) && n.w <= 64
            && !matches!(n.op, Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FEq | Op::FLt | Op::FLe | Op::FIsNan | Op::FToS | Op::FToU | Op::FSToF | Op::FUToF | Op::FToF | Op::FRnd);
        if n.op == Op::Sym {
            for i in 0..256 { r[i] = i as u64; }
        } else if small {
            let ch = |s: &mut Self, x: E| -> Option<Rc<[u64; 256]>> {
                if x == 0 { return None; }
                if let Some(v) = s.cval(x) { return Some(Rc::new([v as u64; 256])); }
                Some(s.tab(x))
            };
            let a = ch(self, n.a);
            let b = ch(self, n.b);
            let c = ch(self, n.c);
            let (wa, wb) = (if n.a != 0 { self.w(n.a) } else { 0 }, if n.b != 0 { self.w(n.b) } else { 0 });
            for i in 0..256 {
                let x = a.as_ref().map_or(0, |t| t[i]);
                let y = b.as_ref().map_or(0, |t| t[i]);
                let z = c.as_ref().map_or(0, |t| t[i]);
                r[i] = self.ev_op(&n, wa, wb, x as u128, y as u128, z as u128) as u64;
            }
        } else {
            let mut m = [0u8; MAXSYM];
            for i in 0..256 {
                m[var] = i as u8;
                self.bump_stamp();
                r[i] = self.eval_inner(e, &m) as u64;
            }
            self.bump_stamp();
        }
        let rc = Rc::new(r);
        if self.tabs.len() > 20000 { self.tabs.clear(); }
        self.tabs.insert(e, rc.clone());
        rc
    }
    pub fn bset(&mut self, e: E) -> Set {
        if let Some(s) = self.bsets.get(&e) { return *s; }
        let t = self.tab(e);
        let mut s = [0u64; 4];
        for i in 0..256 { if t[i] != 0 { s[i >> 6] |= 1 << (i & 63); } }
        self.bsets.insert(e, s);
        s
    }
    /// set of values of byte `var` for which boolean e holds, other variables as in model
    pub fn bset_under(&mut self, e: E, var: usize, model: &[u8]) -> Set {
        let mut m = [0u8; MAXSYM];
        m[..model.len()].copy_from_slice(model);
        let mut s = [0u64; 4];
        for i in 0..256usize {
            m[var] = i as u8;
            self.bump_stamp();
            if self.eval_inner(e, &m) != 0 { s[i >> 6] |= 1 << (i & 63); }
        }
        self.bump_stamp();
        s
    }
    #[inline]
    fn ev_op(&self, n: &Node, wa: u8, wb: u8, x: u128, y: u128, z: u128) -> u128 {
        match n.op {
            Op::Tbl => self.tbls[n.k as usize][x as usize & 255] as u128,
            Op::Slt => (sx(x, wa) < sx(y, wa)) as u128,
            Op::Ite => if x != 0 { y } else { z },
            Op::Concat => (x << wb) | y,
            Op::Extract => (x >> n.k) & mask(n.w),
            Op::ZExt => x,
            Op::SExt => (sx(x, wa) as u128) & mask(n.w),
            Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FEq | Op::FLt | Op::FLe | Op::FIsNan | Op::FToS
            | Op::FToU | Op::FSToF | Op::FUToF | Op::FToF | Op::FRnd => ffold(n.op, n.w, n.k & 0xff, x, if n.op == Op::FRnd { (n.k >> 8) as u128 } else { y }),
            op => fold(op, n.w, x, y),
        }
    }
    fn bump_stamp(&mut self) {
        self.cur_model = u64::MAX;
        self.cur_stamp = self.cur_stamp.wrapping_add(1);
        if self.cur_stamp == 0 {
            self.evs.iter_mut().for_each(|x| *x = 0);
            self.cur_stamp = 1;
        }
    }
    /// evaluate under a model with identity `mid` (caches while the identity stays the same)
    pub fn eval(&mut self, e: E, mid: u64, model: &[u8]) -> u128 {
        if self.cur_model != mid {
            self.bump_stamp();
            self.cur_model = mid;
        }
        self.eval_inner(e, model)
    }
    fn eval_inner(&mut self, e: E, m: &[u8]) -> u128 {
        let n = self.nodes[e as usize];
        match n.op {
            Op::Const => return self.cval(e).unwrap(),
            Op::Sym => return m.get(n.k as usize).copied().unwrap_or(0) as u128,
            Op::Tbl => {
                let v = self.nodes[n.a as usize].k as usize;
                return self.tbls[n.k as usize][m.get(v).copied().unwrap_or(0) as usize] as u128;
            }
            _ => {}
        }
        if self.evs[e as usize] == self.cur_stamp { return self.ev[e as usize]; }
        let r = if n.op == Op::Ite {
            if self.eval_inner(n.a, m) != 0 { self.eval_inner(n.b, m) } else { self.eval_inner(n.c, m) }
        } else {
            let x = self.eval_inner(n.a, m);
            let (mut y, mut z) = (0, 0);
            let red = self.size[e as usize] == u16::MAX;
            if n.b != 0 { y = self.eval_inner(n.b, m); }
            if n.c != 0 && !red { z = self.eval_inner(n.c, m); }
            let wa = self.w(n.a);
            let wb = if n.b != 0 { self.w(n.b) } else { 0 };
            self.ev_op(&n, wa, wb, x, y, z)
        };
        self.evs[e as usize] = self.cur_stamp;
        self.ev[e as usize] = r;
        r
    }

    // ---------- constructors ----------
    pub fn not(&mut self, a: E) -> E {
        let o = self.konst(1, 1);
        self.bin(Op::Xor, a, o)
    }
    pub fn and1(&mut self, a: E, b: E) -> E { self.bin(Op::And, a, b) }
    fn split(&mut self, x: E, k: u8) -> Option<(E, E)> {
        let n = self.n(x);
        match n.op {
            Op::Const => {
                let v = self.cval(x).unwrap();
                let h = self.konst(n.w - k, v >> k);
                let l = self.konst(k, v);
                Some((h, l))
            }
            Op::Concat if self.w(n.b) == k => Some((n.a, n.b)),
            Op::Concat if self.w(n.b) < k => {
                // right-nested: Concat(a, b) with b narrower: split a
                let wb = self.w(n.b);
                let (h, m) = self.split(n.a, k - wb)?;
                let l = self.concat(m, n.b);
                Some((h, l))
            }
            Op::Concat => {
                let (m, l) = self.split(n.b, k)?;
                let h = self.concat(n.a, m);
                Some((h, l))
            }
            Op::ZExt if self.w(n.a) <= k => {
                let h = self.konst(n.w - k, 0);
                let l = self.zext(n.a, k);
                Some((h, l))
            }
            _ => None,
        }
    }
    fn is0(&self, e: E) -> bool { self.cval(e) == Some(0) }
    pub fn bin(&mut self, op: Op, mut a: E, mut b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{op:?}");
        let rw = if matches!(op, Op::Eq | Op::Ult | Op::Slt) { 1 } else { w };
        let (mut ca, mut cb) = (self.cval(a), self.cval(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            let v = if op == Op::Slt { (sx(x, w) < sx(y, w)) as u128 } else { fold(op, w, x, y) };
            return self.konst(rw, v);
        }
        if matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq) && (ca.is_some() || (cb.is_none() && a > b)) {
            std::mem::swap(&mut a, &mut b);
            std::mem::swap(&mut ca, &mut cb);
        }
        let ones = mask(w);
        let na = self.n(a);
        match op {
            Op::Add => {
                if cb == Some(0) { return a; }
                if w == 1 { return self.bin(Op::Xor, a, b); }
                if let Some(k) = cb {
                    if na.op == Op::Add {
                        if let Some(k2) = self.cval(na.b) {
                            let c = self.konst(w, k.wrapping_add(k2));
                            return self.bin(Op::Add, na.a, c);
                        }
                    }
                }
                if let Some(r) = self.try_split(op, a, b) { return r; }
            }
            Op::Sub => {
                if a == b { return self.konst(w, 0); }
                if let Some(k) = cb {
                    let c = self.konst(w, (!k).wrapping_add(1));
                    return self.bin(Op::Add, a, c);
                }
            }
            Op::Mul => {
                if let Some(k) = cb {
                    if k == 0 { return b; }
                    if k == 1 { return a; }
                    if k.is_power_of_two() {
                        let c = self.konst(w, k.trailing_zeros() as u128);
                        return self.bin(Op::Shl, a, c);
                    }
                }
            }
            Op::UDiv => if let Some(k) = cb {
                if k == 1 { return a; }
                if k.is_power_of_two() {
                    let c = self.konst(w, k.trailing_zeros() as u128);
                    return self.bin(Op::LShr, a, c);
                }
                if na.op == Op::ZExt {
                    let iw = self.w(na.a);
                    if k > mask(iw) { return self.konst(w, 0); }
                    let c = self.konst(iw, k);
                    let r = self.bin(Op::UDiv, na.a, c);
                    return self.zext(r, w);
                }
            },
            Op::URem => if let Some(k) = cb {
                if k == 1 { return self.konst(w, 0); }
                if k.is_power_of_two() {
                    let c = self.konst(w, k - 1);
                    return self.bin(Op::And, a, c);
                }
                if na.op == Op::ZExt {
                    let iw = self.w(na.a);
                    if k > mask(iw) { return a; }
                    let c = self.konst(iw, k);
                    let r = self.bin(Op::URem, na.a, c);
                    return self.zext(r, w);
                }
            },
            Op::And => {
                if a == b { return a; }
                if let Some(k) = cb {
                    if k == 0 { return b; }
                    if k == ones { return a; }
                    if na.op == Op::ZExt {
                        let iw = self.w(na.a);
                        let c = self.konst(iw, k & mask(iw));
                        let r = self.bin(Op::And, na.a, c);
                        return self.zext(r, w);
                    }
                    if na.op == Op::Concat {
                        let wb = self.w(na.b);
                        let kh = self.konst(w - wb, k >> wb);
                        let kl = self.konst(wb, k);
                        let h = self.bin(Op::And, na.a, kh);
                        let l = self.bin(Op::And, na.b, kl);
                        return self.concat(h, l);
                    }
                    if (k + 1).is_power_of_two() {
                        let kw = (k + 1).trailing_zeros() as u8;
                        let x = self.extract(a, 0, kw);
                        return self.zext(x, w);
                    }
                    if na.op == Op::And {
                        if let Some(k2) = self.cval(na.b) {
                            let c = self.konst(w, k & k2);
                            return self.bin(Op::And, na.a, c);
                        }
                    }
                }
                if w == 1 {
                    // x & !x
                    if na.op == Op::Xor && na.a == b && self.cval(na.b) == Some(1) { return self.konst(1, 0); }
                    let nb = self.n(b);
                    if nb.op == Op::Xor && nb.a == a && self.cval(nb.b) == Some(1) { return self.konst(1, 0); }
                }
                if let Some(r) = self.try_split(op, a, b) { return r; }
            }
            Op::Or => {
                if a == b { return a; }
                if cb == Some(0) { return a; }
                if cb == Some(ones) { return b; }
                if let Some(r) = self.try_split(op, a, b) { return r; }
            }
            Op::Xor => {
                if a == b { return self.konst(w, 0); }
                if let Some(k) = cb {
                    if k == 0 { return a; }
                    if na.op == Op::Xor {
                        if let Some(k2) = self.cval(na.b) {
                            let c = self.konst(w, k ^ k2);
                            return self.bin(Op::Xor, na.a, c);
                        }
                    }
                }
                if let Some(r) = self.try_split(op, a, b) { return r; }
            }
            Op::Shl | Op::LShr | Op::AShr => {
                if let Some(k) = cb {
                    if k == 0 { return a; }
                    if k >= w as u128 {
                        if op == Op::AShr {
                            let s = self.extract(a, w - 1, 1);
                            return self.sext(s, w);
                        }
                        return self.konst(w, 0);
                    }
                    let k = k as u8;
                    return match op {
                        Op::Shl => {
                            let x = self.extract(a, 0, w - k);
                            let z = self.konst(k, 0);
                            self.concat(x, z)
                        }
                        Op::LShr => {
                            let x = self.extract(a, k, w - k);
                            self.zext(x, w)
                        }
                        _ => {
                            let x = self.extract(a, k, w - k);
                            self.sext(x, w)
                        }
                    };
                }
                if self.is0(a) { return a; }
            }
            Op::Eq => {
                if a == b { return self.konst(1, 1); }
                if let Some(k) = cb {
                    if w == 1 { return if k == 1 { a } else { self.not(a) }; }
                    match na.op {
                        Op::ZExt => {
                            let iw = self.w(na.a);
                            if k > mask(iw) { return self.konst(1, 0); }
                            let c = self.konst(iw, k);
                            return self.bin(Op::Eq, na.a, c);
                        }
                        Op::SExt => {
                            let iw = self.w(na.a);
                            let lo = k & mask(iw);
                            if (sx(lo, iw) as u128) & mask(w) != k { return self.konst(1, 0); }
                            let c = self.konst(iw, lo);
                            return self.bin(Op::Eq, na.a, c);
                        }
                        Op::Concat => {
                            let wb = self.w(na.b);
                            let kh = self.konst(w - wb, k >> wb);
                            let kl = self.konst(wb, k);
                            let h = self.bin(Op::Eq, na.a, kh);
                            if self.is0(h) { return h; }
                            let l = self.bin(Op::Eq, na.b, kl);
                            return self.bin(Op::And, h, l);
                        }
                        Op::Ite => {
                            let x = self.bin(Op::Eq, na.b, b);
                            let y = self.bin(Op::Eq, na.c, b);
                            if self.cval(x).is_some() || self.cval(y).is_some() {
                                return self.ite(na.a, x, y);
                            }
                        }
                        Op::Add => if let Some(k2) = self.cval(na.b) {
                            let c = self.konst(w, k.wrapping_sub(k2));
                            return self.bin(Op::Eq, na.a, c);
                        },
                        Op::Xor => {
                            if let Some(k2) = self.cval(na.b) {
                                let c = self.konst(w, k ^ k2);
                                return self.bin(Op::Eq, na.a, c);
                            }
                            if k == 0 { return self.bin(Op::Eq, na.a, na.b); }
                        }
                        Op::Sub if k == 0 => return self.bin(Op::Eq, na.a, na.b),
                        Op::Or if k == 0 => {
                            let x = self.bin(Op::Eq, na.a, b);
                            let y = self.bin(Op::Eq, na.b, b);
                            return self.bin(Op::And, x, y);
                        }
                        _ => {}
                    }
                } else {
                    let nb = self.n(b);
                    if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                        return self.bin(Op::Eq, na.a, nb.a);
                    }
                    if na.op == Op::Concat || nb.op == Op::Concat {
                        let k = if na.op == Op::Concat { self.w(na.b) } else { self.w(nb.b) };
                        if let Some((ah, al)) = self.split(a, k) {
                            if let Some((bh, bl)) = self.split(b, k) {
                                let h = self.bin(Op::Eq, ah, bh);
                                if self.is0(h) { return h; }
                                let l = self.bin(Op::Eq, al, bl);
                                return self.bin(Op::And, h, l);
                            }
                        }
                    }
                }
            }
            Op::Ult => {
                if a == b || cb == Some(0) || ca == Some(ones) { return self.konst(1, 0); }
                if cb == Some(1) {
                    let z = self.konst(w, 0);
                    return self.bin(Op::Eq, a, z);
                }
                if ca == Some(0) {
                    let e = self.bin(Op::Eq, b, a);
                    return self.not(e);
                }
                let nb = self.n(b);
                if na.op == Op::ZExt {
                    let iw = self.w(na.a);
                    if let Some(k) = cb {
                        if k > mask(iw) { return self.konst(1, 1); }
                        let c = self.konst(iw, k);
                        return self.bin(Op::Ult, na.a, c);
                    }
                    if nb.op == Op::ZExt && self.w(nb.a) == iw { return self.bin(Op::Ult, na.a, nb.a); }
                }
                if nb.op == Op::ZExt {
                    if let Some(k) = ca {
                        let iw = self.w(nb.a);
                        if k >= mask(iw) { return self.konst(1, 0); }
                        let c = self.konst(iw, k);
                        return self.bin(Op::Ult, c, nb.a);
                    }
                }
            }
            Op::Slt => {
                if a == b { return self.konst(1, 0); }
                if self.nonneg(a) && self.nonneg(b) { return self.bin(Op::Ult, a, b); }
                if cb == Some(0) { return self.extract(a, w - 1, 1); }
                if self.nonneg(a) {
                    if let Some(k) = cb { if sx(k, w) < 0 { return self.konst(1, 0); } }
                }
                if self.nonneg(b) {
                    if let Some(k) = ca { if sx(k, w) < 0 { return self.konst(1, 1); } }
                }
            }
            _ => {}
        }
        self.mk(op, rw, a, b, 0, 0)
    }
    fn nonneg(&self, e: E) -> bool {
        let n = self.n(e);
        match n.op {
            Op::ZExt => true,
            Op::Const => self.cval(e).unwrap() >> (n.w - 1) == 0,
            Op::Concat => self.nonneg(n.a),
            _ => false,
        }
    }
    fn try_split(&mut self, op: Op, a: E, b: E) -> Option<E> {
        let (na, nb) = (self.n(a), self.n(b));
        let k = if na.op == Op::Concat { self.w(na.b) } else if nb.op == Op::Concat { self.w(nb.b) } else { return None };
        let (ah, al) = self.split(a, k)?;
        let (bh, bl) = self.split(b, k)?;
        let lo0 = self.is0(al) || self.is0(bl);
        let hi0 = self.is0(ah) || self.is0(bh);
        let ok = match op {
            Op::Add => lo0,
            Op::Or | Op::Xor => true && (lo0 || hi0),
            Op::And => lo0 || hi0,
            _ => false,
        };
        if !ok { return None; }
        let h = self.bin(op, ah, bh);
        let l = self.bin(op, al, bl);
        Some(self.concat(h, l))
    }
    pub fn zext(&mut self, a: E, w: u8) -> E {
        let n = self.n(a);
        if n.w == w { return a; }
        debug_assert!(w > n.w);
        match n.op {
            Op::Const => { let v = self.cval(a).unwrap(); self.konst(w, v) }
            Op::ZExt => self.zext(n.a, w),
            _ => self.mk(Op::ZExt, w, a, 0, 0, 0),
        }
    }
    pub fn sext(&mut self, a: E, w: u8) -> E {
        let n = self.n(a);
        if n.w == w { return a; }
        match n.op {
            Op::Const => { let v = self.cval(a).unwrap(); self.konst(w, sx(v, n.w) as u128) }
            Op::ZExt => self.zext(n.a, w),
            Op::SExt => self.sext(n.a, w),
            _ => self.mk(Op::SExt, w, a, 0, 0, 0),
        }
    }
    pub fn extract(&mut self, a: E, lo: u8, w: u8) -> E {
        let n = self.n(a);
        if n.w == w { return a; }
        debug_assert!(lo as u32 + w as u32 <= n.w as u32);
        match n.op {
            Op::Const => { let v = self.cval(a).unwrap(); return self.konst(w, v >> lo); }
            Op::Extract => return self.extract(n.a, lo + n.k as u8, w),
            Op::Concat => {
                let wb = self.w(n.b);
                if lo + w <= wb { return self.extract(n.b, lo, w); }
                if lo >= wb { return self.extract(n.a, lo - wb, w); }
                let l = self.extract(n.b, lo, wb - lo);
                let h = self.extract(n.a, 0, w - (wb - lo));
                return self.concat(h, l);
            }
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw { return self.konst(w, 0); }
                if lo + w <= iw { return self.extract(n.a, lo, w); }
                let x = self.extract(n.a, lo, iw - lo);
                return self.zext(x, w);
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw { return self.extract(n.a, lo, w); }
                if lo < iw {
                    let x = self.extract(n.a, lo, iw - lo);
                    return self.sext(x, w);
                }
                let x = self.extract(n.a, iw - 1, 1);
                return self.sext(x, w);
            }
            Op::Ite if self.cval(n.b).is_some() || self.cval(n.c).is_some() => {
                let x = self.extract(n.b, lo, w);
                let y = self.extract(n.c, lo, w);
                return self.ite(n.a, x, y);
            }
            Op::And | Op::Or | Op::Xor if self.size[a as usize] <= 24 || self.cval(n.a).is_some() || self.cval(n.b).is_some() => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return self.bin(n.op, x, y);
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 && self.size[a as usize] <= 24 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                return self.bin(n.op, x, y);
            }
            _ => {}
        }
        self.mk(Op::Extract, w, a, 0, 0, lo as u64)
    }
    pub fn concat(&mut self, a: E, b: E) -> E {
        let (na, nb) = (self.n(a), self.n(b));
        let w = na.w + nb.w;
        if na.op == Op::Const {
            if let Some(y) = self.cval(b) {
                let x = self.cval(a).unwrap();
                return self.konst(w, x << nb.w | y);
            }
            if self.is0(a) { return self.zext(b, w); }
        }
        if na.op == Op::ZExt {
            let x = self.concat(na.a, b);
            return self.zext(x, w);
        }
        if na.op == Op::Concat {
            let y = self.concat(na.b, b);
            return self.concat(na.a, y);
        }
        // merge adjacent pieces
        let (bh, rest) = if nb.op == Op::Concat { (nb.a, Some(nb.b)) } else { (b, None) };
        if let Some(m) = self.merge(a, bh) {
            return match rest { None => m, Some(r) => self.concat(m, r) };
        }
        self.mk(Op::Concat, w, a, b, 0, 0)
    }
    fn merge(&mut self, a: E, b: E) -> Option<E> {
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::Const && nb.op == Op::Const {
            let (x, y) = (self.cval(a).unwrap(), self.cval(b).unwrap());
            return Some(self.konst(na.w + nb.w, x << nb.w | y));
        }
        if na.op == Op::Extract && nb.op == Op::Extract && na.a == nb.a && nb.k + nb.w as u64 == na.k {
            return Some(self.extract(na.a, nb.k as u8, na.w + nb.w));
        }
        None
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(v) = self.cval(c) { return if v != 0 { a } else { b }; }
        if a == b { return a; }
        let nc = self.n(c);
        if nc.op == Op::Xor && self.cval(nc.b) == Some(1) { return self.ite(nc.a, b, a); }
        let w = self.w(a);
        if w == 1 {
            match (self.cval(a), self.cval(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Op::Or, c, b),
                (Some(0), None) => { let n = self.not(c); return self.bin(Op::And, n, b); }
                (None, Some(0)) => return self.bin(Op::And, c, a),
                (None, Some(1)) => { let n = self.not(c); return self.bin(Op::Or, n, a); }
                _ => {}
            }
        }
        self.mk(Op::Ite, w, c, a, b, 0)
    }
    pub fn fop(&mut self, op: Op, w: u8, sw: u8, a: E, b: E, rm: u8) -> E {
        let (ca, cb) = (self.cval(a), if b == 0 { Some(0) } else { self.cval(b) });
        let k = sw as u64 | (rm as u64) << 8;
        if let (Some(x), Some(y)) = (ca, cb) {
            let v = ffold(op, w, sw as u64, x, if op == Op::FRnd { rm as u128 } else { y });
            return self.konst(w, v);
        }
        self.mk(op, w, a, b, 0, k)
    }
}
