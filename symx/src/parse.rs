//! Parser for textual LLVM IR (as printed by llvm-dis 23) into `ir::Func`, lazily per function.
use crate::exec::Val;
use crate::expr::Op;
use crate::ir::*;
use std::collections::HashMap;
use std::sync::{Arc, OnceLock};

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float(u32),
    Arr(u64, Arc<Ty>),
    Struct(Arc<Vec<Ty>>, bool),
    Vec(u32, Arc<Ty>),
    Label,
    Meta,
    Func,
}
impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => { let b = (*w as u64 + 7) / 8; let a = self.align(); (b + a - 1) / a * a }
            Ty::Ptr => 8,
            Ty::Float(w) => *w as u64 / 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(f, p) => {
                let mut o = 0;
                let mut al = 1;
                for t in f.iter() {
                    if !*p { let a = t.align(); al = al.max(a); o = (o + a - 1) / a * a; }
                    o += t.size();
                }
                (o + al - 1) / al * al
            }
            Ty::Vec(n, t) => (*n as u64 * t.bits() as u64 + 7) / 8,
            _ => 0,
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => { let b = (*w as u64 + 7) / 8; b.next_power_of_two().min(16) }
            Ty::Ptr => 8,
            Ty::Float(w) => *w as u64 / 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(f, p) => if *p { 1 } else { f.iter().map(|t| t.align()).max().unwrap_or(1) },
            Ty::Vec(..) => self.size().next_power_of_two().max(1),
            _ => 1,
        }
    }
    pub fn bits(&self) -> u32 {
        match self { Ty::Int(w) => *w, Ty::Ptr => 64, Ty::Float(w) => *w, _ => panic!("bits of {self:?}") }
    }
    pub fn is_scalar(&self) -> bool { matches!(self, Ty::Int(_) | Ty::Ptr | Ty::Float(_)) }
    /// flattened scalars: (bit width, byte offset)
    pub fn flat(&self, off: u64, out: &mut Vec<(u32, u64)>) {
        match self {
            Ty::Int(w) => out.push((*w, off)),
            Ty::Ptr => out.push((64, off)),
            Ty::Float(w) => out.push((*w, off)),
            Ty::Arr(n, t) => for i in 0..*n { t.flat(off + i * t.size(), out); },
            Ty::Struct(f, p) => {
                let mut o = off;
                for t in f.iter() {
                    if !*p { let a = t.align(); o = (o + a - 1) / a * a; }
                    t.flat(o, out);
                    o += t.size();
                }
            }
            Ty::Vec(n, t) => {
                let b = t.bits() as u64;
                for i in 0..*n as u64 { out.push((b as u32, off + i * b / 8)); }
            }
            _ => {}
        }
    }
    pub fn widths(&self) -> Vec<u8> {
        let mut v = vec![];
        self.flat(0, &mut v);
        v.iter().map(|x| x.0.min(255) as u8).collect()
    }
    pub fn nslots(&self) -> u32 {
        match self {
            Ty::Int(_) | Ty::Ptr | Ty::Float(_) => 1,
            Ty::Arr(n, t) => *n as u32 * t.nslots(),
            Ty::Struct(f, _) => f.iter().map(|t| t.nslots()).sum(),
            Ty::Vec(n, _) => *n,
            _ => 0,
        }
    }
}

pub struct Global {
    pub name: String,
    pub text: (usize, usize),
    pub constant: bool,
    pub ext: bool,
    pub section: Option<String>,
    pub tls: bool,
    pub addr: u64,
    pub obj: u32,
    pub size: u64,
}
pub struct FnDecl {
    pub name: String,
    pub text: (usize, usize),
    pub defined: bool,
    pub comp: OnceLock<&'static Func>,
}
pub struct Module {
    pub text: &'static [u8],
    pub types: HashMap<String, Ty>,
    pub globals: Vec<Global>,
    pub gmap: HashMap<String, usize>,
    pub funcs: Vec<FnDecl>,
    pub fmap: HashMap<String, usize>,
    pub aliases: HashMap<String, (usize, usize)>,
    pub addr_names: HashMap<String, u64>,
}

pub const OBJ_OFF: u64 = 0x4000_0000;
pub const FN_OBJ: u64 = 1;
pub const CONST_FLAG: u64 = 1 << 29;
pub const STACK_FLAG: u64 = 1 << 30;
pub fn fn_addr(i: u64) -> u64 { FN_OBJ << 32 | (OBJ_OFF + i * 16) }
pub fn obj_addr(id: u64) -> u64 { id << 32 | OBJ_OFF }

pub struct P<'a> { pub m: &'a Module, pub s: &'static [u8], pub i: usize, pub end: usize }

type R<T> = Result<T, String>;

impl<'a> P<'a> {
    pub fn new(m: &'a Module, r: (usize, usize)) -> Self { P { m, s: m.text, i: r.0, end: r.1 } }
    fn ws(&mut self) {
        while self.i < self.end {
            let c = self.s[self.i];
            if c == b' ' || c == b'\n' || c == b'\t' || c == b'\r' { self.i += 1; }
            else if c == b';' { while self.i < self.end && self.s[self.i] != b'\n' { self.i += 1; } }
            else { break; }
        }
    }
    fn sp(&mut self) { while self.i < self.end && (self.s[self.i] == b' ' || self.s[self.i] == b'\t') { self.i += 1; } }
    pub fn pk(&mut self) -> u8 { self.ws(); if self.i < self.end { self.s[self.i] } else { 0 } }
    pub fn eat(&mut self, c: u8) -> bool { if self.pk() == c { self.i += 1; true } else { false } }
    fn err<T>(&self, m: &str) -> R<T> {
        let e = (self.i + 120).min(self.s.len());
        Err(format!("{m} at ...{}", String::from_utf8_lossy(&self.s[self.i.saturating_sub(60)..e])))
    }
    fn need(&mut self, c: u8) -> R<()> { if self.eat(c) { Ok(()) } else { self.err(&format!("expected {:?}", c as char)) } }
    fn isw(c: u8) -> bool { c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-' }
    /// peek a word without consuming
    fn pword(&mut self) -> &'static [u8] {
        self.ws();
        let mut j = self.i;
        while j < self.end && Self::isw(self.s[j]) { j += 1; }
        &self.s[self.i..j]
    }
    fn word(&mut self) -> &'static [u8] { let w = self.pword(); self.i += w.len(); w }
    fn kw(&mut self, k: &[u8]) -> bool { if self.pword() == k { self.i += k.len(); true } else { false } }
    fn uint(&mut self) -> R<u64> {
        self.ws();
        let mut v = 0u64;
        let s = self.i;
        while self.i < self.end && self.s[self.i].is_ascii_digit() { v = v * 10 + (self.s[self.i] - b'0') as u64; self.i += 1; }
        if s == self.i { return self.err("number"); }
        Ok(v)
    }
    /// name after % or @
    pub fn name(&mut self) -> &'static [u8] {
        if self.s[self.i] == b'"' {
            let st = self.i + 1;
            let mut j = st;
            while self.s[j] != b'"' { j += 1; }
            self.i = j + 1;
            return &self.s[st..j];
        }
        let st = self.i;
        while self.i < self.end && Self::isw(self.s[self.i]) { self.i += 1; }
        &self.s[st..self.i]
    }
    fn skip_parens(&mut self) {
        // at '('
        let mut d = 0;
        loop {
            let c = self.s[self.i];
            if c == b'"' { self.i += 1; while self.s[self.i] != b'"' { self.i += 1; } }
            if c == b'(' { d += 1; }
            if c == b')' { d -= 1; }
            self.i += 1;
            if d == 0 { return; }
        }
    }
    fn is_type_start(&mut self) -> bool {
        let c = self.pk();
        if matches!(c, b'[' | b'{' | b'<' | b'%') { return true; }
        let w = self.pword();
        matches!(w, b"void" | b"ptr" | b"float" | b"double" | b"half" | b"label" | b"metadata" | b"token" | b"x86_fp80" | b"fp128" | b"bfloat")
            || (w.len() > 1 && w[0] == b'i' && w[1..].iter().all(|c| c.is_ascii_digit()))
    }
    pub fn ty(&mut self) -> R<Ty> {
        let c = self.pk();
        let t = match c {
            b'[' => { self.i += 1; let n = self.uint()?; if !self.kw(b"x") { return self.err("x"); } let t = self.ty()?; self.need(b']')?; Ty::Arr(n, Arc::new(t)) }
            b'{' => Ty::Struct(Arc::new(self.fields(b'{', b'}')?), false),
            b'<' => {
                self.i += 1;
                if self.pk() == b'{' {
                    let f = self.fields(b'{', b'}')?;
                    self.need(b'>')?;
                    Ty::Struct(Arc::new(f), true)
                } else {
                    let n = self.uint()?;
                    if !self.kw(b"x") { return self.err("x"); }
                    let t = self.ty()?;
                    self.need(b'>')?;
                    Ty::Vec(n as u32, Arc::new(t))
                }
            }
            b'%' => {
                self.i += 1;
                let n = String::from_utf8_lossy(self.name()).to_string();
                self.m.types.get(&n).cloned().unwrap_or(Ty::Struct(Arc::new(vec![]), false))
            }
            _ => {
                let w = self.pword();
                let t = match w {
                    b"void" => Ty::Void,
                    b"ptr" => Ty::Ptr,
                    b"float" => Ty::Float(32),
                    b"double" => Ty::Float(64),
                    b"half" => Ty::Float(16),
                    b"bfloat" => Ty::Float(16),
                    b"x86_fp80" => Ty::Float(80),
                    b"fp128" => Ty::Float(128),
                    b"label" => Ty::Label,
                    b"metadata" => Ty::Meta,
                    b"token" => Ty::Meta,
                    _ if w.len() > 1 && w[0] == b'i' && w[1..].iter().all(|c| c.is_ascii_digit()) =>
                        Ty::Int(std::str::from_utf8(&w[1..]).unwrap().parse().unwrap()),
                    _ => return self.err("type"),
                };
                self.i += w.len();
                t
            }
        };
        Ok(t)
    }
    fn fields(&mut self, o: u8, c: u8) -> R<Vec<Ty>> {
        self.need(o)?;
        let mut v = vec![];
        while !self.eat(c) { v.push(self.ty()?); self.eat(b','); }
        Ok(v)
    }
    /// skip parameter/return attributes until something that is a value/type start
    fn skip_attrs(&mut self) {
        loop {
            let c = self.pk();
            if c == b'#' { self.i += 1; self.name(); continue; }
            if c == b'"' {
                self.name();
                if self.pk() == b'=' { self.i += 1; self.ws(); self.name(); }
                continue;
            }
            let w = self.pword();
            if w.is_empty() { return; }
            let is_attr = matches!(w,
                b"noundef" | b"nonnull" | b"noalias" | b"nocapture" | b"readonly" | b"readnone" | b"writeonly" | b"align" | b"dereferenceable"
                | b"dereferenceable_or_null" | b"captures" | b"range" | b"sret" | b"byval" | b"byref" | b"zeroext" | b"signext" | b"inreg" | b"returned"
                | b"immarg" | b"nofree" | b"initializes" | b"allocalign" | b"allocptr" | b"writable" | b"dead_on_unwind" | b"dead_on_return" | b"noext"
                | b"nofpclass" | b"elementtype" | b"swiftself" | b"nest" | b"alignstack" | b"inalloca" | b"preallocated" | b"swifterror");
            if !is_attr { return; }
            self.i += w.len();
            if w == b"align" { self.ws(); if self.s[self.i] == b'(' { self.skip_parens(); } else { let _ = self.uint(); } continue; }
            self.sp();
            if self.i < self.end && self.s[self.i] == b'(' { self.skip_parens(); }
        }
    }

    // ---------------- constants ----------------
    fn sym_addr(&mut self, n: &[u8]) -> R<u64> {
        let n = std::str::from_utf8(n).unwrap();
        if let Some(a) = self.m.addr_names.get(n) { return Ok(*a); }
        if let Some(r) = self.m.aliases.get(n) {
            let mut p = P::new(self.m, *r);
            let t = p.ty()?;
            let v = p.consts(&t)?;
            return Ok(v[0] as u64);
        }
        self.err(&format!("unknown symbol {n}"))
    }
    fn float_lit(&mut self, w: u32) -> R<u128> {
        self.ws();
        let st = self.i;
        let c = self.s[self.i];
        if c == b'0' && self.s[self.i + 1] == b'x' {
            let mut j = self.i + 2;
            let pre = self.s[j];
            let special = matches!(pre, b'K' | b'L' | b'M' | b'H' | b'R');
            if special { j += 1; }
            let mut v = 0u128;
            while j < self.end && self.s[j].is_ascii_hexdigit() { v = v << 4 | (self.s[j] as char).to_digit(16).unwrap() as u128; j += 1; }
            self.i = j;
            if special { return Ok(v); }
            let d = f64::from_bits(v as u64);
            return Ok(if w == 32 { (d as f32).to_bits() as u128 } else { v });
        }
        if c == b'f' && self.s[self.i + 1] == b'0' && self.s[self.i + 2] == b'x' {
            let mut j = self.i + 3;
            let mut v = 0u128;
            while j < self.end && self.s[j].is_ascii_hexdigit() { v = v << 4 | (self.s[j] as char).to_digit(16).unwrap() as u128; j += 1; }
            self.i = j;
            return Ok(v);
        }
        let mut j = self.i;
        while j < self.end && (Self::isw(self.s[j]) || self.s[j] == b'+') { j += 1; }
        let t = std::str::from_utf8(&self.s[st..j]).unwrap();
        self.i = j;
        match t {
            "inf" | "+inf" => return Ok(if w == 32 { f32::INFINITY.to_bits() as u128 } else { f64::INFINITY.to_bits() as u128 }),
            "-inf" => return Ok(if w == 32 { f32::NEG_INFINITY.to_bits() as u128 } else { f64::NEG_INFINITY.to_bits() as u128 }),
            "qnan" | "nan" | "+qnan" => return Ok(if w == 32 { f32::NAN.to_bits() as u128 } else { f64::NAN.to_bits() as u128 }),
            "-qnan" | "-nan" => return Ok(if w == 32 { (-f32::NAN).to_bits() as u128 } else { (-f64::NAN).to_bits() as u128 }),
            _ => {}
        }
        match t.parse::<f64>() {
            Ok(d) => Ok(if w == 32 { (d as f32).to_bits() as u128 } else { d.to_bits() as u128 }),
            Err(_) => { self.i = st; self.err("float literal") }
        }
    }
    /// typed constant → flattened slots
    pub fn consts(&mut self, t: &Ty) -> R<Vec<u128>> {
        let mut v = vec![];
        self.const_into(t, &mut v)?;
        Ok(v)
    }
    fn zeros(t: &Ty, out: &mut Vec<u128>) { for _ in 0..t.nslots() { out.push(0); } }
    fn const_into(&mut self, t: &Ty, out: &mut Vec<u128>) -> R<()> {
        let c = self.pk();
        match c {
            b'@' => { self.i += 1; let n = self.name(); let a = self.sym_addr(n)?; out.push(a as u128); return Ok(()); }
            b'c' if self.s[self.i + 1] == b'"' => {
                self.i += 2;
                while self.s[self.i] != b'"' {
                    if self.s[self.i] == b'\\' {
                        let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap();
                        if self.s[self.i + 1] == b'\\' { out.push(b'\\' as u128); self.i += 2; continue; }
                        out.push(u8::from_str_radix(h, 16).unwrap() as u128);
                        self.i += 3;
                    } else { out.push(self.s[self.i] as u128); self.i += 1; }
                }
                self.i += 1;
                return Ok(());
            }
            b'{' | b'[' | b'<' => {
                let packed = c == b'<' && self.s[self.i + 1] == b'{';
                self.i += if packed { 2 } else { 1 };
                let cl = match c { b'{' => b'}', b'[' => b']', _ => if packed { b'}' } else { b'>' } };
                while !self.eat(cl) {
                    let et = self.ty()?;
                    self.const_into(&et, out)?;
                    self.eat(b',');
                }
                if packed { self.need(b'>')?; }
                return Ok(());
            }
            _ => {}
        }
        let w = self.pword();
        match w {
            b"zeroinitializer" | b"undef" | b"poison" | b"null" | b"none" => { self.i += w.len(); Self::zeros(t, out); return Ok(()); }
            b"true" => { self.i += 4; out.push(1); return Ok(()); }
            b"false" => { self.i += 5; out.push(0); return Ok(()); }
            b"splat" => {
                self.i += 5;
                self.need(b'(')?;
                let et = self.ty()?;
                let mut v = vec![];
                self.const_into(&et, &mut v)?;
                self.need(b')')?;
                for _ in 0..t.nslots() { out.push(v[0]); }
                return Ok(());
            }
            b"getelementptr" => {
                self.i += w.len();
                while self.pk() != b'(' { let x = self.word(); if x.is_empty() { return self.err("gep"); } if x == b"inrange" { self.ws(); self.skip_parens(); } }
                self.need(b'(')?;
                let et = self.ty()?;
                self.need(b',')?;
                let pt = self.ty()?;
                let base = self.consts(&pt)?[0] as u64;
                let mut off = 0i64;
                let mut cur = et;
                let mut first = true;
                while self.eat(b',') {
                    self.kw(b"inrange");
                    let it = self.ty()?;
                    let k = crate::expr::sx(self.consts(&it)?[0], it.bits() as u8) as i64;
                    if first { off += k * cur.size() as i64; first = false; } else { let (o, nt) = step(&cur, k)?; off += o; cur = nt; }
                }
                self.need(b')')?;
                out.push(base.wrapping_add(off as u64) as u128);
                return Ok(());
            }
            b"ptrtoint" | b"inttoptr" | b"bitcast" | b"trunc" | b"zext" | b"addrspacecast" | b"ptrtoaddr" => {
                self.i += w.len();
                self.need(b'(')?;
                let ft = self.ty()?;
                let v = self.consts(&ft)?[0];
                if !self.kw(b"to") { return self.err("to"); }
                let tt = self.ty()?;
                self.need(b')')?;
                out.push(v & crate::expr::mask(tt.bits() as u8));
                return Ok(());
            }
            b"add" | b"sub" | b"mul" | b"xor" | b"and" | b"or" | b"shl" => {
                self.i += w.len();
                while self.pk() != b'(' { self.word(); }
                self.need(b'(')?;
                let at = self.ty()?;
                let a = self.consts(&at)?[0];
                self.need(b',')?;
                let bt = self.ty()?;
                let b = self.consts(&bt)?[0];
                self.need(b')')?;
                let op = match w { b"add" => Op::Add, b"sub" => Op::Sub, b"mul" => Op::Mul, b"xor" => Op::Xor, b"and" => Op::And, b"or" => Op::Or, _ => Op::Shl };
                out.push(crate::expr::fold(op, at.bits() as u8, a, b));
                return Ok(());
            }
            _ => {}
        }
        match t {
            Ty::Float(fw) => { let v = self.float_lit(*fw)?; out.push(v); Ok(()) }
            Ty::Int(iw) => {
                self.ws();
                let neg = self.s[self.i] == b'-';
                if neg { self.i += 1; }
                let mut v = 0u128;
                let s = self.i;
                while self.i < self.end && self.s[self.i].is_ascii_digit() { v = v.wrapping_mul(10).wrapping_add((self.s[self.i] - b'0') as u128); self.i += 1; }
                if s == self.i { return self.err("int constant"); }
                if neg { v = (!v).wrapping_add(1); }
                out.push(v & crate::expr::mask((*iw).min(128) as u8));
                Ok(())
            }
            _ => self.err(&format!("constant of {t:?}")),
        }
    }
}

pub fn step(cur: &Ty, k: i64) -> R<(i64, Ty)> {
    Ok(match cur {
        Ty::Arr(_, t) => (k * t.size() as i64, (**t).clone()),
        Ty::Vec(_, t) => (k * t.size() as i64, (**t).clone()),
        Ty::Struct(f, p) => {
            let mut o = 0u64;
            for (i, t) in f.iter().enumerate() {
                if !*p { let a = t.align(); o = (o + a - 1) / a * a; }
                if i as i64 == k { return Ok((o as i64, t.clone())); }
                o += t.size();
            }
            return Err("gep struct index".into());
        }
        _ => return Err(format!("gep into {cur:?}")),
    })
}

// ---------------- module level ----------------
pub fn load(path: &str) -> R<Module> {
    let data = std::fs::read(path).map_err(|e| format!("{path}: {e}"))?;
    let text: &'static [u8] = Box::leak(data.into_boxed_slice());
    let mut m = Module { text, types: HashMap::new(), globals: vec![], gmap: HashMap::new(), funcs: vec![], fmap: HashMap::new(), aliases: HashMap::new(), addr_names: HashMap::new() };
    let mut i = 0;
    let n = text.len();
    let mut typedefs = vec![];
    while i < n {
        let mut e = i;
        while e < n && text[e] != b'\n' { e += 1; }
        let line = &text[i..e];
        if line.starts_with(b"%") { typedefs.push((i, e)); }
        else if line.starts_with(b"@") {
            // name
            let mut p = P { m: &m, s: text, i: i + 1, end: e };
            let name = String::from_utf8_lossy(p.name()).to_string();
            if !p.eat(b'=') { return p.err("global ="); }
            let mut constant = false;
            let mut ext = false;
            let mut alias = false;
            let mut tls = false;
            loop {
                let w = p.pword();
                if w == b"constant" { constant = true; p.i += w.len(); break; }
                if w == b"global" { p.i += w.len(); break; }
                if w == b"alias" { alias = true; p.i += w.len(); break; }
                if w == b"thread_local" { tls = true; }
                if w == b"external" || w == b"extern_weak" { ext = true; }
                if w.is_empty() { return p.err("global linkage"); }
                p.i += w.len();
                p.sp();
                if p.s[p.i] == b'(' { p.skip_parens(); }
            }
            if alias {
                let _ = p.ty();
                p.need(b',')?;
                let st = p.i;
                m.aliases.insert(name, (st, e));
            } else {
                let st = p.i;
                let section = find_section(&text[st..e]);
                m.gmap.insert(name.clone(), m.globals.len());
                m.globals.push(Global { name, text: (st, e), constant, ext, section, tls, addr: 0, obj: 0, size: 0 });
            }
        } else if line.starts_with(b"declare") || line.starts_with(b"define") {
            let def = line.starts_with(b"define");
            let at = line.iter().position(|c| *c == b'@').ok_or("no @ in define")?;
            let mut p = P { m: &m, s: text, i: i + at + 1, end: e };
            let name = String::from_utf8_lossy(p.name()).to_string();
            let st = i;
            if def {
                // find "\n}\n"
                let mut j = e;
                while !(text[j] == b'\n' && text[j + 1] == b'}') { j += 1; }
                e = j + 2;
            }
            m.fmap.insert(name.clone(), m.funcs.len());
            m.funcs.push(FnDecl { name, text: (st, e), defined: def, comp: OnceLock::new() });
        }
        i = e + 1;
    }
    for (s, e) in typedefs {
        let (name, t) = {
            let mut p = P { m: &m, s: text, i: s + 1, end: e };
            let name = String::from_utf8_lossy(p.name()).to_string();
            p.eat(b'=');
            p.kw(b"type");
            if p.kw(b"opaque") { continue; }
            (name, p.ty()?)
        };
        m.types.insert(name, t);
    }
    for (i, f) in m.funcs.iter().enumerate() { m.addr_names.insert(f.name.clone(), fn_addr(i as u64)); }
    // assign global addresses; linkme sections are laid out contiguously
    let mut next_c = CONST_FLAG;
    let mut next_m = 16u64;
    let mut sects: HashMap<String, (u64, u64, bool)> = HashMap::new(); // addr, size
    let ng = m.globals.len();
    for gi in 0..ng {
        let (ext, sec, cst, r) = { let g = &m.globals[gi]; (g.ext, g.section.clone(), g.constant, g.text) };
        let size = { let mut p = P::new(&m, r); p.ty()?.size() };
        m.globals[gi].size = size;
        if ext { continue; }
        if let Some(s) = &sec {
            if s.starts_with("linkme_") {
                let ent = sects.entry(s.clone()).or_insert_with(|| { let a = obj_addr(next_m); next_m += 1; (a, 0, true) });
                m.globals[gi].addr = ent.0 + ent.1;
                m.globals[gi].obj = (ent.0 >> 32) as u32;
                ent.1 += size;
                continue;
            }
        }
        let id = if cst { next_c += 1; next_c - 1 } else { next_m += 1; next_m - 1 };
        m.globals[gi].addr = obj_addr(id);
        m.globals[gi].obj = id as u32;
    }
    for gi in 0..ng {
        if !m.globals[gi].ext { continue; }
        let name = m.globals[gi].name.clone();
        let a = if let Some(s) = name.strip_prefix("__start_") { sects.get(s).map(|x| x.0) }
            else if let Some(s) = name.strip_prefix("__stop_") { sects.get(s).map(|x| x.0 + x.1) } else { None };
        match a {
            Some(a) => { m.globals[gi].addr = a; m.globals[gi].obj = 0; }
            None => {
                if name.starts_with("__start_") || name.starts_with("__stop_") {
                    // empty section: both symbols at the same address
                    let s = name.trim_start_matches("__start_").trim_start_matches("__stop_").to_string();
                    let e = sects.entry(s).or_insert_with(|| { let a = obj_addr(next_m); next_m += 1; (a, 0, false) });
                    m.globals[gi].addr = e.0;
                    m.globals[gi].obj = 0;
                } else {
                    m.globals[gi].addr = obj_addr(next_m);
                    m.globals[gi].obj = next_m as u32;
                    next_m += 1;
                }
            }
        }
    }
    for g in &m.globals { m.addr_names.insert(g.name.clone(), g.addr); }
    Ok(m)
}
fn find_section(t: &[u8]) -> Option<String> {
    let k = b", section \"";
    let p = t.windows(k.len()).rposition(|w| w == k)?;
    let r = &t[p + k.len()..];
    let e = r.iter().position(|c| *c == b'"')?;
    Some(String::from_utf8_lossy(&r[..e]).to_string())
}

/// initial bytes of a global
pub fn global_init(m: &Module, g: &Global) -> R<Vec<u8>> {
    let mut buf = vec![0u8; g.size as usize];
    if g.ext { buf.resize(64.max(g.size as usize), 0); return Ok(buf); }
    let mut p = P::new(m, g.text);
    let t = p.ty()?;
    let w = p.pword();
    if w == b"zeroinitializer" || w == b"undef" || w == b"poison" { return Ok(buf); }
    write_const(&mut p, &t, &mut buf, 0)?;
    Ok(buf)
}
fn write_const(p: &mut P, t: &Ty, buf: &mut [u8], off: u64) -> R<()> {
    // aggregates recursively so that padding is respected
    let c = p.pk();
    match (t, c) {
        (Ty::Struct(f, pk), b'{' | b'<') => {
            let packed = c == b'<';
            p.i += if packed { 2 } else { 1 };
            let mut o = off;
            for ft in f.iter() {
                if !*pk { let a = ft.align(); o = (o - off + a - 1) / a * a + off; }
                let et = p.ty()?;
                write_const(p, &et, buf, o)?;
                o += ft.size();
                p.eat(b',');
            }
            p.need(b'}')?;
            if packed { p.need(b'>')?; }
            Ok(())
        }
        (Ty::Arr(n, et), b'[') => {
            p.i += 1;
            for i in 0..*n {
                let tt = p.ty()?;
                write_const(p, &tt, buf, off + i * et.size())?;
                p.eat(b',');
            }
            p.need(b']')
        }
        _ => {
            let w = p.pword();
            if w == b"zeroinitializer" || w == b"undef" || w == b"poison" { p.i += w.len(); return Ok(()); }
            let v = p.consts(t)?;
            let mut fl = vec![];
            t.flat(off, &mut fl);
            if fl.len() != v.len() { return p.err("const slots"); }
            for ((w, o), x) in fl.iter().zip(v) {
                let nb = (*w as usize + 7) / 8;
                let by = x.to_le_bytes();
                buf[*o as usize..*o as usize + nb.min(16)].copy_from_slice(&by[..nb.min(16)]);
            }
            Ok(())
        }
    }
}

// ---------------- function compilation ----------------
struct Fb<'a> {
    p: P<'a>,
    slots: HashMap<&'static [u8], (u32, u32)>,
    nslots: u32,
    consts: Vec<Val>,
    cmap: HashMap<(u8, u128), u32>,
    cwide: Vec<(u8, u128)>,
    code: Vec<I>,
    edges: Vec<Edge>,
    switches: Vec<SwitchT>,
    calls: Vec<CallI>,
    pool: Vec<O>,
    frame: u64,
    blocks: HashMap<&'static [u8], usize>,
    bstart: Vec<u32>,
    // per block: phis (dst base, n, [(pred name, ops)])
    phis: Vec<Vec<(u32, u32, Vec<(&'static [u8], Vec<O>)>)>>,
    edge_info: Vec<(usize, &'static [u8])>, // (from block, to label)
}

impl<'a> Fb<'a> {
    fn slot(&mut self, name: &'static [u8], n: u32) -> u32 {
        if let Some(s) = self.slots.get(name) { return s.0; }
        let b = self.nslots;
        self.nslots += n;
        self.slots.insert(name, (b, n));
        b
    }
    fn tmp(&mut self, n: u32) -> u32 { let b = self.nslots; self.nslots += n; b }
    fn k(&mut self, w: u32, v: u128) -> O {
        let w = w.min(255) as u8;
        if let Some(i) = self.cmap.get(&(w, v)) { return *i | CBIT; }
        let i = self.consts.len() as u32;
        if w > 64 {
            self.consts.push(Val { c: self.cwide.len() as u64, e: u32::MAX });
            self.cwide.push((w, v));
        } else {
            self.consts.push(Val { c: v as u64, e: 0 });
        }
        self.cmap.insert((w, v), i);
        i | CBIT
    }
    fn val(&mut self, t: &Ty) -> R<Vec<O>> {
        if self.p.pk() == b'%' {
            self.p.i += 1;
            let n = self.p.name();
            let k = t.nslots();
            let b = self.slot(n, k);
            return Ok((b..b + k).collect());
        }
        if matches!(t, Ty::Meta) {
            // metadata argument: skip
            if self.p.eat(b'!') {
                let n = self.p.name();
                if n.is_empty() || self.p.s[self.p.i] == b'(' || self.p.s[self.p.i] == b'{' {
                    let open = self.p.s[self.p.i];
                    if open == b'(' { self.p.skip_parens(); }
                    else if open == b'{' { while self.p.s[self.p.i] != b'}' { self.p.i += 1; } self.p.i += 1; }
                    else if open == b'"' { self.p.name(); }
                }
            } else { let tt = self.p.ty()?; let _ = self.val(&tt)?; }
            return Ok(vec![]);
        }
        let v = self.p.consts(t)?;
        let w = t.widths();
        if v.len() != w.len() { return self.p.err("const operand"); }
        Ok(v.into_iter().zip(w).map(|(x, w)| self.k(w as u32, x)).collect())
    }
    fn tv(&mut self) -> R<(Ty, Vec<O>)> { let t = self.p.ty()?; let v = self.val(&t)?; Ok((t, v)) }
    fn label(&mut self) -> R<&'static [u8]> {
        if !self.p.kw(b"label") { return self.p.err("label"); }
        self.p.ws();
        self.p.i += 1;
        Ok(self.p.name())
    }
    fn edge(&mut self, from: usize, to: &'static [u8]) -> u32 {
        let i = self.edges.len() as u32;
        self.edges.push(Edge { target: 0, moves: vec![], overlap: false });
        self.edge_info.push((from, to));
        i
    }
    fn skip_flags(&mut self) {
        loop {
            let w = self.p.pword();
            if matches!(w, b"nuw" | b"nsw" | b"exact" | b"disjoint" | b"nneg" | b"samesign" | b"inbounds" | b"nusw" | b"fast" | b"nnan" | b"ninf" | b"nsz" | b"arcp" | b"contract" | b"afn" | b"reassoc" | b"volatile" | b"atomic" | b"weak") {
                self.p.i += w.len();
            } else if w == b"inrange" { self.p.i += w.len(); self.p.ws(); self.p.skip_parens(); } else { return; }
        }
    }
    fn eol(&mut self) { while self.p.i < self.p.end && self.p.s[self.p.i] != b'\n' { self.p.i += 1; } }

    fn run(mut self, f: &FnDecl, idx: u32) -> R<Func> {
        // header
        let at = self.p.s[self.p.i..self.p.end].iter().position(|c| *c == b'@').unwrap();
        self.p.i += at + 1;
        self.p.name();
        self.p.need(b'(')?;
        let mut np = 0;
        let mut unnamed = 0usize;
        while !self.p.eat(b')') {
            if self.p.pk() == b'.' { return self.p.err("varargs definition"); }
            let t = self.p.ty()?;
            self.p.skip_attrs();
            let k = t.nslots();
            if self.p.pk() == b'%' { self.p.i += 1; let n = self.p.name(); if n.iter().all(|c| c.is_ascii_digit()) { unnamed += 1; } self.slot(n, k); }
            else { let nm: &'static [u8] = Box::leak(unnamed.to_string().into_bytes().into_boxed_slice()); unnamed += 1; self.slot(nm, k); }
            np += k;
            self.p.eat(b',');
        }
        // to the opening brace at end of line
        self.eol();
        while self.p.s[self.p.i - 1] != b'{' { self.p.i += 1; self.eol(); }
        // blocks
        let entry_name: &'static [u8] = Box::leak(unnamed.to_string().into_bytes().into_boxed_slice());
        let mut cur = usize::MAX;
        loop {
            // next line
            while self.p.i < self.p.end && (self.p.s[self.p.i] == b'\n' || self.p.s[self.p.i] == b' ') { self.p.i += 1; }
            if self.p.i >= self.p.end || self.p.s[self.p.i] == b'}' { break; }
            let c = self.p.s[self.p.i];
            if c == b';' { self.eol(); continue; }
            // label?
            let save = self.p.i;
            if c != b'%' {
                let n = self.p.name();
                if self.p.i < self.p.end && self.p.s[self.p.i] == b':' {
                    cur = self.bstart.len();
                    self.blocks.insert(n, cur);
                    self.bstart.push(self.code.len() as u32);
                    self.phis.push(vec![]);
                    self.eol();
                    continue;
                }
                self.p.i = save;
            }
            if cur == usize::MAX {
                cur = 0;
                self.blocks.insert(entry_name, 0);
                self.bstart.push(0);
                self.phis.push(vec![]);
            }
            self.inst(cur)?;
            // optional-token lookahead may have run past the end of the line
            while self.p.i > save && matches!(self.p.s[self.p.i - 1], b' ' | b'\n' | b'\t') { self.p.i -= 1; }
            // rest of the line (metadata, align, ...)
            self.eol();
        }
        // edges
        let mut maxm = 0;
        for ei in 0..self.edges.len() {
            let (from, to) = self.edge_info[ei];
            let tb = *self.blocks.get(to).ok_or_else(|| format!("no block {} in {}", String::from_utf8_lossy(to), f.name))?;
            let mut moves = vec![];
            for (d, n, ins) in &self.phis[tb] {
                let ops = ins.iter().find(|(l, _)| {
                    self.blocks.get(l).copied().unwrap_or(0) == from
                }).ok_or_else(|| format!("phi without edge in {}", f.name))?;
                for k in 0..*n { moves.push((d + k, ops.1[k as usize])); }
            }
            moves.retain(|(d, o)| d != o);
            let overlap = (0..moves.len()).any(|i| moves[i + 1..].iter().any(|(_, o)| *o == moves[i].0));
            maxm = maxm.max(moves.len());
            self.edges[ei] = Edge { target: self.bstart[tb], moves, overlap };
        }
        Ok(Func { name: f.name.clone(), idx, nparams: np, nslots: self.nslots, consts: self.consts, cwide: self.cwide, code: self.code, edges: self.edges, switches: self.switches, calls: self.calls, pool: self.pool, frame_size: ((self.frame + 15) / 16 * 16) as u32, maxmoves: maxm })
    }

    fn defs(&mut self, name: Option<&'static [u8]>, t: &Ty) -> u32 {
        let n = t.nslots();
        match name { Some(nm) => self.slot(nm, n), None => self.tmp(n) }
    }

    fn inst(&mut self, cur: usize) -> R<()> {
        let mut name = None;
        if self.p.s[self.p.i] == b'%' {
            self.p.i += 1;
            name = Some(self.p.name());
            self.p.need(b'=')?;
        }
        let mut op = self.p.word();
        if matches!(op, b"tail" | b"musttail" | b"notail") { op = self.p.word(); }
        match op {
            b"add" | b"sub" | b"mul" | b"udiv" | b"sdiv" | b"urem" | b"srem" | b"and" | b"or" | b"xor" | b"shl" | b"lshr" | b"ashr" => {
                self.skip_flags();
                let (t, a) = self.tv()?;
                self.p.need(b',')?;
                let b = self.val(&t)?;
                let d = self.defs(name, &t);
                let w = t.widths();
                let o = match op { b"add" => Op::Add, b"sub" => Op::Sub, b"mul" => Op::Mul, b"udiv" => Op::UDiv, b"sdiv" => Op::SDiv, b"urem" => Op::URem, b"srem" => Op::SRem,
                    b"and" => Op::And, b"or" => Op::Or, b"xor" => Op::Xor, b"shl" => Op::Shl, b"lshr" => Op::LShr, _ => Op::AShr };
                for i in 0..a.len() { self.code.push(I::Bin { op: o, w: w[i], d: d + i as u32, a: a[i], b: b[i] }); }
            }
            b"fadd" | b"fsub" | b"fmul" | b"fdiv" | b"frem" => {
                self.skip_flags();
                let (t, a) = self.tv()?;
                self.p.need(b',')?;
                let b = self.val(&t)?;
                let d = self.defs(name, &t);
                let w = t.widths();
                for i in 0..a.len() {
                    let d = d + i as u32;
                    self.code.push(match op {
                        b"frem" => I::FRem { w: w[i], d, a: a[i], b: b[i] },
                        _ => I::FBin { op: match op { b"fadd" => Op::FAdd, b"fsub" => Op::FSub, b"fmul" => Op::FMul, _ => Op::FDiv }, w: w[i], d, a: a[i], b: b[i] },
                    });
                }
            }
            b"fneg" => {
                self.skip_flags();
                let (t, a) = self.tv()?;
                let d = self.defs(name, &t);
                let w = t.widths();
                for i in 0..a.len() { self.code.push(I::FNeg { w: w[i], d: d + i as u32, a: a[i] }); }
            }
            b"icmp" => {
                self.skip_flags();
                let pr = self.p.word();
                let p = match pr { b"eq" => Pred::Eq, b"ne" => Pred::Ne, b"ult" => Pred::Ult, b"ule" => Pred::Ule, b"ugt" => Pred::Ugt, b"uge" => Pred::Uge,
                    b"slt" => Pred::Slt, b"sle" => Pred::Sle, b"sgt" => Pred::Sgt, b"sge" => Pred::Sge, _ => return self.p.err("icmp pred") };
                let (t, a) = self.tv()?;
                self.p.need(b',')?;
                let b = self.val(&t)?;
                let w = t.widths();
                let n = a.len() as u32;
                let d = match name { Some(nm) => self.slot(nm, n), None => self.tmp(n) };
                for i in 0..a.len() { self.code.push(I::Icmp { p, w: w[i], d: d + i as u32, a: a[i], b: b[i] }); }
            }
            b"fcmp" => {
                self.skip_flags();
                let pr = self.p.word();
                let p = match pr { b"false" => FPred::False, b"oeq" => FPred::Oeq, b"ogt" => FPred::Ogt, b"oge" => FPred::Oge, b"olt" => FPred::Olt, b"ole" => FPred::Ole, b"one" => FPred::One, b"ord" => FPred::Ord,
                    b"ueq" => FPred::Ueq, b"ugt" => FPred::Ugt, b"uge" => FPred::Uge, b"ult" => FPred::Ult, b"ule" => FPred::Ule, b"une" => FPred::Une, b"uno" => FPred::Uno, _ => FPred::True };
                let (t, a) = self.tv()?;
                self.p.need(b',')?;
                let b = self.val(&t)?;
                let w = t.widths();
                let n = a.len() as u32;
                let d = match name { Some(nm) => self.slot(nm, n), None => self.tmp(n) };
                for i in 0..a.len() { self.code.push(I::FCmp { p, w: w[i], d: d + i as u32, a: a[i], b: b[i] }); }
            }
            b"trunc" | b"zext" | b"sext" | b"ptrtoint" | b"inttoptr" | b"bitcast" | b"fptosi" | b"fptoui" | b"sitofp" | b"uitofp" | b"fpext" | b"fptrunc" | b"addrspacecast" | b"ptrtoaddr" => {
                self.skip_flags();
                let (ft, a) = self.tv()?;
                if !self.p.kw(b"to") { return self.p.err("cast to"); }
                let tt = self.p.ty()?;
                let d = self.defs(name, &tt);
                let fw = ft.widths();
                let tw = tt.widths();
                if op == b"bitcast" && fw.len() != tw.len() {
                    let ftot: u32 = fw.iter().map(|x| *x as u32).sum();
                    if fw.len() > 1 && tw.len() == 1 {
                        let start = self.pool.len() as u32;
                        self.pool.extend(&a);
                        self.code.push(I::Pack { d, ew: fw[0], n: fw.len() as u32, start });
                    } else if fw.len() == 1 {
                        self.code.push(I::Unpack { d, ew: tw[0], n: tw.len() as u32, a: a[0] });
                    } else {
                        if ftot > 128 { return self.p.err("wide vector bitcast"); }
                        let start = self.pool.len() as u32;
                        self.pool.extend(&a);
                        let t = self.tmp(1);
                        self.code.push(I::Pack { d: t, ew: fw[0], n: fw.len() as u32, start });
                        self.code.push(I::Unpack { d, ew: tw[0], n: tw.len() as u32, a: t });
                    }
                    return Ok(());
                }
                for i in 0..a.len() {
                    let (f, t, d) = (fw[i], tw[i], d + i as u32);
                    let k = match op {
                        b"trunc" => CastK::Trunc,
                        b"zext" => CastK::ZExt,
                        b"sext" => CastK::SExt,
                        b"fptosi" => CastK::FToS,
                        b"fptoui" => CastK::FToU,
                        b"sitofp" => CastK::SToF,
                        b"uitofp" => CastK::UToF,
                        b"fpext" | b"fptrunc" => CastK::FToF,
                        _ => { if f > t { CastK::Trunc } else if f < t { CastK::ZExt } else { self.code.push(I::Mov { d, a: a[i] }); continue; } }
                    };
                    self.code.push(I::Cast { k, fw: f, tw: t, d, a: a[i] });
                }
            }
            b"freeze" => {
                let (t, a) = self.tv()?;
                let d = self.defs(name, &t);
                for i in 0..a.len() { self.code.push(I::Mov { d: d + i as u32, a: a[i] }); }
            }
            b"select" => {
                self.skip_flags();
                let (_ct, c) = self.tv()?;
                self.p.need(b',')?;
                let (t, a) = self.tv()?;
                self.p.need(b',')?;
                let (_, b) = self.tv()?;
                let d = self.defs(name, &t);
                let w = t.widths();
                for i in 0..a.len() { self.code.push(I::Sel { w: w[i], d: d + i as u32, c: if c.len() > 1 { c[i] } else { c[0] }, a: a[i], b: b[i] }); }
            }
            b"phi" => {
                self.skip_flags();
                let t = self.p.ty()?;
                let n = t.nslots();
                let d = self.defs(name, &t);
                let mut ins = vec![];
                loop {
                    self.p.need(b'[')?;
                    let v = self.val(&t)?;
                    self.p.need(b',')?;
                    self.p.ws();
                    self.p.i += 1;
                    let l = self.p.name();
                    self.p.need(b']')?;
                    ins.push((l, v));
                    self.p.sp();
                    if self.p.s[self.p.i] == b',' {
                        let save = self.p.i;
                        self.p.i += 1;
                        if self.p.pk() != b'[' { self.p.i = save; break; }
                    } else { break; }
                }
                self.phis[cur].push((d, n, ins));
            }
            b"alloca" => {
                self.p.kw(b"inalloca");
                let t = self.p.ty()?;
                let mut n: Option<O> = None;
                let mut align = t.align();
                while self.p.eat(b',') {
                    if self.p.kw(b"align") { align = self.p.uint()?; }
                    else if self.p.pk() == b'!' { break; }
                    else { let (_, v) = self.tv()?; n = Some(v[0]); }
                }
                let d = self.defs(name, &Ty::Ptr);
                let sz = t.size();
                match n {
                    Some(o) if o & CBIT == 0 => self.code.push(I::AllocaDyn { d, n: o, elem: sz as u32 }),
                    _ => {
                        let k = match n { Some(o) => self.consts[(o & !CBIT) as usize].c, None => 1 };
                        let al = align.max(1);
                        self.frame = (self.frame + al - 1) / al * al;
                        self.code.push(I::Alloca { d, off: self.frame as u32 });
                        // padding between allocas catches small overruns
                        self.frame += sz * k + 16;
                    }
                }
            }
            b"load" => {
                let mut atomic = false;
                while let w @ (b"volatile" | b"atomic") = self.p.pword() { self.p.i += w.len(); atomic = true; }
                let _ = atomic;
                let t = self.p.ty()?;
                self.p.need(b',')?;
                let (_, pv) = self.tv()?;
                let d = self.defs(name, &t);
                let mut fl = vec![];
                t.flat(0, &mut fl);
                if let Ty::Vec(n, et) = &t {
                    if et.bits() % 8 != 0 {
                        // packed bit vector
                        let tot = n * et.bits();
                        let tmp = self.tmp(1);
                        self.code.push(I::Load { d: tmp, w: tot as u8, nb: ((tot + 7) / 8) as u8, a: pv[0], off: 0 });
                        self.code.push(I::Unpack { d, ew: et.bits() as u8, n: *n, a: tmp });
                        return Ok(());
                    }
                }
                for (i, (w, o)) in fl.iter().enumerate() {
                    if *w > 128 { return self.p.err("load width"); }
                    self.code.push(I::Load { d: d + i as u32, w: *w as u8, nb: ((*w + 7) / 8) as u8, a: pv[0], off: *o as i32 });
                }
            }
            b"store" => {
                while let w @ (b"volatile" | b"atomic") = self.p.pword() { self.p.i += w.len(); }
                let (t, v) = self.tv()?;
                self.p.need(b',')?;
                let (_, pv) = self.tv()?;
                let mut fl = vec![];
                t.flat(0, &mut fl);
                if let Ty::Vec(n, et) = &t {
                    if et.bits() % 8 != 0 {
                        let tot = n * et.bits();
                        let tmp = self.tmp(1);
                        let start = self.pool.len() as u32;
                        self.pool.extend(&v);
                        self.code.push(I::Pack { d: tmp, ew: et.bits() as u8, n: *n, start });
                        self.code.push(I::Store { v: tmp, w: tot as u8, nb: ((tot + 7) / 8) as u8, a: pv[0], off: 0 });
                        return Ok(());
                    }
                }
                for (i, (w, o)) in fl.iter().enumerate() {
                    if *w > 128 { return self.p.err("store width"); }
                    self.code.push(I::Store { v: v[i], w: *w as u8, nb: ((*w + 7) / 8) as u8, a: pv[0], off: *o as i32 });
                }
            }
            b"getelementptr" => {
                self.skip_flags();
                let et = self.p.ty()?;
                self.p.need(b',')?;
                let (pt, base) = self.tv()?;
                let mut off = 0i64;
                let mut dynm: Vec<(Vec<O>, u8, i64)> = vec![];
                let mut curt = et;
                let mut first = true;
                let mut lanes = if matches!(pt, Ty::Vec(..)) { base.len() } else { 1 };
                loop {
                    self.p.sp();
                    if self.p.s[self.p.i] != b',' { break; }
                    let save = self.p.i;
                    self.p.i += 1;
                    if self.p.pk() == b'!' { self.p.i = save; break; }
                    let (it, iv) = self.tv()?;
                    let iw = match &it { Ty::Vec(_, e) => { lanes = lanes.max(iv.len()); e.bits() } t => t.bits() };
                    let sz = if first { curt.size() as i64 } else { match &curt { Ty::Arr(_, t) | Ty::Vec(_, t) => t.size() as i64, _ => 0 } };
                    if iv.len() == 1 && iv[0] & CBIT != 0 {
                        let k = crate::expr::sx(self.consts[(iv[0] & !CBIT) as usize].c as u128, iw as u8) as i64;
                        if first { off += k * sz; } else { let (o, nt) = step(&curt, k)?; off += o; curt = nt; first = false; continue; }
                    } else {
                        dynm.push((iv, iw as u8, sz));
                        if !first { curt = match &curt { Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(), _ => return self.p.err("dyn struct gep") }; }
                    }
                    first = false;
                }
                let d = match name { Some(nm) => self.slot(nm, lanes as u32), None => self.tmp(lanes as u32) };
                for l in 0..lanes {
                    let mut b = if base.len() > 1 { base[l] } else { base[0] };
                    let d = d + l as u32;
                    for (iv, iw, sz) in &dynm {
                        let i = if iv.len() > 1 { iv[l] } else { iv[0] };
                        self.code.push(I::GepI { d, a: b, i, iw: *iw, scale: *sz });
                        b = d;
                    }
                    if off != 0 || dynm.is_empty() { self.code.push(I::Gep { d, a: b, off }); }
                }
            }
            b"extractvalue" => {
                let (t, a) = self.tv()?;
                let (mut lo, mut ct) = (0u32, t);
                while self.p.eat(b',') {
                    if self.p.pk() == b'!' { break; }
                    let k = self.p.uint()? as usize;
                    ct = match &ct {
                        Ty::Struct(f, _) => { lo += f[..k].iter().map(|x| x.nslots()).sum::<u32>(); f[k].clone() }
                        Ty::Arr(_, e) => { lo += k as u32 * e.nslots(); (**e).clone() }
                        _ => return self.p.err("extractvalue"),
                    };
                }
                let n = ct.nslots();
                let nm = name.unwrap();
                if !self.slots.contains_key(nm) && a.get(lo as usize).map_or(false, |x| x & CBIT == 0) {
                    self.slots.insert(nm, (a[lo as usize], n));
                } else {
                    let d = self.slot(nm, n);
                    for i in 0..n { self.code.push(I::Mov { d: d + i, a: a[(lo + i) as usize] }); }
                }
            }
            b"insertvalue" => {
                let (t, a) = self.tv()?;
                self.p.need(b',')?;
                let (_, v) = self.tv()?;
                let (mut lo, mut ct) = (0u32, t.clone());
                while self.p.eat(b',') {
                    if self.p.pk() == b'!' { break; }
                    let k = self.p.uint()? as usize;
                    ct = match &ct {
                        Ty::Struct(f, _) => { lo += f[..k].iter().map(|x| x.nslots()).sum::<u32>(); f[k].clone() }
                        Ty::Arr(_, e) => { lo += k as u32 * e.nslots(); (**e).clone() }
                        _ => return self.p.err("insertvalue"),
                    };
                }
                let d = self.defs(name, &t);
                for i in 0..a.len() as u32 {
                    let s = if i >= lo && i < lo + v.len() as u32 { v[(i - lo) as usize] } else { a[i as usize] };
                    self.code.push(I::Mov { d: d + i, a: s });
                }
            }
            b"extractelement" => {
                let (t, a) = self.tv()?;
                self.p.need(b',')?;
                let (_, i) = self.tv()?;
                let et = match &t { Ty::Vec(_, e) => (**e).clone(), _ => return self.p.err("extractelement") };
                let d = self.defs(name, &et);
                if i[0] & CBIT != 0 { let k = self.consts[(i[0] & !CBIT) as usize].c as usize; self.code.push(I::Mov { d, a: a[k] }); }
                else { let start = self.pool.len() as u32; self.pool.extend(&a); self.code.push(I::ExtDyn { d, start, n: a.len() as u32, i: i[0] }); }
            }
            b"insertelement" => {
                let (t, a) = self.tv()?;
                self.p.need(b',')?;
                let (_, v) = self.tv()?;
                self.p.need(b',')?;
                let (_, i) = self.tv()?;
                let d = self.defs(name, &t);
                if i[0] & CBIT != 0 {
                    let k = self.consts[(i[0] & !CBIT) as usize].c as usize;
                    for j in 0..a.len() { self.code.push(I::Mov { d: d + j as u32, a: if j == k { v[0] } else { a[j] } }); }
                } else {
                    let start = self.pool.len() as u32;
                    self.pool.extend(&a);
                    self.code.push(I::InsDyn { d, start, n: a.len() as u32, i: i[0], v: v[0] });
                }
            }
            b"shufflevector" => {
                let (t, a) = self.tv()?;
                self.p.need(b',')?;
                let (_, b) = self.tv()?;
                self.p.need(b',')?;
                let mt = self.p.ty()?;
                let mk = self.p.consts(&mt)?;
                let et = match &t { Ty::Vec(_, e) => (**e).clone(), _ => return self.p.err("shuffle") };
                let d = self.defs(name, &Ty::Vec(mk.len() as u32, Arc::new(et)));
                let all: Vec<O> = a.iter().chain(b.iter()).copied().collect();
                for (j, k) in mk.iter().enumerate() { self.code.push(I::Mov { d: d + j as u32, a: all[(*k as usize) % all.len()] }); }
            }
            b"br" => {
                if self.p.pword() == b"label" {
                    let l = self.label()?;
                    let e = self.edge(cur, l);
                    self.code.push(I::Br { e });
                } else {
                    let (_, c) = self.tv()?;
                    self.p.need(b',')?;
                    let t = self.label()?;
                    self.p.need(b',')?;
                    let f = self.label()?;
                    let t = self.edge(cur, t);
                    let f = self.edge(cur, f);
                    self.code.push(I::CBr { c: c[0], t, f });
                }
            }
            b"switch" => {
                let (t, v) = self.tv()?;
                self.p.need(b',')?;
                let dl = self.label()?;
                let default = self.edge(cur, dl);
                self.p.need(b'[')?;
                let mut cases = vec![];
                let mut seen: HashMap<&'static [u8], u32> = HashMap::new();
                while !self.p.eat(b']') {
                    let ct = self.p.ty()?;
                    let k = self.p.consts(&ct)?[0];
                    self.p.need(b',')?;
                    let l = self.label()?;
                    let e = match seen.get(l) { Some(e) => *e, None => { let e = self.edge(cur, l); seen.insert(l, e); e } };
                    cases.push((k, e));
                }
                let mut small = None;
                if !cases.is_empty() && cases.iter().all(|c| c.0 <= u64::MAX as u128) {
                    let lo = cases.iter().map(|c| c.0).min().unwrap() as u64;
                    let hi = cases.iter().map(|c| c.0).max().unwrap() as u64;
                    if hi - lo < 1024 {
                        let mut tb = vec![default; (hi - lo + 1) as usize];
                        for (k, e) in &cases { tb[(*k as u64 - lo) as usize] = *e; }
                        small = Some((lo, tb));
                    }
                }
                let ti = self.switches.len() as u32;
                self.switches.push(SwitchT { cases, default, small });
                self.code.push(I::Switch { v: v[0], w: t.bits() as u8, t: ti });
            }
            b"ret" => {
                let t = self.p.ty()?;
                let start = self.pool.len() as u32;
                let mut n = 0;
                if t != Ty::Void { let v = self.val(&t)?; n = v.len() as u32; self.pool.extend(v); }
                self.code.push(I::Ret { start, n });
            }
            b"unreachable" => self.code.push(I::Unreach),
            b"resume" => self.code.push(I::Unreach),
            b"landingpad" => {
                let t = self.p.ty()?;
                let d = self.defs(name, &t);
                let z = self.k(64, 0);
                for i in 0..t.nslots() { self.code.push(I::Mov { d: d + i, a: z }); }
                // clauses may be on following lines: "cleanup", "catch ...", "filter ..."
                loop {
                    let save = self.p.i;
                    let w = self.p.pword();
                    if matches!(w, b"cleanup" | b"catch" | b"filter") { self.eol(); } else { self.p.i = save; break; }
                }
                // step back to the end of the previous line
                while self.p.s[self.p.i] != b'\n' { self.p.i -= 1; }
            }
            b"fence" => {}
            b"atomicrmw" => {
                self.p.kw(b"volatile");
                let o = self.p.word();
                let (_, pv) = self.tv()?;
                self.p.need(b',')?;
                let (t, v) = self.tv()?;
                let d = self.defs(name, &t);
                let code = match o { b"xchg" => 0, b"add" => 1, b"sub" => 2, b"and" => 3, b"or" => 4, b"xor" => 5, b"max" => 6, b"min" => 7, b"umax" => 8, b"umin" => 9, b"nand" => 10, _ => return self.p.err("rmw") };
                self.code.push(I::Rmw { op: code, w: t.bits() as u8, d, a: pv[0], v: v[0] });
            }
            b"cmpxchg" => {
                self.skip_flags();
                let (_, pv) = self.tv()?;
                self.p.need(b',')?;
                let (t, c) = self.tv()?;
                self.p.need(b',')?;
                let (_, n) = self.tv()?;
                let d = match name { Some(nm) => self.slot(nm, 2), None => self.tmp(2) };
                self.code.push(I::CmpX { w: t.bits() as u8, d, a: pv[0], c: c[0], n: n[0] });
            }
            b"call" | b"invoke" => self.call(cur, name, op == b"invoke")?,
            b"store.placeholder" => {}
            b"va_arg" => return self.p.err("va_arg"),
            _ => return self.p.err(&format!("instruction {}", String::from_utf8_lossy(op))),
        }
        Ok(())
    }

    fn call(&mut self, cur: usize, name: Option<&'static [u8]>, invoke: bool) -> R<()> {
        self.skip_flags();
        // calling convention and attributes
        loop {
            self.p.skip_attrs();
            if self.p.is_type_start() { break; }
            let w = self.p.word();
            if w.is_empty() { return self.p.err("call prefix"); }
            if w == b"cc" { self.p.uint()?; }
            self.p.sp();
            if self.p.s[self.p.i] == b'(' { self.p.skip_parens(); }
        }
        let rt = self.p.ty()?;
        if self.p.pk() == b'(' { self.p.skip_parens(); } // function type with varargs
        let d = self.defs(name, &rt);
        let nret = rt.nslots();
        let rw = rt.widths();
        // callee
        let c = self.p.pk();
        let mut asm = None;
        let mut cname: &'static [u8] = b"";
        let mut dynop = None;
        if c == b'@' { self.p.i += 1; cname = self.p.name(); }
        else if c == b'%' { let v = self.val(&Ty::Ptr)?; dynop = Some(v[0]); }
        else if self.p.pword() == b"asm" {
            self.p.i += 3;
            loop { self.p.ws(); if self.p.s[self.p.i] == b'"' { break; } self.p.word(); }
            asm = Some(self.p.name());
            self.p.eat(b',');
            self.p.ws();
            self.p.name();
        } else { let v = self.val(&Ty::Ptr)?; dynop = Some(v[0]); }
        self.p.need(b'(')?;
        let mut args = vec![];
        let mut aw = vec![];
        let mut argts = vec![];
        while !self.p.eat(b')') {
            let t = self.p.ty()?;
            self.p.skip_attrs();
            let v = self.val(&t)?;
            aw.extend(t.widths());
            args.extend(v.iter().copied());
            argts.push((t, v));
            self.p.eat(b',');
        }
        if let Some(a) = asm {
            // inline assembly: outputs are zero (cpuid, barriers)
            let _ = a;
            let z = self.k(64, 0);
            for i in 0..nret { self.code.push(I::Mov { d: d + i, a: z }); }
        } else if cname.starts_with(b"llvm.") {
            self.intrinsic(cname, d, &rt, &argts)?;
        } else {
            let callee = if let Some(o) = dynop { Callee::Dyn(o) } else {
                let n = std::str::from_utf8(cname).unwrap();
                let fi = match self.p.m.fmap.get(n) {
                    Some(i) => *i,
                    None => {
                        let r = self.p.m.aliases.get(n).copied().ok_or_else(|| format!("unknown callee {n}"))?;
                        let mut p = P::new(self.p.m, r);
                        let t = p.ty()?;
                        let v = p.consts(&t)?[0] as u64;
                        ((v & 0xffff_ffff) - OBJ_OFF) as usize / 16
                    }
                };
                let fd = &self.p.m.funcs[fi];
                if fd.defined && crate::intrin::intercept(&fd.name).is_none() { Callee::Fn(fi as u32) } else { Callee::Ext(fi as u32) }
            };
            let ci = self.calls.len() as u32;
            self.calls.push(CallI { callee, args, aw, d, nret, rw });
            self.code.push(I::Call { ci });
        }
        if invoke {
            // attributes then "to label"
            loop {
                self.p.skip_attrs();
                if self.p.kw(b"to") { break; }
                if self.p.eat(b'[') { while self.p.s[self.p.i] != b']' { self.p.i += 1; } self.p.i += 1; continue; }
                let w = self.p.word();
                if w.is_empty() { return self.p.err("invoke to"); }
            }
            let l = self.label()?;
            let e = self.edge(cur, l);
            self.code.push(I::Br { e });
            // "unwind label %x" may be on the same or next line
            if self.p.pword() == b"unwind" { self.p.word(); let _ = self.label()?; }
        }
        Ok(())
    }

    fn intrinsic(&mut self, n: &'static [u8], d: u32, rt: &Ty, args: &[(Ty, Vec<O>)]) -> R<()> {
        let s = std::str::from_utf8(n).unwrap();
        let base = &s[5..];
        let is = |p: &str| base == p || (base.starts_with(p) && base.as_bytes().get(p.len()) == Some(&b'.'));
        let zero = self.k(64, 0);
        for p in ["lifetime.start", "lifetime.end", "assume", "experimental.noalias.scope.decl", "dbg.value", "dbg.declare", "donothing", "prefetch", "var.annotation", "invariant.start", "invariant.end", "x86.sse2.pause", "pseudoprobe", "fake.use"] {
            if is(p) { for i in 0..rt.nslots() { self.code.push(I::Mov { d: d + i, a: zero }); } return Ok(()); }
        }
        if is("expect") || is("launder.invariant.group") || is("strip.invariant.group") || is("threadlocal.address") || is("ptr.annotation") || is("ssa.copy") || is("arithmetic.fence") {
            self.code.push(I::Mov { d, a: args[0].1[0] });
            return Ok(());
        }
        if is("ptrmask") {
            self.code.push(I::Bin { op: Op::And, w: 64, d, a: args[0].1[0], b: args[1].1[0] });
            return Ok(());
        }
        if is("is.constant") || is("x86.xgetbv") || is("type.test") { self.code.push(I::Mov { d, a: zero }); return Ok(()); }
        if is("vscale") { let one = self.k(64, 1); self.code.push(I::Mov { d, a: one }); return Ok(()); }
        if is("trap") || is("ubsantrap") || is("debugtrap") { self.code.push(I::Unreach); return Ok(()); }
        if is("stacksave") { self.code.push(I::Mov { d, a: zero }); return Ok(()); }
        if is("stackrestore") { return Ok(()); }
        if is("x86.sse2.pmovmskb.128") {
            // sign bits of 16 bytes → i32
            let start = self.pool.len() as u32;
            let mut bits = vec![];
            for o in &args[0].1 {
                let t = self.tmp(2);
                let seven = self.k(8, 7);
                self.code.push(I::Bin { op: Op::LShr, w: 8, d: t, a: *o, b: seven });
                self.code.push(I::Cast { k: CastK::Trunc, fw: 8, tw: 1, d: t + 1, a: t });
                bits.push(t + 1);
            }
            self.pool.extend(&bits);
            let t = self.tmp(1);
            self.code.push(I::Pack { d: t, ew: 1, n: 16, start });
            self.code.push(I::Cast { k: CastK::ZExt, fw: 16, tw: 32, d, a: t });
            return Ok(());
        }
        for (p, op) in [("vector.reduce.or", Op::Or), ("vector.reduce.and", Op::And), ("vector.reduce.add", Op::Add), ("vector.reduce.xor", Op::Xor)] {
            if is(p) {
                let v = &args[0].1;
                let w = rt.bits() as u8;
                let mut acc = v[0];
                for (i, o) in v.iter().enumerate().skip(1) {
                    let t = if i + 1 == v.len() { d } else { self.tmp(1) };
                    self.code.push(I::Bin { op, w, d: t, a: acc, b: *o });
                    acc = t;
                }
                if v.len() == 1 { self.code.push(I::Mov { d, a: v[0] }); }
                return Ok(());
            }
        }
        for (p, k) in [("vector.reduce.umax", Intr::UMax), ("vector.reduce.umin", Intr::UMin), ("vector.reduce.smax", Intr::SMax), ("vector.reduce.smin", Intr::SMin)] {
            if is(p) {
                let v = args[0].1.clone();
                let w = rt.bits() as u8;
                let mut acc = v[0];
                for (i, o) in v.iter().enumerate().skip(1) {
                    let t = if i + 1 == v.len() { d } else { self.tmp(1) };
                    self.code.push(I::In { k, w, d: t, a: acc, b: *o, c: zero });
                    acc = t;
                }
                return Ok(());
            }
        }
        let tbl: &[(&str, Intr)] = &[
            ("ctlz", Intr::Ctlz), ("cttz", Intr::Cttz), ("ctpop", Intr::Ctpop), ("bswap", Intr::Bswap), ("bitreverse", Intr::Bitrev),
            ("umin", Intr::UMin), ("umax", Intr::UMax), ("smin", Intr::SMin), ("smax", Intr::SMax), ("ucmp", Intr::UCmp), ("scmp", Intr::SCmp), ("abs", Intr::Abs),
            ("fshl", Intr::Fshl), ("fshr", Intr::Fshr), ("uadd.sat", Intr::UAddSat), ("usub.sat", Intr::USubSat), ("sadd.sat", Intr::SAddSat), ("ssub.sat", Intr::SSubSat),
            ("fabs", Intr::FAbs), ("copysign", Intr::FCopysign), ("trunc", Intr::FTrunc), ("floor", Intr::FFloor), ("ceil", Intr::FCeil), ("round", Intr::FRound), ("rint", Intr::FRint), ("nearbyint", Intr::FRint), ("roundeven", Intr::FRint),
            ("pow", Intr::FPow), ("powi", Intr::FPowi), ("sqrt", Intr::FSqrt), ("minnum", Intr::FMin), ("maxnum", Intr::FMax), ("minimumnum", Intr::FMin), ("maximumnum", Intr::FMax), ("fma", Intr::FFma), ("fmuladd", Intr::FFma),
            ("sin", Intr::FSin), ("cos", Intr::FCos), ("exp", Intr::FExp), ("log", Intr::FLog), ("log10", Intr::FLog10), ("log2", Intr::FLog2), ("exp2", Intr::FExp2),
            ("is.fpclass", Intr::IsFpClass),
        ];
        for (p, k) in [("uadd.with.overflow", Intr::UAddO), ("usub.with.overflow", Intr::USubO), ("umul.with.overflow", Intr::UMulO), ("sadd.with.overflow", Intr::SAddO), ("ssub.with.overflow", Intr::SSubO), ("smul.with.overflow", Intr::SMulO)] {
            if is(p) {
                let w = rt.widths();
                let h = w.len() / 2;
                for i in 0..h {
                    if h != 1 { return self.p.err("vector overflow op"); }
                    self.code.push(I::In { k, w: w[i], d: d + i as u32, a: args[0].1[i], b: args[1].1[i], c: zero });
                }
                return Ok(());
            }
        }
        for (p, k) in [("fptosi.sat", CastK::FToSSat), ("fptoui.sat", CastK::FToUSat)] {
            if is(p) {
                let w = rt.widths();
                let fw = args[0].0.widths();
                for i in 0..w.len() { self.code.push(I::Cast { k, fw: fw[i], tw: w[i], d: d + i as u32, a: args[0].1[i] }); }
                return Ok(());
            }
        }
        for (p, k) in tbl {
            if is(p) {
                let w = if *k == Intr::UCmp || *k == Intr::SCmp || *k == Intr::IsFpClass { args[0].0.widths() } else { rt.widths() };
                let ow = rt.widths();
                for i in 0..w.len() {
                    let g = |j: usize, s: &Self| -> O { let _ = s; args.get(j).map_or(zero, |a| if a.1.len() > i { a.1[i] } else { a.1[0] }) };
                    let (a, b, mut c) = (g(0, self), g(1, self), g(2, self));
                    if *k == Intr::UCmp || *k == Intr::SCmp { c = self.k(64, ow[i] as u128); }
                    self.code.push(I::In { k: *k, w: w[i], d: d + i as u32, a, b, c });
                }
                return Ok(());
            }
        }
        // memory intrinsics and anything else: external call by name
        let fi = *self.p.m.fmap.get(s).ok_or_else(|| format!("undeclared {s}"))?;
        let mut a = vec![];
        let mut aw = vec![];
        for (t, v) in args { a.extend(v.iter().copied()); aw.extend(t.widths()); }
        let ci = self.calls.len() as u32;
        self.calls.push(CallI { callee: Callee::Ext(fi as u32), args: a, aw, d, nret: rt.nslots(), rw: rt.widths() });
        self.code.push(I::Call { ci });
        Ok(())
    }
}

pub fn compile(m: &Module, idx: usize) -> R<Func> {
    let f = &m.funcs[idx];
    let fb = Fb {
        p: P::new(m, f.text), slots: HashMap::new(), nslots: 0, consts: vec![], cmap: HashMap::new(), cwide: vec![], code: vec![], edges: vec![], switches: vec![], calls: vec![], pool: vec![],
        frame: 0, blocks: HashMap::new(), bstart: vec![], phis: vec![], edge_info: vec![],
    };
    fb.run(f, idx as u32).map_err(|e| format!("{}: {e}", f.name))
}
impl Module {
    pub fn func(&self, idx: usize) -> R<&'static Func> {
        if let Some(f) = self.funcs[idx].comp.get() { return Ok(f); }
        let f = compile(self, idx)?;
        Ok(self.funcs[idx].comp.get_or_init(|| Box::leak(Box::new(f))))
    }
}
