//! Models of external functions, of LLVM intrinsics, and of the harness interface.
use crate::exec::*;
use crate::expr::*;
use crate::ir::*;
use crate::parse::{Module, CONST_FLAG, FN_OBJ, OBJ_OFF, STACK_FLAG};
use std::sync::atomic::Ordering::*;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum ExtK {
    Not, Unsup, Panic, Abort, Exit,
    Malloc, Calloc, Realloc, Free, PosixMemalign, AlignedAlloc,
    Memcpy, Memset, Memcmp, Bcmp, Strlen, Memchr, Memrchr, RMemchr,
    Zero, Hash, One, Neg, Getrandom, Syscall, Clock, Write, Writev, Errno, PsmPtr, AttrGetstack, ThreadCreate, KeyCreate, Sysconf, Getcwd,
    FmtStub, Sha1,
    RAlloc, RAllocZ, RDealloc, RRealloc,
    SymBytes, SymAssume, SymFail, SymReach, SymObs, SymConc, SymParam, SymFlag, SymAnd,
    MathPow, MathExp, MathLog, MathSin, MathCos, MathTan, MathFmod, MathF1,
}

/// the identifiers of a mangled Rust path, in order
pub fn demangle(s: &str) -> String {
    let b = s.as_bytes();
    if !(s.starts_with("_R") || s.starts_with("_ZN")) { return s.to_string(); }
    let mut out: Vec<&str> = vec![];
    let mut i = 2;
    while i < b.len() {
        if b[i] == b's' && s.starts_with("_R") {
            // disambiguator s<base62>_
            if let Some(e) = s[i..].find('_') { if s[i + 1..i + e].bytes().all(|c| c.is_ascii_alphanumeric()) && (i > 0) && e < 16 { i += e + 1; continue; } }
        }
        if b[i] == b'B' && s.starts_with("_R") {
            if let Some(e) = s[i..].find('_') { if e < 6 { i += e + 1; continue; } }
        }
        if b[i].is_ascii_digit() {
            let mut j = i;
            while j < b.len() && b[j].is_ascii_digit() { j += 1; }
            let n: usize = s[i..j].parse().unwrap_or(0);
            if j < b.len() && b[j] == b'_' && s.starts_with("_R") { j += 1; }
            if n == 0 || j + n > b.len() || !s.is_char_boundary(j + n) { i = j.max(i + 1); continue; }
            out.push(&s[j..j + n]);
            i = j + n;
            continue;
        }
        i += 1;
    }
    out.retain(|x| !(x.len() == 17 && x.starts_with('h')));
    out.join("::")
}

/// functions that are modelled although the module defines them
pub fn intercept(name: &str) -> Option<ExtK> {
    if name.starts_with("__sym_") || name.starts_with("rust_psm") { return classify(name); }
    if !name.starts_with('_') { return None; }
    if name == "__rust_alloc_error_handler" || name.ends_with("___rust_alloc_error_handler") { return Some(ExtK::Panic); }
    if name.contains("DefaultHasher") || name.contains("3sip") {
        // hashing is replaced by a constant: maps stay correct (every lookup compares keys), their iteration order becomes fixed
        let d = demangle(name);
        let parts: Vec<&str> = d.split("::").collect();
        let own = d.starts_with("std::hash::random") || d.starts_with("core::hash::sip");
        // all ones: the first entry goes to the last place, so that the order of iteration is not the order of insertion
        if own && parts.iter().any(|p| *p == "finish") { return Some(ExtK::Hash); }
        if own && parts.iter().any(|p| matches!(*p, "finish" | "write" | "write_str" | "write_u8" | "write_usize" | "write_length_prefix" | "short_write" | "c_rounds" | "d_rounds")) { return Some(ExtK::Zero); }
        return None;
    }
    if name.contains("sha18compress8compress") && demangle(name) == "sha1::compress::compress" { return Some(ExtK::Sha1); }
    if !(name.contains("panicking") || name.contains("_failed") || name.contains("handle_") || name.contains("slice_error_fail") || name.contains("begin_unwind") || name.contains("memchr") || name.contains("format_inner")
        || name.contains("slice_index_fail") || name.contains("rust_foreign_exception") || name.contains("_fail")) { return None; }
    let d = demangle(name);
    if d.starts_with("core::panicking::") || d.starts_with("core::option::unwrap_failed") || d.starts_with("core::option::expect_failed") || d.starts_with("core::result::unwrap_failed")
        || d.starts_with("core::str::slice_error_fail") || d.starts_with("alloc::raw_vec::handle_error") || d.starts_with("alloc::alloc::handle_alloc_error")
        || d.starts_with("std::panicking::begin_panic") || d.starts_with("std::panicking::panic_with_hook") || d.starts_with("std::panicking::panic_handler") || d.starts_with("std::panicking::resume_unwind")
        || d.starts_with("core::slice::index::slice_index_fail") || d.starts_with("core::slice::index::slice_start_index") || d.starts_with("core::slice::index::slice_end_index") || d.starts_with("core::cell::panic_already") {
        if d.contains("panic_count") { return None; }
        return Some(ExtK::Panic);
    }
    if d == "core::slice::memchr::memchr_aligned" { return Some(ExtK::RMemchr); }
    if d == "alloc::fmt::format::format_inner" { return Some(ExtK::FmtStub); }
    None
}

fn classify(n: &str) -> Option<ExtK> {
    use ExtK::*;
    for (s, k) in [("12___rust_alloc", RAlloc), ("19___rust_alloc_zeroed", RAllocZ), ("14___rust_dealloc", RDealloc), ("14___rust_realloc", RRealloc), ("12___rust_abort", Abort), ("17rust_begin_unwind", Panic), ("_unstable_v2", Zero)] {
        if n.ends_with(s) && n.contains("7___rustc") { return Some(k); }
    }
    if let Some(r) = n.strip_prefix("llvm.") {
        return Some(if r.starts_with("memcpy") || r.starts_with("memmove") { Memcpy } else if r.starts_with("memset") { Memset } else { Unsup });
    }
    Some(match n {
        "abort" => Abort,
        "exit" | "_exit" => Exit,
        "malloc" => Malloc,
        "calloc" => Calloc,
        "realloc" => Realloc,
        "free" => Free,
        "posix_memalign" => PosixMemalign,
        "aligned_alloc" => AlignedAlloc,
        "memcpy" | "memmove" => Memcpy,
        "memset" => Memset,
        "memcmp" => Memcmp,
        "bcmp" => Bcmp,
        "strlen" => Strlen,
        "memchr" => Memchr,
        "memrchr" => Memrchr,
        "getenv" | "pthread_self" | "pthread_attr_init" | "pthread_attr_destroy" | "pthread_getattr_np" | "_Unwind_Backtrace" | "_Unwind_GetIP" | "_Unwind_GetIPInfo" | "pthread_attr_setstacksize" | "pthread_join"
        | "pthread_detach" | "pthread_key_delete" | "dlsym" | "pthread_setspecific" | "pthread_getspecific" | "sched_yield" | "close" | "munmap" | "mprotect" | "__cxa_thread_atexit_impl" | "sigaction" | "sigaltstack" | "prctl"
        | "pthread_setname_np" | "dl_iterate_phdr" | "nanosleep" | "sched_getaffinity" | "pthread_attr_setguardsize" | "rust_psm_stack_direction" | "__cxa_atexit" | "isatty" => Zero,
        "gettid" | "getpid" => One,
        "open64" | "opendir" | "stat64" | "fstat64" | "statx" | "readlink" | "lstat64" | "mkdir" | "unlink" | "access" => Neg,
        "getrandom" => Getrandom,
        "syscall" => Syscall,
        "clock_gettime" => Clock,
        "write" => Write,
        "writev" => Writev,
        "__errno_location" => Errno,
        "rust_psm_stack_pointer" => PsmPtr,
        "pthread_attr_getstack" => AttrGetstack,
        "pthread_create" => ThreadCreate,
        "pthread_key_create" => KeyCreate,
        "sysconf" => Sysconf,
        "getcwd" => Getcwd,
        "__sym_bytes" => SymBytes,
        "__sym_assume" => SymAssume,
        "__sym_fail" => SymFail,
        "__sym_reach" => SymReach,
        "__sym_obs" => SymObs,
        "__sym_conc" => SymConc,
        "__sym_param" => SymParam,
        "__sym_flag" => SymFlag,
        "pow" | "powf" => MathPow,
        "fmod" | "fmodf" => MathFmod,
        "exp" | "log" | "log10" | "log2" | "sin" | "cos" | "tan" | "asin" | "acos" | "atan" | "sinh" | "cosh" | "tanh" | "exp2" | "cbrt" => MathF1,
        _ => return None,
    })
}
pub fn table(m: &Module) -> Vec<ExtK> {
    m.funcs.iter().map(|f| {
        if f.defined { intercept(&f.name).unwrap_or(ExtK::Not) } else { intercept(&f.name).or_else(|| classify(&f.name)).unwrap_or(ExtK::Unsup) }
    }).collect()
}

const MAX_CONC: u64 = 1 << 28;
const SYM_CAP: usize = 8192;
const HUGE: u64 = 64 << 30;

impl<'a> W<'a> {
    fn alloc_model(&mut self, size: Val) -> SR<u64> {
        if size.e == 0 {
            if size.c > HUGE { return Ok(0); }
            if size.c > MAX_CONC { return Err(Stop::Limit(format!("allocation of {} bytes", size.c))); }
            return Ok(self.st.mem.alloc(Obj::new(size.c as usize)));
        }
        let k = self.ar.konst(64, HUGE as u128);
        let c = self.ar.bin(Op::Ult, k, size.e);
        if self.branch(c)? { return Ok(0); }
        if let Some(v) = self.ar.cval(size.e) { return self.alloc_model(cv(v as u64)); }
        let supp = self.ar.supp[size.e as usize];
        if supp & !self.st.fixed == 0 { let v = self.concretize(size.e)?; return self.alloc_model(cv(v)); }
        let mut o = Obj::new(SYM_CAP);
        o.symsize = size.e;
        Ok(self.st.mem.alloc(o))
    }
    fn bytes_at(&mut self, p: Val, n: u64) -> SR<Vec<Val>> {
        let a = self.conc(p)?;
        let (d, s) = self.load_bytes(a, n)?;
        Ok((0..n as usize).map(|i| match &s { Some(s) if s[i] != 0 => Val { c: 0, e: s[i] }, _ => cv(d[i] as u64) }).collect())
    }
    pub fn ext_call(&mut self, fi: usize, args: &[Val], c: &CallI, base: usize) -> SR<()> {
        let k = self.ext[fi];
        let ret = match k {
            ExtK::Not | ExtK::Unsup => {
                if k == ExtK::Not && self.m.funcs[fi].defined {
                    return Err(Stop::Unsup("internal: ext_call of a defined function".into()));
                }
                return Err(Stop::Unsup(format!("external {}", self.m.funcs[fi].name)));
            }
            ExtK::Panic => {
                let d = demangle(&self.m.funcs[fi].name);
                let mut msg = String::new();
                if d == "core::panicking::panic" || d == "core::option::expect_failed" {
                    if args.len() >= 2 && args[0].e == 0 && args[1].e == 0 && args[1].c < 200 {
                        if let Ok((b, _)) = self.load_bytes(args[0].c, args[1].c) { msg = format!(": {}", String::from_utf8_lossy(&b)); }
                    }
                }
                let short = d.split("::").take(3).collect::<Vec<_>>().join("::");
                return Err(Stop::Panic(format!("{short}{msg}")));
            }
            ExtK::Abort => return Err(Stop::Panic("abort".into())),
            ExtK::Exit => { let v = self.conc(args[0])?; return Err(Stop::Exit(v as i32)); }
            ExtK::Malloc => Some(cv(self.alloc_model(args[0])?)),
            ExtK::Calloc => {
                let (x, y) = (self.ex(args[0], 64), self.ex(args[1], 64));
                let m = self.ar.bin(Op::Mul, x, y);
                let v = self.mv(m);
                Some(cv(self.alloc_model(v)?))
            }
            ExtK::AlignedAlloc => Some(cv(self.alloc_model(args[1])?)),
            ExtK::PosixMemalign => {
                let a = self.alloc_model(args[2])?;
                if a == 0 { Some(cv(12)) } else {
                    let p = self.conc(args[0])?;
                    self.store_bytes(p, &a.to_le_bytes(), None)?;
                    Some(cv(0))
                }
            }
            ExtK::RAlloc | ExtK::RAllocZ => Some(cv(self.alloc_model(args[0])?)),
            ExtK::RDealloc => {
                let p = self.conc(args[0])?;
                let id = p >> 32;
                let len = self.obj_ref(p).map(|o| (o.data.len(), o.symsize));
                if id & (CONST_FLAG | STACK_FLAG) != 0 || p & 0xffff_ffff != OBJ_OFF || !self.st.mem.free(id as u32) { return Err(Stop::Mem(format!("invalid deallocation of {p:#x}"))); }
                if let Some((l, 0)) = len { if args[1].e == 0 && args[1].c != l as u64 { return Err(Stop::Mem(format!("deallocation with size {} of an object of size {l}", args[1].c))); } }
                None
            }
            ExtK::Realloc | ExtK::RRealloc => {
                let args = if k == ExtK::RRealloc { &[args[0], args[3]][..] } else { args };
                let old = self.conc(args[0])?;
                if old == 0 { Some(cv(self.alloc_model(args[1])?)) } else {
                    let id = old >> 32;
                    if id & (CONST_FLAG | STACK_FLAG) != 0 || old & 0xffff_ffff != OBJ_OFF { return Err(Stop::Mem(format!("realloc of an invalid pointer {old:#x}"))); }
                    let Some(o) = self.obj_ref(old) else { return Err(Stop::Mem("realloc of a freed object".into())) };
                    let oldlen = o.data.len();
                    if args[1].e == 0 && o.symsize == 0 {
                        if args[1].c > MAX_CONC { return Err(Stop::Limit(format!("allocation of {} bytes", args[1].c))); }
                        let mut n = o.clone();
                        let nl = args[1].c as usize;
                        n.data.resize(nl, 0);
                        if let Some(s) = n.sym.take() { let mut v = s.into_vec(); v.resize(nl, 0); n.sym = Some(v.into_boxed_slice()); }
                        self.st.mem.free(id as u32);
                        Some(cv(self.st.mem.alloc(n)))
                    } else {
                        let oc = o.clone();
                        let a = self.alloc_model(args[1])?;
                        if a == 0 { Some(cv(0)) } else {
                            let (nl, ns) = { let n = self.obj_ref(a).unwrap(); (n.data.len(), n.symsize) };
                            let mut n = oc;
                            let _ = oldlen;
                            n.data.resize(nl, 0);
                            if let Some(s) = n.sym.take() { let mut v = s.into_vec(); v.resize(nl, 0); n.sym = Some(v.into_boxed_slice()); }
                            n.symsize = ns;
                            self.st.mem.free(id as u32);
                            self.st.mem.put((a >> 32) as u32, n);
                            Some(cv(a))
                        }
                    }
                }
            }
            ExtK::Free => {
                let p = self.conc(args[0])?;
                if p != 0 {
                    let id = p >> 32;
                    if id & (CONST_FLAG | STACK_FLAG) != 0 || p & 0xffff_ffff != OBJ_OFF || !self.st.mem.free(id as u32) { return Err(Stop::Mem(format!("invalid free of {p:#x}"))); }
                }
                None
            }
            ExtK::Memcpy => {
                let n = self.conc(args[2])?;
                if n > 0 {
                    let s = self.conc(args[1])?;
                    let d = self.conc(args[0])?;
                    if n > MAX_CONC { return Err(Stop::Mem(format!("copy of {n} bytes"))); }
                    let (b, sy) = self.load_bytes(s, n)?;
                    self.store_bytes(d, &b, sy.as_deref())?;
                }
                Some(args[0])
            }
            ExtK::Memset => {
                let n = self.conc(args[2])?;
                if n > 0 {
                    if n > MAX_CONC { return Err(Stop::Mem(format!("fill of {n} bytes"))); }
                    let d = self.conc(args[0])?;
                    let v = args[1];
                    let e = if v.e != 0 { let w = self.ar.w(v.e); if w > 8 { self.ar.extract(v.e, 0, 8) } else { v.e } } else { 0 };
                    let cvv = if e != 0 { self.ar.cval(e) } else { Some(v.c as u128 & 0xff) };
                    match cvv {
                        Some(x) => self.store_bytes(d, &vec![x as u8; n as usize], None)?,
                        None => self.store_bytes(d, &vec![0; n as usize], Some(&vec![e; n as usize]))?,
                    }
                }
                Some(args[0])
            }
            ExtK::Memcmp | ExtK::Bcmp => {
                let n = self.conc(args[2])?;
                if n == 0 { Some(cv(0)) } else {
                    if n > MAX_CONC { return Err(Stop::Mem(format!("compare of {n} bytes"))); }
                    let a = self.bytes_at(args[0], n)?;
                    let b = self.bytes_at(args[1], n)?;
                    let mut res = None;
                    // concrete prefix
                    let mut i = 0;
                    while i < a.len() {
                        if a[i].e == 0 && b[i].e == 0 {
                            if a[i].c != b[i].c { res = Some(if a[i].c < b[i].c { 0xffff_ffffu64 } else { 1 }); break; }
                        } else if !(a[i].e != 0 && a[i].e == b[i].e) { break; }
                        i += 1;
                    }
                    if let Some(r) = res { Some(cv(r)) } else if i == a.len() { Some(cv(0)) } else if k == ExtK::Bcmp {
                        // any concrete difference decides
                        if (i..a.len()).any(|j| a[j].e == 0 && b[j].e == 0 && a[j].c != b[j].c) { Some(cv(1)) } else {
                            let mut acc = self.ar.konst(1, 1);
                            for j in i..a.len() {
                                let (x, y) = (self.ex(a[j], 8), self.ex(b[j], 8));
                                let q = self.ar.bin(Op::Eq, x, y);
                                acc = self.ar.bin(Op::And, acc, q);
                                if self.ar.cval(acc) == Some(0) { break; }
                            }
                            let ne = self.ar.not(acc);
                            let r = self.ar.zext(ne, 32);
                            Some(self.mv(r))
                        }
                    } else {
                        let mut acc = self.ar.konst(32, 0);
                        let (lt, gt) = (self.ar.konst(32, 0xffff_ffff), self.ar.konst(32, 1));
                        for j in (i..a.len()).rev() {
                            let (x, y) = (self.ex(a[j], 8), self.ex(b[j], 8));
                            let q = self.ar.bin(Op::Eq, x, y);
                            let l = self.ar.bin(Op::Ult, x, y);
                            let d = self.ar.ite(l, lt, gt);
                            acc = self.ar.ite(q, acc, d);
                        }
                        Some(self.mv(acc))
                    }
                }
            }
            ExtK::Strlen => {
                let p = self.conc(args[0])?;
                let mut n = 0u64;
                loop {
                    let v = self.load(cv(p + n), 1, 8)?;
                    let z = if v.e == 0 { v.c == 0 } else { let k = self.ar.konst(8, 0); let e = self.ar.bin(Op::Eq, v.e, k); self.branch(e)? };
                    if z { break; }
                    n += 1;
                }
                Some(cv(n))
            }
            ExtK::Memchr | ExtK::Memrchr | ExtK::RMemchr => {
                // libc: (ptr, c, n) -> ptr ; core: (c, ptr, n) -> Option<usize>
                let (p, ch, n) = if k == ExtK::RMemchr { (args[1], args[0], args[2]) } else { (args[0], args[1], args[2]) };
                let p = self.conc(p)?;
                let n = self.conc(n)?;
                let ch = if ch.e != 0 { let x = self.ar.extract(ch.e, 0, 8); self.mv(x) } else { cv(ch.c & 0xff) };
                let mut found = None;
                for j in 0..n {
                    let i = if k == ExtK::Memrchr { n - 1 - j } else { j };
                    let v = self.load(cv(p + i), 1, 8)?;
                    let hit = if v.e == 0 && ch.e == 0 { v.c == ch.c } else {
                        let (x, y) = (self.ex(v, 8), self.ex(ch, 8));
                        let e = self.ar.bin(Op::Eq, x, y);
                        self.branch(e)?
                    };
                    if hit { found = Some(i); break; }
                }
                if k == ExtK::RMemchr {
                    self.set_ret(c, base, 0, cv(found.is_some() as u64));
                    if c.nret > 1 { self.set_ret(c, base, 1, cv(found.unwrap_or(0))); }
                    return Ok(());
                }
                Some(cv(found.map_or(0, |i| p + i)))
            }
            ExtK::Zero => Some(cv(0)),
            ExtK::Hash => Some(cv(u64::MAX)),
            ExtK::One => Some(cv(1)),
            ExtK::Neg => {
                let a = self.sh.errno_addr;
                self.store_bytes(a, &2u32.to_le_bytes(), None)?;
                let w = c.rw.first().copied().unwrap_or(32);
                // pointer results (opendir) are null, integers are -1
                Some(cv(if self.m.funcs[fi].name == "opendir" { 0 } else { mask64(w) }))
            }
            ExtK::Getrandom => {
                let n = self.conc(args[1])?;
                let p = self.conc(args[0])?;
                self.store_bytes(p, &vec![0x5a; n as usize], None)?;
                Some(cv(n))
            }
            ExtK::Syscall => {
                let nr = self.conc(args[0])?;
                match nr {
                    318 => {
                        let p = self.conc(args[1])?;
                        let n = self.conc(args[2])?;
                        self.store_bytes(p, &vec![0x5a; n as usize], None)?;
                        Some(cv(n))
                    }
                    202 => Some(cv(0)),
                    _ => return Err(Stop::Unsup(format!("syscall {nr}"))),
                }
            }
            ExtK::Clock => {
                let p = self.conc(args[1])?;
                self.st.clock += 1;
                let s = 1_700_000_000u64 + self.st.clock;
                let mut b = vec![];
                b.extend(s.to_le_bytes());
                b.extend(0u64.to_le_bytes());
                self.store_bytes(p, &b, None)?;
                Some(cv(0))
            }
            ExtK::Write => Some(args[2]),
            ExtK::Writev => {
                let p = self.conc(args[1])?;
                let n = self.conc(args[2])?;
                let mut t = 0;
                for i in 0..n { let v = self.load(cv(p + i * 16 + 8), 8, 64)?; t += self.conc(v)?; }
                Some(cv(t))
            }
            ExtK::Errno => Some(cv(self.sh.errno_addr)),
            ExtK::PsmPtr => Some(cv(0x7fff_0000_0000)),
            ExtK::AttrGetstack => {
                let (p, q) = (self.conc(args[1])?, self.conc(args[2])?);
                self.store_bytes(p, &0x1000_0000u64.to_le_bytes(), None)?;
                self.store_bytes(q, &0x7ffe_f000_0000u64.to_le_bytes(), None)?;
                Some(cv(0))
            }
            ExtK::Sysconf => Some(cv(4096)),
            ExtK::Getcwd => {
                let p = self.conc(args[0])?;
                self.store_bytes(p, b"/cwd\0", None)?;
                Some(cv(p))
            }
            ExtK::KeyCreate => {
                // std takes key 0 for "none"; keys only register destructors, which run with the thread
                let p = self.conc(args[0])?;
                self.store_bytes(p, &1u32.to_le_bytes(), None)?;
                Some(cv(0))
            }
            ExtK::ThreadCreate => {
                // the new thread runs to completion at once, on its own thread-locals
                let p = self.conc(args[0])?;
                self.store_bytes(p, &1u64.to_le_bytes(), None)?;
                let f = self.conc(args[2])?;
                if f >> 32 != FN_OBJ { return Err(Stop::Mem("thread start through a non-function pointer".into())); }
                let idx = ((f & 0xffff_ffff) - OBJ_OFF) / 16;
                let callee = self.m.func(idx as usize).map_err(Stop::Unsup)?;
                self.swap_tls();
                let a = [args[3]];
                self.enter(callee, &a);
                self.st.frames.last_mut().unwrap().thread = true;
                return Ok(());
            }
            ExtK::FmtStub => {
                if self.st.flags & 1 != 0 || self.ext_force_stub() {
                    // an empty String: capacity 0, dangling pointer, length 0 written through sret
                    let p = self.conc(args[0])?;
                    let mut b = vec![0u8; 24];
                    b[8] = 1;
                    self.store_bytes(p, &b, None)?;
                    None
                } else {
                    let callee = self.m.func(fi).map_err(Stop::Unsup)?;
                    let n = callee.nparams as usize;
                    let a: Vec<Val> = args[..n].to_vec();
                    self.enter(callee, &a);
                    return Ok(());
                }
            }
            ExtK::Sha1 => {
                // blocks without symbolic bytes are compressed here; all others run the code of the crate
                let (p, q, n) = (args[0], args[1], args[2]);
                let mut done = false;
                if p.e == 0 && q.e == 0 && n.e == 0 && n.c > 0 {
                    let (st, s1) = self.load_bytes(p.c, 20)?;
                    let (d, s2) = self.load_bytes(q.c, n.c * 64)?;
                    let conc = |s: &Option<Vec<u32>>| s.as_ref().map_or(true, |s| s.iter().all(|e| *e == 0));
                    if conc(&s1) && conc(&s2) {
                        let mut h = [0u32; 5];
                        for i in 0..5 { h[i] = u32::from_le_bytes(st[i * 4..i * 4 + 4].try_into().unwrap()); }
                        for b in d.chunks(64) { sha1_block(&mut h, b); }
                        let o: Vec<u8> = h.iter().flat_map(|v| v.to_le_bytes()).collect();
                        self.store_bytes(p.c, &o, None)?;
                        done = true;
                    }
                }
                if !done {
                    let callee = self.m.func(fi).map_err(Stop::Unsup)?;
                    let m = callee.nparams as usize;
                    let a: Vec<Val> = args[..m].to_vec();
                    self.enter(callee, &a);
                    return Ok(());
                }
                None
            }
            ExtK::SymBytes => {
                let p = self.conc(args[0])?;
                let n = self.conc(args[1])?;
                for i in 0..n {
                    let e = self.new_sym();
                    if e == 0 { return Err(Stop::Unsup("more than 128 symbolic bytes".into())); }
                    self.store_bytes(p + i, &[0], Some(&[e]))?;
                }
                None
            }
            ExtK::SymAssume => {
                let v = args[0];
                if v.e == 0 { if v.c == 0 { return Err(Stop::Assume); } } else {
                    let w = self.ar.w(v.e);
                    let z = self.ar.konst(w, 0);
                    let e = self.ar.bin(Op::Eq, v.e, z);
                    let ne = self.ar.not(e);
                    self.assume(ne)?;
                }
                None
            }
            ExtK::SymFail => {
                let (p, n) = (self.conc(args[0])?, self.conc(args[1])?);
                let (b, _) = self.load_bytes(p, n)?;
                return Err(Stop::Fail(String::from_utf8_lossy(&b).to_string()));
            }
            ExtK::SymReach => {
                let (p, n) = (self.conc(args[0])?, self.conc(args[1])?);
                let (b, _) = self.load_bytes(p, n)?;
                *self.reach_local.entry(String::from_utf8_lossy(&b).to_string()).or_default() += 1;
                None
            }
            ExtK::SymObs => {
                let n = self.conc(args[1])?;
                let b = self.bytes_at(args[0], n)?;
                self.st.obs.extend(b);
                None
            }
            ExtK::SymConc => Some(cv(self.conc(args[0])?)),
            ExtK::SymParam => { let i = self.conc(args[0])?; Some(cv(self.cfg.params.get(i as usize).copied().unwrap_or(0))) }
            ExtK::SymFlag => { let v = self.conc(args[0])?; self.st.flags = v; None }
            ExtK::SymAnd => {
                let (x, y) = (self.ex(args[0], 32), self.ex(args[1], 32));
                let r = self.ar.bin(Op::And, x, y);
                Some(self.mv(r))
            }
            ExtK::MathPow | ExtK::MathFmod | ExtK::MathF1 | ExtK::MathExp | ExtK::MathLog | ExtK::MathSin | ExtK::MathCos | ExtK::MathTan => {
                let name = self.m.funcs[fi].name.clone();
                let x = self.conc(args[0])?;
                let y = if args.len() > 1 { self.conc(args[1])? } else { 0 };
                let (fx, fy) = (f64::from_bits(x), f64::from_bits(y));
                let r = match name.as_str() {
                    "pow" => fx.powf(fy).to_bits(),
                    "powf" => f32::from_bits(x as u32).powf(f32::from_bits(y as u32)).to_bits() as u64,
                    "fmod" => (fx % fy).to_bits(),
                    "fmodf" => (f32::from_bits(x as u32) % f32::from_bits(y as u32)).to_bits() as u64,
                    "exp" => fx.exp().to_bits(), "log" => fx.ln().to_bits(), "log10" => fx.log10().to_bits(), "log2" => fx.log2().to_bits(),
                    "sin" => fx.sin().to_bits(), "cos" => fx.cos().to_bits(), "tan" => fx.tan().to_bits(), "asin" => fx.asin().to_bits(), "acos" => fx.acos().to_bits(), "atan" => fx.atan().to_bits(),
                    "sinh" => fx.sinh().to_bits(), "cosh" => fx.cosh().to_bits(), "tanh" => fx.tanh().to_bits(), "exp2" => fx.exp2().to_bits(), "cbrt" => fx.cbrt().to_bits(),
                    _ => return Err(Stop::Unsup(name)),
                };
                Some(cv(r))
            }
        };
        if let Some(v) = ret { if c.nret > 0 { self.set_ret(c, base, 0, v); } }
        Ok(())
    }
    fn ext_force_stub(&self) -> bool { false }

    pub fn intr(&mut self, k: Intr, w: u8, a: Val, b: Val, c: Val) -> SR<(Val, Option<Val>)> {
        use Intr::*;
        let conc = a.e == 0 && b.e == 0 && c.e == 0 && w <= 64;
        let m = mask64(w);
        match k {
            UAddO | USubO | UMulO | SAddO | SSubO | SMulO => {
                if conc {
                    let (r, o) = match k {
                        UAddO => { let r = a.c as u128 + b.c as u128; (r as u64 & m, r > m as u128) }
                        USubO => (a.c.wrapping_sub(b.c) & m, a.c < b.c),
                        UMulO => { let r = a.c as u128 * b.c as u128; (r as u64 & m, r > m as u128) }
                        _ => {
                            let (x, y) = (sx64(a.c, w) as i128, sx64(b.c, w) as i128);
                            let r = match k { SAddO => x + y, SSubO => x - y, _ => x * y };
                            let t = r as u64 & m;
                            (t, sx64(t, w) as i128 != r)
                        }
                    };
                    return Ok((cv(r), Some(cv(o as u64))));
                }
                let (x, y) = (self.ex(a, w), self.ex(b, w));
                let (r, o) = match k {
                    UAddO => { let r = self.ar.bin(Op::Add, x, y); (r, self.ar.bin(Op::Ult, r, x)) }
                    USubO => { let r = self.ar.bin(Op::Sub, x, y); (r, self.ar.bin(Op::Ult, x, y)) }
                    _ => {
                        let s = !matches!(k, UMulO);
                        let w2 = if k == UMulO || k == SMulO { (w as u16 * 2).min(255) as u8 } else { w + 1 };
                        if w2 > 128 { return Err(Stop::Unsup("wide overflow arithmetic".into())); }
                        let (xx, yy) = if s { (self.ar.sext(x, w2), self.ar.sext(y, w2)) } else { (self.ar.zext(x, w2), self.ar.zext(y, w2)) };
                        let op = match k { SAddO => Op::Add, SSubO => Op::Sub, _ => Op::Mul };
                        let rr = self.ar.bin(op, xx, yy);
                        let r = self.ar.extract(rr, 0, w);
                        let back = if s { self.ar.sext(r, w2) } else { self.ar.zext(r, w2) };
                        let eq = self.ar.bin(Op::Eq, back, rr);
                        (r, self.ar.not(eq))
                    }
                };
                Ok((self.mv(r), Some(self.mv(o))))
            }
            UMin | UMax | SMin | SMax => {
                let (x, y) = (self.ex(a, w), self.ex(b, w));
                let op = if matches!(k, UMin | UMax) { Op::Ult } else { Op::Slt };
                let l = self.ar.bin(op, x, y);
                let r = if matches!(k, UMin | SMin) { self.ar.ite(l, x, y) } else { self.ar.ite(l, y, x) };
                Ok((self.mv(r), None))
            }
            UCmp | SCmp => {
                let rw = c.c as u8;
                let (x, y) = (self.ex(a, w), self.ex(b, w));
                let op = if k == UCmp { Op::Ult } else { Op::Slt };
                let l = self.ar.bin(op, x, y);
                let g = self.ar.bin(op, y, x);
                let (m1, p1, z) = (self.ar.konst(rw, u128::MAX), self.ar.konst(rw, 1), self.ar.konst(rw, 0));
                let t = self.ar.ite(g, p1, z);
                let r = self.ar.ite(l, m1, t);
                Ok((self.mv(r), None))
            }
            Abs => {
                let x = self.ex(a, w);
                let z = self.ar.konst(w, 0);
                let n = self.ar.bin(Op::Slt, x, z);
                let neg = self.ar.bin(Op::Sub, z, x);
                let r = self.ar.ite(n, neg, x);
                Ok((self.mv(r), None))
            }
            UAddSat | USubSat | SAddSat | SSubSat => {
                let (r, o) = self.intr(match k { UAddSat => UAddO, USubSat => USubO, SAddSat => SAddO, _ => SSubO }, w, a, b, c)?;
                let o = o.unwrap();
                let (re, oe) = (self.ex(r, w), self.ex(o, 1));
                let sat = match k {
                    UAddSat => self.ar.konst(w, u128::MAX),
                    USubSat => self.ar.konst(w, 0),
                    _ => {
                        // overflow direction follows the sign of the first operand
                        let x = self.ex(a, w);
                        let z = self.ar.konst(w, 0);
                        let n = self.ar.bin(Op::Slt, x, z);
                        let (mn, mx) = (self.ar.konst(w, 1u128 << (w - 1)), self.ar.konst(w, mask(w - 1)));
                        self.ar.ite(n, mn, mx)
                    }
                };
                let r = self.ar.ite(oe, sat, re);
                Ok((self.mv(r), None))
            }
            Fshl | Fshr => {
                let cw = self.ex(c, w);
                let kw = self.ar.konst(w, w as u128);
                let s = self.ar.bin(Op::URem, cw, kw);
                let (x, y) = (self.ex(a, w), self.ex(b, w));
                let inv = self.ar.bin(Op::Sub, kw, s);
                let (l, rr) = if k == Fshl { (self.ar.bin(Op::Shl, x, s), self.ar.bin(Op::LShr, y, inv)) } else { (self.ar.bin(Op::Shl, x, inv), self.ar.bin(Op::LShr, y, s)) };
                let o = self.ar.bin(Op::Or, l, rr);
                let z = self.ar.konst(w, 0);
                let is0 = self.ar.bin(Op::Eq, s, z);
                let r = self.ar.ite(is0, if k == Fshl { x } else { y }, o);
                Ok((self.mv(r), None))
            }
            Bswap => {
                let x = self.ex(a, w);
                let n = w / 8;
                let mut r = self.ar.extract(x, 0, 8);
                for i in 1..n { let b = self.ar.extract(x, i * 8, 8); r = self.ar.concat(r, b); }
                Ok((self.mv(r), None))
            }
            Bitrev => {
                if conc { let r = a.c.reverse_bits() >> (64 - w as u32); return Ok((cv(r), None)); }
                let x = self.ex(a, w);
                let mut r = self.ar.extract(x, 0, 1);
                for i in 1..w { let b = self.ar.extract(x, i, 1); r = self.ar.concat(r, b); }
                Ok((self.mv(r), None))
            }
            Ctpop => {
                if conc { return Ok((cv(a.c.count_ones() as u64), None)); }
                let x = self.ex(a, w);
                let mut r = self.ar.konst(w, 0);
                for i in 0..w { let b = self.ar.extract(x, i, 1); let z = self.ar.zext(b, w); r = self.ar.bin(Op::Add, r, z); }
                Ok((self.mv(r), None))
            }
            Ctlz | Cttz => {
                if conc {
                    let r = if a.c == 0 { w as u64 } else if k == Ctlz { (a.c.leading_zeros() - (64 - w as u32)) as u64 } else { a.c.trailing_zeros() as u64 };
                    return Ok((cv(r), None));
                }
                let x = self.ex(a, w);
                let mut r = self.ar.konst(w, w as u128);
                for j in 0..w {
                    let i = if k == Ctlz { j } else { w - 1 - j };
                    let b = self.ar.extract(x, i, 1);
                    let v = self.ar.konst(w, if k == Ctlz { (w - 1 - i) as u128 } else { i as u128 });
                    r = self.ar.ite(b, v, r);
                }
                Ok((self.mv(r), None))
            }
            FAbs => {
                let x = self.ex(a, w);
                let mk = self.ar.konst(w, mask(w - 1));
                let r = self.ar.bin(Op::And, x, mk);
                Ok((self.mv(r), None))
            }
            FCopysign => {
                let (x, y) = (self.ex(a, w), self.ex(b, w));
                let mk = self.ar.konst(w, mask(w - 1));
                let sg = self.ar.konst(w, 1u128 << (w - 1));
                let (p, q) = (self.ar.bin(Op::And, x, mk), self.ar.bin(Op::And, y, sg));
                let r = self.ar.bin(Op::Or, p, q);
                Ok((self.mv(r), None))
            }
            FTrunc | FFloor | FCeil | FRound | FRint => {
                let x = self.ex(a, w);
                let rm = match k { FTrunc => 0, FFloor => 1, FCeil => 2, FRound => 3, _ => 4 };
                let r = self.ar.fop(Op::FRnd, w, w, x, 0, rm);
                Ok((self.mv(r), None))
            }
            IsFpClass => {
                let x = self.conc(a)?;
                let t = self.conc(b)?;
                let f = if w == 32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x) };
                let cls = if w == 32 { f32::from_bits(x as u32).classify() } else { f.classify() };
                use std::num::FpCategory::*;
                let neg = f.is_sign_negative();
                let bit = match (cls, neg) { (Nan, _) => 2, (Infinite, true) => 4, (Normal, true) => 8, (Subnormal, true) => 16, (Zero, true) => 32, (Zero, false) => 64, (Subnormal, false) => 128, (Normal, false) => 256, (Infinite, false) => 512 };
                Ok((cv((t & bit != 0 || (bit == 2 && t & 1 != 0)) as u64), None))
            }
            _ => {
                let (x, y, z) = (self.conc(a)?, self.conc(b)?, self.conc(c)?);
                if w == 32 {
                    let (p, q, s) = (f32::from_bits(x as u32), f32::from_bits(y as u32), f32::from_bits(z as u32));
                    let r = match k { FPow => p.powf(q), FPowi => p.powi(y as i32), FSqrt => p.sqrt(), FMin => p.min(q), FMax => p.max(q), FFma => p.mul_add(q, s), FSin => p.sin(), FCos => p.cos(), FExp => p.exp(), FLog => p.ln(), FLog10 => p.log10(), FLog2 => p.log2(), FExp2 => p.exp2(), _ => return Err(Stop::Unsup(format!("{k:?}"))) };
                    Ok((cv(r.to_bits() as u64), None))
                } else {
                    let (p, q, s) = (f64::from_bits(x), f64::from_bits(y), f64::from_bits(z));
                    let r = match k { FPow => p.powf(q), FPowi => p.powi(y as i32), FSqrt => p.sqrt(), FMin => p.min(q), FMax => p.max(q), FFma => p.mul_add(q, s), FSin => p.sin(), FCos => p.cos(), FExp => p.exp(), FLog => p.ln(), FLog10 => p.log10(), FLog2 => p.log2(), FExp2 => p.exp2(), _ => return Err(Stop::Unsup(format!("{k:?}"))) };
                    Ok((cv(r.to_bits()), None))
                }
            }
        }
    }
    pub fn flush_reach(&mut self) {
        let mut r = self.sh.reached.lock().unwrap();
        for (k, v) in &self.reach_local { *r.entry(k.clone()).or_default() += v; }
        self.reach_local.clear();
        let mut f = self.sh.funcs.lock().unwrap();
        for (i, s) in self.fseen.iter().enumerate() { if *s { f.insert(i as u32); } }
        let _ = self.sh.npaths.load(Relaxed);
    }
}

fn sha1_block(h: &mut [u32; 5], b: &[u8]) {
    let mut w = [0u32; 80];
    for i in 0..16 { w[i] = u32::from_be_bytes(b[i * 4..i * 4 + 4].try_into().unwrap()); }
    for i in 16..80 { w[i] = (w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16]).rotate_left(1); }
    let [mut a, mut bb, mut c, mut d, mut e] = *h;
    for (i, x) in w.iter().enumerate() {
        let (f, k) = match i / 20 {
            0 => ((bb & c) | (!bb & d), 0x5a82_7999u32),
            1 => (bb ^ c ^ d, 0x6ed9_eba1),
            2 => ((bb & c) | (bb & d) | (c & d), 0x8f1b_bcdc),
            _ => (bb ^ c ^ d, 0xca62_c1d6),
        };
        let t = a.rotate_left(5).wrapping_add(f).wrapping_add(e).wrapping_add(k).wrapping_add(*x);
        e = d;
        d = c;
        c = bb.rotate_left(30);
        bb = a;
        a = t;
    }
    for (x, y) in h.iter_mut().zip([a, bb, c, d, e]) { *x = x.wrapping_add(y); }
}
