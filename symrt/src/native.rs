//! Native implementation of the harness interface, and the replay driver.
use std::cell::RefCell;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};

struct Assumed;
struct Failed(String);
static INPUT: std::sync::Mutex<Vec<u8>> = std::sync::Mutex::new(Vec::new());
static POS: AtomicUsize = AtomicUsize::new(0);
static OBS: AtomicU64 = AtomicU64::new(0);
static PARAMS: std::sync::Mutex<Vec<u64>> = std::sync::Mutex::new(Vec::new());
thread_local! { static PANIC: RefCell<String> = const { RefCell::new(String::new()) }; }

#[no_mangle]
pub unsafe extern "C-unwind" fn __sym_bytes(p: *mut u8, n: usize) {
    let g = INPUT.lock().unwrap_or_else(|e| e.into_inner());
    let at = POS.fetch_add(n, Ordering::SeqCst);
    for i in 0..n {
        *p.add(i) = g.get(at + i).copied().unwrap_or(0);
    }
}
#[no_mangle]
pub extern "C-unwind" fn __sym_assume(c: u32) {
    if c == 0 {
        std::panic::resume_unwind(Box::new(Assumed));
    }
}
#[no_mangle]
pub unsafe extern "C-unwind" fn __sym_fail(p: *const u8, n: usize) -> ! {
    let s = String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).to_string();
    std::panic::resume_unwind(Box::new(Failed(s)));
}
#[no_mangle]
pub extern "C-unwind" fn __sym_reach(_: *const u8, _: usize) {}
#[no_mangle]
pub unsafe extern "C-unwind" fn __sym_obs(p: *const u8, n: usize) {
    let mut h = OBS.load(Ordering::SeqCst);
    for i in 0..n {
        h = (h ^ u64::from(*p.add(i))).wrapping_mul(0x0100_0000_01b3);
    }
    OBS.store(h, Ordering::SeqCst);
}
#[no_mangle]
pub extern "C-unwind" fn __sym_conc(v: u64) -> u64 {
    v
}
#[no_mangle]
pub extern "C-unwind" fn __sym_param(i: u64) -> u64 {
    PARAMS.lock().unwrap_or_else(|e| e.into_inner()).get(i as usize).copied().unwrap_or(0)
}
#[no_mangle]
pub extern "C-unwind" fn __sym_flag(_: u64) {}

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn esc(s: &str) -> String {
    s.chars().map(|c| if c == '\n' || c == '\t' || c == '\r' { ' ' } else { c }).collect()
}

/// replay ENTRY HARNESS PARAMS(:-separated or -) : one input (hex) per line on stdin,
/// one result line `kind TAB obs TAB message` per input on stdout.
pub fn main(entries: &[(&str, extern "C-unwind" fn(u32))]) {
    let a: Vec<String> = std::env::args().collect();
    let f = entries.iter().find(|e| e.0 == a[1]).expect("entry").1;
    let h: u32 = a[2].parse().unwrap();
    *PARAMS.lock().unwrap() = a[3].split(':').filter_map(|x| x.parse().ok()).collect();
    std::panic::set_hook(Box::new(|i| {
        let l = i.location().map_or(String::new(), |l| format!(" at {}:{}:{}", l.file(), l.line(), l.column()));
        let p = i.payload();
        let m = p.downcast_ref::<&str>().map(|s| (*s).to_string()).or_else(|| p.downcast_ref::<String>().cloned()).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = format!("{m}{l}"));
    }));
    let show = a.get(4).map(String::as_str) == Some("-v");
    for line in std::io::stdin().lines() {
        let line = line.unwrap();
        *INPUT.lock().unwrap() = unhex(line.trim());
        POS.store(0, Ordering::SeqCst);
        OBS.store(0xcbf2_9ce4_8422_2325, Ordering::SeqCst);
        PANIC.with(|p| p.borrow_mut().clear());
        let guard = std::env::var_os("SYM_GUARD").is_some();
        // a thread of its own: thread-local counters of the code under test start fresh
        let r = std::thread::Builder::new()
            .stack_size(256 << 20)
            .spawn(move || {
                GUARD.store(guard, Ordering::SeqCst);
                let r = std::panic::catch_unwind(|| f(h));
                GUARD.store(false, Ordering::SeqCst);
                match r {
                    Ok(()) => ("done", String::new()),
                    Err(e) if e.is::<Assumed>() => ("assumed", String::new()),
                    Err(e) => match e.downcast_ref::<Failed>() {
                        Some(m) => ("fail", m.0.clone()),
                        None => ("panic", PANIC.with(|p| p.borrow().clone())),
                    },
                }
            })
            .unwrap()
            .join()
            .unwrap();
        // marked, as the code under test may print too
        println!("\n\u{1}{}\t{:016x}\t{}", r.0, OBS.load(Ordering::SeqCst), esc(&r.1));
        if show {
            eprintln!("used {} bytes", POS.load(Ordering::SeqCst));
        }
    }
}

/// Allocator for memory-error replays: every allocation made while the guard is on ends at an
/// inaccessible page, and freed memory becomes inaccessible.
pub struct Guarded;
static GUARD: AtomicBool = AtomicBool::new(false);
static BASE: AtomicUsize = AtomicUsize::new(0);
static NEXT: AtomicUsize = AtomicUsize::new(0);
const REGION: usize = 1 << 40;
unsafe impl std::alloc::GlobalAlloc for Guarded {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        if !GUARD.load(Ordering::Relaxed) || l.size() > 1 << 30 {
            return std::alloc::System.alloc(l);
        }
        let mut base = BASE.load(Ordering::Relaxed);
        if base == 0 {
            base = libc::mmap(std::ptr::null_mut(), REGION, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0) as usize;
            BASE.store(base, Ordering::Relaxed);
        }
        let pages = l.size().div_ceil(4096).max(1) * 4096;
        let at = NEXT.fetch_add(pages + 4096, Ordering::Relaxed);
        if at + pages > REGION {
            return std::ptr::null_mut();
        }
        let p = base + at;
        if libc::mprotect(p as *mut _, pages, libc::PROT_READ | libc::PROT_WRITE) != 0 {
            return std::alloc::System.alloc(l);
        }
        ((p + pages - l.size()) & !(l.align() - 1)) as *mut u8
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        let base = BASE.load(Ordering::Relaxed);
        let a = p as usize;
        if base != 0 && a >= base && a < base + REGION {
            let lo = a & !4095;
            let hi = (a + l.size().max(1)).div_ceil(4096) * 4096;
            libc::mprotect(lo as *mut _, hi - lo, libc::PROT_NONE);
        } else {
            std::alloc::System.dealloc(p, l)
        }
    }
}
