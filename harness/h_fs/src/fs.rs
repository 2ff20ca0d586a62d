//! An in-memory file system behind the C library's functions: everything below `/symfs`, which is
//! also the working directory, is served from `NODES`, by the same code under the engine and natively; no real file is touched.
#![allow(static_mut_refs)]
use std::ffi::c_void;

pub const ROOT: &str = "/symfs";
pub struct Node {
    pub path: String,
    pub dir: bool,
    pub data: Vec<u8>,
}
static mut NODES: Vec<Node> = Vec::new();
/// order in which directories list their entries: 0 as created, 1 reversed
static mut ORDER: usize = 0;
static mut FDS: Vec<Option<(usize, usize)>> = Vec::new();
const FD0: i32 = 5000;
const ENOENT: i32 = 2;
const EBADF: i32 = 9;
const EACCES: i32 = 13;
const ENOTDIR: i32 = 20;
const EISDIR: i32 = 21;
const EINVAL: i32 = 22;

extern "C" {
    fn __errno_location() -> *mut i32;
}
fn err(e: i32) -> i32 {
    unsafe { *__errno_location() = e };
    -1
}

/// an empty file system with the directory `/symfs`
pub fn reset(order: usize) {
    unsafe {
        NODES = vec![Node { path: ROOT.into(), dir: true, data: Vec::new() }];
        ORDER = order;
        FDS = Vec::new();
    }
}
fn at(p: &str) -> Option<usize> {
    unsafe { NODES.iter().position(|n| n.path == p) }
}
/// create a directory and those above it
pub fn dir(rel: &str) {
    let mut p = ROOT.to_string();
    for c in rel.split('/').filter(|c| !c.is_empty()) {
        p.push('/');
        p.push_str(c);
        if at(&p).is_none() {
            unsafe { NODES.push(Node { path: p.clone(), dir: true, data: Vec::new() }) };
        }
    }
}
pub fn file(rel: &str, data: &[u8]) {
    if let Some((d, _)) = rel.rsplit_once('/') {
        dir(d);
    }
    let path = format!("{ROOT}/{rel}");
    unsafe {
        // written anew
        if let Some(n) = NODES.iter_mut().find(|n| n.path == path) {
            n.data = data.to_vec();
            return;
        }
        NODES.push(Node { path, dir: false, data: data.to_vec() })
    };
}
pub fn path(rel: &str) -> std::path::PathBuf {
    if rel.is_empty() {
        ROOT.into()
    } else {
        format!("{ROOT}/{rel}").into()
    }
}

/// the canonical text of a path below the root; `None`: not ours
unsafe fn norm(p: *const u8) -> Option<String> {
    let mut n = 0;
    while *p.add(n) != 0 {
        n += 1;
    }
    let s = std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, n));
    if NODES.is_empty() {
        return None;
    }
    let mut out: Vec<&str> = Vec::new();
    // the working directory of the process is the root
    if !s.starts_with('/') {
        out.push(&ROOT[1..]);
    } else if !s.starts_with(ROOT) {
        return None;
    }
    for c in s.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                out.pop();
            }
            c => out.push(c),
        }
    }
    Some(format!("/{}", out.join("/")))
}
/// the node at a path; the error of a missing one depends on whether a file stands in its way
unsafe fn find(p: *const u8) -> Option<Result<usize, i32>> {
    let s = norm(p)?;
    Some(match at(&s) {
        Some(i) => Ok(i),
        None => {
            let mut up = s.as_str();
            let mut e = ENOENT;
            while let Some((u, _)) = up.rsplit_once('/') {
                if let Some(i) = at(u) {
                    if !NODES[i].dir {
                        e = ENOTDIR;
                    }
                    break;
                }
                up = u;
            }
            Err(e)
        }
    })
}

#[cfg(feature = "native")]
mod real {
    extern "C" {
        fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize) -> i64;
    }
    pub unsafe fn call(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize) -> i64 {
        syscall(n, a, b, c, d, e)
    }
}
#[cfg(not(feature = "native"))]
mod real {
    /// the engine has no other files
    pub unsafe fn call(n: i64, _: usize, _: usize, _: usize, _: usize, _: usize) -> i64 {
        i64::from(super::err(if n == 0 || n == 3 || n == 8 { super::EBADF } else { super::ENOENT }))
    }
}

#[no_mangle]
pub unsafe extern "C" fn open64(p: *const u8, flags: i32, mode: u32) -> i32 {
    let Some(f) = find(p) else { return real::call(2, p as usize, flags as usize, mode as usize, 0, 0) as i32 };
    match f {
        Err(e) => err(e),
        Ok(_) if flags & 3 != 0 => err(EACCES),
        Ok(i) => {
            FDS.push(Some((i, 0)));
            FD0 + FDS.len() as i32 - 1
        }
    }
}
unsafe fn fd(fd: i32) -> Option<&'static mut (usize, usize)> {
    if fd < FD0 {
        return None;
    }
    FDS.get_mut((fd - FD0) as usize)?.as_mut()
}
#[no_mangle]
pub unsafe extern "C" fn close(f: i32) -> i32 {
    if f < FD0 {
        return real::call(3, f as usize, 0, 0, 0, 0) as i32;
    }
    if fd(f).is_none() {
        return err(EBADF);
    }
    FDS[(f - FD0) as usize] = None;
    0
}
#[no_mangle]
pub unsafe extern "C" fn read(f: i32, buf: *mut u8, n: usize) -> isize {
    if f < FD0 {
        return real::call(0, f as usize, buf as usize, n, 0, 0) as isize;
    }
    let Some((i, pos)) = fd(f) else { return err(EBADF) as isize };
    let node = &NODES[*i];
    if node.dir {
        return err(EISDIR) as isize;
    }
    let m = n.min(node.data.len().saturating_sub(*pos));
    std::ptr::copy_nonoverlapping(node.data.as_ptr().add(*pos), buf, m);
    *pos += m;
    m as isize
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(f: i32, off: i64, whence: i32) -> i64 {
    if f < FD0 {
        return real::call(8, f as usize, off as usize, whence as usize, 0, 0);
    }
    let Some((i, pos)) = fd(f) else { return i64::from(err(EBADF)) };
    let base = match whence {
        0 => 0,
        1 => *pos as i64,
        _ => NODES[*i].data.len() as i64,
    };
    if base + off < 0 {
        return i64::from(err(EINVAL));
    }
    *pos = (base + off) as usize;
    *pos as i64
}
#[no_mangle]
pub unsafe extern "C" fn statx(dirfd: i32, p: *const u8, flags: i32, mask: u32, out: *mut u8) -> i32 {
    let i = if dirfd >= FD0 {
        match fd(dirfd) {
            Some((i, _)) => *i,
            None => return err(EBADF),
        }
    } else if p.is_null() {
        return real::call(332, dirfd as usize, p as usize, flags as usize, mask as usize, out as usize) as i32;
    } else {
        match find(p) {
            None => return real::call(332, dirfd as usize, p as usize, flags as usize, mask as usize, out as usize) as i32,
            Some(Err(e)) => return err(e),
            Some(Ok(i)) => i,
        }
    };
    std::ptr::write_bytes(out, 0, 256);
    out.cast::<u32>().write_unaligned(0x7ff);
    out.add(16).cast::<u32>().write_unaligned(1);
    out.add(28).cast::<u16>().write_unaligned(if NODES[i].dir { 0o040_755 } else { 0o100_644 });
    out.add(32).cast::<u64>().write_unaligned(i as u64 + 1);
    out.add(40).cast::<u64>().write_unaligned(NODES[i].data.len() as u64);
    0
}
/// std falls back to these only where statx is missing
#[no_mangle]
pub unsafe extern "C" fn stat64(p: *const u8, out: *mut u8) -> i32 {
    match find(p) {
        None => real::call(4, p as usize, out as usize, 0, 0, 0) as i32,
        Some(Err(e)) => err(e),
        Some(Ok(i)) => {
            fill(i, out);
            0
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(p: *const u8, out: *mut u8) -> i32 {
    stat64(p, out)
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(f: i32, out: *mut u8) -> i32 {
    if f < FD0 {
        return real::call(5, f as usize, out as usize, 0, 0, 0) as i32;
    }
    match fd(f) {
        None => err(EBADF),
        Some((i, _)) => {
            fill(*i, out);
            0
        }
    }
}
unsafe fn fill(i: usize, out: *mut u8) {
    std::ptr::write_bytes(out, 0, 144);
    out.add(8).cast::<u64>().write_unaligned(i as u64 + 1);
    out.add(16).cast::<u64>().write_unaligned(1);
    out.add(24).cast::<u32>().write_unaligned(if NODES[i].dir { 0o040_755 } else { 0o100_644 });
    out.add(48).cast::<u64>().write_unaligned(NODES[i].data.len() as u64);
}

struct Dir {
    names: Vec<(usize, String)>,
    next: usize,
    ent: [u64; 35],
}
#[no_mangle]
pub unsafe extern "C" fn opendir(p: *const u8) -> *mut c_void {
    let i = match find(p) {
        None | Some(Err(ENOENT)) => {
            err(ENOENT);
            return std::ptr::null_mut();
        }
        Some(Err(e)) => {
            err(e);
            return std::ptr::null_mut();
        }
        Some(Ok(i)) => i,
    };
    if !NODES[i].dir {
        err(ENOTDIR);
        return std::ptr::null_mut();
    }
    let pre = format!("{}/", NODES[i].path);
    let mut names: Vec<(usize, String)> = NODES
        .iter()
        .enumerate()
        .filter_map(|(j, n)| n.path.strip_prefix(&pre).filter(|r| !r.contains('/')).map(|r| (j, r.to_string())))
        .collect();
    if ORDER == 1 {
        names.reverse();
    }
    names.insert(0, (0, "..".into()));
    names.insert(0, (i, ".".into()));
    Box::into_raw(Box::new(Dir { names, next: 0, ent: [0; 35] })).cast()
}
#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut c_void) -> *mut u8 {
    let d = &mut *d.cast::<Dir>();
    if d.next == d.names.len() {
        return std::ptr::null_mut();
    }
    let (j, n) = &d.names[d.next];
    d.next += 1;
    d.ent = [0; 35];
    let p = d.ent.as_mut_ptr().cast::<u8>();
    p.cast::<u64>().write_unaligned(*j as u64 + 1);
    p.add(8).cast::<u64>().write_unaligned(d.next as u64);
    p.add(16).cast::<u16>().write_unaligned(280);
    *p.add(18) = if NODES[*j].dir { 4 } else { 8 };
    std::ptr::copy_nonoverlapping(n.as_ptr(), p.add(19), n.len());
    p
}
#[no_mangle]
pub unsafe extern "C" fn closedir(d: *mut c_void) -> i32 {
    drop(Box::from_raw(d.cast::<Dir>()));
    0
}
#[no_mangle]
pub unsafe extern "C" fn dirfd(_: *mut c_void) -> i32 {
    err(EINVAL)
}
#[no_mangle]
pub unsafe extern "C" fn readlink(p: *const u8, buf: *mut u8, n: usize) -> isize {
    match find(p) {
        None => real::call(89, p as usize, buf as usize, n, 0, 0) as isize,
        Some(Err(e)) => err(e) as isize,
        Some(Ok(_)) => err(EINVAL) as isize,
    }
}
extern "C" {
    fn malloc(n: usize) -> *mut u8;
}
#[no_mangle]
pub unsafe extern "C" fn realpath(p: *const u8, out: *mut u8) -> *mut u8 {
    let (Some(s), Some(f)) = (norm(p), find(p)) else {
        err(ENOENT);
        return std::ptr::null_mut();
    };
    if let Err(e) = f {
        err(e);
        return std::ptr::null_mut();
    }
    let o = if out.is_null() { malloc(s.len() + 1) } else { out };
    std::ptr::copy_nonoverlapping(s.as_ptr(), o, s.len());
    *o.add(s.len()) = 0;
    o
}

/// keeps the definitions above in the native executable
pub fn linked() {
    let a: [*const (); 15] = [
        open64 as *const (), close as *const (), read as *const (), lseek64 as *const (), statx as *const (), stat64 as *const (),
        lstat64 as *const (), fstat64 as *const (), opendir as *const (), readdir64 as *const (), closedir as *const (), dirfd as *const (),
        readlink as *const (), realpath as *const (), reset as *const (),
    ];
    std::hint::black_box(a);
}
