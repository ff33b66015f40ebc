//! A file system and environment in memory that stand in for the operating
//! system: the C functions the standard library calls are defined here, for
//! the engine and for the native replay alike. Every call may fail, be
//! interrupted or be served partly, as long as faults are left.

#![allow(static_mut_refs)]
use crate::sym::*;

use std::os::raw::{c_void};

pub struct Node { pub path: Vec<u8>, pub data: Vec<u8> }
struct Fd { node: usize, pos: usize, append: bool, open: bool }

static mut ACTIVE: bool = false;
static mut NODES: Vec<Node> = Vec::new();
static mut FDS: Vec<Fd> = Vec::new();
static mut ENV: Vec<(Vec<u8>, Vec<u8>)> = Vec::new();
static mut FAULTS: usize = 0;
static mut HAPPENED: usize = 0;
static mut EVERY: bool = false;
static mut OPENS: usize = 0;

const FIRST: i32 = 1000;
const ENOENT: i32 = 2;
const EINTR: i32 = 4;
const EIO: i32 = 5;
const EBADF: i32 = 9;
const EACCES: i32 = 13;
const EEXIST: i32 = 17;
const EINVAL: i32 = 22;
const ENOSPC: i32 = 28;

/// an empty file system without faults
pub fn start() {
    unsafe {
        ACTIVE = true;
        NODES = Vec::new();
        FDS = Vec::new();
        ENV = Vec::new();
        FAULTS = 0;
        HAPPENED = 0;
        EVERY = false;
        OPENS = 0;
        for f in KEEP.iter() { std::ptr::read_volatile(f); }
    }
    env("HOME", "/home");
}
pub fn add(path: &str, data: &[u8]) { add_bytes(path.as_bytes(), data) }
pub fn add_bytes(path: &[u8], data: &[u8]) { unsafe { NODES.push(Node { path: path.to_vec(), data: data.to_vec() }) } }
pub fn get(path: &str) -> Option<Vec<u8>> { unsafe { find(path.as_bytes()).map(|i| NODES[i].data.clone()) } }
/// number of files
pub fn count() -> usize { unsafe { NODES.iter().filter(|n| !n.path.is_empty()).count() } }
pub fn env(name: &str, value: &str) {
    let mut v = value.as_bytes().to_vec();
    v.push(0);
    unsafe { ENV.push((name.as_bytes().to_vec(), v)) }
}
/// allows up to n faults; partial transfers of every length, or of some lengths
pub fn faults(n: usize, every: bool) { unsafe { FAULTS = n; EVERY = every; } }
/// number of faults that happened
pub fn happened() -> usize { unsafe { HAPPENED } }
/// number of successful opens
pub fn opens() -> usize { unsafe { OPENS } }

unsafe fn find(path: &[u8]) -> Option<usize> {
    for i in 0..NODES.len() { if NODES[i].path == path { return Some(i); } }
    None
}
unsafe fn name(p: *const u8) -> Vec<u8> {
    let mut v = vec![];
    let mut i = 0;
    while *p.add(i) != 0 { v.push(*p.add(i)); i += 1; }
    v
}
/// 0: no fault, otherwise one of n
unsafe fn fault(n: usize) -> usize {
    if FAULTS == 0 { return 0; }
    let k = int(0, n as i64) as usize;
    if k > 0 { FAULTS -= 1; HAPPENED += 1; }
    k
}
/// a length between 1 and n - 1
unsafe fn part(n: usize) -> usize {
    if EVERY { int(1, n as i64 - 1) as usize } else { [1, n / 2, n - 1][pick(3)] }
}

extern "C" { fn syscall(n: i64, ...) -> i64; }
#[cfg(panic = "abort")]
static mut ERRNO: i32 = 0;
#[cfg(panic = "abort")]
#[no_mangle] pub unsafe extern "C" fn __errno_location() -> *mut i32 { std::ptr::addr_of_mut!(ERRNO) }
#[cfg(not(panic = "abort"))]
extern "C" { fn __errno_location() -> *mut i32; }

unsafe fn err(e: i32) -> i64 { *__errno_location() = e; -1 }

struct Ptr(*const ());
unsafe impl Sync for Ptr {}
static KEEP: [Ptr; 17] = [
    Ptr(open64 as *const ()), Ptr(read as *const ()), Ptr(write as *const ()), Ptr(writev as *const ()), Ptr(close as *const ()), Ptr(lseek64 as *const ()),
    Ptr(statx as *const ()), Ptr(fstat64 as *const ()), Ptr(stat64 as *const ()), Ptr(getenv as *const ()), Ptr(__xpg_strerror_r as *const ()), Ptr(rename as *const ()),
    Ptr(unlink as *const ()), Ptr(fsync as *const ()), Ptr(fdatasync as *const ()), Ptr(ftruncate64 as *const ()), Ptr(fcntl as *const ()),
];

#[no_mangle] pub unsafe extern "C" fn open64(path: *const u8, flags: i32, mode: u32) -> i32 {
    if !ACTIVE { return syscall(2, path, flags as i64, mode as i64) as i32; }
    match fault(3) { 1 => return err(EINTR) as i32, 2 => return err(EACCES) as i32, 3 => return err(EIO) as i32, _ => () }
    let p = name(path);
    let node = match find(&p) {
        Some(i) => { if flags & 0o300 == 0o300 { return err(EEXIST) as i32; } i }
        None => {
            if flags & 0o100 == 0 || p.is_empty() { return err(ENOENT) as i32; }
            NODES.push(Node { path: p, data: vec![] });
            NODES.len() - 1
        }
    };
    if flags & 0o1000 != 0 { NODES[node].data.clear(); }
    FDS.push(Fd { node, pos: 0, append: flags & 0o2000 != 0, open: true });
    OPENS += 1;
    FIRST + FDS.len() as i32 - 1
}
unsafe fn fd(n: i32) -> Option<&'static mut Fd> {
    let i = (n - FIRST) as usize;
    if n >= FIRST && i < FDS.len() && FDS[i].open { Some(&mut FDS[i]) } else { None }
}
#[no_mangle] pub unsafe extern "C" fn read(n: i32, buf: *mut c_void, len: usize) -> isize {
    let buf = buf as *mut u8;
    if n < FIRST { return syscall(0, n as i64, buf, len) as isize; }
    let f = match fd(n) { Some(f) => f, None => return err(EBADF) as isize };
    let d = &NODES[f.node].data;
    let left = if f.pos < d.len() { d.len() - f.pos } else { 0 };
    let mut k = if left < len { left } else { len };
    match fault(if k > 1 { 3 } else { 2 }) { 1 => return err(EINTR) as isize, 2 => return err(EIO) as isize, 3 => k = part(k), _ => () }
    std::ptr::copy_nonoverlapping(d.as_ptr().add(f.pos), buf, k);
    f.pos += k;
    k as isize
}
#[no_mangle] pub unsafe extern "C" fn write(n: i32, buf: *const c_void, len: usize) -> isize {
    let buf = buf as *const u8;
    if n < FIRST { return syscall(1, n as i64, buf, len) as isize; }
    let f = match fd(n) { Some(f) => f, None => return err(EBADF) as isize };
    let mut k = len;
    match fault(if len == 0 { 0 } else if len > 1 { 5 } else { 4 }) { 1 => return err(EINTR) as isize, 2 => return err(EIO) as isize, 3 => return err(ENOSPC) as isize, 4 => k = 0, 5 => k = part(len), _ => () }
    let d = &mut NODES[f.node].data;
    if f.append { f.pos = d.len(); }
    while d.len() < f.pos { d.push(0); }
    let s = std::slice::from_raw_parts(buf, k);
    if f.pos == d.len() { d.extend_from_slice(s); } else {
        for i in 0..k { if f.pos + i < d.len() { d[f.pos + i] = s[i]; } else { d.push(s[i]); } }
    }
    f.pos += k;
    k as isize
}
#[repr(C)] pub struct Iov { base: *const u8, len: usize }
#[no_mangle] pub unsafe extern "C" fn writev(n: i32, v: *const Iov, cnt: i32) -> isize {
    if n < FIRST { return syscall(20, n as i64, v, cnt as i64) as isize; }
    // serving only the first part is allowed
    for i in 0..cnt as usize { let x = &*v.add(i); if x.len > 0 { return write(n, x.base as *const c_void, x.len); } }
    0
}
#[no_mangle] pub unsafe extern "C" fn close(n: i32) -> i32 {
    if n < FIRST { return syscall(3, n as i64) as i32; }
    match fd(n) { Some(f) => { f.open = false; 0 } None => err(EBADF) as i32 }
}
#[no_mangle] pub unsafe extern "C" fn lseek64(n: i32, off: i64, whence: i32) -> i64 {
    if n < FIRST { return syscall(8, n as i64, off, whence as i64); }
    let f = match fd(n) { Some(f) => f, None => return err(EBADF) };
    let base = match whence { 0 => 0, 1 => f.pos as i64, _ => NODES[f.node].data.len() as i64 };
    if base + off < 0 { return err(EINVAL); }
    f.pos = (base + off) as usize;
    f.pos as i64
}
unsafe fn node_of(n: i32, path: *const u8) -> Option<usize> {
    if n >= FIRST { return fd(n).map(|f| f.node); }
    if path.is_null() { return None; }
    find(&name(path))
}
unsafe fn fill(buf: *mut u8, all: usize, mode_at: usize, size_at: usize, size: usize) {
    std::ptr::write_bytes(buf, 0, all);
    std::ptr::write_unaligned(buf.add(mode_at) as *mut u16, 0o100644);
    std::ptr::write_unaligned(buf.add(size_at) as *mut u64, size as u64);
}
#[no_mangle] pub unsafe extern "C" fn statx(dir: i32, path: *const u8, flags: i32, mask: u32, buf: *mut u8) -> i32 {
    if !ACTIVE { return syscall(332, dir as i64, path, flags as i64, mask as i64, buf) as i32; }
    match node_of(dir, path) {
        Some(i) => { fill(buf, 256, 28, 40, NODES[i].data.len()); *(buf as *mut u32) = 0x7ff; 0 }
        None => err(ENOENT) as i32,
    }
}
#[no_mangle] pub unsafe extern "C" fn fstat64(n: i32, buf: *mut u8) -> i32 {
    if !ACTIVE || n < FIRST { return syscall(5, n as i64, buf) as i32; }
    match node_of(n, std::ptr::null()) { Some(i) => { fill(buf, 144, 24, 48, NODES[i].data.len()); 0 } None => err(EBADF) as i32 }
}
#[no_mangle] pub unsafe extern "C" fn stat64(path: *const u8, buf: *mut u8) -> i32 {
    if !ACTIVE { return syscall(4, path, buf) as i32; }
    match node_of(-1, path) { Some(i) => { fill(buf, 144, 24, 48, NODES[i].data.len()); 0 } None => err(ENOENT) as i32 }
}
#[no_mangle] pub unsafe extern "C" fn rename(from: *const u8, to: *const u8) -> i32 {
    if !ACTIVE { return syscall(82, from, to) as i32; }
    if fault(1) == 1 { return err(EIO) as i32; }
    let (f, t) = (name(from), name(to));
    match find(&f) {
        Some(i) => { if let Some(j) = find(&t) { if j != i { NODES[j].path = vec![]; } } NODES[i].path = t; 0 }
        None => err(ENOENT) as i32,
    }
}
#[no_mangle] pub unsafe extern "C" fn unlink(path: *const u8) -> i32 {
    if !ACTIVE { return syscall(87, path) as i32; }
    match find(&name(path)) { Some(i) => { NODES[i].path = vec![]; 0 } None => err(ENOENT) as i32 }
}
#[no_mangle] pub unsafe extern "C" fn fsync(n: i32) -> i32 {
    if n < FIRST { return syscall(74, n as i64) as i32; }
    match fault(2) { 1 => err(EINTR) as i32, 2 => err(EIO) as i32, _ => 0 }
}
#[no_mangle] pub unsafe extern "C" fn fdatasync(n: i32) -> i32 { fsync(n) }
#[no_mangle] pub unsafe extern "C" fn ftruncate64(n: i32, len: i64) -> i32 {
    if n < FIRST { return syscall(77, n as i64, len) as i32; }
    match fd(n) { Some(f) => { NODES[f.node].data.resize(len as usize, 0); 0 } None => err(EBADF) as i32 }
}
#[no_mangle] pub unsafe extern "C" fn __xpg_strerror_r(_n: i32, buf: *mut u8, len: usize) -> i32 {
    let t = b"fault\0";
    let mut i = 0;
    while i < t.len() && i < len { *buf.add(i) = t[i]; i += 1; }
    0
}
#[no_mangle] pub unsafe extern "C" fn getenv(p: *const u8) -> *const u8 {
    let n = name(p);
    if ACTIVE {
        for e in ENV.iter() { if e.0 == n { return e.1.as_ptr(); } }
        return std::ptr::null();
    }
    real_env(&n)
}
#[cfg(panic = "abort")]
unsafe fn real_env(_: &[u8]) -> *const u8 { std::ptr::null() }
#[cfg(not(panic = "abort"))]
unsafe fn real_env(n: &[u8]) -> *const u8 {
    extern "C" { static environ: *const *const u8; }
    let mut e = environ;
    while !e.is_null() && !(*e).is_null() {
        let v = name(*e);
        if v.len() > n.len() && v.starts_with(n) && v[n.len()] == b'=' { return (*e).add(n.len() + 1); }
        e = e.add(1);
    }
    std::ptr::null()
}
// the standard library asks whether a descriptor is open before closing it
#[no_mangle] pub unsafe extern "C" fn fcntl(n: i32, cmd: i32, arg: i64) -> i32 {
    if n < FIRST { return syscall(72, n as i64, cmd as i64, arg) as i32; }
    if fd(n).is_some() { 0 } else { err(EBADF) as i32 }
}
