//! The same in-memory file system as in the engine, put in front of libc by
//! symbol interposition: a replay touches no real file, and the process can
//! "die" at the same file operations.
#![allow(clippy::missing_safety_doc)]
use crate::{choice, throw, G};
use std::cell::UnsafeCell;
use std::collections::BTreeMap;
use std::ffi::{c_char, c_int, c_long, c_void, CStr};

extern "C" {
    fn syscall(n: c_long, ...) -> c_long;
    fn __errno_location() -> *mut c_int;
    fn calloc(n: usize, m: usize) -> *mut c_void;
}
const BASE: c_int = 1_000_000;
#[derive(Clone, Copy)]
enum Ent {
    Dir,
    File(usize),
}
#[derive(Clone)]
struct Fd {
    file: Option<usize>,
    path: String,
    pos: usize,
    append: bool,
    read: bool,
    write: bool,
}
#[derive(Default)]
struct Fs {
    on: bool,
    crash: bool,
    io: bool,
    io_failed: bool,
    nodes: BTreeMap<String, Ent>,
    files: Vec<Vec<u8>>,
    fds: Vec<Option<Fd>>,
    dirs: Vec<(usize, Vec<String>, usize, c_int)>,
}
static FS: G<Option<Fs>> = G(UnsafeCell::new(None));
#[allow(clippy::mut_from_ref)]
fn fs() -> &'static mut Fs {
    unsafe { (*FS.0.get()).get_or_insert_with(Fs::default) }
}
fn active() -> bool {
    unsafe { (*FS.0.get()).as_ref().map(|f| f.on).unwrap_or(false) }
}
pub fn on() {
    fs().nodes.insert("/".into(), Ent::Dir);
    fs().nodes.insert("/v".into(), Ent::Dir);
    fs().on = true;
}
pub fn off() {
    fs().on = false;
}
pub fn crash_points(on: bool) {
    fs().crash = on;
}
pub fn file_faults(s: u32) -> u32 {
    let old = fs().io_failed as u32 | (fs().io as u32) << 1;
    (fs().io, fs().io_failed) = (s & 2 != 0, s & 1 != 0);
    old
}
fn io_fault(kinds: u64) -> u64 {
    if !fs().io {
        return 0;
    }
    let k = choice(1 + kinds, "io");
    if k > 0 {
        fs().io = false;
        fs().io_failed = k == 1;
    }
    k
}
fn fail(e: c_int) -> c_int {
    unsafe { *__errno_location() = e };
    -1
}
const ENOENT: c_int = 2;
const EIO: c_int = 5;
const EBADF: c_int = 9;
const EEXIST: c_int = 17;
const ENOTDIR: c_int = 20;
const EISDIR: c_int = 21;
const EINVAL: c_int = 22;
const ENOSYS: c_int = 38;
const ENOTEMPTY: c_int = 39;
fn norm(p: &str) -> String {
    let mut v: Vec<&str> = vec![];
    for c in p.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                v.pop();
            }
            c => v.push(c),
        }
    }
    format!("/{}", v.join("/"))
}
fn parent(p: &str) -> String {
    match p.rfind('/') {
        Some(0) | None => "/".into(),
        Some(i) => p[..i].into(),
    }
}
fn children(p: &str) -> Vec<String> {
    let pre = if p == "/" { "/".to_string() } else { format!("{}/", p) };
    fs().nodes
        .keys()
        .filter(|k| k.starts_with(&pre) && k.len() > pre.len() && !k[pre.len()..].contains('/'))
        .cloned()
        .collect()
}
fn new_fd(f: Fd) -> c_int {
    for i in 0..fs().fds.len() {
        if fs().fds[i].is_none() {
            fs().fds[i] = Some(f);
            return BASE + i as c_int;
        }
    }
    fs().fds.push(Some(f));
    BASE + fs().fds.len() as c_int - 1
}
fn fd(n: c_int) -> Option<&'static mut Fd> {
    fs().fds.get_mut((n - BASE) as usize).and_then(|f| f.as_mut())
}
fn crash_point(kinds: u64) -> u64 {
    if !fs().crash {
        return 0;
    }
    let k = choice(1 + kinds, "crash");
    if k == 1 {
        throw();
    }
    k
}
unsafe fn cs(p: *const c_char) -> String {
    CStr::from_ptr(p).to_string_lossy().into_owned()
}
unsafe fn path_at(d: c_int, p: *const c_char) -> String {
    let s = cs(p);
    if s.starts_with('/') || d == -100 {
        return norm(&s);
    }
    match fd(d) {
        Some(f) => norm(&format!("{}/{}", f.path, s)),
        None => norm(&s),
    }
}
fn open_path(path: String, flags: c_int) -> c_int {
    let acc = flags & 3;
    let (creat, excl, trunc, append, dir) =
        (flags & 0x40 != 0, flags & 0x80 != 0, flags & 0x200 != 0, flags & 0x400 != 0, flags & 0x10000 != 0);
    let mk = |file| Fd { file, path: path.clone(), pos: 0, append, read: acc != 1, write: acc != 0 };
    match fs().nodes.get(&path).copied() {
        Some(Ent::Dir) => {
            if acc != 0 || creat {
                return fail(EISDIR);
            }
            new_fd(mk(None))
        }
        Some(Ent::File(i)) => {
            if creat && excl {
                return fail(EEXIST);
            }
            if dir {
                return fail(ENOTDIR);
            }
            if io_fault(1) == 1 {
                return fail(EIO);
            }
            if trunc && !fs().files[i].is_empty() {
                crash_point(1);
                fs().files[i].clear();
            }
            new_fd(mk(Some(i)))
        }
        None => {
            if !creat {
                return fail(ENOENT);
            }
            if !matches!(fs().nodes.get(&parent(&path)), Some(Ent::Dir)) {
                return fail(ENOENT);
            }
            if io_fault(1) == 1 {
                return fail(EIO);
            }
            crash_point(1);
            fs().files.push(vec![]);
            let i = fs().files.len() - 1;
            fs().nodes.insert(path.clone(), Ent::File(i));
            new_fd(mk(Some(i)))
        }
    }
}
fn write_fd(n: c_int, d: &[u8]) -> isize {
    let Some(f) = fd(n).cloned() else { return fail(EBADF) as isize };
    let Some(i) = f.file else { return fail(EBADF) as isize };
    if !f.write {
        return fail(EBADF) as isize;
    }
    let mut len = d.len();
    let mut die = false;
    if len > 0 {
        match io_fault(if len > 1 { 2 } else { 1 }) {
            0 => {}
            1 => return fail(EIO) as isize,
            _ => len /= 2,
        }
    }
    if len > 0 && crash_point(if len > 1 { 2 } else { 1 }) == 2 {
        len /= 2;
        die = true;
    }
    let file = &mut fs().files[i];
    let pos = if f.append { file.len() } else { f.pos };
    if file.len() < pos + len {
        file.resize(pos + len, 0);
    }
    file[pos..pos + len].copy_from_slice(&d[..len]);
    fd(n).unwrap().pos = pos + len;
    if die {
        throw();
    }
    len as isize
}
macro_rules! pass {
    ($n:expr $(, $a:expr)*) => { syscall($n $(, $a)*) };
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: c_int) -> c_int {
    if !active() {
        return pass!(2, p, flags, mode) as c_int;
    }
    open_path(path_at(-100, p), flags)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, p: *const c_char, flags: c_int, mode: c_int) -> c_int {
    if !active() {
        return pass!(257, d, p, flags, mode) as c_int;
    }
    open_path(path_at(d, p), flags)
}
#[no_mangle]
pub unsafe extern "C" fn close(n: c_int) -> c_int {
    if n < BASE {
        return pass!(3, n) as c_int;
    }
    if let Some(f) = fs().fds.get_mut((n - BASE) as usize) {
        *f = None;
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn read(n: c_int, p: *mut c_void, l: usize) -> isize {
    if n < BASE {
        return pass!(0, n, p, l) as isize;
    }
    let Some(f) = fd(n) else { return fail(EBADF) as isize };
    let Some(i) = f.file else { return fail(EISDIR) as isize };
    if !f.read {
        return fail(EBADF) as isize;
    }
    if io_fault(1) == 1 {
        return fail(EIO) as isize;
    }
    let d = &fs().files[i];
    let a = f.pos.min(d.len());
    let b = (f.pos + l).min(d.len());
    std::ptr::copy_nonoverlapping(d[a..b].as_ptr(), p as *mut u8, b - a);
    f.pos = b.max(f.pos);
    (b - a) as isize
}
#[no_mangle]
pub unsafe extern "C" fn write(n: c_int, p: *const c_void, l: usize) -> isize {
    if n < BASE {
        return pass!(1, n, p, l) as isize;
    }
    write_fd(n, std::slice::from_raw_parts(p as *const u8, l))
}
#[no_mangle]
pub unsafe extern "C" fn pread64(n: c_int, p: *mut c_void, l: usize, o: i64) -> isize {
    if n < BASE {
        return pass!(17, n, p, l, o) as isize;
    }
    let Some(f) = fd(n) else { return fail(EBADF) as isize };
    let Some(i) = f.file else { return fail(EISDIR) as isize };
    if !f.read {
        return fail(EBADF) as isize;
    }
    let d = &fs().files[i];
    let a = (o as usize).min(d.len());
    let b = (a + l).min(d.len());
    std::ptr::copy_nonoverlapping(d[a..b].as_ptr(), p as *mut u8, b - a);
    (b - a) as isize
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(n: c_int, p: *const c_void, l: usize, o: i64) -> isize {
    if n < BASE {
        return pass!(18, n, p, l, o) as isize;
    }
    let Some(f) = fd(n) else { return fail(EBADF) as isize };
    let old = f.pos;
    f.pos = o as usize;
    let r = write_fd(n, std::slice::from_raw_parts(p as *const u8, l));
    fd(n).unwrap().pos = old;
    r
}
fn link_path(a: String, b: String) -> c_int {
    let Some(Ent::File(i)) = fs().nodes.get(&a).copied() else { return fail(ENOENT) };
    if fs().nodes.contains_key(&b) {
        return fail(EEXIST);
    }
    match fs().nodes.get(&parent(&b)) {
        Some(Ent::Dir) => {}
        _ => return fail(ENOENT),
    }
    if io_fault(1) == 1 {
        return fail(EIO);
    }
    crash_point(1);
    fs().nodes.insert(b, Ent::File(i));
    0
}
#[no_mangle]
pub unsafe extern "C" fn linkat(d: c_int, a: *const c_char, e: c_int, b: *const c_char, fl: c_int) -> c_int {
    if !active() {
        return pass!(265, d, a, e, b, fl) as c_int;
    }
    link_path(path_at(d, a), path_at(e, b))
}
#[no_mangle]
pub unsafe extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int {
    linkat(-100, a, -100, b, 0)
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(n: c_int, cmd: c_int, arg: usize) -> c_int {
    if n < BASE {
        return pass!(72, n, cmd, arg) as c_int;
    }
    if cmd != 0 && cmd != 1030 {
        return 0;
    }
    let Some(f) = fd(n).cloned() else { return fail(EBADF) };
    new_fd(f)
}
#[repr(C)]
pub struct IoVec(*const u8, usize);
#[no_mangle]
pub unsafe extern "C" fn writev(n: c_int, v: *const IoVec, c: c_int) -> isize {
    if n < BASE {
        return pass!(20, n, v, c) as isize;
    }
    let mut d = vec![];
    for i in 0..c as usize {
        let x = &*v.add(i);
        if x.1 > 0 {
            d.extend_from_slice(std::slice::from_raw_parts(x.0, x.1));
        }
    }
    write_fd(n, &d)
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(n: c_int, o: i64, w: c_int) -> i64 {
    if n < BASE {
        return pass!(8, n, o, w);
    }
    let Some(f) = fd(n) else { return fail(EBADF) as i64 };
    let len = f.file.map(|i| fs().files[i].len()).unwrap_or(0) as i64;
    let p = match w {
        0 => o,
        1 => f.pos as i64 + o,
        _ => len + o,
    };
    if p < 0 {
        return fail(EINVAL) as i64;
    }
    f.pos = p as usize;
    p
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(n: c_int, l: i64) -> c_int {
    if n < BASE {
        return pass!(77, n, l) as c_int;
    }
    let Some(f) = fd(n) else { return fail(EBADF) };
    let Some(i) = f.file else { return fail(EINVAL) };
    if io_fault(1) == 1 {
        return fail(EIO);
    }
    crash_point(1);
    fs().files[i].resize(l as usize, 0);
    0
}
unsafe fn stat_buf(b: *mut u64, dir: bool, size: u64, ino: u64) {
    for i in 0..18 {
        *b.add(i) = 0;
    }
    *b.add(1) = ino;
    *b.add(2) = 1;
    *(b.add(3) as *mut u32) = if dir { 0o040755 } else { 0o100644 };
    *b.add(6) = size;
    *b.add(7) = 4096;
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(n: c_int, b: *mut u64) -> c_int {
    if n < BASE {
        return pass!(5, n, b) as c_int;
    }
    let Some(f) = fd(n) else { return fail(EBADF) };
    let l = f.file.map(|i| fs().files[i].len()).unwrap_or(0) as u64;
    stat_buf(b, f.file.is_none(), l, f.file.unwrap_or(0) as u64 + 1000);
    0
}
unsafe fn stat_path(p: String, b: *mut u64) -> c_int {
    match fs().nodes.get(&p).copied() {
        None => fail(ENOENT),
        Some(Ent::Dir) => {
            stat_buf(b, true, 0, 1);
            0
        }
        Some(Ent::File(i)) => {
            stat_buf(b, false, fs().files[i].len() as u64, i as u64 + 1000);
            0
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn stat64(p: *const c_char, b: *mut u64) -> c_int {
    if !active() {
        return pass!(4, p, b) as c_int;
    }
    stat_path(path_at(-100, p), b)
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(p: *const c_char, b: *mut u64) -> c_int {
    if !active() {
        return pass!(6, p, b) as c_int;
    }
    stat_path(path_at(-100, p), b)
}
#[no_mangle]
pub unsafe extern "C" fn fstatat64(d: c_int, p: *const c_char, b: *mut u64, fl: c_int) -> c_int {
    if !active() {
        return pass!(262, d, p, b, fl) as c_int;
    }
    stat_path(path_at(d, p), b)
}
#[no_mangle]
pub unsafe extern "C" fn statx(d: c_int, p: *const c_char, fl: c_int, m: u32, b: *mut c_void) -> c_int {
    if !active() {
        return pass!(332, d, p, fl, m, b) as c_int;
    }
    if p.is_null() {
        return fail(14);
    }
    let q = cs(p);
    let e = if q.is_empty() && fl & 0x1000 != 0 {
        match fd(d) {
            Some(f) => f.file.map(Ent::File).unwrap_or(Ent::Dir),
            None => return fail(EBADF),
        }
    } else {
        match fs().nodes.get(&path_at(d, p)).copied() {
            Some(e) => e,
            None => return fail(ENOENT),
        }
    };
    let b = b as *mut u8;
    std::ptr::write_bytes(b, 0, 256);
    *(b as *mut u32) = 0x7ff;
    *(b.add(4) as *mut u32) = 4096;
    *(b.add(16) as *mut u32) = 1;
    match e {
        Ent::Dir => {
            *(b.add(28) as *mut u16) = 0o040755;
            *(b.add(32) as *mut u64) = 1;
        }
        Ent::File(i) => {
            *(b.add(28) as *mut u16) = 0o100644;
            *(b.add(32) as *mut u64) = i as u64 + 1000;
            *(b.add(40) as *mut u64) = fs().files[i].len() as u64;
        }
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(p: *const c_char, mode: u32) -> c_int {
    if !active() {
        return pass!(83, p, mode) as c_int;
    }
    let p = path_at(-100, p);
    if fs().nodes.contains_key(&p) {
        return fail(EEXIST);
    }
    match fs().nodes.get(&parent(&p)) {
        Some(Ent::Dir) => {}
        Some(_) => return fail(ENOTDIR),
        None => return fail(ENOENT),
    }
    if io_fault(1) == 1 {
        return fail(EIO);
    }
    crash_point(1);
    fs().nodes.insert(p, Ent::Dir);
    0
}
fn remove(p: String, dir: bool) -> c_int {
    match fs().nodes.get(&p) {
        None => return fail(ENOENT),
        Some(Ent::Dir) if !dir => return fail(EISDIR),
        Some(Ent::File(_)) if dir => return fail(ENOTDIR),
        _ => {}
    }
    if dir && !children(&p).is_empty() {
        return fail(ENOTEMPTY);
    }
    if io_fault(1) == 1 {
        return fail(EIO);
    }
    crash_point(1);
    fs().nodes.remove(&p);
    0
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    if !active() {
        return pass!(87, p) as c_int;
    }
    remove(path_at(-100, p), false)
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(p: *const c_char) -> c_int {
    if !active() {
        return pass!(84, p) as c_int;
    }
    remove(path_at(-100, p), true)
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(d: c_int, p: *const c_char, fl: c_int) -> c_int {
    if !active() {
        return pass!(263, d, p, fl) as c_int;
    }
    remove(path_at(d, p), fl & 0x200 != 0)
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    if !active() {
        return pass!(82, a, b) as c_int;
    }
    let (a, b) = (path_at(-100, a), path_at(-100, b));
    let n = &fs().nodes;
    if !n.contains_key(&a) {
        return fail(ENOENT);
    }
    match n.get(&parent(&b)) {
        Some(Ent::Dir) => {}
        _ => return fail(ENOENT),
    }
    match (&n[&a], n.get(&b)) {
        (Ent::File(_), Some(Ent::Dir)) => return fail(EISDIR),
        (Ent::Dir, Some(Ent::File(_))) => return fail(ENOTDIR),
        (Ent::Dir, Some(Ent::Dir)) if a != b && !children(&b).is_empty() => return fail(ENOTEMPTY),
        _ => {}
    }
    if io_fault(1) == 1 {
        return fail(EIO);
    }
    crash_point(1);
    if a != b {
        let pre = format!("{}/", a);
        let mv: Vec<String> = fs().nodes.keys().filter(|k| **k == a || k.starts_with(&pre)).cloned().collect();
        for k in mv {
            let e = fs().nodes.remove(&k).unwrap();
            fs().nodes.insert(format!("{}{}", b, &k[a.len()..]), e);
        }
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn realpath(p: *const c_char, o: *mut c_char) -> *mut c_char {
    let q = path_at(-100, p);
    if !fs().nodes.contains_key(&q) {
        fail(ENOENT);
        return std::ptr::null_mut();
    }
    let o = if o.is_null() { calloc(1, q.len() + 1) as *mut c_char } else { o };
    std::ptr::copy_nonoverlapping(q.as_ptr(), o as *mut u8, q.len());
    *o.add(q.len()) = 0;
    o
}
fn start_dir(p: String, n: c_int) -> *mut c_void {
    match fs().nodes.get(&p) {
        Some(Ent::Dir) => {}
        Some(_) => {
            fail(ENOTDIR);
            return std::ptr::null_mut();
        }
        None => {
            fail(ENOENT);
            return std::ptr::null_mut();
        }
    }
    if io_fault(1) == 1 {
        fail(EIO);
        return std::ptr::null_mut();
    }
    let n = if n == 0 {
        new_fd(Fd { file: None, path: p.clone(), pos: 0, append: false, read: true, write: false })
    } else {
        n
    };
    let mut names: Vec<String> = children(&p).into_iter().map(|c| c[c.rfind('/').unwrap() + 1..].to_string()).collect();
    names.insert(0, "..".into());
    names.insert(0, ".".into());
    let a = unsafe { calloc(1, 288) };
    fs().dirs.push((a as usize, names, 0, n));
    a
}
#[no_mangle]
pub unsafe extern "C" fn opendir(p: *const c_char) -> *mut c_void {
    start_dir(path_at(-100, p), 0)
}
#[no_mangle]
pub unsafe extern "C" fn fdopendir(n: c_int) -> *mut c_void {
    match fd(n) {
        Some(f) => start_dir(f.path.clone(), n),
        None => {
            fail(EBADF);
            std::ptr::null_mut()
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn readdir64(p: *mut u8) -> *mut u8 {
    let Some(d) = fs().dirs.iter_mut().find(|d| d.0 == p as usize) else { return std::ptr::null_mut() };
    if d.2 >= d.1.len() {
        return std::ptr::null_mut();
    }
    let n = d.1[d.2].clone();
    d.2 += 1;
    let full = norm(&format!("{}/{}", fd(d.3).unwrap().path, n));
    let dir = !matches!(fs().nodes.get(&full), Some(Ent::File(_)));
    *(p as *mut u64) = 1;
    *(p.add(8) as *mut u64) = 0;
    *(p.add(16) as *mut u16) = 280;
    *p.add(18) = if dir { 4 } else { 8 };
    std::ptr::copy_nonoverlapping(n.as_ptr(), p.add(19), n.len());
    *p.add(19 + n.len()) = 0;
    p
}
#[no_mangle]
pub unsafe extern "C" fn closedir(p: *mut u8) -> c_int {
    if let Some(i) = fs().dirs.iter().position(|d| d.0 == p as usize) {
        let n = fs().dirs[i].3;
        fs().fds[(n - BASE) as usize] = None;
        fs().dirs.remove(i);
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn dirfd(p: *mut u8) -> c_int {
    fs().dirs.iter().find(|d| d.0 == p as usize).map(|d| d.3).unwrap_or(-1)
}
#[no_mangle]
pub unsafe extern "C" fn fsync(n: c_int) -> c_int {
    if n < BASE {
        return pass!(74, n) as c_int;
    }
    if io_fault(1) == 1 {
        return fail(EIO);
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(n: c_int) -> c_int {
    if n < BASE {
        return pass!(75, n) as c_int;
    }
    if io_fault(1) == 1 {
        return fail(EIO);
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn fchmod(n: c_int, m: u32) -> c_int {
    if n < BASE {
        return pass!(91, n, m) as c_int;
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn chmod(p: *const c_char, m: u32) -> c_int {
    if !active() {
        return pass!(90, p, m) as c_int;
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(
    a: c_int, x: *mut i64, b: c_int, y: *mut i64, l: usize, f: u32,
) -> isize {
    if !active() {
        return pass!(326, a, x, b, y, l, f) as isize;
    }
    if !x.is_null() || !y.is_null() {
        return fail(ENOSYS) as isize;
    }
    let Some(f) = fd(a) else { return fail(EBADF) as isize };
    let Some(i) = f.file else { return fail(EISDIR) as isize };
    if !f.read {
        return fail(EBADF) as isize;
    }
    let d = fs().files[i].clone();
    let p = f.pos.min(d.len());
    let q = f.pos.saturating_add(l).min(d.len()).max(p);
    let r = write_fd(b, &d[p..q]);
    if r >= 0 {
        let f = fd(a).unwrap();
        f.pos = f.pos.max(p + r as usize);
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(a: c_int, b: c_int, o: *mut i64, l: usize) -> isize {
    if !active() {
        return pass!(40, a, b, o, l) as isize;
    }
    fail(ENOSYS) as isize
}
#[no_mangle]
pub unsafe extern "C" fn splice(a: c_int, x: *mut i64, b: c_int, y: *mut i64, l: usize, f: u32) -> isize {
    if !active() {
        return pass!(275, a, x, b, y, l, f) as isize;
    }
    fail(ENOSYS) as isize
}
