//! The file system the executed code sees: in memory, forked with the path.
use crate::exec::*;
use crate::expr::*;
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone)]
pub enum Ent {
    Dir,
    File(usize),
}
#[derive(Clone)]
pub struct Fd {
    file: Option<usize>,
    path: String,
    pos: usize,
    append: bool,
    read: bool,
    write: bool,
}
#[derive(Clone)]
pub struct Vfs {
    pub nodes: BTreeMap<String, Ent>,
    pub files: Vec<Rc<Vec<E>>>,
    fds: Vec<Option<Fd>>,
    dirs: Vec<(u64, Vec<String>, usize, u64)>, // entry buffer, names, position, fd
}
impl Vfs {
    pub fn new() -> Vfs {
        let mut nodes = BTreeMap::new();
        nodes.insert("/".into(), Ent::Dir);
        nodes.insert("/v".into(), Ent::Dir);
        Vfs { nodes, files: vec![], fds: vec![None, None, None], dirs: vec![] }
    }
    fn norm(&self, p: &str) -> String {
        let mut v: Vec<&str> = vec![];
        for c in p.split('/') {
            match c {
                "" | "." => {}
                ".." => {
                    v.pop();
                }
                c => v.push(c),
            }
        }
        format!("/{}", v.join("/"))
    }
    fn parent(p: &str) -> String {
        match p.rfind('/') {
            Some(0) | None => "/".into(),
            Some(i) => p[..i].into(),
        }
    }
    fn children(&self, p: &str) -> Vec<String> {
        let pre = if p == "/" { "/".to_string() } else { format!("{}/", p) };
        self.nodes
            .keys()
            .filter(|k| k.starts_with(&pre) && k.len() > pre.len() && !k[pre.len()..].contains('/'))
            .cloned()
            .collect()
    }
    fn new_fd(&mut self, f: Fd) -> u64 {
        for i in 3..self.fds.len() {
            if self.fds[i].is_none() {
                self.fds[i] = Some(f);
                return i as u64;
            }
        }
        self.fds.push(Some(f));
        self.fds.len() as u64 - 1
    }
}
const ENOENT: u64 = 2;
const EIO: u64 = 5;
const EBADF: u64 = 9;
const EEXIST: u64 = 17;
const ENOTDIR: u64 = 20;
const EISDIR: u64 = 21;
const EINVAL: u64 = 22;
const ENOTEMPTY: u64 = 39;

impl Engine {
    fn fail(&self, st: &mut State, e: u64, wide: bool) -> Result<Val, Ctl> {
        self.wr(st, self.errno_addr, 4, e)?;
        Ok(Val::C(if wide { u64::MAX } else { 0xffff_ffff }))
    }
    fn stat_buf(&self, st: &mut State, buf: u64, dir: bool, size: u64, ino: u64) -> Result<(), Ctl> {
        for i in 0..18 {
            self.wr(st, buf + i * 8, 8, 0)?;
        }
        self.wr(st, buf + 8, 8, ino)?;
        self.wr(st, buf + 16, 8, 1)?;
        self.wr(st, buf + 24, 4, if dir { 0o040755 } else { 0o100644 })?;
        self.wr(st, buf + 48, 8, size)?;
        self.wr(st, buf + 56, 8, 4096)
    }
    fn path_at(&self, st: &State, dirfd: u64, p: u64) -> Result<String, Ctl> {
        let s = self.cstr(st, p)?;
        if s.starts_with('/') || dirfd as u32 as i32 == -100 {
            return Ok(st.vfs.norm(&s));
        }
        match st.vfs.fds.get(dirfd as usize).and_then(|f| f.as_ref()) {
            Some(f) => Ok(st.vfs.norm(&format!("{}/{}", f.path, s))),
            None => fatal("openat: bad directory"),
        }
    }
    fn open(&mut self, st: &mut State, path: String, flags: u64) -> Result<Val, Ctl> {
        let acc = flags & 3;
        let (creat, excl, trunc, append, dir) =
            (flags & 0x40 != 0, flags & 0x80 != 0, flags & 0x200 != 0, flags & 0x400 != 0, flags & 0x10000 != 0);
        let node = st.vfs.nodes.get(&path).cloned();
        let mk = |file: Option<usize>| Fd { file, path: path.clone(), pos: 0, append, read: acc != 1, write: acc != 0 };
        match node {
            Some(Ent::Dir) => {
                if acc != 0 || creat {
                    return self.fail(st, EISDIR, false);
                }
                let fd = mk(None);
                Ok(Val::C(Rc::make_mut(&mut st.vfs).new_fd(fd)))
            }
            Some(Ent::File(i)) => {
                if creat && excl {
                    return self.fail(st, EEXIST, false);
                }
                if dir {
                    return self.fail(st, ENOTDIR, false);
                }
                if self.io_fault(st, 1)? == 1 {
                    return self.fail(st, EIO, false);
                }
                if trunc && !st.vfs.files[i].is_empty() {
                    self.crash_point(st, 1)?;
                    Rc::make_mut(&mut st.vfs).files[i] = Rc::new(vec![]);
                }
                let fd = mk(Some(i));
                Ok(Val::C(Rc::make_mut(&mut st.vfs).new_fd(fd)))
            }
            None => {
                if !creat {
                    return self.fail(st, ENOENT, false);
                }
                match st.vfs.nodes.get(&Vfs::parent(&path)) {
                    Some(Ent::Dir) => {}
                    _ => return self.fail(st, ENOENT, false),
                }
                if self.io_fault(st, 1)? == 1 {
                    return self.fail(st, EIO, false);
                }
                self.crash_point(st, 1)?;
                let v = Rc::make_mut(&mut st.vfs);
                v.files.push(Rc::new(vec![]));
                let i = v.files.len() - 1;
                v.nodes.insert(path.clone(), Ent::File(i));
                Ok(Val::C(v.new_fd(mk(Some(i)))))
            }
        }
    }
    fn write_fd(&mut self, st: &mut State, fd: u64, data: Vec<E>) -> Result<Val, Ctl> {
        self.write_at(st, fd, data, None)
    }
    fn write_at(&mut self, st: &mut State, fd: u64, data: Vec<E>, at: Option<usize>) -> Result<Val, Ctl> {
        if fd == 1 || fd == 2 {
            return Ok(Val::C(data.len() as u64));
        }
        let Some(Some(f)) = st.vfs.fds.get(fd as usize).cloned() else { return self.fail(st, EBADF, true) };
        let Some(i) = f.file else { return self.fail(st, EBADF, true) };
        if !f.write {
            return self.fail(st, EBADF, true);
        }
        let mut n = data.len();
        let mut die = false;
        if n > 0 {
            match self.io_fault(st, if n > 1 { 2 } else { 1 })? {
                0 => {}
                1 => return self.fail(st, EIO, true),
                _ => n /= 2, // a short write
            }
        }
        if n > 0 && self.crash_point(st, if n > 1 { 2 } else { 1 })? == 2 {
            n /= 2; // a torn write
            die = true;
        }
        let v = Rc::make_mut(&mut st.vfs);
        let file = Rc::make_mut(&mut v.files[i]);
        let pos = if f.append { file.len() } else { at.unwrap_or(f.pos) };
        while file.len() < pos + n {
            file.push(konst(8, 0));
        }
        file[pos..pos + n].copy_from_slice(&data[..n]);
        if at.is_none() {
            v.fds[fd as usize].as_mut().unwrap().pos = pos + n;
        }
        if die {
            self.crash_now(st)?;
        }
        Ok(Val::C(n as u64))
    }
    pub fn copy_range(&mut self, st: &mut State, from: u64, to: u64, n: u64) -> Result<Val, Ctl> {
        let Some(Some(f)) = st.vfs.fds.get(from as usize).cloned() else { return self.fail(st, EBADF, true) };
        let Some(i) = f.file else { return self.fail(st, EISDIR, true) };
        if !f.read {
            return self.fail(st, EBADF, true);
        }
        let d = st.vfs.files[i].clone();
        let a = f.pos.min(d.len());
        let b = (f.pos as u64).saturating_add(n).min(d.len() as u64) as usize;
        let b = b.max(a);
        let r = self.write_fd(st, to, d[a..b].to_vec())?;
        if let Val::C(n) = r {
            if n != u64::MAX {
                Rc::make_mut(&mut st.vfs).fds[from as usize].as_mut().unwrap().pos = f.pos.max(a + n as usize);
            }
        }
        Ok(r)
    }
    pub fn file_op(&mut self, st: &mut State, name: &str, av: &[Val]) -> Result<Val, Ctl> {
        macro_rules! c {
            ($i:expr) => {
                self.conc(st, &av[$i], 64)?
            };
        }
        match name {
            "open64" | "open" => {
                let p = { let (x, y) = ((-100i32) as u32 as u64, c!(0)); self.path_at(st, x, y)? };
                let f = c!(1);
                self.open(st, p, f)
            }
            "openat64" | "openat" => {
                let p = { let (x, y) = (c!(0), c!(1)); self.path_at(st, x, y)? };
                let f = c!(2);
                self.open(st, p, f)
            }
            "close" => {
                let fd = c!(0) as usize;
                let v = Rc::make_mut(&mut st.vfs);
                if fd < v.fds.len() && fd > 2 {
                    v.fds[fd] = None;
                }
                Ok(Val::C(0))
            }
            "read" => {
                let (fd, p, n) = (c!(0), c!(1), c!(2));
                let Some(Some(f)) = st.vfs.fds.get(fd as usize).cloned() else { return self.fail(st, EBADF, true) };
                let Some(i) = f.file else { return self.fail(st, EISDIR, true) };
                if !f.read {
                    return self.fail(st, EBADF, true);
                }
                if self.io_fault(st, 1)? == 1 {
                    return self.fail(st, EIO, true);
                }
                let d = st.vfs.files[i].clone();
                let a = f.pos.min(d.len());
                let b = (f.pos + n as usize).min(d.len());
                self.set_bytes(st, p, &d[a..b])?;
                Rc::make_mut(&mut st.vfs).fds[fd as usize].as_mut().unwrap().pos = b.max(f.pos);
                Ok(Val::C((b - a) as u64))
            }
            "write" => {
                let (fd, p, n) = (c!(0), c!(1), c!(2));
                let d = self.bytes(st, p, n)?;
                self.write_fd(st, fd, d)
            }
            "pread64" | "pread" => {
                let (fd, p, n, o) = (c!(0), c!(1), c!(2), c!(3));
                let Some(Some(f)) = st.vfs.fds.get(fd as usize).cloned() else { return self.fail(st, EBADF, true) };
                let Some(i) = f.file else { return self.fail(st, EISDIR, true) };
                if !f.read {
                    return self.fail(st, EBADF, true);
                }
                let d = st.vfs.files[i].clone();
                let a = (o as usize).min(d.len());
                let b = (a + n as usize).min(d.len());
                self.set_bytes(st, p, &d[a..b])?;
                Ok(Val::C((b - a) as u64))
            }
            "pwrite64" | "pwrite" => {
                let (fd, p, n, o) = (c!(0), c!(1), c!(2), c!(3));
                let d = self.bytes(st, p, n)?;
                self.write_at(st, fd, d, Some(o as usize))
            }
            "link" | "linkat" => {
                let (a, b) = if name == "link" {
                    let (x, y, z) = ((-100i32) as u32 as u64, c!(0), c!(1));
                    (self.path_at(st, x, y)?, self.path_at(st, x, z)?)
                } else {
                    let (x, y, z, w) = (c!(0), c!(1), c!(2), c!(3));
                    (self.path_at(st, x, y)?, self.path_at(st, z, w)?)
                };
                let Some(Ent::File(i)) = st.vfs.nodes.get(&a).cloned() else { return self.fail(st, ENOENT, false) };
                if st.vfs.nodes.contains_key(&b) {
                    return self.fail(st, EEXIST, false);
                }
                match st.vfs.nodes.get(&Vfs::parent(&b)) {
                    Some(Ent::Dir) => {}
                    _ => return self.fail(st, ENOENT, false),
                }
                if self.io_fault(st, 1)? == 1 {
                    return self.fail(st, EIO, false);
                }
                self.crash_point(st, 1)?;
                Rc::make_mut(&mut st.vfs).nodes.insert(b, Ent::File(i));
                Ok(Val::C(0))
            }
            "fcntl" | "fcntl64" => {
                let (fd, cmd) = (c!(0), c!(1));
                if cmd != 0 && cmd != 1030 {
                    return Ok(Val::C(0));
                }
                let Some(Some(f)) = st.vfs.fds.get(fd as usize).cloned() else { return self.fail(st, EBADF, false) };
                Ok(Val::C(Rc::make_mut(&mut st.vfs).new_fd(f)))
            }
            "writev" => {
                let (fd, p, n) = (c!(0), c!(1), c!(2));
                let mut d = vec![];
                for i in 0..n {
                    let (Val::C(a), Val::C(l)) = (self.rd(st, p + i * 16, 8)?, self.rd(st, p + i * 16 + 8, 8)?) else {
                        return fatal("writev");
                    };
                    d.extend(self.bytes(st, a, l)?);
                }
                self.write_fd(st, fd, d)
            }
            "lseek64" | "lseek" => {
                let (fd, o, w) = (c!(0), c!(1), c!(2));
                let Some(Some(f)) = st.vfs.fds.get(fd as usize).cloned() else { return self.fail(st, EBADF, true) };
                let n = f.file.map(|i| st.vfs.files[i].len()).unwrap_or(0) as i64;
                let p = match w {
                    0 => o as i64,
                    1 => f.pos as i64 + o as i64,
                    _ => n + o as i64,
                };
                if p < 0 {
                    return self.fail(st, EINVAL, true);
                }
                Rc::make_mut(&mut st.vfs).fds[fd as usize].as_mut().unwrap().pos = p as usize;
                Ok(Val::C(p as u64))
            }
            "ftruncate64" | "ftruncate" => {
                let (fd, n) = (c!(0), c!(1));
                let Some(Some(f)) = st.vfs.fds.get(fd as usize).cloned() else { return self.fail(st, EBADF, false) };
                let Some(i) = f.file else { return self.fail(st, EINVAL, false) };
                if self.io_fault(st, 1)? == 1 {
                    return self.fail(st, EIO, false);
                }
                self.crash_point(st, 1)?;
                let v = Rc::make_mut(&mut st.vfs);
                Rc::make_mut(&mut v.files[i]).resize(n as usize, konst(8, 0));
                Ok(Val::C(0))
            }
            "fstat64" | "fstat" => {
                let (fd, b) = (c!(0), c!(1));
                let Some(Some(f)) = st.vfs.fds.get(fd as usize).cloned() else { return self.fail(st, EBADF, false) };
                let n = f.file.map(|i| st.vfs.files[i].len()).unwrap_or(0) as u64;
                self.stat_buf(st, b, f.file.is_none(), n, f.file.unwrap_or(0) as u64 + 1000)?;
                Ok(Val::C(0))
            }
            "stat64" | "lstat64" | "stat" | "lstat" | "fstatat64" | "fstatat" => {
                let (p, b) = if name.starts_with("fstatat") {
                    ({ let (x, y) = (c!(0), c!(1)); self.path_at(st, x, y)? }, c!(2))
                } else {
                    ({ let (x, y) = ((-100i32) as u32 as u64, c!(0)); self.path_at(st, x, y)? }, c!(1))
                };
                match st.vfs.nodes.get(&p).cloned() {
                    None => self.fail(st, ENOENT, false),
                    Some(Ent::Dir) => {
                        self.stat_buf(st, b, true, 0, 1)?;
                        Ok(Val::C(0))
                    }
                    Some(Ent::File(i)) => {
                        let n = st.vfs.files[i].len() as u64;
                        self.stat_buf(st, b, false, n, i as u64 + 1000)?;
                        Ok(Val::C(0))
                    }
                }
            }
            "mkdir" => {
                let p = { let (x, y) = ((-100i32) as u32 as u64, c!(0)); self.path_at(st, x, y)? };
                if st.vfs.nodes.contains_key(&p) {
                    return self.fail(st, EEXIST, false);
                }
                match st.vfs.nodes.get(&Vfs::parent(&p)) {
                    Some(Ent::Dir) => {}
                    Some(_) => return self.fail(st, ENOTDIR, false),
                    None => return self.fail(st, ENOENT, false),
                }
                if self.io_fault(st, 1)? == 1 {
                    return self.fail(st, EIO, false);
                }
                self.crash_point(st, 1)?;
                Rc::make_mut(&mut st.vfs).nodes.insert(p, Ent::Dir);
                Ok(Val::C(0))
            }
            "unlink" | "rmdir" | "unlinkat" => {
                let (p, dir) = match name {
                    "unlinkat" => ({ let (x, y) = (c!(0), c!(1)); self.path_at(st, x, y)? }, c!(2) & 0x200 != 0),
                    n => ({ let (x, y) = ((-100i32) as u32 as u64, c!(0)); self.path_at(st, x, y)? }, n == "rmdir"),
                };
                match st.vfs.nodes.get(&p) {
                    None => return self.fail(st, ENOENT, false),
                    Some(Ent::Dir) if !dir => return self.fail(st, EISDIR, false),
                    Some(Ent::File(_)) if dir => return self.fail(st, ENOTDIR, false),
                    _ => {}
                }
                if dir && !st.vfs.children(&p).is_empty() {
                    return self.fail(st, ENOTEMPTY, false);
                }
                if self.io_fault(st, 1)? == 1 {
                    return self.fail(st, EIO, false);
                }
                self.crash_point(st, 1)?;
                Rc::make_mut(&mut st.vfs).nodes.remove(&p);
                Ok(Val::C(0))
            }
            "rename" => {
                let a = { let (x, y) = ((-100i32) as u32 as u64, c!(0)); self.path_at(st, x, y)? };
                let b = { let (x, y) = ((-100i32) as u32 as u64, c!(1)); self.path_at(st, x, y)? };
                if !st.vfs.nodes.contains_key(&a) {
                    return self.fail(st, ENOENT, false);
                }
                match st.vfs.nodes.get(&Vfs::parent(&b)) {
                    Some(Ent::Dir) => {}
                    _ => return self.fail(st, ENOENT, false),
                }
                match (&st.vfs.nodes[&a], st.vfs.nodes.get(&b)) {
                    (Ent::File(_), Some(Ent::Dir)) => return self.fail(st, EISDIR, false),
                    (Ent::Dir, Some(Ent::File(_))) => return self.fail(st, ENOTDIR, false),
                    (Ent::Dir, Some(Ent::Dir)) if a != b && !st.vfs.children(&b).is_empty() => {
                        return self.fail(st, ENOTEMPTY, false)
                    }
                    _ => {}
                }
                if self.io_fault(st, 1)? == 1 {
                    return self.fail(st, EIO, false);
                }
                self.crash_point(st, 1)?;
                let v = Rc::make_mut(&mut st.vfs);
                if a != b {
                    let pre = format!("{}/", a);
                    let mv: Vec<String> = v.nodes.keys().filter(|k| **k == a || k.starts_with(&pre)).cloned().collect();
                    for k in mv {
                        let e = v.nodes.remove(&k).unwrap();
                        v.nodes.insert(format!("{}{}", b, &k[a.len()..]), e);
                    }
                }
                Ok(Val::C(0))
            }
            "realpath" => {
                let p = { let (x, y) = ((-100i32) as u32 as u64, c!(0)); self.path_at(st, x, y)? };
                let q = c!(1);
                if !st.vfs.nodes.contains_key(&p) {
                    self.fail(st, ENOENT, true)?;
                    return Ok(Val::C(0));
                }
                let mut b: Vec<E> = p.bytes().map(|x| konst(8, x as u64)).collect();
                b.push(konst(8, 0));
                let q = if q == 0 { self.alloc(st, b.len() as u64)? } else { q };
                self.set_bytes(st, q, &b)?;
                Ok(Val::C(q))
            }
            "getcwd" => {
                let p = c!(0);
                let b: Vec<E> = b"/v\0".iter().map(|x| konst(8, *x as u64)).collect();
                self.set_bytes(st, p, &b)?;
                Ok(Val::C(p))
            }
            "opendir" | "fdopendir" => {
                let (p, fd) = if name == "opendir" {
                    ({ let (x, y) = ((-100i32) as u32 as u64, c!(0)); self.path_at(st, x, y)? }, 0)
                } else {
                    let fd = c!(0);
                    match st.vfs.fds.get(fd as usize).and_then(|f| f.as_ref()) {
                        Some(f) => (f.path.clone(), fd),
                        None => return fatal("fdopendir"),
                    }
                };
                match st.vfs.nodes.get(&p) {
                    Some(Ent::Dir) => {}
                    Some(_) => {
                        self.fail(st, ENOTDIR, true)?;
                        return Ok(Val::C(0));
                    }
                    None => {
                        self.fail(st, ENOENT, true)?;
                        return Ok(Val::C(0));
                    }
                }
                if self.io_fault(st, 1)? == 1 {
                    self.fail(st, EIO, true)?;
                    return Ok(Val::C(0));
                }
                let fd = if fd == 0 {
                    let f = Fd { file: None, path: p.clone(), pos: 0, append: false, read: true, write: false };
                    Rc::make_mut(&mut st.vfs).new_fd(f)
                } else {
                    fd
                };
                let mut names: Vec<String> =
                    st.vfs.children(&p).into_iter().map(|c| c[c.rfind('/').unwrap() + 1..].to_string()).collect();
                names.insert(0, "..".into());
                names.insert(0, ".".into());
                let a = self.alloc(st, 288)?;
                Rc::make_mut(&mut st.vfs).dirs.push((a, names, 0, fd));
                Ok(Val::C(a))
            }
            "readdir64" | "readdir" => {
                let p = c!(0);
                let v = Rc::make_mut(&mut st.vfs);
                let Some(d) = v.dirs.iter_mut().find(|d| d.0 == p) else { return fatal("readdir") };
                if d.2 >= d.1.len() {
                    return Ok(Val::C(0));
                }
                let n = d.1[d.2].clone();
                d.2 += 1;
                let full = format!("{}/{}", v.fds[d.3 as usize].as_ref().unwrap().path.trim_end_matches('/'), n);
                let full = v.norm(&full);
                let dir = !matches!(v.nodes.get(&full), Some(Ent::File(_)));
                self.wr(st, p, 8, 1)?;
                self.wr(st, p + 8, 8, 0)?;
                self.wr(st, p + 16, 2, 280)?;
                self.wr(st, p + 18, 1, if dir { 4 } else { 8 })?;
                let mut b: Vec<E> = n.bytes().map(|x| konst(8, x as u64)).collect();
                b.push(konst(8, 0));
                self.set_bytes(st, p + 19, &b)?;
                Ok(Val::C(p))
            }
            "closedir" => {
                let p = c!(0);
                let v = Rc::make_mut(&mut st.vfs);
                if let Some(i) = v.dirs.iter().position(|d| d.0 == p) {
                    let fd = v.dirs[i].3 as usize;
                    v.fds[fd] = None;
                    v.dirs.remove(i);
                }
                Ok(Val::C(0))
            }
            "dirfd" => {
                let p = c!(0);
                match st.vfs.dirs.iter().find(|d| d.0 == p) {
                    Some(d) => Ok(Val::C(d.3)),
                    None => fatal("dirfd"),
                }
            }
            "readlink" => self.fail(st, EINVAL, true),
 "fsync" | "fdatasync" => match self.io_fault(st, 1)? {
                1 => self.fail(st, EIO, false),
                _ => Ok(Val::C(0)),
            },
            "fchmod" | "flock" | "chmod" | "posix_fadvise" | "posix_fadvise64" => Ok(Val::C(0)),
            "copy_file_range" | "sendfile64" | "sendfile" => self.fail(st, 38, true),
            _ => fatal(format!("external function {}", name)),
        }
    }
}
