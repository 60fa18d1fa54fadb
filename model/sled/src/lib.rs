//! Model of `sled` by its documented contract: an ordered map with atomic
//! single-key operations, serialisable transactions, and durability of what a
//! completed `flush` (or a clean close) covers.  What a crash keeps beyond the
//! last flush is any prefix of the operations since (`model::crash`).
use std::cell::{Cell, RefCell};
use std::fmt;
use std::ops::{Bound, Deref, DerefMut, RangeBounds};
use std::path::{Path, PathBuf};
use std::sync::{Arc, Weak};

// ------------------------------------------------------------------ errors
#[derive(Debug)]
pub enum Error {
    CollectionNotFound(IVec),
    Unsupported(String),
    ReportableBug(String),
    Io(std::io::Error),
    Corruption { at: Option<u64>, bt: () },
}
pub type Result<T> = std::result::Result<T, Error>;
impl Clone for Error {
    fn clone(&self) -> Self {
        Error::Unsupported(String::new())
    }
}
impl PartialEq for Error {
    fn eq(&self, _: &Self) -> bool {
        false
    }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("sled error")
    }
}
impl std::error::Error for Error {}
impl From<std::io::Error> for Error {
    fn from(e: std::io::Error) -> Self {
        Error::Io(e)
    }
}

// -------------------------------------------------------------------- IVec
#[derive(Clone, Default)]
pub struct IVec(Arc<Vec<u8>>);
impl Eq for IVec {}
impl PartialOrd for IVec {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for IVec {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.0.as_slice().cmp(o.0.as_slice())
    }
}
impl std::hash::Hash for IVec {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.0.as_slice().hash(h)
    }
}
impl Deref for IVec {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        &self.0
    }
}
impl DerefMut for IVec {
    fn deref_mut(&mut self) -> &mut [u8] {
        let v: &mut Vec<u8> = Arc::make_mut(&mut self.0);
        v.as_mut_slice()
    }
}
impl IVec {
    pub fn subslice(&self, off: usize, len: usize) -> IVec {
        self[off..off + len].into()
    }
}
impl AsRef<[u8]> for IVec {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
impl std::borrow::Borrow<[u8]> for IVec {
    fn borrow(&self) -> &[u8] {
        &self.0
    }
}
impl From<Vec<u8>> for IVec {
    fn from(v: Vec<u8>) -> Self {
        IVec(Arc::new(v))
    }
}
impl From<&[u8]> for IVec {
    fn from(v: &[u8]) -> Self {
        IVec(Arc::new(v.to_vec()))
    }
}
impl From<Box<[u8]>> for IVec {
    fn from(v: Box<[u8]>) -> Self {
        IVec(Arc::new(v.to_vec()))
    }
}
impl From<&str> for IVec {
    fn from(v: &str) -> Self {
        v.as_bytes().into()
    }
}
impl From<String> for IVec {
    fn from(v: String) -> Self {
        v.into_bytes().into()
    }
}
impl std::iter::FromIterator<u8> for IVec {
    fn from_iter<I: IntoIterator<Item = u8>>(i: I) -> Self {
        i.into_iter().collect::<Vec<u8>>().into()
    }
}
impl From<&IVec> for IVec {
    fn from(v: &IVec) -> Self {
        v.clone()
    }
}
impl From<&Vec<u8>> for IVec {
    fn from(v: &Vec<u8>) -> Self {
        v.as_slice().into()
    }
}
impl<const N: usize> From<[u8; N]> for IVec {
    fn from(v: [u8; N]) -> Self {
        IVec(Arc::new(v.to_vec()))
    }
}
impl<const N: usize> From<&[u8; N]> for IVec {
    fn from(v: &[u8; N]) -> Self {
        IVec(Arc::new(v.to_vec()))
    }
}
impl<T: AsRef<[u8]>> PartialEq<T> for IVec {
    fn eq(&self, o: &T) -> bool {
        self.0.as_slice() == o.as_ref()
    }
}
impl PartialEq<[u8]> for IVec {
    fn eq(&self, o: &[u8]) -> bool {
        self.0.as_slice() == o
    }
}
impl fmt::Debug for IVec {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("IVec")
    }
}

// ---------------------------------------------------------------------- db
type Key = Vec<u8>;
type Map = Vec<(Key, IVec)>;
const DEFAULT: &[u8] = b"__sled__default";
#[derive(Clone)]
struct Op {
    tree: usize,
    key: Key,
    val: Option<IVec>,
    /// last operation of its transaction (the others are not durable alone)
    last: bool,
}
struct Inner {
    path: PathBuf,
    id: u64,
    names: RefCell<Vec<Vec<u8>>>,
    maps: RefCell<Vec<Map>>,
    /// operations since the last flush
    log: RefCell<Vec<Op>>,
    durable: RefCell<Vec<Map>>,
    recovered: bool,
    /// no files of its own: gone when closed
    temporary: bool,
    dead: Cell<bool>,
}
unsafe impl Send for Inner {}
unsafe impl Sync for Inner {}
impl std::panic::RefUnwindSafe for Inner {}
impl std::panic::UnwindSafe for Inner {}

struct Registry {
    live: Vec<Weak<Inner>>,
    next: u64,
    fault_in: Option<u64>,
    conflicts: bool,
}
struct Static<T>(std::cell::UnsafeCell<T>);
unsafe impl<T> Sync for Static<T> {}
static REG: Static<Registry> = Static(std::cell::UnsafeCell::new(Registry {
    live: Vec::new(),
    next: 1,
    fault_in: None,
    conflicts: false,
}));
#[allow(clippy::mut_from_ref)]
fn reg() -> &'static mut Registry {
    unsafe { &mut *REG.0.get() }
}

fn find(map: &[(Key, IVec)], key: &[u8]) -> Option<usize> {
    (0..map.len()).find(|&i| map[i].0.len() == key.len() && map[i].0[..] == *key)
}
fn apply(map: &mut Vec<(Key, IVec)>, key: &[u8], val: Option<IVec>) -> Option<IVec> {
    match (find(map, key), val) {
        (Some(i), Some(v)) => Some(std::mem::replace(&mut map[i].1, v)),
        (Some(i), None) => Some(map.remove(i).1),
        (None, Some(v)) => {
            map.push((key.to_vec(), v));
            None
        }
        (None, None) => None,
    }
}
fn sorted(map: &[(Key, IVec)]) -> Vec<(Key, IVec)> {
    let mut out: Vec<(Key, IVec)> = Vec::new();
    for e in map {
        let mut i = out.len();
        while i > 0 && out[i - 1].0 > e.0 {
            i -= 1;
        }
        out.insert(i, e.clone());
    }
    out
}
fn encode(names: &[Vec<u8>], maps: &[Map]) -> Vec<u8> {
    let mut o = Vec::new();
    for (n, m) in names.iter().zip(maps) {
        o.extend_from_slice(&(n.len() as u32).to_le_bytes());
        o.extend_from_slice(n);
        o.extend_from_slice(&(m.len() as u32).to_le_bytes());
        for (k, v) in m {
            o.extend_from_slice(&(k.len() as u32).to_le_bytes());
            o.extend_from_slice(k);
            o.extend_from_slice(&(v.len() as u32).to_le_bytes());
            o.extend_from_slice(v);
        }
    }
    o
}
/// A log that ends in the middle is read as far as it goes.
fn decode(mut d: &[u8]) -> (Vec<Vec<u8>>, Vec<Map>) {
    fn num(d: &mut &[u8]) -> Option<usize> {
        if d.len() < 4 {
            return None;
        }
        let n = u32::from_le_bytes([d[0], d[1], d[2], d[3]]) as usize;
        *d = &d[4..];
        Some(n)
    }
    fn part(d: &mut &[u8]) -> Option<Vec<u8>> {
        let n = num(d)?;
        if d.len() < n {
            return None;
        }
        let v = d[..n].to_vec();
        *d = &d[n..];
        Some(v)
    }
    let mut names = Vec::new();
    let mut maps: Vec<Map> = Vec::new();
    while let Some(name) = part(&mut d) {
        names.push(name);
        maps.push(Vec::new());
        for _ in 0..num(&mut d).unwrap_or(0) {
            match (part(&mut d), part(&mut d)) {
                (Some(k), Some(v)) => maps.last_mut().unwrap().push((k, IVec::from(v))),
                _ => break,
            }
        }
    }
    if names.is_empty() {
        names.push(DEFAULT.to_vec());
        maps.push(Vec::new());
    }
    (names, maps)
}
impl Inner {
    fn fault(&self) -> Result<()> {
        if let Some(n) = reg().fault_in {
            if n == 0 {
                reg().fault_in = None;
                return Err(Error::Io(std::io::Error::from(std::io::ErrorKind::Other)));
            }
            reg().fault_in = Some(n - 1);
        }
        Ok(())
    }
    fn put(&self, tree: usize, key: &[u8], val: Option<IVec>) -> Option<IVec> {
        self.log.borrow_mut().push(Op { tree, key: key.to_vec(), val: val.clone(), last: true });
        apply(&mut self.maps.borrow_mut()[tree], key, val)
    }
    fn look(&self, tree: usize, key: &[u8]) -> Option<IVec> {
        let m = &self.maps.borrow()[tree];
        find(m, key).map(|i| m[i].1.clone())
    }
    /// several changes that survive a crash together or not at all
    fn put_all(&self, w: Vec<(usize, Key, Option<IVec>)>, together: bool) {
        let n = w.len();
        for (i, (t, k, v)) in w.into_iter().enumerate() {
            self.put(t, &k, v);
            if together && i + 1 < n {
                if let Some(o) = self.log.borrow_mut().last_mut() {
                    o.last = false;
                }
            }
        }
    }
    fn owns_files(&self) -> bool {
        let _own = symrt::no_file_faults();
        match std::fs::read(self.path.join("conf")) {
            Ok(c) => c == self.id.to_le_bytes(),
            Err(_) => false,
        }
    }
    fn store(&self, m: &[Map]) {
        if !self.temporary && self.owns_files() {
            // one atomic step: sled recovers to the last complete log segment
            let _own = symrt::no_file_faults();
            let t = self.path.join("db.new");
            let _ = std::fs::write(&t, encode(&self.names.borrow(), m));
            let _ = std::fs::rename(&t, self.path.join("db"));
        }
    }
    /// Dying inside leaves log and durable part as they were: what survives is
    /// then decided by `model::crash`.
    fn sync(&self) -> usize {
        let m = self.maps.borrow().clone();
        self.store(&m);
        let n = self.log.borrow().len();
        self.log.borrow_mut().clear();
        *self.durable.borrow_mut() = m;
        n
    }
}
impl Drop for Inner {
    fn drop(&mut self) {
        if !self.dead.get() {
            self.sync();
        }
    }
}

#[derive(Clone)]
pub struct Tree(Arc<Inner>, usize);
#[derive(Clone)]
pub struct Db(Tree);
impl Deref for Db {
    type Target = Tree;
    fn deref(&self) -> &Tree {
        &self.0
    }
}
impl fmt::Debug for Db {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Db")
    }
}
impl fmt::Debug for Tree {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Tree")
    }
}

pub fn open<P: AsRef<Path>>(path: P) -> Result<Db> {
    Config::new().path(path).open()
}
#[derive(Clone, Copy, Debug)]
pub enum Mode {
    LowSpace,
    HighThroughput,
}
#[derive(Clone, Debug, Default)]
pub struct Config {
    path: PathBuf,
    temporary: bool,
    create_new: bool,
}
impl Config {
    pub fn new() -> Self {
        Self { path: "default.sled".into(), temporary: false, create_new: false }
    }
    pub fn path<P: AsRef<Path>>(mut self, p: P) -> Self {
        self.path = p.as_ref().to_path_buf();
        self
    }
    pub fn temporary(mut self, on: bool) -> Self {
        self.temporary = on;
        self
    }
    pub fn create_new(mut self, on: bool) -> Self {
        self.create_new = on;
        self
    }
    pub fn get_path(&self) -> PathBuf {
        self.path.clone()
    }
    pub fn flush_every_ms(self, _: Option<u64>) -> Self {
        self
    }
    pub fn cache_capacity(self, _: u64) -> Self {
        self
    }
    pub fn mode(self, _: Mode) -> Self {
        self
    }
    pub fn use_compression(self, _: bool) -> Self {
        self
    }
    pub fn compression_factor(self, _: i32) -> Self {
        self
    }
    pub fn segment_size(self, _: usize) -> Self {
        self
    }
    pub fn idgen_persist_interval(self, _: u64) -> Self {
        self
    }
    pub fn print_profile_on_drop(self, _: bool) -> Self {
        self
    }
    pub fn open(&self) -> Result<Db> {
        let path = self.path.clone();
        if self.create_new && path.join("conf").exists() {
            return Err(Error::Io(std::io::Error::from(std::io::ErrorKind::AlreadyExists)));
        }
        // the one step of opening that may fail
        std::fs::create_dir_all(&path)?;
        drop(std::fs::read_dir(&path)?);
        let _own = symrt::no_file_faults();
        for w in &reg().live {
            if let Some(i) = w.upgrade() {
                if !i.dead.get() && i.path == path && i.owns_files() {
                    return Err(Error::Io(std::io::Error::from(std::io::ErrorKind::WouldBlock)));
                }
            }
        }
        let (names, maps) = match std::fs::read(path.join("db")) {
            Ok(d) => decode(&d),
            Err(_) => (vec![DEFAULT.to_vec()], vec![Vec::new()]),
        };
        let id = reg().next;
        reg().next += 1;
        std::fs::write(path.join("conf"), id.to_le_bytes())?;
        let i = Arc::new(Inner {
            path,
            id,
            recovered: maps.iter().any(|m| !m.is_empty()),
            temporary: self.temporary,
            names: RefCell::new(names),
            durable: RefCell::new(maps.clone()),
            maps: RefCell::new(maps),
            log: RefCell::new(Vec::new()),
            dead: Cell::new(false),
        });
        reg().live.push(Arc::downgrade(&i));
        Ok(Db(Tree(i, 0)))
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct CompareAndSwapError {
    pub current: Option<IVec>,
    pub proposed: Option<IVec>,
}
impl fmt::Display for CompareAndSwapError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Compare and swap conflict")
    }
}
impl std::error::Error for CompareAndSwapError {}
pub type CompareAndSwapResult = Result<std::result::Result<(), CompareAndSwapError>>;
#[derive(Clone, Debug, Default)]
pub struct Batch(Vec<(IVec, Option<IVec>)>);
impl Batch {
    pub fn insert<K: Into<IVec>, V: Into<IVec>>(&mut self, k: K, v: V) {
        self.0.push((k.into(), Some(v.into())));
    }
    pub fn remove<K: Into<IVec>>(&mut self, k: K) {
        self.0.push((k.into(), None));
    }
}

impl Db {
    pub fn was_recovered(&self) -> bool {
        self.0 .0.recovered
    }
    pub fn open_tree<V: AsRef<[u8]>>(&self, name: V) -> Result<Tree> {
        self.0 .0.fault()?;
        let i = &self.0 .0;
        let n = name.as_ref();
        let at = i.names.borrow().iter().position(|x| x[..] == *n);
        let at = at.unwrap_or_else(|| {
            i.names.borrow_mut().push(n.to_vec());
            i.maps.borrow_mut().push(Vec::new());
            i.durable.borrow_mut().push(Vec::new());
            i.maps.borrow().len() - 1
        });
        Ok(Tree(i.clone(), at))
    }
    pub fn drop_tree<V: AsRef<[u8]>>(&self, name: V) -> Result<bool> {
        let n = name.as_ref();
        if n == DEFAULT {
            return Err(Error::Unsupported("cannot remove the core structures".into()));
        }
        let at = self.0 .0.names.borrow().iter().position(|x| x[..] == *n);
        if let Some(at) = at {
            Tree(self.0 .0.clone(), at).clear()?;
        }
        Ok(at.is_some())
    }
    pub fn tree_names(&self) -> Vec<IVec> {
        self.0 .0.names.borrow().iter().map(|n| n.as_slice().into()).collect()
    }
    pub fn size_on_disk(&self) -> Result<u64> {
        Ok(encode(&self.0 .0.names.borrow(), &self.0 .0.maps.borrow()).len() as u64)
    }
    pub fn generate_id(&self) -> Result<u64> {
        reg().next += 1;
        Ok(reg().next)
    }
    pub fn checksum(&self) -> Result<u32> {
        Ok(0)
    }
}
impl Tree {
    pub fn insert<K, V>(&self, key: K, value: V) -> Result<Option<IVec>>
    where
        K: AsRef<[u8]>,
        V: Into<IVec>,
    {
        symrt::yield_point();
        self.0.fault()?;
        let r = self.0.put(self.1, key.as_ref(), Some(value.into()));
        symrt::yield_point();
        Ok(r)
    }
    pub fn remove<K: AsRef<[u8]>>(&self, key: K) -> Result<Option<IVec>> {
        symrt::yield_point();
        self.0.fault()?;
        let r = self.0.put(self.1, key.as_ref(), None);
        symrt::yield_point();
        Ok(r)
    }
    pub fn get<K: AsRef<[u8]>>(&self, key: K) -> Result<Option<IVec>> {
        symrt::yield_point();
        self.0.fault()?;
        let r = self.0.look(self.1, key.as_ref());
        symrt::yield_point();
        Ok(r)
    }
    pub fn contains_key<K: AsRef<[u8]>>(&self, key: K) -> Result<bool> {
        Ok(self.get(key)?.is_some())
    }
    pub fn compare_and_swap<K, OV, NV>(
        &self,
        key: K,
        old: Option<OV>,
        new: Option<NV>,
    ) -> CompareAndSwapResult
    where
        K: AsRef<[u8]>,
        OV: AsRef<[u8]>,
        NV: Into<IVec>,
    {
        symrt::yield_point();
        self.0.fault()?;
        let cur = self.0.look(self.1, key.as_ref());
        let same = match (&cur, &old) {
            (Some(c), Some(o)) => **c == *o.as_ref(),
            (None, None) => true,
            _ => false,
        };
        let new = new.map(|n| n.into());
        let r = if same {
            self.0.put(self.1, key.as_ref(), new);
            Ok(())
        } else {
            Err(CompareAndSwapError { current: cur, proposed: new })
        };
        symrt::yield_point();
        Ok(r)
    }
    pub fn update_and_fetch<K, V, F>(&self, key: K, mut f: F) -> Result<Option<IVec>>
    where
        K: AsRef<[u8]>,
        F: FnMut(Option<&[u8]>) -> Option<V>,
        V: Into<IVec>,
    {
        symrt::yield_point();
        self.0.fault()?;
        let cur = self.0.look(self.1, key.as_ref());
        let new = f(cur.as_deref()).map(|v| v.into());
        self.0.put(self.1, key.as_ref(), new.clone());
        symrt::yield_point();
        Ok(new)
    }
    pub fn fetch_and_update<K, V, F>(&self, key: K, mut f: F) -> Result<Option<IVec>>
    where
        K: AsRef<[u8]>,
        F: FnMut(Option<&[u8]>) -> Option<V>,
        V: Into<IVec>,
    {
        symrt::yield_point();
        self.0.fault()?;
        let cur = self.0.look(self.1, key.as_ref());
        let new = f(cur.as_deref()).map(|v| v.into());
        self.0.put(self.1, key.as_ref(), new);
        symrt::yield_point();
        Ok(cur)
    }
    pub fn apply_batch(&self, b: Batch) -> Result<()> {
        symrt::yield_point();
        self.0.fault()?;
        self.0.put_all(b.0.into_iter().map(|(k, v)| (self.1, k.to_vec(), v)).collect(), true);
        symrt::yield_point();
        Ok(())
    }
    pub fn transaction<F, A, E>(&self, f: F) -> transaction::TransactionResult<A, E>
    where
        F: Fn(&transaction::TransactionalTree) -> transaction::ConflictableTransactionResult<A, E>,
    {
        Transactional::transaction(self, f)
    }
    fn all(&self) -> Map {
        symrt::yield_point();
        sorted(&self.0.maps.borrow()[self.1])
    }
    pub fn iter(&self) -> Iter {
        Iter { v: self.all().into_iter(), t: self.clone() }
    }
    pub fn range<K, R>(&self, r: R) -> Iter
    where
        K: AsRef<[u8]>,
        R: RangeBounds<K>,
    {
        let mut v = self.all();
        v.retain(|(k, _)| {
            (match r.start_bound() {
                Bound::Included(b) => k.as_slice() >= b.as_ref(),
                Bound::Excluded(b) => k.as_slice() > b.as_ref(),
                Bound::Unbounded => true,
            }) && (match r.end_bound() {
                Bound::Included(b) => k.as_slice() <= b.as_ref(),
                Bound::Excluded(b) => k.as_slice() < b.as_ref(),
                Bound::Unbounded => true,
            })
        });
        Iter { v: v.into_iter(), t: self.clone() }
    }
    pub fn scan_prefix<P: AsRef<[u8]>>(&self, p: P) -> Iter {
        let mut v = self.all();
        v.retain(|(k, _)| k.starts_with(p.as_ref()));
        Iter { v: v.into_iter(), t: self.clone() }
    }
    pub fn first(&self) -> Result<Option<(IVec, IVec)>> {
        self.iter().next().transpose()
    }
    pub fn last(&self) -> Result<Option<(IVec, IVec)>> {
        self.iter().next_back().transpose()
    }
    pub fn get_lt<K: AsRef<[u8]>>(&self, key: K) -> Result<Option<(IVec, IVec)>> {
        let mut v = self.all();
        v.retain(|(k, _)| k.as_slice() < key.as_ref());
        Iter { v: v.into_iter(), t: self.clone() }.next_back().transpose()
    }
    pub fn get_gt<K: AsRef<[u8]>>(&self, key: K) -> Result<Option<(IVec, IVec)>> {
        let mut v = self.all();
        v.retain(|(k, _)| k.as_slice() > key.as_ref());
        Iter { v: v.into_iter(), t: self.clone() }.next().transpose()
    }
    pub fn pop_min(&self) -> Result<Option<(IVec, IVec)>> {
        let r = self.first()?;
        if let Some((k, _)) = &r {
            self.0.put(self.1, k, None);
        }
        Ok(r)
    }
    pub fn pop_max(&self) -> Result<Option<(IVec, IVec)>> {
        let r = self.last()?;
        if let Some((k, _)) = &r {
            self.0.put(self.1, k, None);
        }
        Ok(r)
    }
    pub fn name(&self) -> IVec {
        self.0.names.borrow()[self.1].as_slice().into()
    }
    pub fn verify_integrity(&self) -> Result<()> {
        Ok(())
    }
    pub fn set<K: AsRef<[u8]>, V: Into<IVec>>(&self, k: K, v: V) -> Result<Option<IVec>> {
        self.insert(k, v)
    }
    pub fn del<K: AsRef<[u8]>>(&self, k: K) -> Result<Option<IVec>> {
        self.remove(k)
    }
    pub fn len(&self) -> usize {
        symrt::yield_point();
        self.0.maps.borrow()[self.1].len()
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn clear(&self) -> Result<()> {
        self.0.fault()?;
        let keys: Vec<Key> = self.0.maps.borrow()[self.1].iter().map(|e| e.0.clone()).collect();
        for k in keys {
            self.0.put(self.1, &k, None);
        }
        Ok(())
    }
    pub fn flush(&self) -> Result<usize> {
        symrt::yield_point();
        self.0.fault()?;
        Ok(self.0.sync())
    }
    pub async fn flush_async(&self) -> Result<usize> {
        self.flush()
    }
}
impl<'a> IntoIterator for &'a Tree {
    type Item = Result<(IVec, IVec)>;
    type IntoIter = Iter;
    fn into_iter(self) -> Iter {
        self.iter()
    }
}
impl<'a> IntoIterator for &'a Db {
    type Item = Result<(IVec, IVec)>;
    type IntoIter = Iter;
    fn into_iter(self) -> Iter {
        self.iter()
    }
}
pub struct Iter {
    v: std::vec::IntoIter<(Key, IVec)>,
    t: Tree,
}
impl Iterator for Iter {
    type Item = Result<(IVec, IVec)>;
    fn next(&mut self) -> Option<Self::Item> {
        let (k, v) = self.v.next()?;
        Some(self.t.0.fault().map(|()| (IVec::from(k), v)))
    }
}
impl DoubleEndedIterator for Iter {
    fn next_back(&mut self) -> Option<Self::Item> {
        let (k, v) = self.v.next_back()?;
        Some(self.t.0.fault().map(|()| (IVec::from(k), v)))
    }
}
impl Iter {
    pub fn keys(self) -> impl DoubleEndedIterator<Item = Result<IVec>> {
        self.map(|r| r.map(|e| e.0))
    }
    pub fn values(self) -> impl DoubleEndedIterator<Item = Result<IVec>> {
        self.map(|r| r.map(|e| e.1))
    }
}

pub mod transaction {
    use super::*;
    use std::rc::Rc;
    #[derive(Clone)]
    pub struct TransactionalTree {
        base: Tree,
        writes: Rc<RefCell<Vec<(Key, Option<IVec>)>>>,
        flush: Rc<Cell<bool>>,
    }
    #[derive(Debug, Clone, PartialEq)]
    pub enum UnabortableTransactionError {
        Conflict,
        Storage(Error),
    }
    #[derive(Debug, Clone, PartialEq)]
    pub enum ConflictableTransactionError<T = Error> {
        Abort(T),
        Conflict,
        Storage(Error),
    }
    #[derive(Debug, Clone, PartialEq)]
    pub enum TransactionError<T = Error> {
        Abort(T),
        Storage(Error),
    }
    pub type UnabortableTransactionResult<T> = std::result::Result<T, UnabortableTransactionError>;
    pub type ConflictableTransactionResult<T, E = ()> =
        std::result::Result<T, ConflictableTransactionError<E>>;
    pub type TransactionResult<T, E = ()> = std::result::Result<T, TransactionError<E>>;
    macro_rules! err {
        ($($n:ident),*) => {$(
            impl<E> fmt::Display for $n<E> {
                fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                    f.write_str("transaction error")
                }
            }
            impl<E: fmt::Debug> std::error::Error for $n<E> {}
            impl<E> From<Error> for $n<E> {
                fn from(e: Error) -> Self { $n::Storage(e) }
            }
        )*};
    }
    err!(ConflictableTransactionError, TransactionError);
    impl fmt::Display for UnabortableTransactionError {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("transaction error")
        }
    }
    impl std::error::Error for UnabortableTransactionError {}
    impl From<Error> for UnabortableTransactionError {
        fn from(e: Error) -> Self {
            UnabortableTransactionError::Storage(e)
        }
    }
    impl<E> From<UnabortableTransactionError> for ConflictableTransactionError<E> {
        fn from(e: UnabortableTransactionError) -> Self {
            match e {
                UnabortableTransactionError::Conflict => ConflictableTransactionError::Conflict,
                UnabortableTransactionError::Storage(e) => ConflictableTransactionError::Storage(e),
            }
        }
    }
    pub fn abort<A, T>(t: T) -> ConflictableTransactionResult<A, T> {
        Err(ConflictableTransactionError::Abort(t))
    }
    impl TransactionalTree {
        pub fn get<K: AsRef<[u8]>>(&self, key: K) -> UnabortableTransactionResult<Option<IVec>> {
            let k = key.as_ref();
            for (wk, wv) in self.writes.borrow().iter() {
                if wk.len() == k.len() && wk[..] == *k {
                    return Ok(wv.clone());
                }
            }
            self.base.0.fault()?;
            Ok(self.base.0.look(self.base.1, k))
        }
        fn set(&self, k: &[u8], v: Option<IVec>) {
            let mut w = self.writes.borrow_mut();
            for e in w.iter_mut() {
                if e.0.len() == k.len() && e.0[..] == *k {
                    e.1 = v;
                    return;
                }
            }
            w.push((k.to_vec(), v));
        }
        pub fn insert<K, V>(&self, key: K, value: V) -> UnabortableTransactionResult<Option<IVec>>
        where
            K: AsRef<[u8]> + Into<IVec>,
            V: Into<IVec>,
        {
            let old = self.get(key.as_ref())?;
            self.set(key.as_ref(), Some(value.into()));
            Ok(old)
        }
        pub fn remove<K>(&self, key: K) -> UnabortableTransactionResult<Option<IVec>>
        where
            K: AsRef<[u8]> + Into<IVec>,
        {
            let old = self.get(key.as_ref())?;
            self.set(key.as_ref(), None);
            Ok(old)
        }
        pub fn apply_batch(&self, b: &Batch) -> UnabortableTransactionResult<()> {
            for (k, v) in &b.0 {
                self.set(k, v.clone());
            }
            Ok(())
        }
        pub fn flush(&self) {
            self.flush.set(true)
        }
        pub fn generate_id(&self) -> Result<u64> {
            reg().next += 1;
            Ok(reg().next)
        }
    }

    /// Transactions over one or several trees.  The changes to each database
    /// survive a crash together; those to different databases need not.
    pub trait Transactional<E = ()> {
        type View;
        fn trees(&self) -> Vec<Tree>;
        fn view(v: &[TransactionalTree]) -> Self::View;
        fn transaction<F, A>(&self, f: F) -> TransactionResult<A, E>
        where
            F: Fn(&Self::View) -> ConflictableTransactionResult<A, E>,
        {
            symrt::yield_point();
            let trees = self.trees();
            if trees.windows(2).any(|w| !Arc::ptr_eq(&w[0].0, &w[1].0)) {
                return Err(TransactionError::Storage(Error::Unsupported(
                    "cannot use trees from multiple databases in the same transaction".into(),
                )));
            }
            loop {
                let v: Vec<TransactionalTree> = trees
                    .iter()
                    .cloned()
                    .map(|base| TransactionalTree { base, writes: Rc::default(), flush: Rc::default() })
                    .collect();
                let r = f(&Self::view(&v));
                if reg().conflicts && symrt::choice(2, "sled_conflict") == 1 {
                    reg().conflicts = false;
                    continue; // lost the race: the closure runs again
                }
                let out = match r {
                    Ok(a) => commit(&v).map(|()| a).map_err(TransactionError::Storage),
                    Err(ConflictableTransactionError::Abort(e)) => Err(TransactionError::Abort(e)),
                    Err(ConflictableTransactionError::Storage(e)) => {
                        Err(TransactionError::Storage(e))
                    }
                    Err(ConflictableTransactionError::Conflict) => continue,
                };
                symrt::yield_point();
                return out;
            }
        }
    }
    fn commit(v: &[TransactionalTree]) -> Result<()> {
        let db = &v[0].base.0;
        db.fault()?;
        let mut w = Vec::new();
        for t in v {
            for (k, x) in t.writes.borrow().iter() {
                w.push((t.base.1, k.clone(), x.clone()));
            }
        }
        db.put_all(w, true);
        if v.iter().any(|t| t.flush.get()) {
            db.fault()?;
            db.sync();
        }
        Ok(())
    }
    macro_rules! one {
        ($($t:ty),*) => {$(
            impl<E> Transactional<E> for $t {
                type View = TransactionalTree;
                fn trees(&self) -> Vec<Tree> {
                    let t: &Tree = self;
                    vec![t.clone()]
                }
                fn view(v: &[TransactionalTree]) -> TransactionalTree {
                    v[0].clone()
                }
            }
        )*};
    }
    one!(Tree, &Tree, &&Tree, Db, &Db);
    macro_rules! list {
        ($($t:ty),*) => {$(
            impl<E> Transactional<E> for $t {
                type View = Vec<TransactionalTree>;
                fn trees(&self) -> Vec<Tree> {
                    self.iter()
                        .map(|t| {
                            let t: &Tree = t;
                            t.clone()
                        })
                        .collect()
                }
                fn view(v: &[TransactionalTree]) -> Vec<TransactionalTree> {
                    v.to_vec()
                }
            }
        )*};
    }
    list!([Tree], [&Tree], Vec<Tree>, Vec<&Tree>);
    macro_rules! tuple {
        ($($i:tt $r:ty, $v:ident);*) => {
            impl<E> Transactional<E> for ($($r,)*) {
                type View = ($($v,)*);
                fn trees(&self) -> Vec<Tree> {
                    vec![$({ let t: &Tree = &self.$i; t.clone() }),*]
                }
                fn view(v: &[TransactionalTree]) -> Self::View {
                    ($(v[$i].clone(),)*)
                }
            }
        };
    }
    use TransactionalTree as V;
    tuple!(0 &Tree, V; 1 &Tree, V);
    tuple!(0 &Tree, V; 1 &Tree, V; 2 &Tree, V);
    tuple!(0 &Tree, V; 1 &Tree, V; 2 &Tree, V; 3 &Tree, V);
    tuple!(0 Tree, V; 1 Tree, V);
    tuple!(0 Tree, V; 1 Tree, V; 2 Tree, V);
    tuple!(0 &Db, V; 1 &Db, V);
    tuple!(0 &Db, V; 1 &Db, V; 2 &Db, V);
}
pub use transaction::Transactional;

/// Controls for harnesses.
pub mod model {
    use super::*;
    /// The `n`-th operation from now, reading or writing, fails with an I/O error.
    pub fn fault_in(n: Option<u64>) {
        reg().fault_in = n;
    }
    pub fn fault_pending() -> bool {
        reg().fault_in.is_some()
    }
    pub fn conflicts(on: bool) {
        reg().conflicts = on;
    }
    /// The process dies: every open database keeps what was flushed plus any
    /// prefix of what was done since, and all handles become dead.
    pub fn crash() {
        let live: Vec<Arc<Inner>> = reg().live.iter().filter_map(|w| w.upgrade()).collect();
        for i in live {
            if i.dead.get() {
                continue;
            }
            i.dead.set(true);
            let log = i.log.borrow().clone();
            let mut cuts = vec![0];
            for (n, o) in log.iter().enumerate() {
                if o.last {
                    cuts.push(n + 1);
                }
            }
            let c = symrt::choice(cuts.len() as u64, "sled_survives") as usize;
            let mut d = i.durable.borrow().clone();
            for o in &log[..cuts[c]] {
                apply(&mut d[o.tree], &o.key, o.val.clone());
            }
            i.store(&d);
            std::mem::forget(i); // its files are settled
        }
        reg().live.clear();
    }
}
