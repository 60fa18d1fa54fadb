//! Model of the part of `tokio` the code under test uses: files over std::fs
//! and locks, each future ready at once.  As in tokio, a written buffer reaches
//! the file by the next operation on it (or `flush`); dropping the `File`
//! before that leaves it to the blocking pool, which the model may or may not
//! have served by the time anyone looks (`model::late_writes`).
pub mod fs {
    use crate::io::{AsyncRead, AsyncSeek, AsyncWrite};
    use std::cell::RefCell;
    use std::io::{self, Read, Seek, Write};
    use std::path::{Path, PathBuf};

    pub struct File {
        f: Option<std::fs::File>,
        pending: RefCell<Vec<u8>>,
    }
    unsafe impl Sync for File {}
    impl File {
        pub fn from_std(f: std::fs::File) -> File {
            File { f: Some(f), pending: RefCell::new(Vec::new()) }
        }
        pub async fn open(p: impl AsRef<Path>) -> io::Result<File> {
            Ok(File::from_std(std::fs::File::open(p)?))
        }
        pub async fn create(p: impl AsRef<Path>) -> io::Result<File> {
            Ok(File::from_std(std::fs::File::create(p)?))
        }
        pub async fn create_new(p: impl AsRef<Path>) -> io::Result<File> {
            File::options().read(true).write(true).create_new(true).open(p).await
        }
        pub fn options() -> OpenOptions {
            OpenOptions::new()
        }
        fn std(&self) -> &std::fs::File {
            self.f.as_ref().unwrap()
        }
        fn settle(&self) -> io::Result<()> {
            let p = std::mem::take(&mut *self.pending.borrow_mut());
            if !p.is_empty() {
                self.std().write_all(&p)?;
            }
            Ok(())
        }
        pub async fn sync_all(&self) -> io::Result<()> {
            self.settle()?;
            self.std().sync_all()
        }
        pub async fn sync_data(&self) -> io::Result<()> {
            self.settle()?;
            self.std().sync_data()
        }
        pub async fn set_len(&self, n: u64) -> io::Result<()> {
            self.settle()?;
            self.std().set_len(n)
        }
        pub async fn metadata(&self) -> io::Result<std::fs::Metadata> {
            self.std().metadata()
        }
        pub async fn try_clone(&self) -> io::Result<File> {
            self.settle()?;
            Ok(File::from_std(self.std().try_clone()?))
        }
        pub async fn set_permissions(&self, p: std::fs::Permissions) -> io::Result<()> {
            self.std().set_permissions(p)
        }
        pub async fn into_std(mut self) -> std::fs::File {
            let _ = self.settle();
            self.f.take().unwrap()
        }
        pub fn set_max_buf_size(&mut self, _: usize) {}
    }
    impl From<std::fs::File> for File {
        fn from(f: std::fs::File) -> File {
            File::from_std(f)
        }
    }
    impl Drop for File {
        fn drop(&mut self) {
            if self.f.is_some() && !self.pending.borrow().is_empty() {
                if crate::model::late_writes() && symrt::choice(2, "late_write") == 1 {
                    return; // still queued when the next step looks
                }
                let _ = self.settle();
            }
        }
    }
    impl AsyncWrite for File {
        fn do_write(&mut self, b: &[u8]) -> io::Result<usize> {
            self.settle()?;
            self.pending.borrow_mut().extend_from_slice(b);
            Ok(b.len())
        }
        fn do_flush(&mut self) -> io::Result<()> {
            self.settle()
        }
    }
    impl AsyncRead for File {
        fn do_read(&mut self, b: &mut [u8]) -> io::Result<usize> {
            self.settle()?;
            self.std().read(b)
        }
    }
    impl AsyncSeek for File {
        fn do_seek(&mut self, p: io::SeekFrom) -> io::Result<u64> {
            self.settle()?;
            self.std().seek(p)
        }
    }

    #[derive(Clone, Debug)]
    pub struct OpenOptions(std::fs::OpenOptions);
    impl OpenOptions {
        #[allow(clippy::new_without_default)]
        pub fn new() -> Self {
            OpenOptions(std::fs::OpenOptions::new())
        }
        pub async fn open(&self, p: impl AsRef<Path>) -> io::Result<File> {
            Ok(File::from_std(self.0.open(p)?))
        }
    }
    impl From<std::fs::OpenOptions> for OpenOptions {
        fn from(o: std::fs::OpenOptions) -> Self {
            OpenOptions(o)
        }
    }
    macro_rules! options {
        ($($n:ident),*) => { impl OpenOptions { $(
            pub fn $n(&mut self, b: bool) -> &mut Self {
                self.0.$n(b);
                self
            }
        )* } };
    }
    options!(read, write, append, truncate, create, create_new);

    macro_rules! over_std {
        ($($n:ident($($a:ident),*) -> $r:ty;)*) => {$(
            pub async fn $n($($a: impl AsRef<Path>),*) -> io::Result<$r> {
                std::fs::$n($($a),*)
            }
        )*};
    }
    over_std! {
        read(p) -> Vec<u8>;
        read_to_string(p) -> String;
        rename(a, b) -> ();
        copy(a, b) -> u64;
        hard_link(a, b) -> ();
        create_dir(p) -> ();
        create_dir_all(p) -> ();
        remove_file(p) -> ();
        remove_dir(p) -> ();
        remove_dir_all(p) -> ();
        metadata(p) -> std::fs::Metadata;
        symlink_metadata(p) -> std::fs::Metadata;
        canonicalize(p) -> PathBuf;
    }
    pub async fn write(p: impl AsRef<Path>, b: impl AsRef<[u8]>) -> io::Result<()> {
        std::fs::write(p, b)
    }
    pub async fn set_permissions(p: impl AsRef<Path>, x: std::fs::Permissions) -> io::Result<()> {
        std::fs::set_permissions(p, x)
    }
    pub async fn try_exists(a: impl AsRef<Path>) -> io::Result<bool> {
        a.as_ref().try_exists()
    }
    pub struct ReadDir(std::fs::ReadDir);
    pub struct DirEntry(std::fs::DirEntry);
    pub async fn read_dir(p: impl AsRef<Path>) -> io::Result<ReadDir> {
        Ok(ReadDir(std::fs::read_dir(p)?))
    }
    impl ReadDir {
        pub async fn next_entry(&mut self) -> io::Result<Option<DirEntry>> {
            Ok(self.0.next().transpose()?.map(DirEntry))
        }
    }
    impl DirEntry {
        pub fn path(&self) -> PathBuf {
            self.0.path()
        }
        pub fn file_name(&self) -> std::ffi::OsString {
            self.0.file_name()
        }
        pub async fn metadata(&self) -> io::Result<std::fs::Metadata> {
            self.0.metadata()
        }
        pub async fn file_type(&self) -> io::Result<std::fs::FileType> {
            self.0.file_type()
        }
    }
    #[derive(Debug, Default)]
    pub struct DirBuilder {
        recursive: bool,
    }
    impl DirBuilder {
        pub fn new() -> Self {
            Self::default()
        }
        pub fn recursive(&mut self, on: bool) -> &mut Self {
            self.recursive = on;
            self
        }
        pub async fn create(&self, p: impl AsRef<Path>) -> io::Result<()> {
            std::fs::DirBuilder::new().recursive(self.recursive).create(p)
        }
    }
}
pub mod io {
    pub use std::io::{
        empty, repeat, sink, Cursor, Error, ErrorKind, Read, Result, Seek, SeekFrom, Write,
    };
    use std::future::Future;

    pub trait AsyncWrite {
        fn do_write(&mut self, b: &[u8]) -> Result<usize>;
        fn do_flush(&mut self) -> Result<()>;
    }
    pub trait AsyncRead {
        fn do_read(&mut self, b: &mut [u8]) -> Result<usize>;
    }
    pub trait AsyncSeek {
        fn do_seek(&mut self, p: SeekFrom) -> Result<u64>;
    }
    impl AsyncWrite for Vec<u8> {
        fn do_write(&mut self, b: &[u8]) -> Result<usize> {
            self.extend_from_slice(b);
            Ok(b.len())
        }
        fn do_flush(&mut self) -> Result<()> {
            Ok(())
        }
    }
    impl AsyncRead for &[u8] {
        fn do_read(&mut self, b: &mut [u8]) -> Result<usize> {
            Read::read(self, b)
        }
    }
    impl<T: AsRef<[u8]>> AsyncRead for Cursor<T> {
        fn do_read(&mut self, b: &mut [u8]) -> Result<usize> {
            Read::read(self, b)
        }
    }
    impl<T: AsyncWrite + ?Sized> AsyncWrite for &mut T {
        fn do_write(&mut self, b: &[u8]) -> Result<usize> {
            (**self).do_write(b)
        }
        fn do_flush(&mut self) -> Result<()> {
            (**self).do_flush()
        }
    }
    impl<T: AsyncRead + ?Sized> AsyncRead for &mut T {
        fn do_read(&mut self, b: &mut [u8]) -> Result<usize> {
            (**self).do_read(b)
        }
    }
    fn put_all<W: AsyncWrite + ?Sized>(w: &mut W, mut b: &[u8]) -> Result<()> {
        while !b.is_empty() {
            let n = w.do_write(b)?;
            b = &b[n..];
        }
        Ok(())
    }
    fn get_exact<R: AsyncRead + ?Sized>(r: &mut R, b: &mut [u8]) -> Result<usize> {
        let mut n = 0;
        while n < b.len() {
            let k = r.do_read(&mut b[n..])?;
            if k == 0 {
                return Err(Error::from(ErrorKind::UnexpectedEof));
            }
            n += k;
        }
        Ok(n)
    }
    fn get_all<R: AsyncRead + ?Sized>(r: &mut R, b: &mut Vec<u8>) -> Result<usize> {
        let mut n = 0;
        let mut t = [0u8; 512];
        loop {
            let k = r.do_read(&mut t)?;
            if k == 0 {
                return Ok(n);
            }
            b.extend_from_slice(&t[..k]);
            n += k;
        }
    }
    macro_rules! numbers {
        ($m:ident) => { $m! {
            u8 read_u8 write_u8 to_be_bytes from_be_bytes; i8 read_i8 write_i8 to_be_bytes from_be_bytes;
            u16 read_u16 write_u16 to_be_bytes from_be_bytes; u32 read_u32 write_u32 to_be_bytes from_be_bytes;
            u64 read_u64 write_u64 to_be_bytes from_be_bytes; u128 read_u128 write_u128 to_be_bytes from_be_bytes;
            i16 read_i16 write_i16 to_be_bytes from_be_bytes; i32 read_i32 write_i32 to_be_bytes from_be_bytes;
            i64 read_i64 write_i64 to_be_bytes from_be_bytes; i128 read_i128 write_i128 to_be_bytes from_be_bytes;
            u16 read_u16_le write_u16_le to_le_bytes from_le_bytes; u32 read_u32_le write_u32_le to_le_bytes from_le_bytes;
            u64 read_u64_le write_u64_le to_le_bytes from_le_bytes; u128 read_u128_le write_u128_le to_le_bytes from_le_bytes;
        } };
    }
    macro_rules! writer {
        ($($t:ident $r:ident $w:ident $to:ident $from:ident;)*) => {
            pub trait AsyncWriteExt: AsyncWrite + Send {
                fn write_all<'a>(&'a mut self, b: &'a [u8]) -> impl Future<Output = Result<()>> + Send {
                    async move { put_all(self, b) }
                }
                fn write<'a>(&'a mut self, b: &'a [u8]) -> impl Future<Output = Result<usize>> + Send {
                    async move { self.do_write(b) }
                }
                fn flush(&mut self) -> impl Future<Output = Result<()>> + Send {
                    async move { self.do_flush() }
                }
                fn shutdown(&mut self) -> impl Future<Output = Result<()>> + Send {
                    async move { self.do_flush() }
                }
                $(fn $w(&mut self, n: $t) -> impl Future<Output = Result<()>> + Send {
                    async move { put_all(self, &n.$to()) }
                })*
            }
        };
    }
    numbers!(writer);
    impl<T: AsyncWrite + Send + ?Sized> AsyncWriteExt for T {}
    macro_rules! reader {
        ($($t:ident $r:ident $w:ident $to:ident $from:ident;)*) => {
            pub trait AsyncReadExt: AsyncRead + Send {
                fn read<'a>(&'a mut self, b: &'a mut [u8]) -> impl Future<Output = Result<usize>> + Send {
                    async move { self.do_read(b) }
                }
                fn read_exact<'a>(&'a mut self, b: &'a mut [u8]) -> impl Future<Output = Result<usize>> + Send {
                    async move { get_exact(self, b) }
                }
                fn read_to_end<'a>(&'a mut self, b: &'a mut Vec<u8>) -> impl Future<Output = Result<usize>> + Send {
                    async move { get_all(self, b) }
                }
                fn read_to_string<'a>(&'a mut self, s: &'a mut String) -> impl Future<Output = Result<usize>> + Send {
                    async move {
                        let mut b = Vec::new();
                        let n = get_all(self, &mut b)?;
                        s.push_str(std::str::from_utf8(&b).map_err(|_| Error::from(ErrorKind::InvalidData))?);
                        Ok(n)
                    }
                }
                $(fn $r(&mut self) -> impl Future<Output = Result<$t>> + Send {
                    async move {
                        let mut b = [0u8; std::mem::size_of::<$t>()];
                        get_exact(self, &mut b)?;
                        Ok(<$t>::$from(b))
                    }
                })*
            }
        };
    }
    numbers!(reader);
    impl<T: AsyncRead + Send + ?Sized> AsyncReadExt for T {}
    pub trait AsyncSeekExt: AsyncSeek + Send {
        fn seek(&mut self, p: SeekFrom) -> impl Future<Output = Result<u64>> + Send {
            async move { self.do_seek(p) }
        }
        fn rewind(&mut self) -> impl Future<Output = Result<()>> + Send {
            async move { self.do_seek(SeekFrom::Start(0)).map(|_| ()) }
        }
        fn stream_position(&mut self) -> impl Future<Output = Result<u64>> + Send {
            async move { self.do_seek(SeekFrom::Current(0)) }
        }
    }
    impl<T: AsyncSeek + Send + ?Sized> AsyncSeekExt for T {}

    /// What is buffered when it is dropped is lost, as in tokio.
    pub struct BufWriter<W> {
        w: W,
        buf: Vec<u8>,
        cap: usize,
    }
    impl<W: AsyncWrite> BufWriter<W> {
        pub fn new(w: W) -> Self {
            Self::with_capacity(8 * 1024, w)
        }
        pub fn with_capacity(cap: usize, w: W) -> Self {
            BufWriter { w, buf: Vec::new(), cap }
        }
        pub fn get_ref(&self) -> &W {
            &self.w
        }
        pub fn get_mut(&mut self) -> &mut W {
            &mut self.w
        }
        pub fn into_inner(self) -> W {
            self.w
        }
        pub fn buffer(&self) -> &[u8] {
            &self.buf
        }
        fn pass(&mut self) -> Result<()> {
            let b = std::mem::take(&mut self.buf);
            put_all(&mut self.w, &b)
        }
    }
    impl<W: AsyncWrite> AsyncWrite for BufWriter<W> {
        fn do_write(&mut self, b: &[u8]) -> Result<usize> {
            if self.buf.len() + b.len() > self.cap {
                self.pass()?;
            }
            if b.len() >= self.cap {
                return self.w.do_write(b);
            }
            self.buf.extend_from_slice(b);
            Ok(b.len())
        }
        fn do_flush(&mut self) -> Result<()> {
            self.pass()?;
            self.w.do_flush()
        }
    }
    pub struct BufReader<R>(R);
    impl<R: AsyncRead> BufReader<R> {
        pub fn new(r: R) -> Self {
            BufReader(r)
        }
        pub fn with_capacity(_: usize, r: R) -> Self {
            BufReader(r)
        }
        pub fn get_ref(&self) -> &R {
            &self.0
        }
        pub fn get_mut(&mut self) -> &mut R {
            &mut self.0
        }
        pub fn into_inner(self) -> R {
            self.0
        }
    }
    impl<R: AsyncRead> AsyncRead for BufReader<R> {
        fn do_read(&mut self, b: &mut [u8]) -> Result<usize> {
            self.0.do_read(b)
        }
    }
    pub async fn copy<R, W>(r: &mut R, w: &mut W) -> Result<u64>
    where
        R: AsyncRead + Unpin + ?Sized,
        W: AsyncWrite + Unpin + ?Sized,
    {
        let mut b = Vec::new();
        get_all(r, &mut b)?;
        put_all(w, &b)?;
        Ok(b.len() as u64)
    }
}
/// Locks of a cooperative schedule: every acquisition and release is a yield
/// point; waiting for oneself is a deadlock (see symrt).
pub mod sync {
    use std::cell::{Cell, UnsafeCell};
    use std::fmt;
    use std::ops::{Deref, DerefMut};
    use std::sync::Arc;

    struct Lock<T: ?Sized> {
        /// -1 writer, n>0 readers
        st: Cell<isize>,
        v: UnsafeCell<T>,
    }
    #[derive(Debug)]
    pub struct TryLockError(());
    impl fmt::Display for TryLockError {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("operation would block")
        }
    }
    impl std::error::Error for TryLockError {}
    impl<T: ?Sized> Lock<T> {
        fn shared(&self, wait: bool) -> bool {
            symrt::yield_point();
            let free = self.st.get() >= 0;
            if !free && wait {
                symrt::blocked();
            }
            if free {
                self.st.set(self.st.get() + 1);
            }
            free
        }
        fn exclusive(&self, wait: bool) -> bool {
            symrt::yield_point();
            let free = self.st.get() == 0;
            if !free && wait {
                symrt::blocked();
            }
            if free {
                self.st.set(-1);
            }
            free
        }
        fn release(&self) {
            let s = self.st.get();
            self.st.set(if s < 0 { 0 } else { s - 1 });
            symrt::yield_point();
        }
    }
    macro_rules! guard {
        ($n:ident, $owned:ident, $lock:ident, $mutable:tt) => {
            pub struct $n<'a, T: ?Sized>(&'a Lock<T>);
            unsafe impl<T: ?Sized + Send> Send for $n<'_, T> {}
            unsafe impl<T: ?Sized + Send + Sync> Sync for $n<'_, T> {}
            impl<T: ?Sized> Deref for $n<'_, T> {
                type Target = T;
                fn deref(&self) -> &T {
                    unsafe { &*self.0.v.get() }
                }
            }
            impl<T: ?Sized> Drop for $n<'_, T> {
                fn drop(&mut self) {
                    self.0.release()
                }
            }
            pub struct $owned<T: ?Sized>(Arc<$lock<T>>);
            impl<T: ?Sized> Deref for $owned<T> {
                type Target = T;
                fn deref(&self) -> &T {
                    unsafe { &*self.0 .0.v.get() }
                }
            }
            impl<T: ?Sized> Drop for $owned<T> {
                fn drop(&mut self) {
                    self.0 .0.release()
                }
            }
            guard!(@$mutable $n $owned);
        };
        (@no $n:ident $owned:ident) => {};
        (@yes $n:ident $owned:ident) => {
            impl<T: ?Sized> DerefMut for $n<'_, T> {
                fn deref_mut(&mut self) -> &mut T {
                    unsafe { &mut *self.0.v.get() }
                }
            }
            impl<T: ?Sized> DerefMut for $owned<T> {
                fn deref_mut(&mut self) -> &mut T {
                    unsafe { &mut *self.0 .0.v.get() }
                }
            }
        };
    }
    guard!(RwLockReadGuard, OwnedRwLockReadGuard, RwLock, no);
    guard!(RwLockWriteGuard, OwnedRwLockWriteGuard, RwLock, yes);
    guard!(MutexGuard, OwnedMutexGuard, Mutex, yes);
    impl<'a, T: ?Sized> RwLockWriteGuard<'a, T> {
        pub fn downgrade(self) -> RwLockReadGuard<'a, T> {
            let l = self.0;
            std::mem::forget(self);
            l.st.set(1);
            RwLockReadGuard(l)
        }
    }
    macro_rules! lock {
        ($n:ident) => {
            pub struct $n<T: ?Sized>(Lock<T>);
            unsafe impl<T: ?Sized + Send> Send for $n<T> {}
            unsafe impl<T: ?Sized + Send> Sync for $n<T> {}
            impl<T> $n<T> {
                pub const fn const_new(v: T) -> Self {
                    $n(Lock { st: Cell::new(0), v: UnsafeCell::new(v) })
                }
                pub fn new(v: T) -> Self {
                    Self::const_new(v)
                }
                pub fn into_inner(self) -> T {
                    self.0.v.into_inner()
                }
            }
            impl<T: ?Sized> $n<T> {
                pub fn get_mut(&mut self) -> &mut T {
                    self.0.v.get_mut()
                }
            }
            impl<T: Default> Default for $n<T> {
                fn default() -> Self {
                    Self::new(T::default())
                }
            }
            impl<T> From<T> for $n<T> {
                fn from(v: T) -> Self {
                    Self::new(v)
                }
            }
            impl<T: ?Sized> fmt::Debug for $n<T> {
                fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                    f.write_str(stringify!($n))
                }
            }
        };
    }
    lock!(RwLock);
    lock!(Mutex);
    impl<T: ?Sized> RwLock<T> {
        pub async fn read(&self) -> RwLockReadGuard<'_, T> {
            self.blocking_read()
        }
        pub async fn write(&self) -> RwLockWriteGuard<'_, T> {
            self.blocking_write()
        }
        pub fn blocking_read(&self) -> RwLockReadGuard<'_, T> {
            self.0.shared(true);
            RwLockReadGuard(&self.0)
        }
        pub fn blocking_write(&self) -> RwLockWriteGuard<'_, T> {
            self.0.exclusive(true);
            RwLockWriteGuard(&self.0)
        }
        pub fn try_read(&self) -> Result<RwLockReadGuard<'_, T>, TryLockError> {
            self.0.shared(false).then(|| RwLockReadGuard(&self.0)).ok_or(TryLockError(()))
        }
        pub fn try_write(&self) -> Result<RwLockWriteGuard<'_, T>, TryLockError> {
            self.0.exclusive(false).then(|| RwLockWriteGuard(&self.0)).ok_or(TryLockError(()))
        }
        pub async fn read_owned(self: Arc<Self>) -> OwnedRwLockReadGuard<T> {
            self.0.shared(true);
            OwnedRwLockReadGuard(self)
        }
        pub async fn write_owned(self: Arc<Self>) -> OwnedRwLockWriteGuard<T> {
            self.0.exclusive(true);
            OwnedRwLockWriteGuard(self)
        }
    }
    impl<T: ?Sized> Mutex<T> {
        pub async fn lock(&self) -> MutexGuard<'_, T> {
            self.blocking_lock()
        }
        pub fn blocking_lock(&self) -> MutexGuard<'_, T> {
            self.0.exclusive(true);
            MutexGuard(&self.0)
        }
        pub fn try_lock(&self) -> Result<MutexGuard<'_, T>, TryLockError> {
            self.0.exclusive(false).then(|| MutexGuard(&self.0)).ok_or(TryLockError(()))
        }
        pub async fn lock_owned(self: Arc<Self>) -> OwnedMutexGuard<T> {
            self.0.exclusive(true);
            OwnedMutexGuard(self)
        }
    }
    pub struct OnceCell<T>(std::sync::OnceLock<T>);
    impl<T> OnceCell<T> {
        pub const fn const_new() -> Self {
            OnceCell(std::sync::OnceLock::new())
        }
        pub fn new() -> Self {
            Self::const_new()
        }
        pub fn get(&self) -> Option<&T> {
            self.0.get()
        }
        pub async fn get_or_init<F, Fut>(&self, f: F) -> &T
        where
            F: FnOnce() -> Fut,
            Fut: std::future::Future<Output = T>,
        {
            if self.0.get().is_none() {
                let v = f().await;
                let _ = self.0.set(v);
            }
            self.0.get().unwrap()
        }
    }
    impl<T> Default for OnceCell<T> {
        fn default() -> Self {
            Self::new()
        }
    }
}
pub mod task {
    use std::future::Future;
    use std::pin::Pin;
    use std::task::{Context, Poll};
    #[derive(Debug)]
    pub struct JoinError(());
    impl std::fmt::Display for JoinError {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("task failed")
        }
    }
    impl std::error::Error for JoinError {}
    /// The task runs when it is awaited or, at the latest, when its handle goes.
    pub struct JoinHandle<T> {
        f: Option<Pin<Box<dyn Future<Output = T>>>>,
    }
    unsafe impl<T: Send> Send for JoinHandle<T> {}
    impl<T> Unpin for JoinHandle<T> {}
    impl<T> Future for JoinHandle<T> {
        type Output = Result<T, JoinError>;
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
            let r = self.f.as_mut().unwrap().as_mut().poll(cx);
            if r.is_ready() {
                self.f = None;
            }
            r.map(Ok)
        }
    }
    impl<T> Drop for JoinHandle<T> {
        fn drop(&mut self) {
            if let Some(mut f) = self.f.take() {
                let mut cx = Context::from_waker(std::task::Waker::noop());
                while f.as_mut().poll(&mut cx).is_pending() {}
            }
        }
    }
    pub fn spawn<F: Future + Send + 'static>(f: F) -> JoinHandle<F::Output>
    where
        F::Output: Send + 'static,
    {
        JoinHandle { f: Some(Box::pin(f)) }
    }
    pub fn spawn_blocking<F: FnOnce() -> R + Send + 'static, R: Send + 'static>(f: F) -> JoinHandle<R> {
        JoinHandle { f: Some(Box::pin(async move { f() })) }
    }
    pub fn block_in_place<F: FnOnce() -> R, R>(f: F) -> R {
        f()
    }
    pub async fn yield_now() {
        symrt::yield_point()
    }
}
pub use task::spawn;
pub mod time {
    pub use std::time::Duration;
    pub async fn sleep(_: Duration) {
        symrt::yield_point()
    }
}
pub mod runtime {
    use std::future::Future;
    pub struct Runtime(());
    impl Runtime {
        pub fn new() -> std::io::Result<Runtime> {
            Ok(Runtime(()))
        }
        pub fn block_on<F: Future>(&self, f: F) -> F::Output {
            let mut f = std::pin::pin!(f);
            let mut cx = std::task::Context::from_waker(std::task::Waker::noop());
            loop {
                if let std::task::Poll::Ready(v) = f.as_mut().poll(&mut cx) {
                    return v;
                }
            }
        }
    }
}
/// All futures, one after the other.
#[macro_export]
macro_rules! join {
    ($($f:expr),+ $(,)?) => { ($($f.await,)+) };
}
/// All futures, one after the other, up to the first that fails.
#[macro_export]
macro_rules! try_join {
    ($($f:expr),+ $(,)?) => {
        async { Ok(($(match $f.await { Ok(v) => v, Err(e) => return Err(e) },)+)) }.await
    };
}
pub mod model {
    use std::sync::atomic::{AtomicBool, Ordering::Relaxed};
    static LATE: AtomicBool = AtomicBool::new(false);
    /// Lets writes that were not flushed be still queued when the file is dropped.
    pub fn set_late_writes(on: bool) {
        LATE.store(on, Relaxed)
    }
    pub fn late_writes() -> bool {
        LATE.load(Relaxed)
    }
}
