//! Thin safe layer over the intrinsics that the symbolic engine (engine/)
//! interprets.  Linked natively (replay/), the same symbols are provided by
//! replay/src/native.rs, which reads the solver's assignment from a file.
extern "C-unwind" {
    fn __sym_bytes(ptr: *mut u8, len: usize, name: *const u8, name_len: usize);
    fn __sym_assume(c: bool);
    fn __sym_assert(c: bool, msg: *const u8, msg_len: usize);
    fn __sym_cover(msg: *const u8, msg_len: usize);
    fn __sym_sha256(data: *const u8, len: usize, out: *mut u8);
    fn __sym_choice(n: u64, name: *const u8, name_len: usize) -> u64;
    fn __sym_try(f: extern "C-unwind" fn(*mut u8), data: *mut u8) -> u32;
    fn __sym_throw() -> !;
    fn __sym_native() -> bool;
    fn __sym_note(name: *const u8, name_len: usize, ptr: *const u8, len: usize);
}

/// `len` fresh symbolic bytes.
#[inline]
pub fn fill(buf: &mut [u8], name: &str) {
    unsafe { __sym_bytes(buf.as_mut_ptr(), buf.len(), name.as_ptr(), name.len()) }
}
pub fn bytes<const N: usize>(name: &str) -> [u8; N] {
    let mut b = [0u8; N];
    fill(&mut b, name);
    b
}
pub fn vec(len: usize, name: &str) -> Vec<u8> {
    let mut b = vec![0u8; len];
    fill(&mut b, name);
    b
}
pub fn u8(name: &str) -> u8 {
    bytes::<1>(name)[0]
}
pub fn u32(name: &str) -> u32 {
    u32::from_le_bytes(bytes::<4>(name))
}
pub fn u64(name: &str) -> u64 {
    u64::from_le_bytes(bytes::<8>(name))
}
pub fn bool(name: &str) -> bool {
    choice(2, name) == 1
}
/// Forks into n paths; the result is concrete on each.
pub fn choice(n: u64, name: &str) -> u64 {
    unsafe { __sym_choice(n, name.as_ptr(), name.len()) }
}
pub fn assume(c: bool) {
    unsafe { __sym_assume(c) }
}
pub fn check(c: bool, msg: &str) {
    unsafe { __sym_assert(c, msg.as_ptr(), msg.len()) }
}
pub fn cover(msg: &str) {
    unsafe { __sym_cover(msg.as_ptr(), msg.len()) }
}
/// Records a value for counterexample reports.
pub fn note(name: &str, v: &[u8]) {
    unsafe { __sym_note(name.as_ptr(), name.len(), v.as_ptr(), v.len()) }
}
pub fn sha256(data: &[u8]) -> [u8; 32] {
    let mut out = [0u8; 32];
    unsafe { __sym_sha256(data.as_ptr(), data.len(), out.as_mut_ptr()) };
    out
}
/// true in a native replay, false under the engine
pub fn native() -> bool {
    unsafe { __sym_native() }
}
pub fn throw() -> ! {
    unsafe { __sym_throw() }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Outcome<T> {
    Done(T),
    Crashed,
    Panicked,
}
impl<T> Outcome<T> {
    pub fn panicked(&self) -> bool {
        matches!(self, Outcome::Panicked)
    }
    pub fn done(self) -> Option<T> {
        match self {
            Outcome::Done(v) => Some(v),
            _ => None,
        }
    }
}

/// Runs `f`; a panic or a simulated crash inside it ends it (no destructors run).
#[inline(never)]
pub fn attempt<T, F: FnOnce() -> T>(f: F) -> Outcome<T> {
    struct Data<T, F> {
        f: Option<F>,
        r: Option<T>,
    }
    extern "C-unwind" fn call<T, F: FnOnce() -> T>(p: *mut u8) {
        let d = unsafe { &mut *(p as *mut Data<T, F>) };
        let f = d.f.take().unwrap();
        d.r = Some(f());
    }
    let mut d = Data { f: Some(f), r: None };
    let k = unsafe { __sym_try(call::<T, F>, &mut d as *mut _ as *mut u8) };
    match k {
        0 => Outcome::Done(d.r.take().unwrap()),
        1 => {
            std::mem::forget(d);
            Outcome::Crashed
        }
        _ => {
            std::mem::forget(d);
            Outcome::Panicked
        }
    }
}

// ---------------------------------------------------------------------------
// Interference: a second actor's whole operation, run at one environment step
// of the first (chosen by the engine).  Model crates call `yield_point`.
// ---------------------------------------------------------------------------
struct Cell0<T>(std::cell::UnsafeCell<T>);
unsafe impl<T> Sync for Cell0<T> {}
struct Sched {
    hook: Option<fn()>,
    armed: bool,
    inside: bool,
}
static SCHED: Cell0<Sched> = Cell0(std::cell::UnsafeCell::new(Sched {
    hook: None,
    armed: false,
    inside: false,
}));
#[allow(clippy::mut_from_ref)]
fn sched() -> &'static mut Sched {
    unsafe { &mut *SCHED.0.get() }
}
/// Arms one interference: `f` runs at most once, at a yield point of the code
/// executed from here on.
pub fn arm(f: fn()) {
    let s = sched();
    s.hook = Some(f);
    s.armed = true;
    s.inside = false;
}
/// true if the armed interference did run
pub fn disarm() -> bool {
    let s = sched();
    let ran = s.hook.is_some() && !s.armed;
    s.hook = None;
    s.armed = false;
    ran
}
pub fn inside() -> bool {
    sched().inside
}
#[inline(never)]
pub fn yield_point() {
    let s = sched();
    if !s.armed || s.inside {
        return;
    }
    if choice(2, "schedule") == 1 {
        s.armed = false;
        s.inside = true;
        (s.hook.unwrap())();
        sched().inside = false;
    }
}
/// A lock is unavailable: the interfering actor waits (this schedule is another
/// one, so it is pruned); the main actor waiting for itself is a deadlock.
pub fn blocked() -> ! {
    if inside() {
        assume(false);
    }
    panic!("deadlock: lock already held by this thread");
}
extern "C-unwind" {
    fn __sym_crash_points(on: bool);
}
/// From here on every mutating file operation may be the last one before the
/// process dies (`attempt` then returns `Crashed`).
pub fn crash_points(on: bool) {
    unsafe { __sym_crash_points(on) }
}
extern "C-unwind" {
    fn __sym_file_faults(s: u32) -> u32;
}
/// From here on one file operation may fail with an I/O error, or write less
/// than asked.  Turned off, it tells whether one failed.
pub fn file_faults(on: bool) -> bool {
    unsafe { __sym_file_faults(2 * on as u32) & 1 == 1 }
}
/// What a model does with files by itself does not fail.
pub struct NoFileFaults(u32);
pub fn no_file_faults() -> NoFileFaults {
    NoFileFaults(unsafe { __sym_file_faults(0) })
}
impl Drop for NoFileFaults {
    fn drop(&mut self) {
        unsafe { __sym_file_faults(self.0) };
    }
}
