//! Native replay: the same harness entry, linked with the natively compiled
//! code, on the concrete values the engine found.  usage: replay ENTRY VALUES
//! VALUES lines: `B name hex`, `C name n`, `S msghex digesthex`.
//! Prints one line: `passed` | `violated <label>` | `assumed` | `diverged <why>`.
mod files;
mod sha;
use std::cell::UnsafeCell;

pub struct G<T>(pub UnsafeCell<T>);
unsafe impl<T> Sync for G<T> {}
#[derive(Default)]
struct Run {
    inputs: Vec<(String, Result<Vec<u8>, u64>)>,
    pos: usize,
    sha: Vec<(Vec<u8>, [u8; 32])>,
    covers: Vec<String>,
    depth: usize,
}
static RUN: G<Option<Run>> = G(UnsafeCell::new(None));
#[allow(clippy::mut_from_ref)]
fn run() -> &'static mut Run {
    unsafe { (*RUN.0.get()).get_or_insert_with(Run::default) }
}
fn finish(s: &str) -> ! {
    files::off();
    for c in &run().covers {
        println!("cover {}", c);
    }
    println!("{}", s);
    use std::io::Write;
    let _ = std::io::stdout().flush();
    extern "C" {
        fn _exit(c: i32) -> !;
    }
    unsafe { _exit(0) }
}
unsafe fn text(p: *const u8, n: usize) -> String {
    String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).into_owned()
}
fn next(name: &str) -> Result<Vec<u8>, u64> {
    let r = run();
    match r.inputs.get(r.pos) {
        Some((n, v)) if n == name => {
            r.pos += 1;
            v.clone()
        }
        Some((n, _)) => finish(&format!("diverged wants {} but the trace has {}", name, n)),
        None => finish(&format!("diverged wants {} but the trace is over", name)),
    }
}
#[no_mangle]
unsafe extern "C-unwind" fn __sym_bytes(p: *mut u8, len: usize, n: *const u8, nl: usize) {
    let name = text(n, nl);
    match next(&name) {
        Ok(b) if b.len() == len => std::slice::from_raw_parts_mut(p, len).copy_from_slice(&b),
        _ => finish(&format!("diverged length of {}", name)),
    }
}
pub fn choice(n: u64, name: &str) -> u64 {
    match next(name) {
        Err(v) if v < n => v,
        _ => finish(&format!("diverged choice {}", name)),
    }
}
#[no_mangle]
unsafe extern "C-unwind" fn __sym_choice(n: u64, p: *const u8, l: usize) -> u64 {
    let name = text(p, l);
    choice(n, &name)
}
#[no_mangle]
unsafe extern "C-unwind" fn __sym_assume(c: bool) {
    if !c {
        finish("assumed")
    }
}
#[no_mangle]
unsafe extern "C-unwind" fn __sym_assert(c: bool, p: *const u8, l: usize) {
    if !c {
        finish(&format!("violated {}", text(p, l)))
    }
    let m = format!("check: {}", text(p, l));
    if !run().covers.contains(&m) {
        run().covers.push(m);
    }
}
#[no_mangle]
unsafe extern "C-unwind" fn __sym_cover(p: *const u8, l: usize) {
    let m = text(p, l);
    if !run().covers.contains(&m) {
        run().covers.push(m);
    }
}
#[no_mangle]
unsafe extern "C-unwind" fn __sym_note(_: *const u8, _: usize, _: *const u8, _: usize) {}
#[no_mangle]
unsafe extern "C-unwind" fn __sym_native() -> bool {
    true
}
#[no_mangle]
unsafe extern "C-unwind" fn __sym_sha256(p: *const u8, l: usize, out: *mut u8) {
    let m = if l == 0 { &[][..] } else { std::slice::from_raw_parts(p, l) };
    let d = match run().sha.iter().find(|x| x.0 == m) {
        Some(x) => x.1,
        None => sha::sha256(m),
    };
    std::ptr::copy_nonoverlapping(d.as_ptr(), out, 32);
}
extern "C-unwind" {
    fn jump_try(f: unsafe extern "C-unwind" fn(*mut u8) -> u32, d: *mut u8) -> u32;
    fn jump_throw() -> i32;
}
struct Call(extern "C-unwind" fn(*mut u8), *mut u8);
unsafe extern "C-unwind" fn guarded(c: *mut u8) -> u32 {
    let c = &*(c as *const Call);
    let (f, d) = (c.0, c.1 as usize);
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || f(d as *mut u8))) {
        Ok(()) => 0,
        Err(e) => {
            std::mem::forget(e);
            2
        }
    }
}
#[no_mangle]
unsafe extern "C-unwind" fn __sym_try(f: extern "C-unwind" fn(*mut u8), d: *mut u8) -> u32 {
    run().depth += 1;
    let k = run().depth;
    let c = Call(f, d);
    let r = jump_try(guarded, &c as *const Call as *mut u8);
    run().depth = k - 1;
    r
}
pub fn throw() -> ! {
    unsafe {
        jump_throw();
    }
    finish("diverged crash outside an attempt")
}
#[no_mangle]
unsafe extern "C-unwind" fn __sym_throw() -> ! {
    throw()
}
#[no_mangle]
unsafe extern "C-unwind" fn __sym_crash_points(on: bool) {
    files::crash_points(on)
}
#[no_mangle]
unsafe extern "C-unwind" fn __sym_file_faults(s: u32) -> u32 {
    files::file_faults(s)
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let real_sha = a.iter().any(|x| x == "--real-sha");
    let t = std::fs::read_to_string(&a[2]).expect("values");
    for l in t.lines() {
        let w: Vec<&str> = l.split('\t').collect();
        match w[0] {
            "B" => run().inputs.push((w[1].into(), Ok(unhex(w[2])))),
            "C" => run().inputs.push((w[1].into(), Err(w[2].parse().unwrap()))),
            "S" if !real_sha => {
                let mut d = [0u8; 32];
                d.copy_from_slice(&unhex(w[2]));
                run().sha.push((unhex(w[1]), d));
            }
            _ => {}
        }
    }
    let Some(e) = harness::ENTRIES.iter().find(|e| e.0 == a[1]) else {
        println!("diverged no such entry");
        return;
    };
    static AT: G<String> = G(UnsafeCell::new(String::new()));
    std::panic::set_hook(Box::new(|i| {
        if let Some(l) = i.location() {
            unsafe { *AT.0.get() = format!("{}:{}", l.file(), l.line()) };
        }
    }));
    files::on();
    let f = e.1;
    match std::panic::catch_unwind(move || f()) {
        Ok(()) => finish("passed"),
        Err(_) => finish(&format!("violated panic at {}", unsafe { &*AT.0.get() })),
    }
}
