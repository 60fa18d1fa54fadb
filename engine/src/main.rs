//! Symbolic executor for LLVM IR.  usage: engine FILE.ll ENTRY OUT.json [options]
mod fx;
mod bv;
mod exec;
mod expr;
mod ir;
mod solver;
mod vfs;
use std::time::{Duration, Instant};

fn inputs(t: &exec::Trace) -> Vec<String> {
    t.iter()
        .map(|(n, k, b, c)| {
            if k == "choice" {
                format!("{{\"name\":{},\"choice\":{}}}", js(n), c)
            } else {
                format!("{{\"name\":{},\"{}\":\"{}\"}}", js(n), k, hex(b))
            }
        })
        .collect()
}
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn arr(v: Vec<String>) -> String {
    format!("[{}]", v.join(","))
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 4 {
        eprintln!("usage: engine FILE.ll ENTRY OUT.json [-v] [--time S] [--paths N] [--solver k,k] [--query S] [--double k] [--dump DIR]");
        std::process::exit(2);
    }
    // deep recursion in the simplifier
    let h = std::thread::Builder::new().stack_size(4 << 30).spawn(move || real(a)).unwrap();
    std::process::exit(h.join().unwrap_or(2));
}
fn real(a: Vec<String>) -> i32 {
    expr::init();
    let opt = |n: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned();
    let t0 = Instant::now();
    let text = std::fs::read_to_string(&a[1]).expect("ir");
    let m = match ir::Module::load(text) {
        Ok(m) => m,
        Err(e) => {
            eprintln!("ir: {}", e);
            return 2;
        }
    };
    let kinds: Vec<String> = opt("--solver").unwrap_or("z3-new,cvc5,z3".into()).split(',').map(|s| s.to_string()).collect();
    let mut s = solver::Solver::new(&kinds, opt("--query").and_then(|x| x.parse().ok()).unwrap_or(120.0));
    s.recheck = opt("--recheck").and_then(|x| x.parse().ok()).unwrap_or(0);
    s.plain = a.iter().any(|x| x == "--plain");
    s.double = opt("--double");
    s.dump = opt("--dump");
    let mut e = exec::Engine::new(m, s).unwrap();
    e.verbose = a.iter().any(|x| x == "-v");
    let limit: f64 = opt("--time").and_then(|x| x.parse().ok()).unwrap_or(800.0);
    e.deadline = t0 + Duration::from_secs_f64(limit);
    e.after_first = opt("--after").and_then(|x| x.parse().ok()).map(Duration::from_secs_f64);
    e.want_samples = opt("--samples").and_then(|x| x.parse().ok()).unwrap_or(0);
    e.rng = opt("--seed").and_then(|x| x.parse().ok()).unwrap_or(1);
    if let Some(p) = opt("--paths") {
        e.max_paths = p.parse().unwrap();
    }
    if let Err(x) = e.start(&a[2]) {
        eprintln!("start: {}", x);
        return 2;
    }
    let load = t0.elapsed().as_secs_f64();
    e.run();
    // the sampled paths are feasible, says the SMT solver on the whole path condition
    let mut confirmed = 0;
    for i in 0..e.samples.len() {
        let q = e.samples[i].2.clone();
        match e.solver.confirm(&q) {
            Some(solver::Ans::Sat(..)) => confirmed += 1,
            Some(solver::Ans::Unsat) => e.problems.push("a completed path is infeasible".into()),
            _ => {}
        }
    }
    for x in e.solver.mismatch.clone() {
        e.problems.push(x);
    }
    let st = &e.solver.stats;
    let mut fns: Vec<String> = e.executed.iter().map(|i| e.m.fns[*i as usize].pretty.clone()).filter(|p| p.contains("blockchaintree::") && !p.contains("drop_glue")).collect();
    fns.sort();
    fns.dedup();
    let viol: Vec<String> = e
        .violations
        .iter()
        .map(|v| {
            let tr = inputs(&v.trace);
            let sh = v.sha.iter().map(|(a, b)| format!("[\"{}\",\"{}\"]", hex(a), hex(b))).collect();
            format!(
                "{{\"label\":{},\"detail\":{},\"stack\":{},\"inputs\":{},\"sha\":{}}}",
                js(&v.label),
                js(&v.detail),
                arr(v.stack.iter().map(|s| js(s)).collect()),
                arr(tr),
                arr(sh)
            )
        })
        .collect();
    let samples: Vec<String> = e
        .samples
        .iter()
        .map(|(t, d, _)| {
            let sh = d.iter().map(|(a, b)| format!("[\"{}\",\"{}\"]", hex(a), hex(b))).collect();
            format!("{{\"inputs\":{},\"sha\":{}}}", arr(inputs(t)), arr(sh))
        })
        .collect();
    let out = format!(
        "{{\"entry\":{},\"paths\":{},\"assumed_away\":{},\"forks\":{},\"instructions\":{},\"asserts\":{},\"asserts_concrete\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cached\":{},\"brute\":{},\"second\":{},\"solver_seconds\":{:.3},\"max_query_seconds\":{:.3},\"seconds\":{:.3},\"load_seconds\":{:.3},\"functions\":{},\"covers\":{},\"problems\":{},\"violations\":{},\"samples\":{},\"confirmed\":{},\"rechecked\":{}}}\n",
        js(&a[2]), e.paths, e.killed, e.forks, e.steps, e.asserts, e.asserts_concrete, st.queries, st.sat, st.unsat, st.unknown, st.cached, st.brute, st.second,
        st.time, st.max, t0.elapsed().as_secs_f64(), load,
        arr(fns.iter().map(|s| js(s)).collect()),
        arr(e.covers.iter().map(|s| js(s)).collect()),
        arr(e.problems.iter().map(|s| js(s)).collect()),
        arr(viol),
        arr(samples),
        confirmed,
        st.rechecked
    );
    std::fs::write(&a[3], &out).unwrap();
    if e.verbose {
        let mut v: Vec<_> = e.fork_sites.iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for (k, n) in v.iter().take(25) {
            eprintln!("{:8} {}", n, k);
        }
    }
    if !e.problems.is_empty() {
        2
    } else if !e.violations.is_empty() {
        1
    } else {
        0
    }
}
