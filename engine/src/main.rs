//! vpse: path-exhaustive symbolic execution of one harness function of a whole-program LLVM module.
mod dl;
mod exec;
mod expr;
mod llvm;
mod mem;
mod module;
mod solver;
mod z3;
use exec::*;
use std::ffi::{c_int, c_void};
use std::fmt::Write as _;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Instant;

extern "C" {
    fn fork() -> c_int;
    fn waitpid(p: c_int, st: *mut c_int, o: c_int) -> c_int;
    fn mmap(a: *mut c_void, n: usize, prot: c_int, fl: c_int, fd: c_int, off: i64) -> *mut c_void;
    fn _exit(c: c_int) -> !;
}

fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b {
        let _ = write!(s, "{:02x}", x);
    }
    if s.is_empty() {
        s.push('-');
    }
    s
}
fn clean(s: &str) -> String {
    s.replace(['\t', '\n', '\r'], " ")
}

fn dump(x: &mut Exec) -> String {
    let mut o = String::new();
    let r = &x.r;
    let st = &x.s.st;
    let _ = writeln!(
        o,
        "STAT\tpaths={}\tinfeasible={}\tforks={}\tsteps={}\tmax_steps={}\tblocks={}\tchecks_sym={}\tz3={}\tz3_sat={}\tz3_unsat={}\tz3_ms={}\tz3_max_ms={}\tdom={}\tcache={}\tmodel={}\texprs={}\tmax_sym={}\tviol_paths={}",
        r.paths, r.infeasible, r.forks, r.steps, r.max_steps, r.blocks, r.checks_sym,
        st.z3_queries, st.z3_sat, st.z3_unsat, (st.z3_time * 1000.0) as u64, (st.z3_max * 1000.0) as u64,
        st.dom_queries, st.cache_hits, st.model_hits, x.p.n.len(), r.max_sym, r.viol_paths
    );
    for (k, v) in &r.checks {
        let _ = writeln!(o, "CHECK\t{}\t{}", clean(k), v);
    }
    for (k, v) in &r.covers {
        let _ = writeln!(o, "COVER\t{}\t{}", clean(k), hex(v));
    }
    for v in r.viols.values() {
        let _ = writeln!(o, "VIOL\t{}\t{}\t{}\t{}", v.kind, clean(&v.id), hex(&v.model), clean(&v.trace));
    }
    for (k, v) in &r.errors {
        let _ = writeln!(o, "ERROR\t{}\t{}", clean(k), v);
    }
    for (m, h) in &r.samples {
        let _ = writeln!(o, "SAMPLE\t{}\t{:016x}", hex(m), h);
    }
    for f in &r.funcs {
        let _ = writeln!(o, "FUNC\t{}", f);
    }
    o
}

fn real_main() {
    let mut arg = std::collections::HashMap::new();
    let mut it = std::env::args().skip(1);
    while let Some(k) = it.next() {
        let v = it.next().unwrap_or_default();
        arg.insert(k.trim_start_matches('-').to_string(), v);
    }
    let get = |k: &str, d: &str| arg.get(k).cloned().unwrap_or(d.to_string());
    let num = |k: &str, d: f64| arg.get(k).map(|v| v.parse::<f64>().unwrap()).unwrap_or(d);
    let t0 = Instant::now();
    let m = module::Module::open(&get("llvm", ""), &get("ir", ""));
    let s = solver::Solver::new(&get("z3", "libz3.so.4"), num("timeout", 60_000.0) as u32);
    let lim = Limits {
        steps: num("steps", 20e6) as u64,
        paths: num("paths", 50e6) as u64,
        secs: num("secs", 600.0),
        conc: num("conc", 300.0) as usize,
    };
    let mut x = Exec::new(m, s, lim);
    x.param = num("param", 0.0) as u64;
    x.skip = get("skip", "").split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
    x.trace = arg.contains_key("trace");
    x.s.prof = arg.contains_key("prof");
    let jobs = num("jobs", 1.0) as usize;
    let load = t0.elapsed().as_secs_f64();
    x.start = Instant::now();
    let st = x.initial(&get("entry", ""));
    x.work.push(st);
    let mut out = String::new();
    if jobs > 1 {
        let target = num("split", 24.0 * jobs as f64) as usize;
        let full = x.lim.secs;
        x.run(Some(target));
        x.lim.secs = full;
    }
    if jobs > 1 && !x.work.is_empty() {
        let states = std::mem::take(&mut x.work);
        out += &dump(&mut x);
        x.s.drop_z3();
        x.s.st = Default::default();
        let errs = std::mem::take(&mut x.r);
        x.r.paths = 0;
        drop(errs);
        let ctr = unsafe {
            let p = mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0);
            &*(p as *const AtomicU64)
        };
        let dir = std::env::temp_dir();
        let me = std::process::id();
        let mut kids = vec![];
        for j in 0..jobs {
            let path = dir.join(format!("vpse-{}-{}", me, j));
            let pid = unsafe { fork() };
            if pid == 0 {
                loop {
                    let i = ctr.fetch_add(1, Ordering::SeqCst) as usize;
                    if i >= states.len() {
                        break;
                    }
                    x.work.push(states[i].clone());
                    x.run(None);
                }
                let s = dump(&mut x);
                let ok = std::fs::write(&path, s).is_ok();
                unsafe { _exit(if ok { 0 } else { 9 }) };
            }
            kids.push((pid, path));
        }
        for (pid, path) in kids {
            let mut st: c_int = 0;
            unsafe { waitpid(pid, &mut st, 0) };
            match std::fs::read_to_string(&path) {
                Ok(s) if st == 0 => out += &s,
                _ => out += &format!("ERROR\tworker ended with status {}\t1\n", st),
            }
            let _ = std::fs::remove_file(&path);
        }
    } else {
        x.run(None);
        out += &dump(&mut x);
    }
    if x.s.prof {
        let mut v: Vec<_> = x.s.profile.iter().collect();
        v.sort_by(|a, b| b.1.1.partial_cmp(&a.1.1).unwrap());
        for (k, (n, t, m, q)) in v.into_iter().take(14) {
            eprintln!("PROF {:6} {:.2}s max {:.0}ms {}\n     {}", n, t, m * 1e3, k, q.chars().take(700).collect::<String>());
        }
    }
    let _ = writeln!(out, "TIME\tload={:.2}\trun={:.2}", load, x.start.elapsed().as_secs_f64());
    let _ = writeln!(out, "SOLVER\t{}", x.s.version());
    out += "END\n";
    print!("{}", out);
}

fn main() {
    // expression trees can be deep
    std::thread::Builder::new().stack_size(2 << 30).spawn(real_main).unwrap().join().unwrap();
}
