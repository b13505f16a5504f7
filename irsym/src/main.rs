mod dbm;
mod exec;
mod ll;
mod smt;
mod term;
use exec::*;
use std::collections::{BTreeSet, HashMap};
use std::fmt::Write as _;
use std::io::Write as _;

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn _exit(c: i32) -> !;
    fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}

fn esc(s: &str) -> String { s.chars().map(|c| match c { '"' => "\\\"".into(), '\\' => "\\\\".into(), '\n' => "\\n".into(), c if (c as u32) < 32 => " ".into(), c => c.to_string() }).collect() }

fn rep_json(r: &Report, elapsed: f64) -> String {
    let mut o = String::new();
    let _ = write!(o, "{{\"paths\":{},\"assume_ends\":{},\"steps\":{},\"sym_branches\":{},\"quick\":{},\"assert_queries\":{},\"asserts_trivial\":{},\"maxpc\":{},\"elapsed\":{:.3},", r.paths, r.assume_ends, r.steps, r.sym_branches, r.quick, r.assert_queries, r.asserts_trivial, r.maxpc, elapsed);
    let s = &r.st;
    let _ = write!(o, "\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"fallback\":{},\"fallback_solved\":{},\"solver_time\":{:.3},\"max_query\":{:.3},", s.queries, s.sat, s.unsat, s.unknown, s.fallback, s.fallback_solved, s.time, s.maxq);
    let _ = write!(o, "\"covers\":[{}],", r.covers.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
    let _ = write!(o, "\"inconclusive\":[{}],", r.inconclusive.iter().map(|x| format!("\"{}\"", esc(x))).collect::<Vec<_>>().join(","));
    let _ = write!(o, "\"funcs\":[{}],", r.funcs.iter().map(|x| format!("\"{}\"", esc(x))).collect::<Vec<_>>().join(","));
    let _ = write!(o, "\"witnesses\":[{}],", r.witnesses.iter().map(|x| format!("\"{}\"", esc(x))).collect::<Vec<_>>().join(","));
    let v: Vec<String> = r.violations.iter().map(|v| {
        format!("{{\"kind\":\"{}\",\"msg\":\"{}\",\"inputs\":\"{}\",\"trace\":[{}]}}", esc(&v.kind), esc(&v.msg),
            v.model.iter().map(|(i, x)| format!("{}={}", i, x)).chain(v.fmodel.iter().map(|(i, x)| format!("f{}={}", i, x))).collect::<Vec<_>>().join(","),
            v.trace.iter().map(|t| format!("\"{}\"", esc(t))).collect::<Vec<_>>().join(","))
    }).collect();
    let _ = write!(o, "\"violations\":[{}]}}", v.join(","));
    o
}

fn main() {
    let dh = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| { dh(i); ll::CUR.with(|c| eprintln!("irsym: while parsing/executing near: {}", c.borrow())) }));
    let args: Vec<String> = std::env::args().collect();
    let mut ll = String::new();
    let mut harness = vec![];
    let mut jobs = 8usize;
    let mut out = String::new();
    let mut qms = 10000u64;
    let mut fb = 60u64;
    let mut budget = 800u64;
    let mut conc: Option<String> = None;
    let mut dump = None;
    let mut max_viol = 4usize;
    let mut bv = 0u32;
    let mut fork_sel = false;
    let mut i = 1;
    while i < args.len() {
        let v = args.get(i + 1).cloned().unwrap_or_default();
        match args[i].as_str() {
            "--ll" => ll = v, "--harness" => harness.push(v), "--jobs" => jobs = v.parse().unwrap(), "--out" => out = v,
            "--query-ms" => qms = v.parse().unwrap(), "--fallback-s" => fb = v.parse().unwrap(), "--budget-s" => budget = v.parse().unwrap(),
            "--bv" => bv = v.parse().unwrap(), "--concrete" => conc = Some(v), "--dump" => dump = Some(v), "--max-violations" => max_viol = v.parse().unwrap(),
            "--fork-select" => fork_sel = v == "1",
            x => panic!("arg {}", x),
        }
        i += 2;
    }
    let text = std::fs::read_to_string(&ll).expect("ll file");
    let t0 = std::time::Instant::now();
    for h in harness {
        let m = ll::Module::load(&text);
        let mut smt = smt::Smt::new(qms, fb, bv);
        smt.dump = dump.clone();
        let mut e = Engine::new(m, smt);
        e.fork_sel = fork_sel;
        if let Some(c) = &conc {
            let mut mp = HashMap::new();
            for kv in c.split(',').filter(|s| !s.is_empty()) {
                let (k, v) = kv.split_once('=').unwrap();
                if let Some(f) = k.strip_prefix('f') { e.concf.insert(f.parse().unwrap(), v.parse().unwrap()); } else { mp.insert(k.parse().unwrap(), v.parse().unwrap()); }
            }
            e.conc = Some(mp);
        }
        let st = e.start(&h);
        let deadline = t0 + std::time::Duration::from_secs(budget);
        use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
        let sh = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) } as *mut AtomicU64;
        let (live, viol, seq, timed) = unsafe { (&*sh, &*sh.add(1), &*sh.add(2), &*sh.add(3)) };
        live.store(1, SeqCst);
        unsafe { prctl(36, 1, 0, 0, 0); } // collect orphaned workers
        let tmp = std::env::temp_dir();
        let me = std::process::id();
        let path = |k: u64| tmp.join(format!("irsym_{}_{}.json", me, k));
        let mut my = 0u64; // 0 = root
        let mv = max_viol as u64;
        let reported = std::cell::Cell::new(0u64);
        let stop = || {
            if std::time::Instant::now() > deadline { timed.store(1, SeqCst); return true }
            viol.load(SeqCst) >= mv
        };
        {
            let my = &mut my;
            let mut share = |e: &mut Engine, work: &mut Vec<State>| {
                let nv = e.rep.violations.len() as u64;
                if nv > reported.get() { viol.fetch_add(nv - reported.get(), SeqCst); reported.set(nv) }
                while jobs > 1 && work.len() > 1 {
                    let l = live.load(SeqCst);
                    if l >= jobs as u64 { break }
                    if live.compare_exchange(l, l + 1, SeqCst, SeqCst).is_err() { continue }
                    let k = seq.fetch_add(1, SeqCst) + 1;
                    let pid = unsafe { fork() };
                    if pid < 0 { live.fetch_sub(1, SeqCst); break }
                    if pid == 0 {
                        *my = k;
                        let s = work.remove(0);
                        work.clear();
                        work.push(s);
                        std::mem::forget(std::mem::replace(&mut e.smt, smt::Smt::new(qms, fb, bv)));
                        e.rep = Report::default();
                        reported.set(0);
                        break;
                    }
                    work.remove(0);
                }
            };
            e.run_dfs(st, &stop, &mut share);
        }
        let nv = e.rep.violations.len() as u64;
        if nv > reported.get() { viol.fetch_add(nv - reported.get(), SeqCst); }
        e.rep.st = e.smt.st.clone();
        let js = rep_json(&e.rep, t0.elapsed().as_secs_f64());
        live.fetch_sub(1, SeqCst);
        if my != 0 {
            let _ = std::fs::write(path(my), js);
            unsafe { drop(std::ptr::read(&e.smt)); _exit(0) }
        }
        drop(e);
        let mut parts: Vec<String> = vec![js];
        let mut bad = 0;
        loop {
            let mut stt = 0;
            let p = unsafe { waitpid(-1, &mut stt, 0) };
            if p <= 0 { break }
            if stt != 0 { bad += 1 }
        }
        for k in 1..=seq.load(SeqCst) {
            match std::fs::read_to_string(path(k)) {
                Ok(s) => parts.push(s),
                _ => bad += 1,
            }
            let _ = std::fs::remove_file(path(k));
        }
        if bad > 0 { parts.push(format!("{{\"inconclusive\":[\"{} worker(s) died\"]}}", bad)) }
        if timed.load(SeqCst) != 0 { parts.push("{\"inconclusive\":[\"time budget exhausted\"]}".into()) }
        let vars: BTreeSet<String> = term::tm().vars.iter().map(|v| format!("[{},{},{}]", v.0, v.1, v.2)).collect();
        let js = format!("{{\"harness\":\"{}\",\"vars\":[{}],\"wall\":{:.3},\"parts\":[{}]}}\n", h, vars.into_iter().collect::<Vec<_>>().join(","), t0.elapsed().as_secs_f64(), parts.join(","));
        if out.is_empty() { print!("{}", js) } else {
            let mut f = std::fs::OpenOptions::new().create(true).append(true).open(&out).unwrap();
            let _ = f.write_all(js.as_bytes());
        }
    }
}
