//! sx: symbolic execution of LLVM IR with an SMT solver.
//!
//!   sx run FILE.ll ENTRY --out RESULT.json [--workers N] [--time S] [--fuel N] [--known TEXT]...
//!   sx exec FILE.ll ENTRY [--inputs v,v,...]      one concrete execution (validation of the interpreter)

mod exec;
mod expr;
mod ir;
mod mem;
mod shared;
mod z3;

use exec::*;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::rc::Rc;
use std::sync::atomic::Ordering::*;

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, opts: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn kill(pid: i32, sig: i32) -> i32;
    fn setpgid(a: i32, b: i32) -> i32;
    fn getpid() -> i32;
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jinputs(v: &[(u8, u64)]) -> String {
    format!("[{}]", v.iter().map(|(w, x)| format!("[{w},{x}]")).collect::<Vec<_>>().join(","))
}

/// `@FILE` stands for the content of a file.
fn from_file(v: &str) -> String {
    match v.strip_prefix('@') {
        Some(path) => std::fs::read_to_string(path).expect("read inputs"),
        None => v.to_string(),
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 4 {
        eprintln!("usage: sx run|exec FILE.ll ENTRY [options]");
        std::process::exit(2);
    }
    let mode = args[1].clone();
    let mut out = String::new();
    let mut workers = 8i64;
    let mut time = 600u64;
    let mut opts = Opts {
        fuel: 3_000_000,
        rlimit: 30_000_000,
        known: vec![],
        concrete: None,
        sched: vec![],
        stop_on_fail: true,
        dump_every: 0,
        dump_dir: "/tmp".into(),
        max_depth: 400,
    };
    let mut i = 4;
    while i < args.len() {
        let v = args.get(i + 1).cloned().unwrap_or_default();
        match args[i].as_str() {
            "--out" => out = v,
            "--workers" => workers = v.parse().unwrap(),
            "--time" => time = v.parse().unwrap(),
            "--fuel" => opts.fuel = v.parse().unwrap(),
            "--rlimit" => opts.rlimit = v.parse().unwrap(),
            "--known" => opts.known.push(v),
            "--inputs" => opts.concrete = Some(from_file(&v).split(',').filter(|s| !s.is_empty()).map(|s| s.trim().parse().unwrap()).collect()),
            "--sched" => opts.sched = v.split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect(),
            "--dump-every" => opts.dump_every = v.parse().unwrap(),
            "--dump-dir" => opts.dump_dir = v,
            "--keep-going" => {
                opts.stop_on_fail = v != "1";
            }
            a => panic!("unknown option {a}"),
        }
        i += 2;
    }
    let t0 = std::time::Instant::now();
    let text = std::fs::read(&args[2]).expect("read IR");
    // the parser uses panics to resolve forward references between types
    let hook = std::panic::take_hook();
    std::panic::set_hook(Box::new(|_| {}));
    let m = std::panic::catch_unwind(|| ir::Module::parse(&text));
    std::panic::set_hook(hook);
    let m: &'static ir::Module = match m {
        Ok(m) => Box::leak(Box::new(m)),
        Err(e) => {
            let s = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            eprintln!("sx: cannot parse {}: {s}", args[2]);
            std::process::exit(3);
        }
    };
    drop(text);
    let parse_s = t0.elapsed().as_secs_f64();
    let sh: &'static shared::Shared = shared::create(std::mem::size_of::<shared::Shared>());
    let cov = Rc::new(shared::Cov::new(m.nblocks as usize));

    if mode == "exec" {
        opts.concrete.get_or_insert_with(Vec::new);
        let mut ex = Exec::new(m, sh, cov, opts);
        ex.start(&args[3]).unwrap();
        ex.run_one();
        for v in &ex.last_log {
            println!("log {v}");
        }
        for f in &ex.fails {
            println!("SX_FAIL {} at {}", f.msg, f.at);
        }
        for e in ex.errors.keys() {
            println!("SX_ERROR {e}");
        }
        for (i, c) in sh.covers.iter().enumerate() {
            if c.load(Relaxed) > 0 {
                println!("cover {i}");
            }
        }
        println!("steps {}", sh.steps.load(Relaxed));
        std::process::exit(if !ex.fails.is_empty() { 1 } else if !ex.errors.is_empty() { 3 } else if sh.killed_assume.load(Relaxed) > 0 { 77 } else { 0 });
    }

    let dir = format!("{out}.d");
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).expect("result directory");
    unsafe {
        prctl(36, 1, 0, 0, 0); // PR_SET_CHILD_SUBREAPER
    }
    sh.free_slots.store(workers, SeqCst);
    let entry = args[3].clone();
    let known = opts.known.clone();
    let mut ex = Exec::new(m, sh, cov.clone(), opts);
    if let Err(e) = ex.start(&entry) {
        eprintln!("sx: {e}");
        std::process::exit(3);
    }
    sh.free_slots.fetch_sub(1, SeqCst);
    sh.workers.fetch_add(1, SeqCst);
    let coord = unsafe { getpid() };
    let first = unsafe { fork() };
    assert!(first >= 0);
    if first == 0 {
        unsafe {
            setpgid(0, 0);
        }
        worker(ex, &dir, coord);
    }
    drop(ex);
    unsafe { setpgid(first, first) };
    let mut crashed = 0;
    let mut timed_out = false;
    let mut no_memory = false;
    loop {
        let mut st = 0;
        let r = unsafe { waitpid(-1, &mut st, 1) };
        if r < 0 {
            break; // no children left
        }
        if r > 0 {
            if st != 0 {
                crashed += 1;
                sh.stop.store(3, SeqCst);
            }
            continue;
        }
        std::thread::sleep(std::time::Duration::from_millis(2));
        if t0.elapsed().as_secs() >= time && sh.stop.load(SeqCst) == 0 {
            timed_out = true;
            sh.stop.store(2, SeqCst);
        }
        if t0.elapsed().as_secs() >= time + 90 {
            // a worker stuck inside the solver
            timed_out = true;
            unsafe { kill(-first, 9) };
        }
        if mem_low() {
            no_memory = true;
            sh.stop.store(2, SeqCst);
        }
    }
    // merge
    let mut fails: Vec<String> = vec![];
    let mut seen: BTreeMap<String, u32> = BTreeMap::new();
    let mut errors: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples = vec![];
    for f in std::fs::read_dir(&dir).unwrap().flatten() {
        let s = std::fs::read_to_string(f.path()).unwrap_or_default();
        for l in s.lines() {
            match l.split_at(2) {
                ("F ", r) => {
                    let (msg, rest) = r.split_once('\t').unwrap();
                    let c = seen.entry(msg.to_string()).or_insert(0);
                    if *c < 4 {
                        *c += 1;
                        fails.push(rest.to_string());
                    }
                }
                ("E ", r) => {
                    let (n, e) = r.split_once('\t').unwrap();
                    *errors.entry(e.to_string()).or_insert(0) += n.parse::<u64>().unwrap();
                }
                ("S ", r) => {
                    if samples.len() < 40 {
                        samples.push(r.to_string());
                    }
                }
                _ => {}
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    // code executed, by source position below /repo
    let mut lines: BTreeMap<String, BTreeSet<(u32, String)>> = BTreeMap::new();
    let mut funcs: BTreeSet<String> = BTreeSet::new();
    let mut all_lines: BTreeMap<String, BTreeSet<u32>> = BTreeMap::new();
    for f in &m.funcs {
        for b in &f.blocks {
            let hit = cov.get(b.cov);
            for ins in &b.ins {
                for (name, file, line) in m.locate(ins.dbg) {
                    if let Some(rel) = file.strip_prefix("/repo/") {
                        let rel = rel.trim_start_matches("./").to_string();
                        all_lines.entry(rel.clone()).or_default().insert(line);
                        if hit {
                            funcs.insert(format!("{rel}: {name}"));
                            lines.entry(rel).or_default().insert((line, name));
                        }
                    }
                }
            }
        }
    }
    let g = |a: &std::sync::atomic::AtomicU64| a.load(SeqCst);
    let mut o = String::from("{");
    let _ = write!(o, "\"entry\":{},", js(&entry));
    let status = if crashed > 0 {
        "crashed"
    } else if no_memory {
        "memory"
    } else if timed_out {
        "timeout"
    } else if !errors.is_empty() {
        "inconclusive"
    } else if g(&sh.stop) == 1 {
        "stopped"
    } else {
        "complete"
    };
    let _ = write!(o, "\"status\":\"{status}\",\"crashed\":{crashed},");
    let _ = write!(
        o,
        "\"paths\":{},\"completed\":{},\"assume_killed\":{},\"failing\":{},\"forks\":{},\"steps\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"cache_hits\":{},\"solver_s\":{:.3},\"workers\":{},\"max_inputs\":{},\"max_depth\":{},\"wall_s\":{:.3},\"parse_s\":{:.3},",
        g(&sh.paths), g(&sh.completed), g(&sh.killed_assume), g(&sh.failures), g(&sh.forks), g(&sh.steps), g(&sh.queries),
        g(&sh.sat), g(&sh.unsat), g(&sh.cache_hits), g(&sh.solver_ns) as f64 / 1e9, g(&sh.workers), g(&sh.max_inputs), g(&sh.max_depth),
        t0.elapsed().as_secs_f64(), parse_s
    );
    let cv: Vec<String> = sh.covers.iter().enumerate().filter(|(_, c)| g(c) > 0).map(|(i, c)| format!("\"{i}\":{}", g(c))).collect();
    let _ = write!(o, "\"covers\":{{{}}},", cv.join(","));
    let _ = write!(o, "\"failures\":[{}],", fails.join(","));
    let _ = write!(o, "\"known\":[{}],", known.iter().map(|s| js(s)).collect::<Vec<_>>().join(","));
    let _ = write!(o, "\"errors\":[{}],", errors.iter().map(|(e, n)| format!("[{n},{}]", js(e))).collect::<Vec<_>>().join(","));
    let _ = write!(o, "\"samples\":[{}],", samples.join(","));
    let _ = write!(o, "\"functions\":[{}],", funcs.iter().map(|s| js(s)).collect::<Vec<_>>().join(","));
    let ls: Vec<String> = lines
        .iter()
        .map(|(f, l)| {
            let hit: BTreeSet<u32> = l.iter().map(|x| x.0).collect();
            let missed: Vec<String> = all_lines[f].iter().filter(|x| !hit.contains(x) && **x > 0).map(|x| x.to_string()).collect();
            format!("{}:{{\"hit\":{},\"missed\":[{}]}}", js(f), hit.len(), missed.join(","))
        })
        .collect();
    let _ = write!(o, "\"lines\":{{{}}}", ls.join(","));
    o.push('}');
    std::fs::write(&out, o).expect("write result");
}

fn mem_low() -> bool {
    use std::sync::atomic::AtomicU32;
    static N: AtomicU32 = AtomicU32::new(0);
    if N.fetch_add(1, Relaxed) % 200 != 0 {
        return false;
    }
    let Ok(s) = std::fs::read_to_string("/proc/meminfo") else { return false };
    for l in s.lines() {
        if let Some(r) = l.strip_prefix("MemAvailable:") {
            let kb: u64 = r.trim().split(' ').next().unwrap().parse().unwrap_or(u64::MAX);
            return kb < 2_500_000;
        }
    }
    false
}

fn worker(mut ex: Exec, dir: &str, coord: i32) -> ! {
    let sh = ex.sh;
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| loop {
        if sh.stop.load(Relaxed) != 0 || unsafe { kill(coord, 0) } != 0 {
            break;
        }
        if ex.stack.len() >= 2 && sh.free_slots.load(Relaxed) > 0 {
            if sh.free_slots.fetch_sub(1, SeqCst) > 0 {
                let n = (ex.stack.len() / 2).max(1);
                // double fork: the new worker becomes a child of the coordinator
                unsafe {
                    let c = fork();
                    if c == 0 {
                        let c2 = fork();
                        if c2 != 0 {
                            _exit(if c2 < 0 { 1 } else { 0 });
                        }
                        sh.workers.fetch_add(1, SeqCst);
                        ex.stack.truncate(n);
                        ex.fails.clear();
                        ex.errors.clear();
                        ex.samples.clear();
                    } else {
                        let mut st = 0;
                        waitpid(c, &mut st, 0);
                        if c < 0 || st != 0 {
                            eprintln!("sx: fork failed");
                            _exit(4);
                        }
                        ex.stack.drain(..n);
                    }
                }
            } else {
                sh.free_slots.fetch_add(1, SeqCst);
            }
        }
        if ex.stack.is_empty() {
            break;
        }
        ex.run_one();
    }));
    let mut s = String::new();
    for f in &ex.fails {
        let _ = writeln!(
            s,
            "F {}\t{{\"msg\":{},\"at\":{},\"stack\":[{}],\"inputs\":{},\"sched\":{:?}}}",
            f.msg.replace(['\t', '\n'], " "),
            js(&f.msg),
            js(&f.at),
            f.stack.iter().take(25).map(|l| js(l)).collect::<Vec<_>>().join(","),
            jinputs(&f.inputs),
            f.sched
        );
    }
    for (e, n) in &ex.errors {
        let _ = writeln!(s, "E {n}\t{}", e.replace(['\t', '\n'], " "));
    }
    for i in &ex.samples {
        let _ = writeln!(s, "S {}", jinputs(i));
    }
    if !s.is_empty() {
        let id = unsafe { getpid() };
        std::fs::write(format!("{dir}/{id}-{}", sh.workers.load(SeqCst)), s).expect("worker result");
    }
    sh.free_slots.fetch_add(1, SeqCst);
    unsafe { _exit(if r.is_ok() { 0 } else { 5 }) }
}
