//! Parallel exploration of harness functions, native replay of counterexamples and sampled paths, report.
use crate::exec::*;
use crate::ir::{self, Module, V};
use crate::mem::Mem;
use crate::run::short;
use crate::solver::Stats;
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

pub struct Cfg {
    native: Option<PathBuf>,
    time: f64,
    workers: usize,
    max_insn: u64,
    query_ms: u32,
    samples: usize,
    dump: Option<PathBuf>,
    replay_dir: PathBuf,
    logs: bool,
    verbose: bool,
}

#[derive(Clone)]
struct Cand {
    kind: String,
    msg: String,
    inputs: Vec<u64>,
    replay: PathBuf,
    native: String,
}

#[derive(Default)]
struct Total {
    c: Counters,
    z: Stats,
    seen: Vec<bool>,
    reach: BTreeSet<String>,
    violations: Vec<Cand>,
    unconfirmed: Vec<Cand>,
    errors: BTreeMap<String, u64>,
    samples: Vec<(Vec<u64>, Vec<u64>)>,
    conc: BTreeMap<String, u64>,
    limits: BTreeMap<String, u64>,
    max_path_insn: u64,
    max_inputs: usize,
    seconds: f64,
    complete: bool,
    validated: u64,
    mismatches: Vec<String>,
    pc_max: usize,
}

struct Shared {
    pool: Arc<Pool>,
    stop: Arc<AtomicBool>,
    paths: AtomicU64,
    total: Mutex<Total>,
    seq: AtomicU64,
}

pub fn native_run(bin: &Path, h: &str, file: &Path, secs: u64) -> (String, Vec<u64>, String) {
    let mut ch = match Command::new(bin).arg("replay").arg(h).arg(file).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn() {
        Ok(c) => c,
        Err(e) => return (format!("cannot run: {}", e), vec![], String::new()),
    };
    let t0 = Instant::now();
    let mut so = ch.stdout.take().unwrap();
    let mut se = ch.stderr.take().unwrap();
    let ho = std::thread::spawn(move || { let mut s = vec![]; let _ = std::io::Read::read_to_end(&mut so, &mut s); s });
    let he = std::thread::spawn(move || { let mut s = vec![]; let _ = std::io::Read::read_to_end(&mut se, &mut s); s });
    let st = loop {
        match ch.try_wait() {
            Ok(Some(s)) => break Some(s),
            Ok(None) if t0.elapsed() > Duration::from_secs(secs) => { let _ = ch.kill(); let _ = ch.wait(); break None; }
            _ => std::thread::sleep(Duration::from_millis(if t0.elapsed().as_millis() < 200 { 1 } else { 20 })),
        }
    };
    let out = String::from_utf8_lossy(&ho.join().unwrap()).into_owned();
    let err = String::from_utf8_lossy(&he.join().unwrap()).into_owned();
    let notes = out.lines().filter_map(|l| l.strip_prefix("note ")).filter_map(|x| u64::from_str_radix(x, 16).ok()).collect();
    let res = match st {
        None => "hang".to_string(),
        Some(s) => match s.code() { Some(0) => "ok".into(), Some(3) => "assert".into(), Some(4) => "assume".into(), Some(c) => format!("exit {}", c), None => "abort".into() },
    };
    (res, notes, err)
}

fn write_replay(cfg: &Cfg, sh: &Shared, h: &str, inputs: &[u64], tag: &str) -> PathBuf {
    let _ = std::fs::create_dir_all(&cfg.replay_dir);
    let k = sh.seq.fetch_add(1, Ordering::Relaxed);
    let p = cfg.replay_dir.join(format!("{}-{}{}.txt", h, tag, k));
    let mut s = format!("harness {}\n", h);
    for x in inputs { s.push_str(&format!("{:x}\n", x)); }
    let _ = std::fs::write(&p, s);
    p
}

fn worker(m: &Module, cfg: &Cfg, sh: &Shared, h: &str, f: u32, deadline: Instant) {
    let mem = &Mem::new(m);
    let mut ex = Exec::new(m, cfg.query_ms, deadline, cfg.max_insn, sh.stop.clone(), sh.pool.clone());
    ex.logs = cfg.logs;
    ex.z3.dump = cfg.dump.clone();
    let mut local = Total { seen: vec![false; m.funcs.len()], ..Default::default() };
    let merge = |ex: &mut Exec, t: &mut Total| {
        let (a, b) = (&mut t.c, &ex.c);
        a.insns += b.insns; a.forks += b.forks; a.branches += b.branches; a.assertions += b.assertions; a.assertions_symbolic += b.assertions_symbolic; a.unknown += b.unknown;
        a.fd_verdicts += b.fd_verdicts; a.fd_confirmed += b.fd_confirmed; a.concretised += b.concretised;
        let (a, b) = (&mut t.z, &ex.z3.stats);
        a.queries += b.queries; a.sat += b.sat; a.unsat += b.unsat; a.unknown += b.unknown; a.cache_hits += b.cache_hits; a.linear += b.linear; a.seconds += b.seconds; a.assertion_queries += b.assertion_queries;
        if b.max_query_s > a.max_query_s { a.max_query_s = b.max_query_s; }
        for (i, s) in ex.seen_fn.iter().enumerate() { if *s { t.seen[i] = true; } }
        t.reach.extend(ex.reach.iter().cloned());
        for (k, n) in &ex.conc_sites { *t.conc.entry(k.clone()).or_insert(0) += n; }
    };
    'outer: loop {
        // next state: own work first (deepest), then the shared queue
        let mut st = if let Some(s) = ex.work.pop_back() { s } else {
            let mut q = sh.pool.queue.lock().unwrap();
            q.1 += 1;
            sh.pool.idle.store(q.1, Ordering::Relaxed);
            loop {
                if q.2 || sh.stop.load(Ordering::Relaxed) { q.2 = true; sh.pool.cv.notify_all(); break 'outer; }
                if let Some(p) = q.0.pop() {
                    q.1 -= 1;
                    sh.pool.idle.store(q.1, Ordering::Relaxed);
                    break ex.start(f, mem, p);
                }
                if q.1 == cfg.workers { q.2 = true; sh.pool.cv.notify_all(); break 'outer; }
                q = sh.pool.cv.wait_timeout(q, Duration::from_millis(200)).unwrap().0;
            }
        };
        if Instant::now() > deadline { local.complete = false; *local.limits.entry("time budget".into()).or_insert(0) += 1; sh.pool.queue.lock().unwrap().2 = true; sh.pool.cv.notify_all(); break 'outer; }
        let end = ex.run(&mut st);
        if !st.model_ok { ex.refresh_model(&mut st); }
        sh.paths.fetch_add(1, Ordering::Relaxed);
        local.max_path_insn = local.max_path_insn.max(st.ninsn);
        local.max_inputs = local.max_inputs.max(st.inputs.len());
        local.pc_max = local.pc_max.max(st.pc.len());
        let eval_inputs = |ex: &mut Exec, st: &State| -> Vec<u64> { st.inputs.iter().map(|e| ex.ar.eval(*e, &st.model)).collect() };
        match &end {
            End::Ok => {
                local.c.paths_ok += 1;
                let n = local.c.paths_ok;
                if !st.unknown && local.samples.len() < cfg.samples && (n <= 3 || (n & (n - 1)) == 0 || n % 97 == 0) {
                    let i = eval_inputs(&mut ex, &st);
                    let notes: Vec<u64> = st.notes.iter().map(|v| match v { V::I(x) => *x, V::E(e) => ex.ar.eval(*e, &st.model), _ => 0 }).collect();
                    local.samples.push((i, notes));
                }
            }
            End::Assume => local.c.paths_assume += 1,
            End::Timeout => { local.complete = false; *local.limits.entry("time budget".into()).or_insert(0) += 1; break 'outer; }
            End::Desync => *local.errors.entry("prefix replay out of step".into()).or_insert(0) += 1,
            End::Unsupported(s) => {
                if std::env::var("SYMIR_DEBUG").is_ok() { eprintln!("unsupported: {} inputs {:?}", s, eval_inputs(&mut ex, &st)); }
                *local.errors.entry(s.clone()).or_insert(0) += 1
            }
            End::Violation(_) | End::Panic(_) | End::Limit(_) => {
                let inputs = eval_inputs(&mut ex, &st);
                let (kind, msg) = match &end { End::Violation(s) => ("assert", s.clone()), End::Panic(s) => ("panic", s.clone()), End::Limit(s) => ("hang", s.clone()), _ => unreachable!() };
                if kind == "hang" {
                    local.c.paths_limit += 1;
                    *local.limits.entry(msg.split(" in ").next().unwrap_or("").to_string()).or_insert(0) += 1;
                    if local.c.paths_limit > 3 { continue; }
                }
                let file = write_replay(cfg, sh, h, &inputs, kind);
                let mut native = "not replayed".to_string();
                let mut confirmed = cfg.native.is_none();
                if let Some(b) = &cfg.native {
                    let (r, _, err) = native_run(b, h, &file, 20);
                    confirmed = match kind { "assert" => r == "assert" || r == "abort", "panic" => r == "abort" || r == "assert", _ => r == "hang" };
                    native = format!("{}: {}", r, err.lines().take(3).collect::<Vec<_>>().join(" | "));
                }
                let c = Cand { kind: kind.into(), msg, inputs, replay: file.clone(), native };
                let mut t = sh.total.lock().unwrap();
                if confirmed {
                    t.violations.push(c);
                    sh.stop.store(true, Ordering::Relaxed);
                } else if kind == "hang" || st.unknown {
                    if st.unknown { *t.limits.entry("undecided path condition".into()).or_insert(0) += 1; }
                    let _ = std::fs::remove_file(&file);
                } else {
                    t.unconfirmed.push(c);
                    if t.unconfirmed.len() >= 4 { sh.stop.store(true, Ordering::Relaxed); }
                }
            }
        }
        if sh.pool.idle.load(Ordering::Relaxed) > 0 && ex.work.len() > 1 { ex.donate(1); }
        if ex.ar.n.len() > 6_000_000 {
            // start over with an empty expression table
            let work: Vec<Vec<u64>> = ex.work.drain(..).map(|s| s.dec).collect();
            merge(&mut ex, &mut local);
            ex = Exec::new(m, cfg.query_ms, deadline, cfg.max_insn, sh.stop.clone(), sh.pool.clone());
            ex.logs = cfg.logs;
            ex.z3.dump = cfg.dump.clone();
            for p in work { let s = ex.start(f, mem, (p, vec![])); ex.work.push_back(s); }
        }
    }
    if !ex.work.is_empty() { *local.limits.entry("unexplored states".into()).or_insert(0) += ex.work.len() as u64; }
    merge(&mut ex, &mut local);
    {
        let mut t = sh.total.lock().unwrap();
        let l = local;
        let a = &mut t.c;
        let b = &l.c;
        a.paths_ok += b.paths_ok; a.paths_assume += b.paths_assume; a.paths_limit += b.paths_limit; a.insns += b.insns; a.forks += b.forks; a.branches += b.branches; a.assertions += b.assertions; a.assertions_symbolic += b.assertions_symbolic;
        a.unknown += b.unknown; a.fd_verdicts += b.fd_verdicts; a.fd_confirmed += b.fd_confirmed; a.concretised += b.concretised;
        let (a, b) = (&mut t.z, &l.z);
        a.queries += b.queries; a.sat += b.sat; a.unsat += b.unsat; a.unknown += b.unknown; a.cache_hits += b.cache_hits; a.linear += b.linear; a.seconds += b.seconds; a.assertion_queries += b.assertion_queries;
        if b.max_query_s > a.max_query_s { a.max_query_s = b.max_query_s; }
        for (i, s) in l.seen.iter().enumerate() { if *s { t.seen[i] = true; } }
        t.reach.extend(l.reach);
        for (k, n) in l.errors { *t.errors.entry(k).or_insert(0) += n; }
        for (k, n) in l.limits { *t.limits.entry(k).or_insert(0) += n; }
        for (k, n) in l.conc { *t.conc.entry(k).or_insert(0) += n; }
        t.samples.extend(l.samples);
        t.max_path_insn = t.max_path_insn.max(l.max_path_insn);
        t.max_inputs = t.max_inputs.max(l.max_inputs);
        t.pc_max = t.pc_max.max(l.pc_max);
    }
}

fn explore(m: &Module, cfg: &Cfg, h: &str, f: u32) -> Total {
    let t0 = Instant::now();
    let deadline = t0 + Duration::from_secs_f64(cfg.time);
    let sh = Shared {
        pool: Arc::new(Pool { queue: Mutex::new((vec![(vec![], vec![])], 0, false)), cv: Condvar::new(), idle: AtomicUsize::new(0) }), stop: Arc::new(AtomicBool::new(false)), paths: AtomicU64::new(0),
        total: Mutex::new(Total { seen: vec![false; m.funcs.len()], complete: true, ..Default::default() }), seq: AtomicU64::new(0),
    };
    std::thread::scope(|s| {
        let mut hs = vec![];
        for _ in 0..cfg.workers {
            let sh = &sh;
            hs.push(std::thread::Builder::new().stack_size(1 << 29).spawn_scoped(s, move || worker(m, cfg, sh, h, f, deadline)).unwrap());
        }
        if cfg.verbose {
            let sh = &sh;
            s.spawn(move || {
                let mut k = 0;
                loop {
                    std::thread::sleep(Duration::from_millis(500));
                    let q = sh.pool.queue.lock().unwrap();
                    if q.2 { break; }
                    k += 1;
                    if k % 20 == 0 { eprintln!("  [{:.0}s] {} paths, {} idle", t0.elapsed().as_secs_f64(), sh.paths.load(Ordering::Relaxed), q.1); }
                }
            });
        }
        for x in hs { if x.join().is_err() { sh.total.lock().unwrap().errors.insert("engine thread panicked".into(), 1); let mut q = sh.pool.queue.lock().unwrap(); q.2 = true; sh.pool.cv.notify_all(); sh.stop.store(true, Ordering::Relaxed); } }
    });
    let mut t = sh.total.into_inner().unwrap();
    t.complete = t.limits.is_empty() && t.errors.is_empty() && t.c.unknown == 0 && t.violations.is_empty() && t.unconfirmed.is_empty();
    t.seconds = t0.elapsed().as_secs_f64();
    // sampled paths on the native build
    if let Some(b) = &cfg.native {
        let mut k = 0;
        let n = t.samples.len();
        for (i, (inputs, notes)) in t.samples.clone().into_iter().enumerate() {
            if n > cfg.samples && i % (n / cfg.samples + 1) != 0 { continue; }
            let file = cfg.replay_dir.join(format!("{}-sample.txt", h));
            let _ = std::fs::create_dir_all(&cfg.replay_dir);
            let mut s = format!("harness {}\n", h);
            for x in &inputs { s.push_str(&format!("{:x}\n", x)); }
            let _ = std::fs::write(&file, s);
            let (r, nn, err) = native_run(b, h, &file, 20);
            if r != "ok" || nn != notes { t.mismatches.push(format!("native {} {:?} / engine {:?} for inputs {:x?}: {}", r, nn, notes, inputs, err.lines().next().unwrap_or(""))); } else { k += 1; }
            let _ = std::fs::remove_file(&file);
        }
        t.validated = k;
    }
    t
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) }
    }
    o.push('"');
    o
}

pub fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 3 { eprintln!("usage: symir IR HARNESS[,HARNESS..] [--native BIN] [--time S] ..."); std::process::exit(2); }
    let mut cfg = Cfg { native: None, time: 60.0, workers: 8, max_insn: 400_000_000, query_ms: 20000, samples: 12, dump: None, replay_dir: PathBuf::from("/tmp/symir-replay"), logs: false, verbose: false };
    let mut out = None;
    let mut budget = f64::MAX;
    let mut first = false;
    let mut i = 3;
    while i < args.len() {
        let v = args.get(i + 1).cloned().unwrap_or_default();
        match args[i].as_str() {
            "--native" => cfg.native = Some(v.into()), "--time" => cfg.time = v.parse().unwrap(), "--workers" => cfg.workers = v.parse().unwrap(), "--max-insn" => cfg.max_insn = v.parse().unwrap(),
            "--query-ms" => cfg.query_ms = v.parse().unwrap(), "--samples" => cfg.samples = v.parse().unwrap(), "--dump" => cfg.dump = Some(v.into()), "--replays" => cfg.replay_dir = v.into(), "--out" => out = Some(v), "--total" => budget = v.parse().unwrap(),
            "--first" => { first = true; i -= 1; } "--log" => { cfg.logs = true; i -= 1; } "-v" => { cfg.verbose = true; i -= 1; }
            x => { eprintln!("option {}", x); std::process::exit(2); }
        }
        i += 2;
    }
    let t0 = Instant::now();
    let src = std::fs::read(&args[1]).expect("IR file");
    let m = ir::parse(&src);
    drop(src);
    let parse_s = t0.elapsed().as_secs_f64();
    let mut report = vec![];
    let mut code = 0;
    for spec in args[2].split(',') {
        // name or name:seconds
        let (h, secs) = match spec.split_once(':') { Some((a, b)) => (a, b.parse().unwrap_or(cfg.time)), None => (spec, cfg.time) };
        let Some(f) = m.fn_index.get(h) else { eprintln!("no function {}", h); std::process::exit(2) };
        let left = budget - t0.elapsed().as_secs_f64();
        if left < 1.0 {
            eprintln!("{}: skipped, no time left", h);
            report.push(format!("{{\"harness\":{},\"status\":\"skipped\"}}", js(h)));
            continue;
        }
        let secs = if secs < left { secs } else { left };
        let c2 = Cfg { native: cfg.native.clone(), time: secs, workers: cfg.workers, max_insn: cfg.max_insn, query_ms: cfg.query_ms, samples: cfg.samples, dump: cfg.dump.clone(), replay_dir: cfg.replay_dir.clone(), logs: cfg.logs, verbose: cfg.verbose };
        let t = explore(&m, &c2, h, *f);
        let seen: Vec<String> = t.seen.iter().enumerate().filter(|(_, s)| **s).map(|(i, _)| m.funcs[i].name.clone()).collect();
        let st = if !t.violations.is_empty() { "violation" } else if !t.unconfirmed.is_empty() || !t.errors.is_empty() || !t.mismatches.is_empty() { "error" } else if t.complete { "exhausted" } else { "bounded" };
        if st == "violation" { code = 1; if first { budget = 0.0; } } else if st == "error" && code == 0 { code = 2; }
        eprintln!("{}: {} in {:.1}s; paths {} (+{} pruned, {} cut), {} forks, {:.1}M insns, {} queries ({} sat, {} unsat, {} unknown, {} cached) {:.1}s, {} fd verdicts ({} confirmed), {} asserts ({} symbolic), {} concretised, {} validated", h, st, t.seconds, t.c.paths_ok, t.c.paths_assume, t.c.paths_limit, t.c.forks, t.c.insns as f64 / 1e6, t.z.queries, t.z.sat, t.z.unsat, t.z.unknown, t.z.cache_hits, t.z.seconds, t.c.fd_verdicts, t.c.fd_confirmed, t.c.assertions, t.c.assertions_symbolic, t.c.concretised, t.validated);
        for (e, n) in t.errors.iter().take(8) { eprintln!("  error x{}: {}", n, e); }
        for (e, n) in &t.limits { eprintln!("  limit x{}: {}", n, e); }
        for x in t.mismatches.iter().take(4) { eprintln!("  mismatch: {}", x); }
        for (w, l) in [("violation", &t.violations), ("unconfirmed", &t.unconfirmed)] { for c in l.iter().take(3) { eprintln!("  {} {}: {} [native {}] inputs {:x?} file {}", w, c.kind, c.msg, c.native, c.inputs, c.replay.display()); } }
        if cfg.verbose { for (e, n) in &t.conc { eprintln!("  conc x{}: {}", n, e); } for r in &t.reach { eprintln!("  reach {}", r); } }
        let cands = |l: &Vec<Cand>| l.iter().map(|c| format!("{{\"kind\":{},\"msg\":{},\"native\":{},\"replay\":{},\"inputs\":{}}}", js(&c.kind), js(&c.msg), js(&c.native), js(&c.replay.display().to_string()), js(&format!("{:x?}", c.inputs)))).collect::<Vec<_>>().join(",");
        let maps = |l: &BTreeMap<String, u64>| l.iter().map(|(k, n)| format!("{}:{}", js(k), n)).collect::<Vec<_>>().join(",");
        report.push(format!("{{\"harness\":{},\"status\":{},\"seconds\":{:.2},\"paths\":{},\"pruned\":{},\"cut\":{},\"forks\":{},\"branches\":{},\"instructions\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cache_hits\":{},\"solver_seconds\":{:.2},\"max_query_s\":{:.3},\"table_verdicts\":{},\"table_verdicts_confirmed_by_z3\":{},\"assertions\":{},\"assertions_symbolic\":{},\"concretised\":{},\"validated\":{},\"samples\":[{}],\"functions\":[{}],\"reach\":[{}],\"errors\":{{{}}},\"limits\":{{{}}},\"mismatches\":[{}],\"violations\":[{}],\"unconfirmed\":[{}],\"max_path_instructions\":{},\"max_inputs\":{},\"max_path_conditions\":{}}}",
            js(h), js(st), t.seconds, t.c.paths_ok, t.c.paths_assume, t.c.paths_limit, t.c.forks, t.c.branches, t.c.insns, t.z.queries, t.z.sat, t.z.unsat, t.z.unknown + t.c.unknown, t.z.cache_hits, t.z.seconds, t.z.max_query_s, t.c.fd_verdicts, t.c.fd_confirmed, t.c.assertions, t.c.assertions_symbolic, t.c.concretised, t.validated,
            t.samples.iter().take(5).map(|s| js(&format!("{:x?}", s.0))).collect::<Vec<_>>().join(","),
            seen.iter().filter(|n| n.contains("seiren") || n.contains("harness")).map(|n| js(&short(n))).collect::<BTreeSet<_>>().into_iter().collect::<Vec<_>>().join(","),
            t.reach.iter().map(|s| js(s)).collect::<Vec<_>>().join(","), maps(&t.errors), maps(&t.limits), t.mismatches.iter().take(5).map(|s| js(s)).collect::<Vec<_>>().join(","),
            cands(&t.violations), cands(&t.unconfirmed), t.max_path_insn, t.max_inputs, t.pc_max));
        if code == 1 { break; }
    }
    let all_fns = m.funcs.len();
    let s = format!("{{\"parse_seconds\":{:.2},\"ir_functions\":{},\"total_seconds\":{:.2},\"results\":[{}]}}\n", parse_s, all_fns, t0.elapsed().as_secs_f64(), report.join(","));
    if let Some(o) = out { let _ = std::fs::File::create(o).and_then(|mut f| f.write_all(s.as_bytes())); } else { println!("{}", s); }
    std::process::exit(code);
}

