#![allow(dead_code)]
//! krsym: bounded symbolic execution of rustc's LLVM IR, decided by Z3.
mod exec;
mod expr;
mod ir;
mod mem;
mod z3;

use exec::*;
use expr::*;
use ir::*;
use mem::*;
use std::collections::BTreeMap;
use std::io::Write;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::{Duration, Instant};

struct Opts {
    ir: String,
    native: String,
    out: String,
    replay_dir: String,
    threads: usize,
    max_steps: u64,
    samples: usize,
    time: u64,
    smt_every: u64,
    max_violations: usize,
    verbose: bool,
    /// Branch exploration may be cut after this many seconds (0: never).
    specs: Vec<(String, Vec<u64>)>,
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn vals_json(v: &[(String, u16, u128)]) -> String {
    let items: Vec<String> = v.iter().map(|(n, w, x)| format!("{}:{}", esc(&format!("{n}:{w}")), if *x <= (1 << 53) { x.to_string() } else { esc(&x.to_string()) })).collect();
    // Names can repeat: keep them as a list of pairs.
    let _ = items;
    let items: Vec<String> = v.iter().map(|(n, _, x)| esc(&format!("{n}={x}"))).collect();
    format!("[{}]", items.join(","))
}

enum Native {
    Ok(Vec<u64>),
    Fail(String),
    Timeout,
}

fn native(o: &Opts, name: &str, args: &[u64], values: &[(String, u16, u128)], file: &str) -> Native {
    let text: String = values.iter().map(|(n, w, v)| format!("{v} {w} {n}\n")).collect();
    let mut head = format!("{name}");
    for i in 0..3 {
        head.push_str(&format!(" {}", args.get(i).copied().unwrap_or(0)));
    }
    std::fs::write(file, format!("{head}\n{text}")).unwrap();
    let mut c = Command::new(&o.native)
        .arg(file)
        .env_clear()
        .env("RUST_BACKTRACE", "0")
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .expect("cannot start the native harness");
    let mut so = c.stdout.take().unwrap();
    let mut se = c.stderr.take().unwrap();
    let h1 = std::thread::spawn(move || {
        let mut s = Vec::new();
        let _ = std::io::Read::read_to_end(&mut so, &mut s);
        String::from_utf8_lossy(&s).into_owned()
    });
    let h2 = std::thread::spawn(move || {
        let mut s = Vec::new();
        let _ = std::io::Read::read_to_end(&mut se, &mut s);
        String::from_utf8_lossy(&s).into_owned()
    });
    let t = Instant::now();
    let status = loop {
        if let Some(s) = c.try_wait().unwrap() {
            break Some(s);
        }
        if t.elapsed() > Duration::from_secs(20) {
            let _ = c.kill();
            let _ = c.wait();
            break None;
        }
        std::thread::sleep(Duration::from_micros(300));
    };
    let (out, err) = (h1.join().unwrap(), h2.join().unwrap());
    match status {
        None => Native::Timeout,
        Some(s) if s.success() => {
            Native::Ok(out.lines().filter_map(|l| l.strip_prefix("T ")).map(|x| x.trim().parse().unwrap()).collect())
        }
        Some(s) => {
            let f = out.lines().filter(|l| l.starts_with("FAIL ")).next_back().unwrap_or("").to_string();
            Native::Fail(format!("{s}; {f} {}", err.lines().take(4).collect::<Vec<_>>().join(" | ")))
        }
    }
}

fn main() {
    let mut o = Opts {
        ir: String::new(),
        native: String::new(),
        out: String::new(),
        replay_dir: "/tmp".into(),
        threads: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4),
        max_steps: 200_000_000,
        samples: 12,
        time: 600,
        smt_every: 0,
        max_violations: 3,
        verbose: false,
        specs: vec![],
    };
    let mut a = std::env::args().skip(1);
    while let Some(x) = a.next() {
        let mut v = || a.next().expect("value");
        match x.as_str() {
            "--ir" => o.ir = v(),
            "--native" => o.native = v(),
            "--out" => o.out = v(),
            "--replay-dir" => o.replay_dir = v(),
            "--threads" => o.threads = v().parse().unwrap(),
            "--max-steps" => o.max_steps = v().parse().unwrap(),
            "--samples" => o.samples = v().parse().unwrap(),
            "--time" => o.time = v().parse().unwrap(),
            "--smt-every" => o.smt_every = v().parse().unwrap(),
            "--max-violations" => o.max_violations = v().parse().unwrap(),
            "-v" => o.verbose = true,
            "--spec" => {
                let s = v();
                let mut p = s.split(',');
                let n = p.next().unwrap().to_string();
                o.specs.push((n, p.map(|x| x.parse().unwrap()).collect()));
            }
            x => panic!("option {x}"),
        }
    }
    let t0 = Instant::now();
    let src: &'static str = Box::leak(std::fs::read_to_string(&o.ir).expect("IR file").into_boxed_str());
    let m: &'static Module = Box::leak(Box::new(Module::parse(src)));
    if o.verbose {
        eprintln!("parsed {} functions, {} globals in {:?}", m.funcs.len(), m.globals.len(), t0.elapsed());
    }
    let mut results = Vec::new();
    let mut worst = 0;
    let mut executed_all = vec![false; m.funcs.len()];
    let deadline = Instant::now() + Duration::from_secs(o.time);
    for (name, args) in &o.specs {
        let (code, json) = run_one(&o, m, name, args, deadline, &mut executed_all);
        worst = std::cmp::max(worst, code);
        results.push(json);
        if code == 2 {
            break;
        }
    }
    let funcs: Vec<String> = executed_all
        .iter()
        .enumerate()
        .filter(|(_, e)| **e)
        .map(|(i, _)| esc(m.funcs[i].name))
        .collect();
    let json = format!(
        "{{\"z3\":{},\"wall_s\":{:.3},\"functions\":[{}],\"expr_nodes\":{},\"runs\":[\n{}\n]}}\n",
        esc(&z3::version()),
        t0.elapsed().as_secs_f64(),
        funcs.join(","),
        node_count(),
        results.join(",\n")
    );
    if o.out.is_empty() {
        println!("{json}");
    } else {
        std::fs::write(&o.out, json).unwrap();
    }
    std::process::exit(worst);
}

fn run_one(o: &Opts, m: &'static Module, name: &str, args: &[u64], deadline: Instant, executed_all: &mut [bool]) -> (i32, String) {
    let t0 = Instant::now();
    let entry = *m.names.get(name).unwrap_or_else(|| panic!("no harness {name}"));
    let entry = ((entry >> 32) - FN_BASE) as u32;
    let mut mem = Mem::new();
    let errno_addr = mem.alloc(8);
    let sh = Shared {
        m,
        queue: Mutex::new((vec![], o.threads)),
        cv: Default::default(),
        hungry: Default::default(),
        stop: AtomicBool::new(false),
        stats: Default::default(),
        qcache: (0..64).map(|_| Default::default()).collect(),
        violations: Default::default(),
        errors: Default::default(),
        samples: Default::default(),
        labels: Default::default(),
        executed: (0..m.funcs.len()).map(|_| AtomicBool::new(false)).collect(),
        builtins: m.funcs.iter().map(builtin_for).collect(),
        max_steps: args.get(3).map_or(o.max_steps, |m| m * 1_000_000),
        max_samples: o.samples,
        threads: o.threads,
        errno_addr,
        deadline,
        max_violations: o.max_violations,
        smt_dump: Default::default(),
        smt_dump_every: o.smt_every,
    };
    let mut st = State {
        frames: vec![],
        stack: vec![],
        mem,
        cons: vec![],
        known: Default::default(),
        model: vec![],
        widths: vec![],
        names: vec![],
        fixed: 0,
        trace: vec![],
        steps: 0,
        errno: 0,
        forks: 0,
    };
    {
        let mut w = Worker::new(&sh);
        let mut full = args.to_vec();
        full.resize(3, 0);
        let vals: Vec<Val> = full.iter().map(|x| Val::I(*x)).collect();
        if w.push_frame(&mut st, entry, &vals, u32::MAX, 0, None).is_err() {
            panic!("cannot enter {name}");
        }
    }
    sh.queue.lock().unwrap().0.push(st);
    std::thread::scope(|s| {
        for _ in 0..o.threads {
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(s, || {
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Worker::new(&sh).work()));
                    if r.is_err() {
                        std::process::exit(3);
                    }
                })
                .unwrap();
        }
    });
    for (i, e) in sh.executed.iter().enumerate() {
        if e.load(Relaxed) {
            executed_all[i] = true;
        }
    }
    let explore_s = t0.elapsed().as_secs_f64();
    let errors = sh.errors.into_inner().unwrap();
    let mut viols = sh.violations.into_inner().unwrap();
    viols.sort_by(|a, b| a.label.cmp(&b.label));
    let samples = sh.samples.into_inner().unwrap();
    let labels: BTreeMap<String, [u64; 3]> = sh.labels.into_inner().unwrap();
    let mut code = 0;
    let mut err_out: Vec<String> = errors.clone();
    if !errors.is_empty() {
        code = 2;
    }
    // Replay violations on the native build.
    let mut vj = Vec::new();
    let tag = format!("{name}-{}", args.iter().map(|x| x.to_string()).collect::<Vec<_>>().join("-"));
    let mut confirmed = 0;
    for (i, v) in viols.iter().enumerate() {
        let file = format!("{}/{tag}-{i}.replay", o.replay_dir);
        let (rep, how) = match native(o, name, args, &v.values, &file) {
            Native::Ok(_) => (false, "the native run passed".to_string()),
            Native::Fail(s) => (true, s),
            Native::Timeout => (true, "native run did not end in 20 s".to_string()),
        };
        if rep {
            confirmed += 1;
        } else {
            err_out.push(format!("violation {} does not reproduce natively: {how}\n{}\n{:?}", v.label, v.detail, v.values));
        }
        vj.push(format!(
            "{{\"label\":{},\"detail\":{},\"values\":{},\"replay\":{},\"reproduced\":{},\"native\":{}}}",
            esc(&v.label),
            esc(&v.detail),
            vals_json(&v.values),
            esc(&file),
            rep,
            esc(&how)
        ));
    }
    if confirmed > 0 {
        code = 1;
    } else if !viols.is_empty() {
        code = 2;
    }
    // Validate sampled paths against the native build.
    let mut validated = 0;
    if code == 0 {
        for (i, s) in samples.iter().enumerate() {
            let file = format!("{}/{tag}-sample-{i}", o.replay_dir);
            match native(o, name, args, &s.values, &file) {
                Native::Ok(t) if t == s.trace => validated += 1,
                Native::Ok(t) => {
                    let at = t.iter().zip(&s.trace).position(|(a, b)| a != b);
                    err_out.push(format!(
                        "native and symbolic traces differ (lengths {} and {}, first difference {at:?}) for {:?}",
                        t.len(),
                        s.trace.len(),
                        s.values
                    ));
                    code = 2;
                }
                Native::Fail(e) => {
                    err_out.push(format!("native run of a passing path failed: {e} {:?}", s.values));
                    code = 2;
                }
                Native::Timeout => {
                    err_out.push("native run of a passing path timed out".into());
                    code = 2;
                }
            }
            let _ = std::fs::remove_file(&file);
        }
    }
    let st = &sh.stats;
    let g = |x: &std::sync::atomic::AtomicU64| x.load(Relaxed);
    let lj: Vec<String> = labels.iter().map(|(k, v)| format!("{}:[{},{},{}]", esc(k), v[0], v[1], v[2])).collect();
    let sj: Vec<String> = samples
        .iter()
        .take(4)
        .map(|s| format!("{{\"values\":{},\"path_condition\":{},\"trace_len\":{}}}", vals_json(&s.values), esc(&s.constraints), s.trace.len()))
        .collect();
    let ej: Vec<String> = err_out.iter().map(|e| esc(e)).collect();
    let dumps = sh.smt_dump.into_inner().unwrap();
    for (i, (t, sat)) in dumps.iter().enumerate() {
        let f = format!("{}/{tag}-q{i}-{}.smt2", o.replay_dir, if *sat { "sat" } else { "unsat" });
        let _ = std::fs::write(f, format!("(set-logic QF_BV)\n{t}\n(check-sat)\n"));
    }
    let json = format!(
        "{{\"harness\":{},\"args\":{:?},\"paths\":{},\"infeasible\":{},\"forks\":{},\"instructions\":{},\"queries\":{},\"cache_hits\":{},\"sat\":{},\"unsat\":{},\"solver_s\":{:.3},\"known_branches\":{},\"explore_s\":{:.3},\"validated\":{},\"labels\":{{{}}},\"samples\":[{}],\"violations\":[{}],\"errors\":[{}]}}",
        esc(name), args, g(&st.paths), g(&st.infeasible), g(&st.forks), g(&st.steps), g(&st.queries), g(&st.cache_hits), g(&st.sat), g(&st.unsat),
        g(&st.solver_ns) as f64 / 1e9, g(&st.decided_free), explore_s, validated, lj.join(","), sj.join(","), vj.join(","), ej.join(",")
    );
    if o.verbose {
        eprintln!(
            "{tag}: {} paths, {} infeasible, {} forks, {} instrs, {} queries ({} cached), solver {:.2}s cpu, {:.2}s wall, {} validated, {} violations, {} errors",
            g(&st.paths), g(&st.infeasible), g(&st.forks), g(&st.steps), g(&st.queries), g(&st.cache_hits),
            g(&st.solver_ns) as f64 / 1e9, explore_s, validated, viols.len(), err_out.len()
        );
        for e in &err_out {
            eprintln!("  ERROR {e}");
        }
        for v in &viols {
            eprintln!("  VIOLATION {} {}\n   {:?}", v.label, v.detail, v.values.iter().map(|(n, _, x)| format!("{n}={x}")).collect::<Vec<_>>());
        }
        let _ = std::io::stderr().flush();
    }
    (code, json)
}
