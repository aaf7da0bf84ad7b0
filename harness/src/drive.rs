//! Runs a property's cases over worker processes, watches them, and writes the evidence.
use crate::case::{Case, Fmt};
use crate::cpu;
use crate::props::{Prop, PROPS};
use crate::rng::{hash, Rng};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicPtr, AtomicU64, Ordering::*};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// What a monitor observed while checking cases.
#[derive(Default)]
pub struct Obs {
    pub sums: BTreeMap<String, f64>,
    pub maxs: BTreeMap<String, f64>,
    pub sigs: HashSet<u64>,
    pub samples: Vec<String>,
    pub evals: u64,
    /// a sub-case that failed, to be replayed instead of the generated one
    pub blame: Option<Case>,
}

impl Obs {
    pub fn add(&mut self, k: &str, v: f64) {
        *self.sums.entry(k.to_string()).or_insert(0.0) += v;
    }
    pub fn max(&mut self, k: &str, v: f64) {
        let e = self.maxs.entry(k.to_string()).or_insert(f64::MIN);
        if v > *e {
            *e = v;
        }
    }
    /// A distinct non-trivial situation was observed.
    pub fn sig(&mut self, parts: &[u64]) {
        self.sigs.insert(hash(parts));
    }
    pub fn sig_case(&mut self, c: &Case) {
        self.sig(&[
            c.fmt as u64, c.kind as u64, c.ch as u64, c.depth as u64, c.premul as u64, c.filter as u64, c.sw as u64,
            c.sh as u64, c.dw as u64, c.dh as u64, c.cpu as u64, c.speed as u64, c.threads as u64, c.tf as u64,
            c.content as u64, c.alpha as u64,
        ]);
    }
}

// ---------------------------------------------------------------- the note: what a worker is doing

static NOTE: AtomicPtr<u8> = AtomicPtr::new(std::ptr::null_mut());
const NOTE_LEN: usize = 4096;
pub static EXECS: AtomicU64 = AtomicU64::new(0);

fn open_note(path: &str) {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(path).unwrap();
    f.set_len(NOTE_LEN as u64).unwrap();
    let p = unsafe {
        libc::mmap(std::ptr::null_mut(), NOTE_LEN, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0)
    };
    assert!(p != libc::MAP_FAILED);
    NOTE.store(p as *mut u8, SeqCst);
}

struct W<'a>(&'a mut [u8], usize);
impl std::fmt::Write for W<'_> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for b in s.bytes() {
            if self.1 < self.0.len() {
                self.0[self.1] = b;
                self.1 += 1;
            }
        }
        Ok(())
    }
}

/// Records the case about to run where it survives a crash of the process.
pub fn note(c: &Case) {
    EXECS.fetch_add(1, Relaxed);
    let p = NOTE.load(Relaxed);
    if p.is_null() {
        return;
    }
    unsafe {
        let n = (p as *mut u64).read();
        let s = std::slice::from_raw_parts_mut(p.add(8), NOTE_LEN - 8);
        let mut w = W(s, 0);
        use std::fmt::Write;
        let _ = write!(w, "{c}\n\0");
        (p as *mut u64).write(n + 1);
    }
}
pub fn tick() {
    let p = NOTE.load(Relaxed);
    if !p.is_null() {
        unsafe {
            let n = (p as *mut u64).read();
            (p as *mut u64).write(n + 1);
        }
    }
}

fn read_note(path: &str) -> (u64, String) {
    let d = std::fs::read(path).unwrap_or_default();
    if d.len() < 16 {
        return (0, String::new());
    }
    let n = u64::from_le_bytes(d[..8].try_into().unwrap());
    let e = d[8..].iter().position(|&b| b == 0 || b == b'\n').unwrap_or(0);
    (n, String::from_utf8_lossy(&d[8..8 + e]).into_owned())
}

// ---------------------------------------------------------------- worker

extern "C" fn on_fault(sig: libc::c_int, info: *mut libc::siginfo_t, _: *mut libc::c_void) {
    let mut buf = [0u8; 128];
    let mut w = W(&mut buf, 0);
    use std::fmt::Write;
    let addr = unsafe { (*info).si_addr() as usize };
    let _ = write!(w, "\nFAULT signal {sig} at address {addr:#x}\n");
    let n = w.1;
    unsafe {
        libc::write(1, buf.as_ptr() as _, n);
        libc::_exit(70);
    }
}

pub fn install_handlers() {
    unsafe {
        for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE, libc::SIGABRT] {
            let mut sa: libc::sigaction = std::mem::zeroed();
            sa.sa_sigaction = on_fault as *const () as usize;
            sa.sa_flags = libc::SA_SIGINFO | libc::SA_NODEFER | libc::SA_ONSTACK;
            libc::sigaction(s, &sa, std::ptr::null_mut());
        }
    }
    std::panic::set_hook(Box::new(|i| {
        let m = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let l = i.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var_os("PSV_PANIC").is_some() {
            eprintln!("panic: {m}{l}");
        }
        if let Ok(mut g) = crate::exec::PANIC_MSG.lock() {
            *g = format!("{m}{l}");
        }
    }));
}

pub fn case_for(p: &Prop, tier: Tier, seed: u64, i: usize) -> Case {
    let mut r = Rng::new(hash(&[seed, i as u64, p.id.as_bytes()[1] as u64 * 100 + p.id.as_bytes()[2] as u64]));
    let mut c = (p.gen)(&mut r, i, tier);
    if cfg!(not(feature = "half")) && c.fmt == Fmt::F16 {
        c.fmt = Fmt::F32;
    }
    // the processor may have been chosen after the kind; some checks need that processor
    if crate::props::gen::meets_finding(&c) {
        c.ch = 4;
    }
    if c.seed == 0 {
        c.seed = r.next() | 1;
    }
    c
}

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('"', "'").replace('\n', " ").chars().filter(|c| !c.is_control()).collect()
}

pub fn worker(p: &Prop, tier: Tier, seed: u64, shard: usize, shards: usize, total: usize, budget: f64, dir: &str) -> i32 {
    if !dir.is_empty() {
        open_note(&format!("{dir}/{shard}.note"));
        install_handlers();
    }
    let t0 = Instant::now();
    let slow = std::env::var("PSV_SLOW").ok();
    let mut o = Obs::default();
    let mut done = 0u64;
    let mut viols = 0;
    let mut i = shard;
    let mut cut = 0;
    if let Some(init) = p.init {
        init();
    }
    while i < total {
        if t0.elapsed().as_secs_f64() > budget {
            cut = 1;
            break;
        }
        let c = case_for(p, tier, seed, i);
        o.blame = None;
        let samples = o.samples.len();
        let began = Instant::now();
        let outcome = (p.check)(&c, &mut o);
        if let (Some(f), t) = (&slow, began.elapsed().as_secs_f64()) {
            if t > 1.5 {
                use std::io::Write;
                let _ = std::fs::OpenOptions::new().create(true).append(true).open(f).and_then(|mut h| writeln!(h, "{t:.1} {} {c}", p.id));
            }
        }
        match outcome {
            Ok(()) => {
                if samples == o.samples.len() && (done % 997 == 0) && o.samples.len() < 4 {
                    o.samples.push(c.to_string());
                }
            }
            Err(m) => {
                let b = o.blame.take().unwrap_or_else(|| c.clone());
                println!("VIOL {b} i={i} || {}", esc(&m));
                viols += 1;
                if viols >= 3 {
                    break;
                }
            }
        }
        done += 1;
        i += shards;
    }
    if let Some(fini) = p.fini {
        if viols == 0 {
            if let Err(m) = fini(&mut o) {
                println!("VIOL {} i=0 || {}", Case::default(), esc(&m));
            }
        }
    }
    println!("DONE {done} {} {cut}", o.evals);
    println!("EXECS {}", EXECS.load(Relaxed));
    for (k, v) in &o.sums {
        println!("SUM {v} {k}");
    }
    for (k, v) in &o.maxs {
        println!("MAX {v} {k}");
    }
    for s in &o.samples {
        println!("SAMPLE {s}");
    }
    let mut b = Vec::new();
    for s in &o.sigs {
        b.extend_from_slice(&s.to_le_bytes());
    }
    if !dir.is_empty() {
        std::fs::write(format!("{dir}/{shard}.sigs"), b).unwrap();
    }
    println!("END");
    0
}

// ---------------------------------------------------------------- driver

pub struct Totals {
    pub done: u64,
    pub evals: u64,
    pub execs: u64,
    pub cut: u64,
    pub sums: BTreeMap<String, f64>,
    pub maxs: BTreeMap<String, f64>,
    pub sigs: HashSet<u64>,
    pub samples: Vec<String>,
    /// (case line, message)
    pub viols: Vec<(String, String)>,
    pub errors: Vec<String>,
}

/// Runs `exe worker ...` for every shard.
pub fn drive(p: &Prop, exe: &str, tier: Tier, seed: u64, shards: usize, total: usize, budget: f64, dir: &str, env: &[(String, String)]) -> Totals {
    std::fs::create_dir_all(dir).unwrap();
    let mut t = Totals {
        done: 0,
        evals: 0,
        execs: 0,
        cut: 0,
        sums: BTreeMap::new(),
        maxs: BTreeMap::new(),
        sigs: HashSet::new(),
        samples: vec![],
        viols: vec![],
        errors: vec![],
    };
    let mut kids = vec![];
    for s in 0..shards {
        let out = std::fs::File::create(format!("{dir}/{s}.out")).unwrap();
        let err = std::fs::File::create(format!("{dir}/{s}.err")).unwrap();
        let _ = std::fs::remove_file(format!("{dir}/{s}.note"));
        let mut cmd = Command::new(exe);
        cmd.args([
            "worker",
            p.id,
            if tier == Tier::Quick { "quick" } else { "thorough" },
            &seed.to_string(),
            &s.to_string(),
            &shards.to_string(),
            &total.to_string(),
            &budget.to_string(),
            dir,
        ])
        .stdin(Stdio::null())
        .stdout(out)
        .stderr(err);
        for (k, v) in env {
            cmd.env(k, v);
        }
        kids.push((cmd.spawn().expect("spawn worker"), 0u64, Instant::now(), false));
    }
    // watch
    let hang = Duration::from_secs_f64(if env.is_empty() { 60.0 } else { 240.0 });
    loop {
        let mut alive = 0;
        for (s, k) in kids.iter_mut().enumerate() {
            if k.3 {
                continue;
            }
            match k.0.try_wait() {
                Ok(Some(st)) => {
                    k.3 = true;
                    if !st.success() {
                        let note = read_note(&format!("{dir}/{s}.note")).1;
                        let out = std::fs::read_to_string(format!("{dir}/{s}.out")).unwrap_or_default();
                        let err = std::fs::read(format!("{dir}/{s}.err")).map(|b| String::from_utf8_lossy(&b).into_owned()).unwrap_or_default();
                        let what = out.lines().find(|l| l.starts_with("FAULT")).map(|l| l.to_string()).unwrap_or_default();
                        let key = err
                            .lines()
                            .filter(|l| l.contains("ERROR: ") || l.contains("WARNING: ThreadSanitizer") || l.contains("SUMMARY") || l.contains("memory allocation of"))
                            .take(3)
                            .collect::<Vec<_>>()
                            .join(" | ");
                        let st = format!("{st}");
                        if st.contains("signal: 9") && what.is_empty() {
                            t.errors.push(format!("worker {s} was killed from outside ({st})"));
                        } else {
                            t.viols.push((note, format!("process died: {st} {what} {key}")));
                        }
                    }
                }
                Ok(None) => {
                    alive += 1;
                    let n = read_note(&format!("{dir}/{s}.note")).0;
                    if n != k.1 {
                        k.1 = n;
                        k.2 = Instant::now();
                    } else if k.2.elapsed() > hang {
                        let note = read_note(&format!("{dir}/{s}.note")).1;
                        let _ = k.0.kill();
                        let _ = k.0.wait();
                        k.3 = true;
                        t.viols.push((note, "did not return within a minute".into()));
                    }
                }
                Err(e) => {
                    t.errors.push(e.to_string());
                    k.3 = true;
                }
            }
        }
        if alive == 0 {
            break;
        }
        std::thread::sleep(Duration::from_millis(30));
    }
    for s in 0..shards {
        let out = std::fs::read(format!("{dir}/{s}.out")).map(|b| String::from_utf8_lossy(&b).into_owned()).unwrap_or_default();
        for l in out.lines() {
            let Some((k, r)) = l.split_once(' ') else { continue };
            match k {
                "VIOL" => {
                    let (c, m) = r.split_once(" || ").unwrap_or((r, ""));
                    t.viols.push((c.into(), m.into()));
                }
                "DONE" => {
                    let v: Vec<u64> = r.split(' ').filter_map(|x| x.parse().ok()).collect();
                    t.done += v[0];
                    t.evals += v[1];
                    t.cut += v[2];
                }
                "EXECS" => t.execs += r.parse::<u64>().unwrap_or(0),
                "SUM" => {
                    if let Some((v, k)) = r.split_once(' ') {
                        *t.sums.entry(k.into()).or_insert(0.0) += v.parse::<f64>().unwrap_or(0.0);
                    }
                }
                "MAX" => {
                    if let Some((v, k)) = r.split_once(' ') {
                        let v = v.parse::<f64>().unwrap_or(0.0);
                        let e = t.maxs.entry(k.into()).or_insert(f64::MIN);
                        *e = e.max(v);
                    }
                }
                "SAMPLE" => {
                    if t.samples.len() < 8 {
                        t.samples.push(r.into())
                    }
                }
                _ => {}
            }
        }
        if let Ok(b) = std::fs::read(format!("{dir}/{s}.sigs")) {
            for c in b.chunks_exact(8) {
                t.sigs.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        }
        for f in ["out", "err", "note", "sigs"] {
            let _ = std::fs::remove_file(format!("{dir}/{s}.{f}"));
        }
    }
    t
}

pub fn find(id: &str) -> Option<&'static Prop> {
    PROPS.iter().find(|p| p.id == id)
}

/// `psv run ID --tier T --seed N --dir DIR --json OUT [--exe EXE] [--scale X] [--env K=V]`:
/// one engine's run; the JSON it writes is merged by the script that calls it.
pub fn run(args: &[String]) -> i32 {
    let id = &args[0];
    let mut tier = Tier::Quick;
    let mut seed = 1u64;
    let mut dir = String::from("/tmp/psv");
    let mut json = String::new();
    let mut exe = std::env::current_exe().unwrap().to_string_lossy().into_owned();
    let mut scale = 1.0;
    let mut budget = 0.0;
    let mut shards = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4);
    let mut env = vec![];
    let mut it = args[1..].iter();
    while let Some(a) = it.next() {
        let mut v = || it.next().cloned().unwrap_or_default();
        match a.as_str() {
            "--tier" => tier = if v() == "thorough" { Tier::Thorough } else { Tier::Quick },
            "--seed" => seed = v().parse().unwrap_or(1),
            "--dir" => dir = v(),
            "--json" => json = v(),
            "--exe" => exe = v(),
            "--scale" => scale = v().parse().unwrap_or(1.0),
            "--budget" => budget = v().parse().unwrap_or(0.0),
            "--shards" => shards = v().parse().unwrap_or(shards),
            "--env" => {
                if let Some((k, x)) = v().split_once('=') {
                    env.push((k.to_string(), x.to_string()));
                }
            }
            _ => {}
        }
    }
    let Some(p) = find(id) else {
        eprintln!("no property {id}");
        return 2;
    };
    let n = ((if tier == Tier::Quick { p.quick } else { p.thorough }) as f64 * scale) as usize;
    if budget == 0.0 {
        budget = if tier == Tier::Quick { 150.0 } else { 600.0 };
    }
    // some want a worker for every processor played, which then never plays another
    let shards = if p.serial { 1 } else if p.per_model { cpu::nmodels() } else { shards };
    let t = drive(p, &exe, tier, seed, shards, n.max(shards), budget, &dir, &env);
    let mut s = String::new();
    s.push_str("{");
    s.push_str(&format!("\"cases\":{},\"evaluations\":{},\"executions\":{},\"cut_short\":{},\"distinct\":{},", t.done, t.evals, t.execs, t.cut, t.sigs.len()));
    s.push_str(&format!("\"rule\":\"{}\",", esc(p.rule)));
    let kv = |m: &BTreeMap<String, f64>| m.iter().map(|(k, v)| format!("\"{}\":{}", esc(k), if v.is_finite() { *v } else { 1e300 })).collect::<Vec<_>>().join(",");
    s.push_str(&format!("\"sums\":{{{}}},\"maxs\":{{{}}},", kv(&t.sums), kv(&t.maxs)));
    s.push_str(&format!("\"samples\":[{}],", t.samples.iter().map(|x| format!("\"{}\"", esc(x))).collect::<Vec<_>>().join(",")));
    s.push_str(&format!("\"errors\":[{}],", t.errors.iter().map(|x| format!("\"{}\"", esc(x))).collect::<Vec<_>>().join(",")));
    s.push_str(&format!(
        "\"violations\":[{}]",
        t.viols.iter().map(|(c, m)| format!("{{\"case\":\"{}\",\"what\":\"{}\"}}", esc(c), esc(m))).collect::<Vec<_>>().join(",")
    ));
    s.push_str("}\n");
    if json.is_empty() {
        println!("{s}");
    } else {
        std::fs::File::create(&json).unwrap().write_all(s.as_bytes()).unwrap();
    }
    for (c, m) in &t.viols {
        println!("  violation: {m}\n    {c}");
    }
    if !t.errors.is_empty() {
        return 2;
    }
    if t.viols.is_empty() {
        0
    } else {
        1
    }
}

/// `psv replay ID "case line"`: exit 1 and the message if it still fails.
pub fn replay(args: &[String]) -> i32 {
    let Some(p) = find(&args[0]) else { return 2 };
    let line = if std::path::Path::new(&args[1]).is_file() { std::fs::read_to_string(&args[1]).unwrap() } else { args[1..].join(" ") };
    let line = line.lines().find(|l| l.contains("fmt=")).unwrap_or("").to_string();
    let Some(c) = Case::parse(&line) else {
        eprintln!("cannot parse the case");
        return 2;
    };
    install_handlers();
    if let Some(init) = p.init {
        init();
    }
    let mut o = Obs::default();
    println!("case: {c}");
    match (p.check)(&c, &mut o) {
        Ok(()) => {
            println!("holds");
            0
        }
        Err(m) => {
            println!("VIOLATED: {m}");
            1
        }
    }
}
