//! Runs a property over generated cases in parallel worker processes, shrinks the first failure,
//! writes the replay and evidence files.
use crate::alloc;
use crate::props;
use crate::src::{hash_bytes, mix, Src};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::os::unix::process::ExitStatusExt;
use std::panic;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

pub const SHARDS: u64 = 8;
/// CPU time which a single case may take; on the unchanged tree every case takes milliseconds
const CPU_BUDGET_MS: u64 = 60_000;
/// bytes which a single case may allocate altogether; the largest on the unchanged tree is reported
/// in the evidence and is two orders of magnitude smaller
const ALLOC_BUDGET: u64 = 6 << 30;
const STACK: usize = 8 << 20;

pub type R = Result<(), String>;

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub run: fn(&mut Src, &mut Ctx) -> R,
    /// running out of the allocation or CPU budget is a violation of this property
    pub bounds_memory: bool,
    /// inputs of the known findings of this property
    pub known: fn(&str) -> Option<R>,
}

pub fn no_known(_: &str) -> Option<R> {
    None
}

#[derive(Default)]
pub struct Ctx {
    pub nontrivial: bool,
    pub sample: String,
    pub classes: BTreeMap<String, u64>,
    scratch_base: PathBuf,
    scratch: Option<PathBuf>,
    serial: u64,
}

impl Ctx {
    fn new(base: PathBuf) -> Self {
        Ctx { scratch_base: base, ..Default::default() }
    }

    pub fn class(&mut self, c: impl Into<String>) {
        *self.classes.entry(c.into()).or_insert(0) += 1;
    }

    /// the case written out
    pub fn input(&mut self, s: impl Into<String>) {
        self.sample = s.into();
    }

    /// an empty scratch directory of this case, removed afterwards
    pub fn scratch(&mut self) -> PathBuf {
        if self.scratch.is_none() {
            self.serial += 1;
            let d = self.scratch_base.join(format!("d{}", self.serial));
            fs::create_dir_all(&d).expect("scratch directory");
            self.scratch = Some(d);
        }
        self.scratch.clone().unwrap()
    }

    fn end(&mut self) {
        if let Some(d) = self.scratch.take() {
            let _ = fs::remove_dir_all(d);
        }
    }
}

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

static CASE_START: AtomicU64 = AtomicU64::new(u64::MAX);

fn cpu_ms() -> u64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_PROCESS_CPUTIME_ID, &mut ts) };
    ts.tv_sec as u64 * 1000 + ts.tv_nsec as u64 / 1_000_000
}

/// ends the process when a single case burns its CPU budget
fn watch_cpu() {
    std::thread::spawn(|| loop {
        std::thread::sleep(Duration::from_millis(500));
        let start = CASE_START.load(Ordering::Relaxed);
        if start != u64::MAX && cpu_ms().saturating_sub(start) > CPU_BUDGET_MS {
            unsafe { libc::_exit(78) }
        }
    });
}

fn run_case(p: &Prop, src: &mut Src, ctx: &mut Ctx) -> (R, u64) {
    ctx.nontrivial = false;
    ctx.sample.clear();
    CASE_START.store(cpu_ms(), Ordering::Relaxed);
    alloc::start(ALLOC_BUDGET);
    let r = panic::catch_unwind(panic::AssertUnwindSafe(|| (p.run)(src, ctx)));
    let used = alloc::stop();
    CASE_START.store(u64::MAX, Ordering::Relaxed);
    ctx.end();
    let r = match r {
        Ok(r) => r,
        Err(_) => Err(format!("panic: {}", PANIC.with(|p| p.borrow().clone()))),
    };
    (r, used)
}

fn install_hook() {
    panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or(info.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = format!("{msg} at {loc}"));
    }));
}

fn case_seed(id: &str, seed: u64, index: u64) -> u64 {
    mix(hash_bytes(id.as_bytes()) ^ mix(seed) ^ mix(index.wrapping_mul(0x9E37)))
}

/// shrink by deleting, zeroing and minimising draws
fn shrink(p: &Prop, choices: Vec<u64>, msg: String, ctx: &mut Ctx) -> (Vec<u64>, String) {
    let mut best = choices;
    let mut msg = msg;
    let mut budget = 3000usize;
    let deadline = Instant::now() + Duration::from_secs(60); // only limits how small the reproduction gets
    let mut attempt = |c: Vec<u64>, best: &mut Vec<u64>, msg: &mut String, budget: &mut usize| -> bool {
        if *budget == 0 || Instant::now() > deadline {
            *budget = 0;
            return false;
        }
        *budget -= 1;
        let mut s = Src::replay(c);
        let (r, _) = run_case(p, &mut s, ctx);
        match r {
            Err(m) => {
                let mut rec = s.rec;
                while rec.last() == Some(&0) {
                    rec.pop();
                }
                if rec.len() < best.len() || (rec.len() == best.len() && rec < *best) {
                    *best = rec;
                    *msg = m;
                    true
                } else {
                    false
                }
            }
            Ok(()) => false,
        }
    };
    loop {
        let before = best.clone();
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i + size <= best.len() {
                let mut c = best.clone();
                c.drain(i..i + size);
                if !attempt(c, &mut best, &mut msg, &mut budget) {
                    i += size.div_ceil(2);
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        let mut i = 0;
        while i < best.len() {
            if best[i] > 0 {
                let mut c = best.clone();
                c[i] = 0;
                if !attempt(c, &mut best, &mut msg, &mut budget) {
                    let (mut lo, mut hi) = (0u64, best[i]);
                    while i < best.len() && lo + 1 < hi && budget > 0 {
                        let mid = lo + (hi - lo) / 2;
                        let mut c = best.clone();
                        c[i] = mid;
                        if attempt(c, &mut best, &mut msg, &mut budget) {
                            hi = mid;
                        } else {
                            lo = mid;
                        }
                    }
                }
            }
            i += 1;
        }
        if best == before || budget == 0 {
            return (best, msg);
        }
    }
}

/// also made the current directory, so that nothing is included by accident
fn scratch_base() -> PathBuf {
    let d = std::env::temp_dir().join(format!("vh-{}", std::process::id()));
    fs::create_dir_all(d.join("cwd")).expect("scratch directory");
    std::env::set_current_dir(d.join("cwd")).expect("scratch directory");
    watch_cpu();
    d
}

fn on_big_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::Builder::new().stack_size(STACK).spawn(f).unwrap().join().unwrap()
}

fn clip(s: &str) -> String {
    if s.len() > 1500 {
        let mut e = 1500;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        format!("{}… [{} bytes]", &s[..e], s.len())
    } else {
        s.to_string()
    }
}

fn worker(id: &str, seed: u64, shard: u64, cases: u64, dir: &Path) {
    let p = props::find(id);
    limit_memory();
    install_hook();
    let base = scratch_base();
    let status = dir.join(format!("status{shard}"));
    let stop = dir.join("stop");
    let mut ctx = Ctx::new(base.clone());
    let mut evals = 0u64;
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut samples: Vec<String> = Vec::new();
    let mut max_alloc = 0u64;
    let mut failure = Value::Null;
    let mut index = shard;
    let sf = fs::File::create(&status).unwrap();
    while index < cases {
        use std::os::unix::fs::FileExt;
        sf.write_at(&index.to_le_bytes(), 0).unwrap();
        if evals % 32 == 0 && stop.exists() {
            break;
        }
        let mut s = Src::random(case_seed(id, seed, index));
        let (r, used) = run_case(p, &mut s, &mut ctx);
        max_alloc = max_alloc.max(used);
        evals += 1;
        if let Err(m) = r {
            let _ = fs::write(&stop, b"");
            let input0 = ctx.sample.clone();
            let rec = s.rec.clone();
            let (choices, msg) = shrink(p, rec.clone(), m.clone(), &mut ctx);
            // run the shrunk case once more to write its input out
            let mut s2 = Src::replay(choices.clone());
            let (r2, _) = run_case(p, &mut s2, &mut ctx);
            failure = if r2.is_err() {
                json!({"choices": choices, "message": msg, "input": ctx.sample, "index": index})
            } else {
                json!({"choices": rec, "message": m, "input": input0, "index": index})
            };
            break;
        }
        if ctx.nontrivial {
            let new = hashes.insert(hash_bytes(ctx.sample.as_bytes()));
            if new && samples.len() < 2 && ctx.sample.len() < 1500 {
                samples.push(clip(&ctx.sample));
            }
        }
        index += SHARDS;
    }
    let _ = fs::remove_dir_all(&base);
    let mut hb = Vec::with_capacity(hashes.len() * 8);
    for h in &hashes {
        hb.extend_from_slice(&h.to_le_bytes());
    }
    fs::write(dir.join(format!("hashes{shard}")), hb).unwrap();
    let out = json!({"evals": evals, "classes": ctx.classes, "samples": samples, "max_alloc": max_alloc, "failure": failure});
    fs::write(dir.join(format!("out{shard}")), out.to_string()).unwrap();
}

fn limit_memory() {
    unsafe {
        let lim = libc::rlimit { rlim_cur: 8 << 30, rlim_max: 8 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &lim);
    }
}

fn error_exit(m: String) -> ! {
    eprintln!("ERROR (no answer): {m}");
    std::process::exit(2)
}

/// how a worker ended without giving its result
fn crash_kind(st: std::process::ExitStatus) -> Option<String> {
    match (st.signal(), st.code()) {
        (Some(libc::SIGSEGV), _) | (Some(libc::SIGBUS), _) => Some("stack overflow or invalid memory access".into()),
        (Some(libc::SIGABRT), _) => Some("abort".into()),
        (Some(libc::SIGILL), _) => Some("illegal instruction".into()),
        (_, Some(78)) => Some("CPU budget exceeded".into()),
        (_, Some(77)) => Some("allocation budget exceeded".into()),
        _ => None,
    }
}

fn wait(mut c: std::process::Child, deadline: Instant) -> Option<std::process::ExitStatus> {
    loop {
        match c.try_wait() {
            Ok(Some(st)) => return Some(st),
            Ok(None) => {
                if Instant::now() > deadline {
                    let _ = c.kill();
                    let _ = c.wait();
                    return None;
                }
                std::thread::sleep(Duration::from_millis(5));
            }
            Err(e) => error_exit(format!("wait: {e}")),
        }
    }
}

fn verif_root() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or("/verif".into()))
}

fn violation(id: &str, v: Value) -> ! {
    let dir = verif_root().join("evidence").join("replay");
    let _ = fs::create_dir_all(&dir);
    let text = serde_json::to_string_pretty(&v).unwrap();
    let path = dir.join(format!("{id}-{:016x}.json", hash_bytes(text.as_bytes())));
    fs::write(&path, &text).unwrap();
    println!("{}", v["message"].as_str().unwrap_or(""));
    println!("--- input ---\n{}\n-------------", clip(v["input"].as_str().unwrap_or("")));
    println!("VIOLATION property={id} replay={}", path.display());
    std::process::exit(1)
}

fn check(id: &str, tier: &str, seed: u64, cases: Option<u64>) {
    let t0 = Instant::now();
    let p = props::find(id);
    let thorough = tier == "thorough";
    let cases = cases.unwrap_or(if thorough { p.thorough } else { p.quick });
    let deadline = t0 + Duration::from_secs(if thorough { 24 * 3600 } else { 780 });
    let dir = std::env::temp_dir().join(format!("vh-check-{}", std::process::id()));
    fs::create_dir_all(&dir).unwrap();
    let exe = std::env::current_exe().unwrap();
    let children: Vec<_> = (0..SHARDS)
        .map(|shard| {
            Command::new(&exe)
                .args(["worker", id, &seed.to_string(), &shard.to_string(), &cases.to_string()])
                .arg(&dir)
                .stdin(Stdio::null())
                .stdout(Stdio::null())
                .stderr(Stdio::null())
                .spawn()
                .unwrap()
        })
        .collect();
    let pids: Vec<u32> = children.iter().map(|c| c.id()).collect();
    let mut ends = Vec::new();
    for c in children {
        ends.push(wait(c, deadline));
    }
    for pid in pids {
        let _ = fs::remove_dir_all(std::env::temp_dir().join(format!("vh-{pid}")));
    }
    let mut evals = 0u64;
    let mut max_alloc = 0u64;
    let mut hashes = HashSet::new();
    let mut classes: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples = Vec::new();
    let mut failures: Vec<Value> = Vec::new();
    let mut crash: Option<Value> = None;
    let mut trouble: Option<String> = None;
    for (shard, st) in ends.into_iter().enumerate() {
        let Some(st) = st else {
            trouble = Some(format!("worker {shard} exceeded its deadline"));
            continue;
        };
        if !st.success() {
            let index = fs::read(dir.join(format!("status{shard}")))
                .ok()
                .and_then(|b| b.try_into().ok())
                .map(u64::from_le_bytes);
            match (crash_kind(st), index) {
                (Some(kind), Some(index)) => {
                    // confirm it in a fresh process
                    let c = Command::new(&exe)
                        .args(["one", id, &seed.to_string(), &index.to_string()])
                        .stdin(Stdio::null())
                        .stdout(Stdio::null())
                        .spawn()
                        .unwrap();
                    let left = std::env::temp_dir().join(format!("vh-{}", c.id()));
                    let again = wait(c, deadline).and_then(crash_kind);
                    let _ = fs::remove_dir_all(left);
                    let memory = kind.ends_with("budget exceeded");
                    if again.as_ref() != Some(&kind) {
                        trouble = Some(format!("worker {shard}: {kind} at case {index} did not recur"));
                    } else if memory && !p.bounds_memory {
                        trouble = Some(format!("worker {shard}: {kind} at case {index}"));
                    } else {
                        crash = Some(json!({"property": id, "seed": seed, "index": index, "message": format!("the process ended: {kind}"), "input": format!("vh one {id} {seed} {index}")}));
                    }
                }
                _ => trouble = Some(format!("worker {shard} ended with {st}")),
            }
            continue;
        }
        let out: Value = serde_json::from_slice(&fs::read(dir.join(format!("out{shard}"))).unwrap()).unwrap();
        evals += out["evals"].as_u64().unwrap();
        max_alloc = max_alloc.max(out["max_alloc"].as_u64().unwrap());
        for (k, v) in out["classes"].as_object().unwrap() {
            *classes.entry(k.clone()).or_insert(0) += v.as_u64().unwrap();
        }
        for s in out["samples"].as_array().unwrap() {
            samples.push(s.clone());
        }
        for h in fs::read(dir.join(format!("hashes{shard}"))).unwrap().chunks_exact(8) {
            hashes.insert(u64::from_le_bytes(h.try_into().unwrap()));
        }
        if !out["failure"].is_null() {
            failures.push(out["failure"].clone());
        }
    }
    let _ = fs::remove_dir_all(&dir);
    failures.sort_by_key(|f| (f["choices"].as_array().map_or(0, |c| c.len()), f["index"].as_u64()));
    samples.truncate(4);
    let evidence = json!({
        "property": id, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": hashes.len(),
            "rule": p.rule,
            "samples": samples,
            "classes": classes,
            "largest_allocation_of_one_case_bytes": max_alloc,
        },
        "wall_s": (t0.elapsed().as_secs_f64() * 1000.0).round() / 1000.0,
        "violations": failures.len() + crash.is_some() as usize,
    });
    let ed = verif_root().join("evidence");
    let _ = fs::create_dir_all(&ed);
    fs::write(ed.join(format!("{id}.json")), serde_json::to_string_pretty(&evidence).unwrap()).unwrap();

    if let Some(f) = failures.first() {
        violation(id, json!({"property": id, "seed": seed, "index": f["index"], "choices": f["choices"], "message": f["message"], "input": f["input"]}));
    }
    if let Some(c) = crash {
        violation(id, c);
    }
    if let Some(t) = trouble {
        error_exit(t);
    }
    known_findings(id, &exe, deadline);
    println!(
        "OK property={id} tier={tier} seed={seed} evaluations={evals} distinct_nontrivial={} wall={:.1}s",
        hashes.len(),
        t0.elapsed().as_secs_f64()
    );
}

fn known_findings(id: &str, exe: &Path, deadline: Instant) {
    let file = verif_root().join("known-findings.txt");
    for line in fs::read_to_string(file).unwrap_or_default().lines() {
        let Some(rest) = line.strip_prefix(&format!("known: property={id} ")) else { continue };
        let (key, what) = rest.split_once(' ').unwrap_or((rest, ""));
        let c = Command::new(exe).args(["known", id, key]).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).spawn().unwrap();
        let left = std::env::temp_dir().join(format!("vh-{}", c.id()));
        let end = wait(c, deadline);
        let _ = fs::remove_dir_all(left);
        match end {
            Some(st) if st.success() => {}
            Some(_) => {
                println!("KNOWN-FINDING: property={id} {key} {what}")
            }
            None => error_exit(format!("known finding {key} gave no answer")),
        }
    }
}

pub fn main() {
    let args: Vec<String> = std::env::args().collect();
    let a = |i: usize| args.get(i).map(|s| s.as_str()).unwrap_or("");
    let n = |i: usize| a(i).parse::<u64>().unwrap_or_else(|_| error_exit(format!("bad argument {i}")));
    match a(1) {
        "check" => {
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
            let tier = if a(3).is_empty() { std::env::var("VERIF_TIER").unwrap_or("quick".into()) } else { a(3).to_string() };
            check(a(2), &tier, seed, args.get(4).map(|s| s.parse().unwrap()));
        }
        "worker" => {
            let (id, seed, shard, cases, dir) = (a(2).to_string(), n(3), n(4), n(5), PathBuf::from(a(6)));
            on_big_stack(move || worker(&id, seed, shard, cases, &dir));
        }
        "one" => {
            let (id, seed, index) = (a(2).to_string(), n(3), n(4));
            let ok = on_big_stack(move || {
                limit_memory();
                install_hook();
                let base = scratch_base();
                let mut ctx = Ctx::new(base.clone());
                let mut s = Src::random(case_seed(&id, seed, index));
                let (r, used) = run_case(props::find(&id), &mut s, &mut ctx);
                let _ = fs::remove_dir_all(&base);
                println!("{}\n--- {:?} nontrivial={} alloc={}", ctx.sample, r, ctx.nontrivial, used);
                r.is_ok()
            });
            std::process::exit(!ok as i32)
        }
        "known" => {
            let (id, key) = (a(2).to_string(), a(3).to_string());
            let ok = on_big_stack(move || {
                limit_memory();
                install_hook();
                let base = scratch_base();
                let ok = matches!((props::find(&id).known)(&key), Some(Ok(())));
                let _ = fs::remove_dir_all(&base);
                ok
            });
            std::process::exit(!ok as i32)
        }
        "replay" => {
            let v: Value = serde_json::from_str(&fs::read_to_string(a(2)).unwrap()).unwrap();
            let (id, fails) = on_big_stack(move || {
                limit_memory();
                install_hook();
                let id = v["property"].as_str().unwrap().to_string();
                let p = props::find(&id);
                let mut s = match v["choices"].as_array() {
                    Some(c) => Src::replay(c.iter().map(|x| x.as_u64().unwrap()).collect()),
                    None => Src::random(case_seed(&id, v["seed"].as_u64().unwrap(), v["index"].as_u64().unwrap())),
                };
                let base = scratch_base();
                let mut ctx = Ctx::new(base.clone());
                let (r, _) = run_case(p, &mut s, &mut ctx);
                let _ = fs::remove_dir_all(&base);
                println!("--- input ---\n{}\n-------------\n{:?}", ctx.sample, r);
                (id, r.is_err())
            });
            if fails {
                println!("VIOLATION property={id} replay={}", a(2));
                std::process::exit(1)
            }
            println!("no violation");
        }
        "parse" => {
            // for looking at what the parser makes of a file
            let text = fs::read_to_string(a(2)).unwrap();
            on_big_stack(move || {
                props::common::parse_text(&text, |_, r| match r {
                    Ok(r) => {
                        for d in crate::actual::directives(&r.directives) {
                            println!("{d:?}");
                        }
                        println!("warnings: {}", props::common::show_errors(&r.warnings));
                    }
                    Err(e) => println!("errors: {}\nwarnings: {}", props::common::show_errors(&e.errors), props::common::show_errors(&e.warnings)),
                })
            });
        }
        "outcome" => {
            let root = a(2).to_string();
            on_big_stack(move || props::c15::print_outcome(&root));
        }
        "list" => {
            for p in props::ALL {
                println!("{} quick={} thorough={}", p.id, p.quick, p.thorough);
            }
        }
        _ => error_exit("usage: vh check ID [tier] [cases] | replay FILE | one ID SEED INDEX | list".into()),
    }
}
