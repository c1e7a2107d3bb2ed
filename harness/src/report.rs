//! Case driver: runs numbered cases in parallel, collects what the monitors
//! observed, writes the evidence file and prints the verdict.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use crate::util::{hash_str, mix, R};

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}
pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}
pub fn silence_panics() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = format!("{} at {}", msg, loc));
    }));
}
/// Runs code that may panic; the panic becomes a value.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| last_panic())
}

pub struct Cx {
    pub check: &'static str,
    pub idx: usize,
    pub thorough: bool,
    pub evals: u64,
    pub obs: BTreeMap<String, u64>,
    pub sigs: Vec<u64>,
    pub samples: Vec<String>,
    pub findings: Vec<(String, String)>,
    pub notes: Vec<String>,
}
impl Cx {
    fn new(check: &'static str, idx: usize, thorough: bool) -> Self {
        Cx {
            check,
            idx,
            thorough,
            evals: 0,
            obs: Default::default(),
            sigs: vec![],
            samples: vec![],
            findings: vec![],
            notes: vec![],
        }
    }
    /// one decision of the oracle on an observed execution
    pub fn eval(&mut self) {
        self.evals += 1;
    }
    pub fn obs(&mut self, k: impl Into<String>) {
        *self.obs.entry(k.into()).or_insert(0) += 1;
    }
    pub fn obs_n(&mut self, k: impl Into<String>, n: u64) {
        *self.obs.entry(k.into()).or_insert(0) += n;
    }
    /// signature of a non-trivial situation
    pub fn sig(&mut self, s: impl AsRef<str>) {
        self.sigs.push(hash_str(s.as_ref()));
    }
    pub fn sample(&mut self, s: impl Into<String>) {
        if self.idx < 400 && self.samples.len() < 2 {
            self.samples.push(s.into());
        }
    }
    /// context for a violation report
    pub fn note(&mut self, s: impl Into<String>) {
        self.notes.push(s.into());
    }
    /// A failure that is a recorded finding when listed, a violation otherwise.
    pub fn finding(&mut self, id: &str, what: impl Into<String>) -> Result<(), String> {
        let what = what.into();
        if known(self.check, id) {
            self.findings.push((id.to_string(), what));
            Ok(())
        } else {
            Err(what)
        }
    }
}

/// `known-findings.txt`: lines "finding: property=<id> id=<finding id> <text>"
fn known(check: &str, id: &str) -> bool {
    let path = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()) + "/known-findings.txt";
    let text = std::fs::read_to_string(path).unwrap_or_default();
    let want = format!("finding: property={} id={} ", check, id);
    text.lines().any(|l| l.starts_with(&want))
}

pub type CaseResult = Result<(), String>;

pub struct Spec {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub quick: usize,
    pub thorough: usize,
    /// counters that have to be non-zero for the run to mean anything
    pub require: &'static [&'static str],
    pub assumptions: &'static [&'static str],
    pub case: fn(&mut R, &mut Cx) -> CaseResult,
}

struct End<'a>(&'a AtomicUsize);
impl Drop for End<'_> {
    fn drop(&mut self) {
        self.0.fetch_add(1, Ordering::SeqCst);
    }
}
fn mode_name(thorough: bool) -> &'static str {
    if thorough {
        "thorough"
    } else {
        "quick"
    }
}

fn reset_thread() {
    crate::fs::reset();
    crate::fs::clear_zk();
    crate::taupc::log_take();
    zero_over_k::verif::clear_hooks();
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn trunc(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        s.chars().take(n).collect::<String>() + "..."
    }
}

struct Acc {
    evals: u64,
    cases: u64,
    obs: BTreeMap<String, u64>,
    sigs: HashSet<u64>,
    samples: BTreeMap<usize, Vec<String>>,
    findings: BTreeMap<String, (usize, String, u64)>,
    viol: BTreeMap<usize, (String, Vec<String>)>,
}

fn run_case(spec: &Spec, seed: u64, idx: usize, thorough: bool) -> (Cx, CaseResult) {
    reset_thread();
    let mut cx = Cx::new(spec.id, idx, thorough);
    let mut r = R::new(mix(mix(seed, hash_str(spec.id)), idx as u64));
    let res = match catch_unwind(AssertUnwindSafe(|| (spec.case)(&mut r, &mut cx))) {
        Ok(x) => x,
        Err(_) => Err(format!("unexpected panic: {}", last_panic())),
    };
    reset_thread();
    (cx, res)
}

/// Entry point of a checker binary.
pub fn main(specs: &[Spec]) {
    let args: Vec<String> = std::env::args().collect();
    let usage = || -> ! {
        eprintln!("usage: {} <property> [quick|thorough] | <property> replay <file> | list", args[0]);
        std::process::exit(2)
    };
    if args.len() < 2 {
        usage()
    }
    if args[1] == "list" {
        for s in specs {
            println!("{}", s.id);
        }
        return;
    }
    let spec = specs.iter().find(|s| s.id == args[1]).unwrap_or_else(|| usage());
    silence_panics();
    let dir = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
    let mut seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mode = args.get(2).map(|s| s.as_str()).unwrap_or("quick");
    if mode == "replay" {
        let text = std::fs::read_to_string(&args[3]).expect("replay file");
        let num = |k: &str| -> u64 {
            let i = text.find(&format!("\"{}\":", k)).expect("field") + k.len() + 3;
            text[i..].trim_start().chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap()
        };
        seed = num("seed");
        let thorough = text.contains("\"tier\": \"thorough\"");
        let (cx, res) = run_case(spec, seed, num("case") as usize, thorough);
        for n in &cx.notes {
            println!("  {}", n);
        }
        match res {
            Ok(()) => println!("replayed case holds"),
            Err(e) => {
                println!("replayed: {}", e);
                println!("VIOLATION property={} replay={}", spec.id, args[3]);
                std::process::exit(1)
            }
        }
        return;
    }
    let thorough = mode == "thorough";
    if !thorough && mode != "quick" {
        usage()
    }
    let mut total = std::env::var("VERIF_CASES")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(if thorough { spec.thorough } else { spec.quick });
    // the share of cases that runs without overflow checks and debug assertions
    let plain = std::env::var("VERIF_PASS").as_deref() == Ok("plain");
    let build = if plain { "plain" } else { "checked" };
    let stat = format!("{}/out/{}.plain", dir, spec.id);
    if plain {
        seed = seed.wrapping_add(900_000_000);
        total = total.div_ceil(6);
    }
    let cap = std::env::var("VERIF_CAP_S").ok().and_then(|s| s.parse().ok()).unwrap_or(match (thorough, plain) {
        (true, false) => 3000,
        (true, true) => 500,
        (false, false) => 400,
        (false, true) => 100,
    });
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16);
    let start = Instant::now();
    let cap = Duration::from_secs(cap);
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let capped = AtomicBool::new(false);
    let acc = Mutex::new(Acc {
        evals: 0,
        cases: 0,
        obs: Default::default(),
        sigs: Default::default(),
        samples: Default::default(),
        findings: Default::default(),
        viol: Default::default(),
    });
    // A case that never ends is a violation too: cases take milliseconds.
    let inflight: Mutex<BTreeMap<usize, Instant>> = Mutex::new(Default::default());
    let done = AtomicUsize::new(0);
    let hang = Duration::from_secs(if thorough { 600 } else { 200 });
    std::thread::scope(|sc| {
        let (inflight, done, dir) = (&inflight, &done, &dir);
        sc.spawn(move || {
            while done.load(Ordering::SeqCst) < threads {
                std::thread::sleep(Duration::from_millis(50));
                let stuck = inflight.lock().unwrap().iter().find(|(_, t)| t.elapsed() > hang).map(|(i, _)| *i);
                if let Some(idx) = stuck {
                    let _ = std::fs::create_dir_all(format!("{}/out", dir));
                    let path = format!("{}/out/{}-{}-{}.json", dir, spec.id, seed, idx);
                    let _ = std::fs::write(
                        &path,
                        format!(
                            "{{\n \"property\": {},\n \"tier\": {},\n \"build\": \"{}\",\n \"seed\": {},\n \"case\": {},\n \"what\": \"the case does not terminate\"\n}}\n",
                            js(spec.id),
                            js(mode_name(thorough)),
                            build,
                            seed,
                            idx
                        ),
                    );
                    println!("  case {}: still running after {:?}", idx, hang);
                    println!("VIOLATION property={} replay={}", spec.id, path);
                    std::process::exit(1);
                }
            }
        });
        for _ in 0..threads {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, || {
                    let _end = End(done);
                    loop {
                    if stop.load(Ordering::SeqCst) {
                        return;
                    }
                    if start.elapsed() > cap {
                        capped.store(true, Ordering::SeqCst);
                        return;
                    }
                    let idx = next.fetch_add(1, Ordering::SeqCst);
                    if idx >= total {
                        return;
                    }
                    let t = Instant::now();
                    inflight.lock().unwrap().insert(idx, t);
                    let (cx, res) = run_case(spec, seed, idx, thorough);
                    inflight.lock().unwrap().remove(&idx);
                    if std::env::var("VERIF_SLOW").is_ok() && t.elapsed().as_secs() > 4 {
                        eprintln!("slow case {} {:?} {:?}", idx, t.elapsed(), cx.notes);
                    }
                    let mut a = acc.lock().unwrap();
                    a.evals += cx.evals;
                    a.cases += 1;
                    for (k, v) in cx.obs {
                        *a.obs.entry(k).or_insert(0) += v;
                    }
                    a.sigs.extend(cx.sigs);
                    if !cx.samples.is_empty() {
                        a.samples.insert(idx, cx.samples);
                    }
                    for (id, w) in cx.findings {
                        let e = a.findings.entry(id).or_insert((idx, w.clone(), 0));
                        e.2 += 1;
                        if idx < e.0 {
                            e.0 = idx;
                            e.1 = w;
                        }
                    }
                    if let Err(e) = res {
                        a.viol.insert(idx, (e, cx.notes));
                        if std::env::var("VERIF_ALL").is_err() {
                            stop.store(true, Ordering::SeqCst);
                        }
                    }
                    }
                })
                .unwrap();
        }
    });
    let mut a = acc.into_inner().unwrap();
    if plain {
        let _ = std::fs::create_dir_all(format!("{}/out", dir));
        let _ = std::fs::write(&stat, format!("{} {}", a.cases, a.evals));
    } else if let Ok(t) = std::fs::read_to_string(&stat) {
        let n: Vec<u64> = t.split(' ').filter_map(|x| x.parse().ok()).collect();
        if n.len() == 2 {
            a.obs.insert("build without overflow checks and debug assertions: cases".into(), n[0]);
            a.obs.insert("build without overflow checks and debug assertions: decisions".into(), n[1]);
        }
        let _ = std::fs::remove_file(&stat);
    }
    let tier = if thorough { "thorough" } else { "quick" };
    let samples: Vec<String> = a.samples.values().flatten().take(6).map(|s| js(&trunc(s, 1500))).collect();
    let obs: Vec<String> = a.obs.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect();
    let mut assumptions: Vec<String> = spec.assumptions.iter().map(|s| js(s)).collect();
    if capped.load(Ordering::SeqCst) {
        assumptions.push(js("the time cap ended the run before every planned case was executed"));
    }
    let ev = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": {},\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"cases\": {},\n  \"observed\": {{{}}},\n  \"known_findings_seen\": {},\n  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        js(spec.id),
        js(tier),
        seed,
        js(spec.level),
        a.evals,
        a.sigs.len(),
        js(spec.rule),
        a.cases,
        obs.join(", "),
        a.findings.len(),
        samples.join(", "),
        assumptions.join(", "),
        start.elapsed().as_secs_f64(),
        a.viol.len()
    );
    let _ = std::fs::create_dir_all(format!("{}/evidence", dir));
    std::fs::write(format!("{}/evidence/{}.json", dir, spec.id), ev).expect("evidence");
    for (id, (idx, w, n)) in a.findings.iter().filter(|_| !plain) {
        println!("KNOWN-FINDING: property={} id={} {} (case {}, seen {} times)", spec.id, id, trunc(w, 600), idx, n);
    }
    println!(
        "{} {} ({} build): {} cases, {} decisions, {} distinct situations, {:.1}s",
        spec.id,
        tier,
        build,
        a.cases,
        a.evals,
        a.sigs.len(),
        start.elapsed().as_secs_f64()
    );
    for (k, v) in a.obs.iter().filter(|_| !plain) {
        println!("  {} = {}", k, v);
    }
    if !a.viol.is_empty() {
        let _ = std::fs::create_dir_all(format!("{}/out", dir));
        let (idx, (e, notes)) = a.viol.iter().next().unwrap();
        let path = format!("{}/out/{}-{}-{}.json", dir, spec.id, seed, idx);
        let body = format!(
            "{{\n \"property\": {},\n \"tier\": {},\n \"build\": \"{}\",\n \"seed\": {},\n \"case\": {},\n \"what\": {},\n \"notes\": [{}]\n}}\n",
            js(spec.id),
            js(tier),
            build,
            seed,
            idx,
            js(e),
            notes.iter().map(|n| js(n)).collect::<Vec<_>>().join(",\n  ")
        );
        let _ = std::fs::write(&path, body);
        for (i, (e, _)) in a.viol.iter().take(20) {
            println!("  case {}: {}", i, trunc(e, 1200));
        }
        println!("VIOLATION property={} replay={}", spec.id, path);
        std::process::exit(1);
    }
    let missing: Vec<_> = spec.require.iter().filter(|k| !a.obs.contains_key(**k)).collect();
    if !plain && !missing.is_empty() && !capped.load(Ordering::SeqCst) && total >= spec.quick {
        eprintln!("inconclusive: never observed {:?}", missing);
        std::process::exit(2);
    }
}
