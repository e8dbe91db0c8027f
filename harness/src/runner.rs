//! Case runner: worker processes, hang/crash detection, shrinking, replay files, evidence.
use crate::src::{hash_bytes, mix, Src};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{Command, Stdio};
use std::sync::mpsc;
use std::time::{Duration, Instant};

#[derive(Debug, Clone)]
pub struct Failure {
    /// stable identification of the failing behaviour
    pub sig: String,
    pub msg: String,
}

pub fn fail<T>(sig: &str, msg: impl Into<String>) -> Result<T, Failure> {
    Err(Failure { sig: sig.to_string(), msg: msg.into() })
}

#[derive(Default, Debug, Clone)]
pub struct Info {
    /// non-trivial by the property's rule
    pub nontrivial: bool,
    /// identity of the case for the distinct count
    pub key: u64,
    /// oracle evaluations made
    pub evals: u64,
    pub sample: String,
    /// class counters (coverage of the generator)
    pub classes: Vec<String>,
}

pub type CaseFn = fn(&mut Src, &mut Info) -> Result<(), Failure>;

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub cpu_limit_s: u64,
    pub workers: usize,
    pub case: CaseFn,
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = std::cell::RefCell::new(String::new());
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file().rsplit("/src/").next().unwrap_or(""), l.line())).unwrap_or_default();
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", msg.chars().take(300).collect::<String>(), loc));
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

/// Run code under test; a panic becomes Err(description).
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| last_panic())
}

fn run_case(p: &Prop, s: &mut Src) -> (Info, Result<(), Failure>) {
    let mut info = Info::default();
    let r = match catch_unwind(AssertUnwindSafe(|| (p.case)(s, &mut info))) {
        Ok(r) => r,
        Err(_) => fail("panic", format!("panic: {}", last_panic())),
    };
    (info, r)
}

fn known(p: &str) -> Vec<(String, String)> {
    let path = format!("{}/known_findings.json", root());
    let txt = match std::fs::read_to_string(path) {
        Ok(t) => t,
        Err(_) => return vec![],
    };
    let v: Value = serde_json::from_str(&txt).unwrap_or(Value::Null);
    let mut out = vec![];
    for x in v["known"].as_array().unwrap_or(&vec![]) {
        if x["property"] == p {
            out.push((x["sig"].as_str().unwrap_or("").to_string(), x["what"].as_str().unwrap_or("").to_string()));
        }
    }
    out
}

pub fn root() -> String {
    std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into())
}

fn case_seed(p: &Prop, seed: u64, idx: u64) -> u64 {
    mix(mix(seed, hash_bytes(p.id.as_bytes())), idx)
}

// ------------------------------------------------------------------ worker

pub fn worker(p: &Prop, seed: u64, start: u64, step: u64, total: u64) {
    install_panic_hook();
    let kn = known(p.id);
    let so = std::io::stdout();
    let mut out = so.lock();
    let mut emit = |s: String| {
        let _ = out.write_all(s.as_bytes());
        let _ = out.write_all(b"\n");
        let _ = out.flush();
    };
    let mut i = start;
    while i < total {
        emit(format!("B {}", i));
        let mut src = Src::random(case_seed(p, seed, i));
        let (info, r) = run_case(p, &mut src);
        match r {
            Ok(()) => {
                let j = json!({"i": i, "n": info.nontrivial, "k": info.key.to_string(), "e": info.evals, "c": info.classes,
                    "s": if i < 64 || i % 997 == 0 { info.sample.chars().take(900).collect::<String>() } else { String::new() }});
                emit(format!("R {}", j));
            }
            Err(f) => {
                if kn.iter().any(|(s, _)| *s == f.sig) {
                    emit(format!("K {}", json!({"sig": f.sig, "i": i})));
                } else {
                    let choices = src.log.clone();
                    emit(format!("F {}", json!({"i": i, "choices": choices, "sig": f.sig, "msg": f.msg, "sample": info.sample})));
                    shrink(p, i, choices, f, &mut emit);
                    emit(format!("D {}", i));
                    return;
                }
            }
        }
        i += step;
    }
    emit("E".into());
}

fn try_choices(p: &Prop, c: &[u64], sig: &str) -> Option<(Vec<u64>, Failure, Info)> {
    let mut s = Src::replay(c.to_vec());
    let (info, r) = run_case(p, &mut s);
    match r {
        Err(f) if f.sig == sig => Some((s.log, f, info)),
        _ => None,
    }
}

fn shrink(p: &Prop, idx: u64, choices: Vec<u64>, f: Failure, emit: &mut dyn FnMut(String)) {
    let t0 = Instant::now();
    let budget = Duration::from_secs(std::env::var("VERIF_SHRINK_S").ok().and_then(|x| x.parse().ok()).unwrap_or(25));
    let mut best = choices;
    let sig = f.sig.clone();
    let mut attempts = 0u64;
    let mut improved = true;
    let mut report = |c: &Vec<u64>, f: &Failure, info: &Info, emit: &mut dyn FnMut(String)| {
        emit(format!("F {}", json!({"i": idx, "choices": c, "sig": f.sig, "msg": f.msg, "sample": info.sample})));
    };
    while improved && t0.elapsed() < budget {
        improved = false;
        // delete chunks
        let mut size = (best.len() / 2).max(1);
        while size >= 1 {
            let mut at = 0;
            while at + size <= best.len() {
                if t0.elapsed() > budget {
                    return;
                }
                attempts += 1;
                if attempts % 16 == 0 {
                    emit(format!("B {}", idx));
                }
                let mut c = best.clone();
                c.drain(at..at + size);
                match try_choices(p, &c, &sig) {
                    Some((log, f, info)) if log.len() < best.len() => {
                        best = log;
                        improved = true;
                        report(&best, &f, &info, emit);
                    }
                    _ => at += size,
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // lower values
        let mut at = 0;
        while at < best.len() {
            if t0.elapsed() > budget {
                return;
            }
            let v = best[at];
            if v > 0 {
                for nv in [0, v / 2, v - 1] {
                    if nv >= v {
                        continue;
                    }
                    attempts += 1;
                    if attempts % 16 == 0 {
                        emit(format!("B {}", idx));
                    }
                    let mut c = best.clone();
                    c[at] = nv;
                    if let Some((log, f, info)) = try_choices(p, &c, &sig) {
                        if log.len() < best.len() || (log.len() == best.len() && log < best) {
                            best = log;
                            improved = true;
                            report(&best, &f, &info, emit);
                            break;
                        }
                    }
                }
            }
            at += 1;
        }
    }
}

// ------------------------------------------------------------------ parent

fn cpu_ticks(pid: u32) -> u64 {
    // the worker and its direct children
    let mut total = 0;
    let one = |pid: u32| -> u64 {
        let s = std::fs::read_to_string(format!("/proc/{}/stat", pid)).unwrap_or_default();
        let rest = s.rsplit(')').next().unwrap_or("").to_string();
        let f: Vec<&str> = rest.split_whitespace().collect();
        if f.len() > 14 {
            f[11].parse::<u64>().unwrap_or(0) + f[12].parse::<u64>().unwrap_or(0)
        } else {
            0
        }
    };
    total += one(pid);
    total
}

struct W {
    child: std::process::Child,
    cur: u64,
    ticks_at: u64,
    started: Instant,
    done: bool,
    failed: bool,
}

enum Msg {
    Line(usize, String),
    Eof(usize),
}

fn spawn(p: &Prop, seed: u64, start: u64, step: u64, total: u64, wi: usize, tx: &mpsc::Sender<Msg>) -> W {
    let exe = std::env::current_exe().unwrap();
    let mut child = Command::new(exe)
        .args(["worker", p.id, &seed.to_string(), &start.to_string(), &step.to_string(), &total.to_string()])
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .stdin(Stdio::null())
        .spawn()
        .expect("spawn worker");
    let o = child.stdout.take().unwrap();
    let tx = tx.clone();
    std::thread::spawn(move || {
        for l in BufReader::new(o).lines() {
            match l {
                Ok(l) => {
                    if tx.send(Msg::Line(wi, l)).is_err() {
                        return;
                    }
                }
                Err(_) => break,
            }
        }
        let _ = tx.send(Msg::Eof(wi));
    });
    W { child, cur: start, ticks_at: 0, started: Instant::now(), done: false, failed: false }
}

/// The scratch directory of this check; removed when the check ends.
struct Base(std::path::PathBuf);
impl Base {
    fn new() -> Base {
        let b = std::env::temp_dir().join(format!("mgx-verif-{}", std::process::id()));
        std::env::set_var("VERIF_SCRATCH", &b);
        Base(b)
    }
}
impl Drop for Base {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub fn run(p: &Prop, tier: &str, seed: u64, level: &str) -> i32 {
    let t0 = Instant::now();
    let _base = Base::new();
    let scale: f64 = std::env::var("VERIF_SCALE").ok().and_then(|x| x.parse().ok()).unwrap_or(1.0);
    let total = ((if tier == "thorough" { p.thorough } else { p.quick }) as f64 * scale).max(1.0) as u64;
    let nw = p.workers.min(total as usize).max(1);
    let (tx, rx) = mpsc::channel();
    let mut ws: Vec<W> = (0..nw).map(|w| spawn(p, seed, w as u64, nw as u64, total, w, &tx)).collect();
    let mut fails: BTreeMap<u64, Value> = BTreeMap::new();
    let mut knownhits: BTreeMap<String, u64> = BTreeMap::new();
    let mut evals = 0u64;
    let mut cases = 0u64;
    let mut keys: HashSet<u64> = HashSet::new();
    let mut nontriv = 0u64;
    let mut classes: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: BTreeMap<u64, String> = BTreeMap::new();
    let wall_cap =
        Duration::from_secs(std::env::var("VERIF_WALL_S").ok().and_then(|x| x.parse().ok()).unwrap_or(if tier == "thorough" { 6 * 3600 } else { 780 }));
    let mut capped = false;
    loop {
        if ws.iter().all(|w| w.done) {
            break;
        }
        match rx.recv_timeout(Duration::from_millis(500)) {
            Ok(Msg::Line(wi, l)) => {
                let (tag, rest) = l.split_at(l.len().min(1));
                let rest = rest.trim_start();
                match tag {
                    "B" => {
                        ws[wi].cur = rest.parse().unwrap_or(0);
                        ws[wi].ticks_at = cpu_ticks_lazy(&ws[wi]);
                        ws[wi].started = Instant::now();
                    }
                    "R" => {
                        let v: Value = serde_json::from_str(rest).unwrap_or(Value::Null);
                        cases += 1;
                        evals += v["e"].as_u64().unwrap_or(0);
                        for c in v["c"].as_array().unwrap_or(&vec![]) {
                            *classes.entry(c.as_str().unwrap_or("").to_string()).or_insert(0) += 1;
                        }
                        if v["n"].as_bool().unwrap_or(false) {
                            nontriv += 1;
                            keys.insert(v["k"].as_str().unwrap_or("0").parse().unwrap_or(0));
                            let s = v["s"].as_str().unwrap_or("");
                            if !s.is_empty() {
                                samples.insert(v["i"].as_u64().unwrap_or(0), s.to_string());
                            }
                        }
                    }
                    "K" => {
                        let v: Value = serde_json::from_str(rest).unwrap_or(Value::Null);
                        *knownhits.entry(v["sig"].as_str().unwrap_or("").to_string()).or_insert(0) += 1;
                        cases += 1;
                        evals += 1;
                    }
                    "F" => {
                        let v: Value = serde_json::from_str(rest).unwrap_or(Value::Null);
                        ws[wi].failed = true;
                        fails.insert(v["i"].as_u64().unwrap_or(0), v);
                    }
                    "D" | "E" => {
                        ws[wi].done = true;
                    }
                    _ => {}
                }
            }
            Ok(Msg::Eof(wi)) => {
                if !ws[wi].done {
                    ws[wi].done = true;
                    let idx = ws[wi].cur;
                    let st = ws[wi].child.wait().map(|s| s.to_string()).unwrap_or_default();
                    if !fails.contains_key(&idx) && !capped {
                        fails.insert(idx, json!({"i": idx, "sig": "abort", "msg": format!("the process died ({})", st), "sample": ""}));
                        ws[wi].failed = true;
                    }
                }
            }
            Err(_) => {}
        }
        // CPU watchdog
        for w in ws.iter_mut().filter(|w| !w.done) {
            if w.started.elapsed() > Duration::from_secs(p.cpu_limit_s) {
                let used = cpu_ticks(w.child.id()).saturating_sub(w.ticks_at) / 100;
                let wall = w.started.elapsed().as_secs();
                if used >= p.cpu_limit_s || wall > 20 * p.cpu_limit_s {
                    let _ = w.child.kill();
                    let _ = w.child.wait();
                    w.done = true;
                    if !fails.contains_key(&w.cur) {
                        fails.insert(w.cur, json!({"i": w.cur, "sig": "hang", "msg": format!("no result after {} s of CPU time", used), "sample": ""}));
                        w.failed = true;
                    }
                }
            }
        }
        if t0.elapsed() > wall_cap && !capped {
            capped = true;
            for w in ws.iter_mut() {
                let _ = w.child.kill();
                w.done = true;
            }
        }
        // one worker has a finished failure: stop the others
        if ws.iter().any(|w| w.done && w.failed) {
            for w in ws.iter_mut() {
                if !w.done {
                    let _ = w.child.kill();
                    let _ = w.child.wait();
                    w.done = true;
                }
            }
        }
    }
    for w in ws.iter_mut() {
        let _ = w.child.kill();
        let _ = w.child.wait();
    }
    let mut code = 0;
    let mut replay_path = Value::Null;
    if let Some((idx, v)) = fails.iter().next() {
        let mut v = v.clone();
        if v.get("choices").is_none() {
            v = shrink_external(p, seed, *idx, v);
        }
        let dir = format!("{}/replays", root());
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{}/{}-{}-{}.json", dir, p.id, seed, idx);
        let doc = json!({"property": p.id, "seed": seed, "index": idx, "choices": v.get("choices").cloned().unwrap_or(Value::Null),
            "sig": v["sig"], "message": v["msg"], "case": v["sample"],
            "how": format!("{}/check.sh {} --replay {}", root(), p.id, path)});
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap());
        println!("{}", v["msg"].as_str().unwrap_or(""));
        println!("--- case ---\n{}\n------------", v["sample"].as_str().unwrap_or("").chars().take(4000).collect::<String>());
        println!("VIOLATION property={} replay={}", p.id, path);
        replay_path = json!(path);
        code = 1;
    }
    let kn = known(p.id);
    for (s, what) in &kn {
        let n = knownhits.get(s).copied().unwrap_or(0);
        println!("KNOWN-FINDING: property={} {} ({} generated cases hit it)", p.id, what, n);
    }
    let smp: Vec<&String> = samples.values().take(6).collect();
    let ev = json!({
        "property": p.id, "tier": tier, "seed": seed, "level": level,
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": keys.len(), "rule": p.rule, "samples": smp,
            "cases": cases, "nontrivial_cases": nontriv, "planned_cases": total, "classes": classes,
            "known_finding_hits": knownhits, "stopped_by_wall_cap": capped,
        },
        "result": if code == 0 { "held" } else { "violated" },
        "replay": replay_path,
        "wall_s": t0.elapsed().as_secs_f64(),
    });
    let dir = format!("{}/evidence", root());
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(format!("{}/{}.json", dir, p.id), serde_json::to_string_pretty(&ev).unwrap()).expect("write evidence");
    println!(
        "{} {} seed={} cases={} evaluations={} distinct_nontrivial={} {:.1}s {}",
        p.id,
        tier,
        seed,
        cases,
        evals,
        keys.len(),
        t0.elapsed().as_secs_f64(),
        if code == 0 { "OK" } else { "VIOLATED" }
    );
    code
}

fn cpu_ticks_lazy(w: &W) -> u64 {
    // reading /proc for every case is wasteful: only refresh when the last refresh is old
    if w.started.elapsed() > Duration::from_millis(200) || w.ticks_at == 0 {
        cpu_ticks(w.child.id())
    } else {
        w.ticks_at
    }
}

/// Shrinking of hangs and aborts: every attempt is its own limited process.
fn shrink_external(p: &Prop, seed: u64, idx: u64, v: Value) -> Value {
    let t0 = Instant::now();
    let budget = Duration::from_secs(90);
    let exe = std::env::current_exe().unwrap();
    let tmp = std::env::temp_dir().join(format!("mgx-shrink-{}.json", std::process::id()));
    let hang = v["sig"] == "hang";
    let lim = if hang { 3 } else { p.cpu_limit_s };
    let bad = |c: &[u64]| -> bool {
        let _ = std::fs::write(&tmp, serde_json::to_string(&json!({"property": p.id, "choices": c})).unwrap());
        let st = Command::new("prlimit")
            .arg(format!("--cpu={}", lim))
            .arg(&exe)
            .arg("one")
            .arg(&tmp)
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .stdin(Stdio::null())
            .status();
        match st {
            Ok(s) => s.code().is_none(),
            Err(_) => false,
        }
    };
    // the choices of the original case: draw them with a recording source is impossible for a hang,
    // so regenerate the prefix that the case consumed
    let mut best = Src::dump(case_seed(p, seed, idx), 6000);
    let mut out = v.clone();
    if !bad(&best) {
        out["choices"] = Value::Null;
        let _ = std::fs::remove_file(&tmp);
        return out;
    }
    let mut size = best.len() / 2;
    while size >= 1 && t0.elapsed() < budget {
        let mut at = 0;
        while at + size <= best.len() && t0.elapsed() < budget {
            let mut c = best.clone();
            c.drain(at..at + size);
            if bad(&c) {
                best = c;
            } else {
                at += size;
            }
        }
        size /= 2;
    }
    let _ = std::fs::remove_file(&tmp);
    out["choices"] = json!(best);
    out
}

pub fn one(path: &str, props: &[Prop]) -> i32 {
    let _base = if std::env::var_os("VERIF_SCRATCH").is_none() { Some(Base::new()) } else { None };
    install_panic_hook();
    let txt = std::fs::read_to_string(path).expect("replay file");
    let v: Value = serde_json::from_str(&txt).expect("replay json");
    let id = v["property"].as_str().unwrap_or("");
    let p = props.iter().find(|p| p.id == id).expect("property");
    let mut src = match v["choices"].as_array() {
        Some(c) => Src::replay(c.iter().map(|x| x.as_u64().unwrap_or(0)).collect()),
        None => Src::random(case_seed(p, v["seed"].as_u64().unwrap_or(1), v["index"].as_u64().unwrap_or(0))),
    };
    let (info, r) = run_case(p, &mut src);
    println!("{}", info.sample);
    match r {
        Ok(()) => {
            println!("{}: case passes", id);
            0
        }
        Err(f) => {
            println!("[{}] {}", f.sig, f.msg);
            println!("VIOLATION property={} replay={}", id, path);
            1
        }
    }
}
