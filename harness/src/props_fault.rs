//! C23: outputs that cannot be written, and runs that are cut short.
use crate::cli::*;
use crate::props_cli::*;
use crate::runner::{fail, Failure, Info, Prop};
use crate::src::{hash_bytes, Src};
use serde_json::json;
use std::collections::BTreeMap;
use std::os::unix::fs::symlink;

/// Make writing `rel` fail. The kinds differ in where it fails: opening, or writing.
fn block(sc: &Sc, kind: u64, rel: &str) {
    let p = sc.path(rel);
    std::fs::create_dir_all(p.parent().unwrap()).expect("mkdir");
    match kind {
        0 => std::fs::create_dir_all(&p).expect("mkdir"),
        1 => symlink("/dev/full", &p).expect("symlink"),
        _ => symlink("nowhere/at/all", &p).expect("symlink"),
    }
}
const KINDS: [&str; 3] = ["a directory in its place", "disk full", "a link to nowhere"];

/// Regular files in a folder of the tree, by name.
fn regular(sc: &Sc, rel: &str) -> BTreeMap<String, Vec<u8>> {
    let mut m = BTreeMap::new();
    for e in std::fs::read_dir(sc.path(rel)).into_iter().flatten().flatten() {
        if e.file_type().map(|t| t.is_file()).unwrap_or(false) {
            m.insert(e.file_name().to_string_lossy().to_string(), std::fs::read(e.path()).unwrap_or_default());
        }
    }
    m
}

fn mutate(src: &mut Src, info: &mut Info) -> Result<(), Failure> {
    let p = prog_mut(src, true);
    let rel = name(src, 0, p.ext());
    let mut su = Setup::default();
    su.input(&p, false, &format!("work/{}", rel));
    let (muts, all) = some_algs(src, &p);
    let out = *src.pick(&["out", "res/deep"]);
    let mut req = Req { files: vec![rel.clone()], seed: Some(seed(src)), num: Some(1 + src.few(8)), muts, all, out: Some(out.into()), ..Default::default() };
    req.print_original = src.chance(1, 4);
    req.save = src.chance(1, 4);
    let crash = src.chance(1, 5);
    req.validate = crash;
    if crash {
        su.compilers();
    }
    let args = req.mutate();
    info.key = hash_bytes(format!("{}\n{}", show(&args), p.text).as_bytes());
    info.sample = format!("{}\n{}", show(&args), p.text);
    // the same run without a fault
    let good = su.build();
    let o = good.run(&args);
    ended(&o, "run without a fault")?;
    info.evals = 1;
    let dir = format!("work/{}", out);
    let want = regular(&good, &dir);
    let made = o.mutants();
    if o.failed() || made.is_empty() {
        return Ok(());
    }
    let mutant = |i: usize| format!("{}_{}.{}", rel, i, p.ext());
    let mut bad: Vec<String> = vec![];
    let mut sure = 0; // mutants that come before the fault
    let what: String;
    let (sc, o) = if crash {
        let k = 1 + src.below(made.len() as u64 + 1);
        what = format!("the tool is killed at compilation {}", k);
        su.tools = vec![("bin/solc".into(), json!({"kind": "sol", "kill_at": k})), ("bin/vyper".into(), json!({"kind": "vy", "kill_at": k}))];
        sure = (k as usize - 1).min(made.len());
        let sc = su.build();
        let o = sc.run(&args);
        (sc, o)
    } else if src.chance(1, 6) {
        what = format!("{} is not a folder", out);
        su.files.push((format!("work/{}", if src.flag() { out } else { out.split('/').next().unwrap() }), b"x".to_vec()));
        bad = want.keys().cloned().collect();
        let sc = su.build();
        let o = sc.run(&args);
        (sc, o)
    } else if src.chance(1, 3) {
        let sizes: Vec<usize> = want.values().map(|v| v.len()).collect();
        let cap = match src.below(3) {
            0 => src.pick(&sizes).saturating_sub(1),
            1 => *src.pick(&sizes),
            _ => src.below(*sizes.iter().max().unwrap() as u64) as usize,
        };
        what = format!("files cannot grow above {} bytes", cap);
        bad = want.iter().filter(|x| x.1.len() > cap).map(|x| x.0.clone()).collect();
        let sc = su.build();
        let o = sc.run_capped(&args, cap as u64);
        (sc, o)
    } else {
        let names: Vec<&String> = want.keys().collect();
        let b = if src.chance(2, 3) { mutant(src.below(made.len() as u64) as usize) } else { src.pick(&names).to_string() };
        let kind = src.below(3);
        what = format!("{}: {}", b, KINDS[kind as usize]);
        bad = vec![b.clone()];
        let sc = su.build();
        block(&sc, kind, &format!("{}/{}", dir, b));
        let o = sc.run(&args);
        (sc, o)
    };
    info.evals += 1;
    info.nontrivial = crash || !bad.is_empty();
    info.classes.push(if crash {
        "killed".into()
    } else {
        what.split(": ").last().unwrap_or("").trim_end_matches(|c: char| c.is_ascii_digit()).split(" above").next().unwrap_or("").to_string()
    });
    info.sample = format!("{}\n{}", what, info.sample);
    let ctx = |m: String| format!("{}\n{}\noutput:\n{}{}", m, info.sample, o.stdout, o.stderr);
    if !(crash && o.signal == Some(9)) {
        ended(&o, "run with a fault").map_err(|f| Failure { sig: f.sig, msg: ctx(f.msg) })?;
    }
    if !crash && bad.iter().all(|b| !b.starts_with(&format!("{}_", rel)) || b.ends_with(".mgnx")) && !bad.is_empty() {
        // not a mutant: what follows it may or may not be made
    } else if !crash {
        sure = (0..made.len()).find(|i| bad.contains(&mutant(*i))).unwrap_or(made.len());
        // a file that comes before the mutants stops them
        if bad.iter().any(|b| !(0..made.len()).any(|i| mutant(i) == *b)) {
            sure = 0;
        }
    }
    if !bad.is_empty() && !o.failed() {
        return fail("silent", ctx(format!("{:?} cannot be written, but no error is reported", bad)));
    }
    if bad.is_empty() && !crash && (o.failed() || o.mutants() != made) {
        return fail("refused", ctx("nothing prevents the outputs, but the run makes something else".into()));
    }
    let got = regular(&sc, &dir);
    let told = o.mutants();
    if told.len() < sure {
        return fail("stopped", ctx(format!("the first {} mutants can be written, {} are announced", sure, told.len())));
    }
    for (i, (alg, path)) in told.iter().enumerate() {
        let n = base_name(path);
        if made.get(i) != Some(&(alg.clone(), path.clone())) || got.get(&n) != want.get(&n) || got.get(&n).is_none() {
            return fail(
                "incomplete",
                ctx(format!(
                    "{} was announced ({}) but is not there in full:\n{}",
                    path,
                    alg,
                    got.get(&n).map(|b| String::from_utf8_lossy(b).to_string()).unwrap_or_default()
                )),
            );
        }
    }
    // whatever else is there is complete, unless it is the file that could not be written
    for (n, data) in &got {
        if !bad.contains(n) && want.get(n) != Some(data) {
            return fail("partial", ctx(format!("{} is not what the undisturbed run writes:\n{}", n, String::from_utf8_lossy(data))));
        }
    }
    Ok(())
}

fn pretty(src: &mut Src, info: &mut Info) -> Result<(), Failure> {
    let n = 1 + src.few(5);
    let mut su = Setup::default();
    let mut names = vec![];
    let mut sample = String::new();
    for k in 0..n {
        let p = prog(src, false);
        let rel = name(src, k, p.ext());
        su.input(&p, false, &format!("work/{}", rel));
        sample.push_str(&format!("// {}\n{}\n", rel, p.text));
        names.push((rel.clone(), printed_name(&rel, p.ext())));
    }
    let req = Req { files: names.iter().map(|x| x.0.clone()).collect(), out: Some("out".into()), ..Default::default() };
    let args = req.pretty();
    info.key = hash_bytes(format!("{}\n{}", show(&args), sample).as_bytes());
    let good = su.build();
    let o = good.run(&args);
    ended(&o, "run without a fault")?;
    let want = regular(&good, "work/out");
    if o.failed() {
        return fail("print-fails", format!("{}\n{}\n{}", show(&args), sample, o.stdout));
    }
    let sc = su.build();
    let (bad, what, o) = if src.flag() {
        let sizes: Vec<usize> = want.values().map(|v| v.len()).collect();
        let cap = src.pick(&sizes).saturating_sub(src.below(2) as usize);
        let bad: Vec<String> = want.iter().filter(|x| x.1.len() > cap).map(|x| x.0.clone()).collect();
        let o = sc.run_capped(&args, cap as u64);
        (bad, format!("files cannot grow above {} bytes", cap), o)
    } else {
        let mut bad: Vec<String> = vec![];
        let mut what = String::new();
        for (_, out) in &names {
            if bad.is_empty() || src.chance(1, 3) {
                let kind = src.below(3);
                block(&sc, kind, &format!("work/out/{}", out));
                what.push_str(&format!("{}: {}\n", out, KINDS[kind as usize]));
                bad.push(out.clone());
            }
        }
        let o = sc.run(&args);
        (bad, what, o)
    };
    info.evals = 2;
    info.nontrivial = !bad.is_empty();
    info.classes.push("pretty-print".into());
    info.sample = format!("{}\n{}\n{}", what, show(&args), sample);
    let ctx = |m: String| format!("{}\n{}\noutput:\n{}{}", m, info.sample, o.stdout, o.stderr);
    ended(&o, "run with a fault").map_err(|f| Failure { sig: f.sig, msg: ctx(f.msg) })?;
    let text = o.text();
    let told = text.lines().filter(|l| l.starts_with("Unable to pretty-print ")).count();
    if told != bad.len() {
        return fail("silent", ctx(format!("{:?} cannot be written, {} errors are reported", bad, told)));
    }
    let got = regular(&sc, "work/out");
    for (n, data) in &want {
        if !bad.contains(n) && got.get(n) != Some(data) {
            return fail("incomplete", ctx(format!("{} is missing or not complete", n)));
        }
    }
    Ok(())
}

fn c23(src: &mut Src, info: &mut Info) -> Result<(), Failure> {
    if src.chance(1, 4) {
        pretty(src, info)
    } else {
        mutate(src, info)
    }
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C23",
        rule: "an output could not be written, or the tool was killed during the run",
        quick: 4000,
        thorough: 80_000,
        cpu_limit_s: 60,
        workers: 8,
        case: c23,
    }]
}
