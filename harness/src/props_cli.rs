//! C07, C08, C10–C14, C17, C18: the command line tool as a whole.
use crate::cli::*;
use crate::mutdrv::{alg_names, perms, Drv, Mutant};
use crate::props_sol::print_ast;
use crate::runner::{fail, guarded, Failure, Info, Prop};
use crate::sol;
use crate::src::{hash_bytes, near, Src};
use crate::{mut_sol, mut_vy, vy};
use mutagenyx_lib::super_ast::SuperAST;
use mutagenyx_lib::Language;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

// ------------------------------------------------------------------ programs

#[derive(Clone)]
pub struct Prog {
    pub l: Language,
    pub ast: Value,
    /// what the library prints for it
    pub text: String,
}

impl Prog {
    pub fn ext(&self) -> &'static str {
        match self.l {
            Language::Solidity => "sol",
            Language::Vyper => "vy",
        }
    }
    pub fn sup(&self) -> SuperAST {
        match self.l {
            Language::Solidity => SuperAST::Solidity(self.ast.clone()),
            Language::Vyper => SuperAST::Vyper(self.ast.clone()),
        }
    }
    pub fn model(&self, fns: &[String]) -> BTreeMap<String, usize> {
        match self.l {
            Language::Solidity => mut_sol::model(&self.ast, fns),
            Language::Vyper => mut_vy::model(&self.ast, fns),
        }
    }
    pub fn ways(&self, text: &str, alg: &str, fns: &[String]) -> Result<usize, String> {
        match self.l {
            Language::Solidity => mut_sol::ways(&self.ast, text, alg, fns),
            Language::Vyper => mut_vy::ways(&self.ast, text, alg, fns),
        }
    }
    pub fn sources(&self, text: &str, alg: &str) -> Result<Vec<usize>, String> {
        match self.l {
            Language::Solidity => mut_sol::sources(&self.ast, text, alg, &[]),
            Language::Vyper => mut_vy::sources(&self.ast, text, alg, &[]),
        }
    }
    pub fn functions(&self) -> Vec<String> {
        match self.l {
            Language::Solidity => mut_sol::functions(&self.ast),
            Language::Vyper => mut_vy::functions(&self.ast),
        }
    }
}

pub fn prog(src: &mut Src, unique: bool) -> Prog {
    let l = if src.chance(2, 5) { Language::Vyper } else { Language::Solidity };
    prog_in(src, l, unique)
}

/// Mostly a program that can be mutated.
pub fn prog_mut(src: &mut Src, unique: bool) -> Prog {
    let mut p = prog(src, unique);
    for _ in 0..4 {
        if p.model(&[]).values().sum::<usize>() > 0 || src.chance(1, 10) {
            break;
        }
        p = prog(src, unique);
    }
    p
}

/// Copies of `v` get their own ids and names.
fn renew(v: &mut Value, next: &mut u64, tag: &str) {
    match v {
        Value::Array(a) => a.iter_mut().for_each(|x| renew(x, next, tag)),
        Value::Object(o) => {
            let leaf = matches!(o.get("nodeType").or(o.get("ast_type")).and_then(|x| x.as_str()), Some("Identifier") | Some("Name"));
            for (k, x) in o.iter_mut() {
                if (k == "id" || k == "node_id") && x.is_u64() {
                    *next += 1;
                    *x = json!(*next);
                } else if leaf && (k == "name" || k == "id") && x.is_string() {
                    *x = json!(format!("{}{}", x.as_str().unwrap(), tag));
                } else {
                    renew(x, next, tag);
                }
            }
        }
        _ => {}
    }
}
fn max_id(v: &Value) -> u64 {
    match v {
        Value::Array(a) => a.iter().map(max_id).max().unwrap_or(0),
        Value::Object(o) => o.iter().map(|(k, x)| if k == "id" || k == "node_id" { x.as_u64().unwrap_or(0) } else { max_id(x) }).max().unwrap_or(0),
        _ => 0,
    }
}
/// Repeat the first assignment statement found inside a function `n` times.
fn lengthen(v: &mut Value, n: usize, next: &mut u64) -> bool {
    if let Value::Array(a) = v {
        let plain = |x: &Value| x["ast_type"] == "Assign" || (x["nodeType"] == "ExpressionStatement" && x["expression"]["nodeType"] == "Assignment");
        if let Some(i) = a.iter().position(plain) {
            // a hundred mutants of a program of megabytes take the tool half a minute
            let n = n.min(400_000 / a[i].to_string().len());
            for k in 0..n {
                let mut c = a[i].clone();
                renew(&mut c, next, &format!("_c{}", k));
                a.insert(i + 1 + k, c);
            }
            return true;
        }
    }
    match v {
        Value::Array(a) => a.iter_mut().any(|x| lengthen(x, n, next)),
        Value::Object(o) => o.values_mut().any(|x| lengthen(x, n, next)),
        _ => false,
    }
}
/// A program with more than a hundred candidates.
fn prog_big(src: &mut Src) -> Prog {
    let mut p = prog_mut(src, true);
    let mut next = max_id(&p.ast);
    let n = src.range(60, 160);
    lengthen(&mut p.ast, n, &mut next);
    prog_of(p.l, p.ast)
}

fn prog_in(src: &mut Src, l: Language, unique: bool) -> Prog {
    let ast = match l {
        Language::Solidity => {
            let mut o = mut_sol::small_opts(src);
            o.unique = unique;
            sol::generate(src, o)
        }
        Language::Vyper => {
            let mut o = mut_vy::small_opts(src);
            o.unique = unique;
            vy::generate(src, o)
        }
    };
    prog_of(l, ast)
}

fn prog_of(l: Language, ast: Value) -> Prog {
    // what the tool reads is the JSON text
    let ast: Value = serde_json::from_str(&ast.to_string()).unwrap_or(ast);
    let sup = match l {
        Language::Solidity => SuperAST::Solidity(ast.clone()),
        Language::Vyper => SuperAST::Vyper(ast.clone()),
    };
    let text = print_ast(&sup).unwrap_or_else(|e| format!("(does not print: {})", e));
    Prog { l, ast, text }
}

// ------------------------------------------------------------------ scratch contents

#[derive(Clone, Default)]
pub struct Setup {
    pub files: Vec<(String, Vec<u8>)>,
    pub tools: Vec<(String, Value)>,
    pub asts: Vec<(Language, Value)>,
}

impl Setup {
    pub fn build(&self) -> Sc {
        let mut sc = Sc::new();
        for (l, a) in &self.asts {
            sc.source_of(*l, a);
        }
        for (p, d) in &self.files {
            sc.write(p, d);
        }
        for (p, s) in &self.tools {
            sc.tool(p, s.clone());
        }
        sc
    }
    /// Source text that compiles to the program.
    pub fn source(&mut self, p: &Prog) -> String {
        let k = self.asts.len();
        self.asts.push((p.l, p.ast.clone()));
        match p.l {
            Language::Solidity => format!("//SOL {}\ncontract C{} {{}}\n", k, k),
            Language::Vyper => format!("#VY {}\nx{}: uint256\n", k, k),
        }
    }
    /// Put the program into a file (relative to the scratch root).
    pub fn input(&mut self, p: &Prog, source: bool, rel: &str) {
        let data = if source { self.source(p).into_bytes() } else { p.ast.to_string().into_bytes() };
        self.files.push((rel.to_string(), data));
    }
    pub fn compilers(&mut self) {
        self.tools.push(("bin/solc".into(), json!({"kind": "sol"})));
        self.tools.push(("bin/vyper".into(), json!({"kind": "vy"})));
    }
}

/// A file name that no other input of the case has.
pub fn name(src: &mut Src, k: usize, ext: &str) -> String {
    match src.below(10) {
        0 | 1 => format!("p{}.{}", k, ext),
        2 => format!("p{}.json", k),
        3 => format!("p{}", k),
        4 => format!("a.b{}.c.{}", k, ext),
        5 => format!("sp ace{}.{}", k, ext),
        6 => format!("q{}.{}_json.ast", k, ext),
        7 => format!("é漢{}.{}", k, ext),
        8 => format!(".h{}.{}", k, ext),
        _ => format!("x{}.sol.vy", k),
    }
}
pub fn folder(src: &mut Src) -> &'static str {
    *src.pick(&["", "", "src/", "deep/er/"])
}
pub fn seed(src: &mut Src) -> i64 {
    match src.below(4) {
        0 => src.below(10) as i64,
        1 => i64::MAX - src.below(3) as i64,
        _ => src.below(1 << 40) as i64,
    }
}
/// Algorithms to select: mostly ones that apply to the program.
pub fn some_algs(src: &mut Src, p: &Prog) -> (Vec<String>, bool) {
    if src.chance(1, 2) {
        return (vec![], true);
    }
    let names = alg_names();
    let apply: Vec<String> = p.model(&[]).into_iter().filter(|x| x.1 > 0).map(|x| x.0).collect();
    let n = 1 + src.few(7);
    let pick = |src: &mut Src| {
        if apply.is_empty() || src.chance(1, 4) {
            src.pick(&names).clone()
        } else {
            src.pick(&apply).clone()
        }
    };
    ((0..n).map(|_| pick(src)).collect(), false)
}
pub fn stem(base: &str) -> String {
    match base.rfind('.') {
        Some(i) => base[..i].to_string(),
        None => base.to_string(),
    }
}
pub fn base_name(p: &str) -> String {
    p.rsplit('/').next().unwrap_or("").to_string()
}
/// Name of the printed original of an input.
pub fn printed_name(base: &str, ext: &str) -> String {
    if base.ends_with(&format!(".{}", ext)) {
        base.to_string()
    } else {
        format!("{}.{}", base, ext)
    }
}

pub fn ended(o: &Out, what: &str) -> Result<(), Failure> {
    match o.ended() {
        Ok(()) => Ok(()),
        Err(e) if e.starts_with("panic") => fail("panic", format!("{}: {}", what, e)),
        Err(e) => fail("hang", format!("{}: {}", what, e)),
    }
}

pub fn show(args: &[String]) -> String {
    format!("mutagenyx {}", args.iter().map(|a| if a.contains(' ') { format!("'{}'", a) } else { a.clone() }).collect::<Vec<_>>().join(" "))
}

fn diff(a: &BTreeMap<String, Vec<u8>>, b: &BTreeMap<String, Vec<u8>>) -> Option<String> {
    for k in a.keys().chain(b.keys()) {
        let (x, y) = (a.get(k), b.get(k));
        if x != y {
            let s = |v: Option<&Vec<u8>>| v.map(|v| String::from_utf8_lossy(v).to_string()).unwrap_or_else(|| "(absent)".into());
            return Some(format!("file {}:\n--- first\n{}\n--- second\n{}", k, s(x), s(y)));
        }
    }
    None
}

// ------------------------------------------------------------------- C07

fn c07(src: &mut Src, info: &mut Info) -> Result<(), Failure> {
    let n = if src.chance(1, 20) { src.range(4, 7) } else { 1 + src.below(3) as usize };
    let mut su = Setup::default();
    let mut req = Req { seed: Some(seed(src)), num: Some(1 + src.few(7)), ..Default::default() };
    let unique = src.flag();
    let mut first = Some(prog_mut(src, unique));
    let (muts, all) = some_algs(src, first.as_ref().unwrap());
    req.muts = muts;
    req.all = all;
    req.print_original = src.chance(1, 4);
    req.save = src.chance(1, 4);
    req.validate = src.chance(1, 4);
    req.stdout = src.chance(1, 8);
    let salt = src.below(1 << 30);
    let reject = if req.validate { *src.pick(&[0u64, 30, 70]) } else { 0 };
    su.tools.push(("bin/solc".into(), json!({"kind": "sol", "salt": salt, "reject": reject, "parse_ok": 30})));
    su.tools.push(("bin/vyper".into(), json!({"kind": "vy", "salt": salt, "reject": reject})));
    let mut sample = String::new();
    for k in 0..n {
        let p = match first.take() {
            Some(p) => p,
            None => {
                let unique = src.flag();
                prog_mut(src, unique)
            }
        };
        let rel = format!("{}{}", folder(src), name(src, k, p.ext()));
        su.input(&p, src.flag(), &format!("work/{}", rel));
        sample.push_str(&format!("// {}\n{}\n", rel, p.text));
        if k == 0 && src.chance(1, 6) {
            req.fns = mut_sol::choose_fns(src, p.functions());
        }
        if src.chance(1, 3) {
            let mut c = json!({"language": p.l.to_string(), "filenames": [rel], "num-mutants": src.range(1, 6), "validate-mutants": req.validate});
            if src.flag() {
                c["seed"] = json!(seed(src));
            }
            if src.flag() {
                c["all-mutations"] = json!(true);
            }
            let cfg = format!("conf{}.mgnx", k);
            sample.push_str(&format!("// {}: {}\n", cfg, c));
            su.files.push((format!("work/{}", cfg), c.to_string().into_bytes()));
            req.files.push(cfg);
        } else {
            req.files.push(rel);
        }
    }
    let args = req.mutate();
    info.sample = format!("{}\n{}", show(&args), sample);
    info.key = hash_bytes(info.sample.as_bytes());
    let s1 = su.build();
    let o1 = s1.run(&args);
    ended(&o1, "run")?;
    let w1 = s1.files("work");
    drop(s1);
    if src.chance(1, 60) {
        // another second of the clock
        std::thread::sleep(std::time::Duration::from_millis(1100));
        info.classes.push("a second later".into());
    }
    let s2 = su.build();
    let o2 = s2.run(&args);
    let w2 = s2.files("work");
    info.evals += 1;
    info.nontrivial = !o1.mutants().is_empty() || req.stdout;
    if let Some(d) = diff(&w1, &w2) {
        return fail("two-runs", format!("two runs differ: {}\n{}", d, info.sample));
    }
    if o1.text() != o2.text() {
        return fail("two-runs", format!("two runs report differently:\n{}\n---\n{}\n{}", o1.text(), o2.text(), info.sample));
    }
    if n == 1 || o1.failed() {
        info.classes.push(if n == 1 { "single".into() } else { "aborted".into() });
        return Ok(());
    }
    // each input on its own
    info.classes.push("alone".into());
    let mut files: BTreeMap<String, Vec<u8>> = BTreeMap::new();
    let mut text = String::new();
    for f in &req.files {
        let s = su.build();
        let r = Req { files: vec![f.clone()], ..req.clone() };
        let o = s.run(&r.mutate());
        ended(&o, "run of one input")?;
        files.extend(s.files("work"));
        text.push_str(&o.text());
        info.evals += 1;
    }
    if let Some(d) = diff(&w1, &files) {
        return fail("other-inputs", format!("the result for an input depends on the other inputs: {}\n{}", d, info.sample));
    }
    if text != o1.text() {
        return fail("other-inputs", format!("the report for an input depends on the other inputs:\n{}\n--- alone\n{}\n{}", o1.text(), text, info.sample));
    }
    Ok(())
}

// ------------------------------------------------------------------- C08

/// Mutants of a run in the order they were announced: (algorithm, text). Checks numbering and placement.
pub fn mutants_of(sc: &Sc, o: &Out, out_dir: &str, base: &str, ext: &str) -> Result<Vec<(String, String)>, Failure> {
    let mut v = vec![];
    for (i, (alg, path)) in o.mutants().into_iter().enumerate() {
        let want = format!("{}/{}_{}.{}", out_dir, base, i, ext);
        if path != want {
            return fail("numbering", format!("mutant {} was announced as {:?}, expected {:?}", i, path, want));
        }
        match sc.read(&format!("work/{}", path)) {
            Some(t) => v.push((alg, t)),
            None => return fail("missing", format!("mutant {} was announced but is not there", path)),
        }
    }
    let extra: Vec<String> = sc
        .files(&format!("work/{}", out_dir))
        .into_keys()
        .filter(|k| {
            k.strip_prefix(&format!("{}_", base))
                .and_then(|r| r.strip_suffix(&format!(".{}", ext)))
                .map(|n| n.parse::<usize>().map(|n| n >= v.len()).unwrap_or(false))
                .unwrap_or(false)
        })
        .collect();
    if !extra.is_empty() {
        return fail("numbering", format!("{:?} were written but not announced", extra));
    }
    Ok(v)
}

fn c08(src: &mut Src, info: &mut Info) -> Result<(), Failure> {
    // runs of hundreds of mutants
    let big = src.chance(1, 60);
    let p = if big { prog_big(src) } else { prog_mut(src, true) };
    let mut su = Setup::default();
    // with a compiler that rejects mutants a run may make fewer, but is bound by the same limits
    let picky = !big && src.chance(1, 4);
    if picky {
        let (salt, rej) = (src.below(1 << 30), *src.pick(&[50u64, 80, 95, 100]));
        su.tools.push(("bin/solc".into(), json!({"kind": "sol", "salt": salt, "reject": rej, "parse_ok": 50})));
        su.tools.push(("bin/vyper".into(), json!({"kind": "vy", "salt": salt, "reject": rej})));
    } else {
        su.compilers();
    }
    let rel = name(src, 0, p.ext());
    su.input(&p, src.chance(1, 4), &format!("work/{}", rel));
    let mut req = Req { validate: picky, files: vec![rel.clone()], seed: Some(seed(src)), ..Default::default() };
    let (muts, all) = some_algs(src, &p);
    req.muts = muts;
    req.all = all;
    if src.chance(1, 5) {
        req.fns = mut_sol::choose_fns(src, p.functions());
    }
    let mut model = p.model(&req.fns);
    model.retain(|k, _| req.all || req.muts.contains(k));
    let supply: usize = model.values().sum();
    let want = match src.below(7) {
        _ if big => (supply / 2).min(*src.pick(&[101, 110, 130])),
        0 => supply,
        1 => supply.saturating_sub(1),
        2 => supply + 1 + src.small(30),
        3 => 1,
        4 => 0,
        _ => src.below(supply as u64 + 3) as usize,
    }
    .min(if big { 400 } else { 60 });
    // every rejected mutant costs fifty attempts
    let want = if picky { want.min(15) } else if !big && src.chance(1, 30) { i64::MAX as usize } else { want };
    req.num = Some(want);
    let via_config = src.chance(1, 5);
    let mut cli = req.clone();
    if via_config {
        let c = json!({"language": p.l.to_string(), "filenames": [rel], "num-mutants": want});
        su.files.push(("work/run.mgnx".into(), c.to_string().into_bytes()));
        cli.files = vec!["run.mgnx".into()];
        cli.num = Some(3);
    }
    let args = cli.mutate();
    info.sample = format!("{}\n{}", show(&args), p.text);
    info.key = hash_bytes(info.sample.as_bytes());
    info.evals = 1;
    let sc = su.build();
    let o = sc.run(&args);
    ended(&o, "run")?;
    let ctx = |m: String| format!("{}\n{}\noutput:\n{}", m, info.sample, o.stdout);
    if supply == 0 {
        if !o.failed() || !sc.files("work/out").is_empty() {
            return fail("no-candidates", ctx("nothing can be mutated, but no error is reported or files are written".into()));
        }
        return Ok(());
    }
    if o.failed() {
        return fail("refused", ctx(format!("the program has {} candidates but the run fails", supply)));
    }
    if o.supported() != vec![supply] {
        return fail("supported", ctx(format!("the program supports {} mutations", supply)));
    }
    let usable: Vec<BTreeSet<String>> = o.usable().into_iter().map(|v| v.into_iter().collect()).collect();
    if usable != vec![model.keys().cloned().collect::<BTreeSet<_>>()] {
        return fail("usable", ctx(format!("usable algorithms are {:?}", model)));
    }
    let lowered: Vec<usize> = if want > supply { vec![want - supply, supply] } else { vec![] };
    if o.lowered() != lowered {
        return fail("lowered", ctx(format!("{} mutants are requested and {} supported; the request is reported lowered by and to {:?}", want, supply, o.lowered())));
    }
    let ms = mutants_of(&sc, &o, "out", &rel, p.ext()).map_err(|f| Failure { sig: f.sig, msg: ctx(f.msg) })?;
    info.nontrivial = ms.len() >= 2;
    if ms.len() > 100 {
        info.classes.push("more than 100 mutants".into());
    }
    if ms.len() > want || ms.len() > supply {
        return fail("too-many", ctx(format!("{} mutants for {} requested and {} supported", ms.len(), want, supply)));
    }
    let mut used: BTreeMap<&String, usize> = BTreeMap::new();
    for (i, (alg, text)) in ms.iter().enumerate() {
        info.evals += 1;
        info.classes.push(alg.clone());
        *used.entry(alg).or_insert(0) += 1;
        if !model.contains_key(alg) {
            return fail("other-algorithm", ctx(format!("mutant {} was made by {}, which was not requested", i, alg)));
        }
        let same = (0..i).find(|j| ms[*j].0 == *alg && ms[*j].1 == *text);
        if big && same.is_none() && i % 20 != 3 {
            continue;
        }
        let ways = match p.ways(text, alg, &req.fns) {
            Ok(n) => n,
            Err(e) => return fail("not-a-mutant", ctx(format!("mutant {} ({}): {}\n{}", i, alg, e, text))),
        };
        if ways == 0 {
            return fail("not-a-mutant", ctx(format!("mutant {} is not a {} mutant of the program\n{}", i, alg, text)));
        }
        if ways == 1 {
            if let Some(j) = same {
                return fail("duplicate", ctx(format!("mutants {} and {} ({}) are the same program\n{}", j, i, alg, text)));
            }
        }
    }
    for (a, n) in &used {
        if *n > model[*a] {
            return fail("quota", ctx(format!("{} made {} mutants from {} candidates", a, n, model[*a])));
        }
    }
    if picky {
        info.classes.push("picky compiler".into());
    } else if model.values().all(|k| *k <= 3 || want.saturating_mul(2) <= *k) {
        info.classes.push("exact".into());
        if ms.len() != want.min(supply) {
            return fail("too-few", ctx(format!("{} mutants for {} requested and {} supported", ms.len(), want, supply)));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------- C10

fn c10(src: &mut Src, info: &mut Info) -> Result<(), Failure> {
    let unique = src.flag();
    let p = prog_mut(src, unique);
    let mut su = Setup::default();
    let rel = format!("{}{}", folder(src), name(src, 0, p.ext()));
    let source = src.flag();
    su.input(&p, source, &format!("work/{}", rel));
    let validate = !src.chance(1, 6);
    let missing = !source && src.chance(1, 8);
    let spec = |src: &mut Src, kind: &str| {
        json!({"kind": kind, "salt": src.below(1 << 30), "reject": *src.pick(&[50u64, 0, 20, 80, 95, 100]), "parse_ok": *src.pick(&[0u64, 50, 100]),
            "noise": src.chance(1, 3), "abort": src.chance(1, 5), "artifacts": src.chance(1, 3),
            "version": *src.pick(&["0.3.7+commit.6020b8b\n", "3.1.0\n", "0.2.16", "4.0.0\n"])})
    };
    let (s1, s2) = (spec(src, "sol"), spec(src, "vy"));
    if !missing {
        su.tools.push(("bin/solc".into(), s1));
        su.tools.push(("bin/vyper".into(), s2));
        if src.chance(1, 4) {
            let d = spec(src, "docker");
            su.tools.push(("bin/docker".into(), d));
        }
    }
    let mut req = Req { files: vec![rel.clone()], seed: Some(seed(src)), num: Some(1 + src.few(9)), validate, ..Default::default() };
    let (muts, all) = some_algs(src, &p);
    req.muts = muts;
    req.all = all;
    req.stdout = src.chance(1, 6);
    req.print_original = src.chance(1, 6);
    if src.chance(1, 5) {
        req.c.stop = Some("parsing".into());
    }
    let via_config = src.chance(1, 4);
    let mut cli = req.clone();
    if via_config {
        let mut c = json!({"language": p.l.to_string(), "filenames": [rel], "num-mutants": req.num, "validate-mutants": validate, "print-original": req.print_original});
        if !validate && src.flag() {
            c.as_object_mut().unwrap().remove("validate-mutants");
        }
        su.files.push(("work/run.mgnx".into(), c.to_string().into_bytes()));
        cli.files = vec!["run.mgnx".into()];
        cli.validate = src.flag();
    }
    let args = cli.mutate();
    info.sample = format!("{}\ncompilers: {:?}\n{}", show(&args), su.tools, p.text);
    info.key = hash_bytes(info.sample.as_bytes());
    info.evals = 1;
    let sc = su.build();
    // nothing can be written where temporary files go
    let no_tmp = src.chance(1, 12);
    let o = if no_tmp {
        info.classes.push("no place for temporary files".into());
        sc.run_with(&args, &[("TMPDIR", *src.pick(&["/dev/null/x", "nowhere", "/dev/null"]))])
    } else {
        sc.run(&args)
    };
    ended(&o, "run")?;
    let log = sc.log();
    let compiled: Vec<&Rec> = log.iter().filter(|r| r.mode == "compile").collect();
    let ctx = |m: String| format!("{}\n{}\noutput:\n{}", m, info.sample, o.stdout);
    if o.failed() {
        info.classes.push("failed".into());
        let supply: usize = p.model(&[]).iter().filter(|(k, _)| req.all || req.muts.contains(k)).map(|x| x.1).sum();
        // a source file whose compiler is not usable cannot be loaded
        if supply > 0
            && !no_tmp
            && !log.iter().any(|r| r.err.is_some())
            && (!source || log.iter().any(|r| r.mode == "ast" && r.accepted && r.text.starts_with(if p.l == Language::Solidity { "//SOL" } else { "#VY" })))
        {
            return fail("refused", ctx(format!("the run fails although {} mutations are possible", supply)));
        }
        return Ok(());
    }
    let accepted: Vec<&String> = compiled.iter().filter(|r| r.accepted).map(|r| &r.text).collect();
    let texts: Vec<String> = if req.stdout {
        let t = o.text();
        let mut at = t.find("AST supports at most ").unwrap_or(0);
        at = t[at..].find('\n').map(|i| at + i + 1).unwrap_or(t.len());
        if t[at..].starts_with("Reached the limit") {
            at = t[at..].find('\n').map(|i| at + i + 1).unwrap_or(t.len());
        }
        if validate {
            info.nontrivial = !accepted.is_empty();
            let all: String = accepted.iter().map(|s| s.as_str()).collect();
            if t[at..] != all {
                return fail("unvalidated", ctx(format!("standard output has other text than the accepted mutants; accepted:\n{}", all)));
            }
        }
        vec![]
    } else {
        mutants_of(&sc, &o, "out", &base_name(&rel), p.ext()).map_err(|f| Failure { sig: f.sig, msg: ctx(f.msg) })?.into_iter().map(|x| x.1).collect()
    };
    info.evals += texts.len() as u64;
    if !validate {
        if !compiled.is_empty() {
            return fail("needless", ctx(format!("validation is off, but {} mutants were compiled", compiled.len())));
        }
        return Ok(());
    }
    if let Some(r) = log.iter().find(|r| r.err.is_some()) {
        return fail("arguments", ctx(format!("the compiler cannot read its arguments {:?}: {:?}", r.argv, r.err)));
    }
    info.nontrivial |= compiled.iter().any(|r| !r.accepted) && !accepted.is_empty();
    info.classes.push(if missing { "no compiler".into() } else { format!("{} rejects", if compiled.iter().any(|r| !r.accepted) { "some" } else { "no" }) });
    if req.stdout {
        return Ok(());
    }
    for (i, t) in texts.iter().enumerate() {
        if !accepted.iter().any(|a| *a == t) {
            let seen = compiled.iter().any(|r| r.text == *t);
            return fail(
                "unvalidated",
                ctx(format!("mutant {} was written but {}\n{}", i, if seen { "the compiler rejected it" } else { "never given to the compiler" }, t)),
            );
        }
    }
    if texts.len() != accepted.len() || texts.iter().zip(&accepted).any(|(a, b)| a != *b) {
        return fail("dropped", ctx(format!("{} mutants were accepted by the compiler, {} were written", accepted.len(), texts.len())));
    }
    let kinds: &[&str] = if p.l == Language::Solidity { &["sol"] } else { &["vy", "docker"] };
    if let Some(r) = compiled.iter().find(|r| !kinds.contains(&r.kind.as_str())) {
        return fail("wrong-compiler", ctx(format!("a {} mutant was given to {}", p.l, r.name)));
    }
    // a compiler that accepts everything makes no difference to the result
    if !missing && !no_tmp && compiled.iter().all(|r| r.accepted) {
        let mut s2 = su.clone();
        let mut off = cli.clone();
        off.validate = false;
        if via_config {
            for f in s2.files.iter_mut().filter(|f| f.0 == "work/run.mgnx") {
                let mut c: Value = serde_json::from_slice(&f.1).unwrap_or(Value::Null);
                c["validate-mutants"] = json!(false);
                f.1 = c.to_string().into_bytes();
            }
        }
        let sc2 = s2.build();
        let o2 = sc2.run(&off.mutate());
        ended(&o2, "run without validation")?;
        info.classes.push("compared with validation off".into());
        if let Some(d) = diff(&sc.files("work/out"), &sc2.files("work/out")) {
            return fail(
                "dropped",
                ctx(format!("every mutant given to the compiler was accepted, but the result is not that of a run without validation: {}", d)),
            );
        }
    }
    Ok(())
}

// ------------------------------------------------------------------- C11

fn c11(src: &mut Src, info: &mut Info) -> Result<(), Failure> {
    let mut su = Setup::default();
    let n = 1 + src.below(2) as usize;
    let pretty = src.chance(1, 3);
    let mut req = Req { seed: Some(seed(src)), num: Some(src.range(1, 4)), all: true, ..Default::default() };
    let out = *src.pick(&["out", "src", "deep/er/out", ".", "../tmp", "../side", "./out/"]);
    if out != "out" || src.flag() {
        req.out = Some(out.into());
    }
    req.stdout = src.chance(1, 4);
    if !pretty {
        req.print_original = src.chance(1, 2);
        req.save = src.chance(1, 3);
        req.validate = src.flag();
    }
    let faults: &[&str] = if src.chance(1, 4) { &["nofile", "empty", "trunc", "notjson", "other", "noversion"] } else { &[""] };
    let (fs, fv) = (*src.pick(faults), *src.pick(faults));
    let (salt, rej) = (src.below(1 << 30), *src.pick(&[0u64, 40, 100]));
    su.tools.push((
        "bin/solc".into(),
        json!({"kind": "sol", "salt": salt, "reject": rej, "parse_ok": 50, "fault": fs, "artifacts": src.flag(), "noise": src.flag()}),
    ));
    su.tools.push((
        "bin/vyper".into(),
        json!({"kind": "vy", "salt": salt, "reject": rej, "fault": fv, "noise": src.flag(), "version": *src.pick(&["0.3.7\n", "3.0.1\n"])}),
    ));
    let mut sample = String::new();
    let mut allowed: BTreeSet<String> = BTreeSet::new();
    // a path relative to the scratch root, without . and ..
    let norm = |p: &str| -> String {
        let mut v: Vec<&str> = vec!["work"];
        for c in p.split('/') {
            match c {
                "" | "." => {}
                ".." => {
                    v.pop();
                }
                c => v.push(c),
            }
        }
        v.join("/")
    };
    let mut inputs = vec![];
    for k in 0..n {
        let p = prog(src, false);
        let base = if src.chance(1, 12) { "..dots".to_string() } else { name(src, k, p.ext()) };
        let dir = *src.pick(&["", "src/", "../tmp/", "out/", "../side/", "deep/er/out/", "../tmp/sub/"]);
        let arg = format!("{}{}", dir, base);
        let rel = norm(&arg);
        if inputs.contains(&rel) {
            continue;
        }
        let source = src.flag();
        su.input(&p, source, &rel);
        inputs.push(rel.clone());
        // files of the user in the temporary directory
        if src.chance(1, 2) {
            for x in [format!("tmp/{}_json.ast", base), format!("tmp/{}.json", base), format!("tmp/{}", base), "tmp/C.bin".to_string()] {
                if !su.files.iter().any(|f| f.0 == x) && !inputs.contains(&x) && src.flag() {
                    su.files.push((x, b"user file".to_vec()));
                }
            }
        }
        let od = if out == "out" { "out" } else { out };
        if !req.stdout {
            if pretty || req.print_original {
                allowed.insert(norm(&format!("{}/{}", od, printed_name(&base, p.ext()))));
            }
            if !pretty {
                for i in 0..req.num.unwrap() {
                    allowed.insert(norm(&format!("{}/{}_{}.{}", od, base, i, p.ext())));
                }
                if req.save {
                    allowed.insert(norm(&format!("{}/{}.mgnx", od, stem(&base))));
                }
            }
        }
        sample.push_str(&format!("// {} ({})\n{}\n", arg, if source { "source" } else { "AST" }, p.text));
        req.files.push(arg);
    }
    if src.chance(1, 6) {
        su.files.push(("work/out/keep.txt".into(), b"keep".to_vec()));
        su.files.push(("work/bad.json".into(), b"{\"not\": \"an AST\"}".to_vec()));
        req.files.push("bad.json".into());
    }
    let args = if pretty { req.pretty() } else { req.mutate() };
    info.sample = format!("{}\ncompilers: {:?}\n{}", show(&args), su.tools, sample);
    info.key = hash_bytes(info.sample.as_bytes());
    info.evals = 1;
    let sc = su.build();
    let before = sc.snap();
    let o = sc.run(&args);
    ended(&o, "run")?;
    let after = sc.snap();
    let ctx = |m: String| format!("{}\n{}\noutput:\n{}", m, info.sample, o.stdout);
    let mut new_files = 0;
    for (k, v) in &before {
        let changed = after.get(k) != Some(v);
        if changed && inputs.contains(k) {
            return fail("input-changed", ctx(format!("the input {} was {}", k, if after.contains_key(k) { "overwritten" } else { "removed" })));
        }
        if changed && !allowed.contains(k) {
            return fail("other-changed", ctx(format!("{} was {}", k, if after.contains_key(k) { "overwritten" } else { "removed" })));
        }
        new_files += changed as usize;
    }
    for (k, v) in &after {
        if before.contains_key(k) {
            continue;
        }
        let dir = v == b"<dir>";
        let fine = if dir { allowed.iter().any(|a| a.starts_with(&format!("{}/", k))) } else { allowed.contains(k) };
        if !fine {
            return fail("left-behind", ctx(format!("{} was created", k)));
        }
        new_files += !dir as usize;
    }
    info.nontrivial = new_files > 0 || req.stdout;
    info.classes.push(if pretty { "pretty-print".into() } else { "mutate".into() });
    Ok(())
}

// ------------------------------------------------------------------- C12

fn path_word(src: &mut Src) -> String {
    src.pick(&["lib", "../lib", "/opt/x", "a b", "node_modules/@oz", "é/ü", ".", "deps/v0.8.1"]).to_string()
}
fn some_comp(src: &mut Src, full: bool) -> Comp {
    let mut c = Comp::default();
    let list = |src: &mut Src, f: &dyn Fn(&mut Src) -> String| -> Vec<String> {
        let n = src.few(3);
        (0..n).map(|_| f(src)).collect()
    };
    if src.flag() {
        c.base = Some(path_word(src));
    }
    if c.base.is_some() || full {
        c.inc = list(src, &path_word);
    }
    c.allow = list(src, &path_word);
    c.remap = list(src, &|s| {
        let (a, b) = (path_word(s), path_word(s));
        if s.flag() {
            format!("{}={}", a.trim_start_matches('.'), b)
        } else {
            format!("ctx:{}={}", a, b)
        }
    });
    if src.chance(1, 3) {
        c.stop = Some("parsing".into());
    }
    if src.chance(1, 2) {
        c.vroot = Some(path_word(src));
    }
    c
}
/// Replace the Solidity part (or the Vyper part) by the one of another settings object.
fn overlay(cli: &Comp, cfg: &Comp, l: Language) -> Comp {
    match l {
        Language::Solidity => Comp { vyper: cli.vyper.clone(), vroot: cli.vroot.clone(), ..cfg.clone() },
        Language::Vyper => Comp { vyper: cfg.vyper.clone(), vroot: cfg.vroot.clone(), ..cli.clone() },
    }
}
fn details(c: &Comp, l: Language) -> Value {
    let mut o = serde_json::Map::new();
    match l {
        Language::Solidity => {
            let mut put = |k: &str, v: &Option<String>| {
                if let Some(v) = v {
                    o.insert(k.into(), json!(v));
                }
            };
            put("path", &c.solc);
            put("base-path", &c.base);
            put("stop-after", &c.stop);
            for (k, v) in [("include-paths", &c.inc), ("allow-paths", &c.allow), ("remappings", &c.remap)] {
                if !v.is_empty() {
                    o.insert(k.into(), json!(v));
                }
            }
        }
        Language::Vyper => {
            if let Some(v) = &c.vyper {
                o.insert("path".into(), json!(v));
            }
            if let Some(v) = &c.vroot {
                o.insert("root-path".into(), json!(v));
            }
        }
    }
    Value::Object(o)
}

/// Does an invocation carry exactly these settings?
fn carries(r: &Rec, c: &Comp) -> Result<(), String> {
    if let Some(e) = &r.err {
        return Err(format!("the compiler cannot read its arguments: {}", e));
    }
    if r.mode == "bad" {
        return Err("not an invocation the compiler knows".into());
    }
    let want_name = match r.kind.as_str() {
        "sol" => c.solc.clone().unwrap_or_else(|| "solc".into()),
        "vy" => c.vyper.clone().unwrap_or_else(|| "vyper".into()),
        _ => "docker".into(),
    };
    if r.name != base_name(&want_name) {
        return Err(format!("compiler {} was run, {} is configured", r.name, want_name));
    }
    if r.mode == "version" {
        return Ok(());
    }
    let one = |x: &Option<String>| json!(x.iter().cloned().collect::<Vec<String>>());
    let chk = |k: &str, want: Value| {
        if r.opts[k] == want {
            Ok(())
        } else {
            Err(format!("setting {}: passed {}, configured {}", k, r.opts[k], want))
        }
    };
    if r.kind == "sol" {
        chk("base", one(&c.base))?;
        chk("inc", json!(c.inc))?;
        chk("remap", json!(c.remap))?;
        if c.allow.is_empty() {
            chk("allow", json!([]))?;
        } else {
            chk("allow", json!([c.allow]))?;
        }
        // a program that does not compile is tried again with --stop-after parsing
        let again = r.mode == "compile" && c.stop.is_none() && r.opts["stop"] == json!(["parsing"]);
        if !again {
            chk("stop", one(&c.stop))?;
        }
    } else {
        chk("root", one(&c.vroot))?;
    }
    Ok(())
}

fn c12(src: &mut Src, info: &mut Info) -> Result<(), Failure> {
    let mut su = Setup::default();
    let mut cli = some_comp(src, false);
    let (salt, rej) = (src.below(1 << 30), *src.pick(&[30u64, 0, 100]));
    let sspec = json!({"kind": "sol", "salt": salt, "reject": rej, "parse_ok": 50});
    let mut vspec = json!({"kind": "vy", "salt": salt, "reject": rej, "version": *src.pick(&["0.3.7+commit.6020b8b\n", "3.0.0\n", "3.1.2", "0.2.16+commit\n", "Vyper 3.4.5\n", "10.0.0\n"])});
    if src.chance(1, 10) {
        vspec["fault"] = json!("noversion");
    }
    let names: &[(&str, &str)] = &[("bin/solc", "solc"), ("bin/solc-0.8.19", "solc-0.8.19"), ("work/tools/my solc", "tools/my solc")];
    let vnames: &[(&str, &str)] = &[("bin/vyper", "vyper"), ("bin/vyper-x", "vyper-x"), ("work/tools/vy", "./tools/vy")];
    for (at, _) in names {
        su.tools.push((at.to_string(), sspec.clone()));
    }
    for (at, _) in vnames {
        su.tools.push((at.to_string(), vspec.clone()));
    }
    if src.chance(1, 4) {
        su.tools.push(("bin/docker".into(), json!({"kind": "docker", "salt": salt / 2, "reject": 50})));
    }
    let pick_tools = |src: &mut Src, c: &mut Comp| {
        let i = src.below(4) as usize;
        if i > 0 {
            c.solc = Some(names[i - 1].1.into());
        }
        let i = src.below(4) as usize;
        if i > 0 {
            c.vyper = Some(vnames[i - 1].1.into());
        }
    };
    pick_tools(src, &mut cli);
    let pretty = src.chance(1, 4);
    let mut req = Req { seed: Some(seed(src)), num: Some(src.range(1, 3)), all: true, c: cli.clone(), validate: src.chance(2, 3), ..Default::default() };
    let n = 1 + src.below(2) as usize;
    let mut expect: Vec<(String, Comp)> = vec![];
    let mut sample = String::new();
    for k in 0..n {
        let p = prog(src, false);
        let rel = format!("{}{}", folder(src), name(src, k, p.ext()));
        let source = src.chance(3, 4);
        su.input(&p, source, &format!("work/{}", rel));
        sample.push_str(&format!("// {} {}\n", rel, p.l));
        let mut eff = cli.clone();
        if !pretty && src.chance(1, 2) {
            let mut c = json!({"language": p.l.to_string(), "filenames": [rel], "num-mutants": 2, "validate-mutants": req.validate});
            if src.chance(3, 4) {
                let mut cfg = some_comp(src, true);
                pick_tools(src, &mut cfg);
                c["compiler-details"] = details(&cfg, p.l);
                eff = overlay(&cli, &cfg, p.l);
            }
            sample.push_str(&format!("// conf{}.mgnx {}\n", k, c));
            su.files.push((format!("work/conf{}.mgnx", k), c.to_string().into_bytes()));
            req.files.push(format!("conf{}.mgnx", k));
            info.classes.push("config".into());
        } else {
            req.files.push(rel.clone());
        }
        expect.push((base_name(&rel), eff));
    }
    let args = if pretty { req.pretty() } else { req.mutate() };
    info.sample = format!("{}\n{}", show(&args), sample);
    info.key = hash_bytes(info.sample.as_bytes());
    let sc = su.build();
    let o = sc.run(&args);
    ended(&o, "run")?;
    let log = sc.log();
    info.nontrivial = log.iter().any(|r| r.mode != "version");
    // when the whole list fails early the rest is not looked at
    for r in &log {
        info.evals += 1;
        info.classes.push(format!("{} {}", r.kind, r.mode));
        let fit: Vec<&Comp> = expect.iter().filter(|(b, _)| r.mode == "version" || *b == base_name(&r.file)).map(|x| &x.1).collect();
        let fit = if fit.is_empty() { expect.iter().map(|x| &x.1).collect() } else { fit };
        let mut err = None;
        for c in fit {
            match carries(r, c) {
                Ok(()) => {
                    err = None;
                    break;
                }
                Err(e) => err = err.or(Some(e)),
            }
        }
        if let Some(e) = err {
            return fail("settings", format!("{}\ninvocation: {} {:?}\n{}", e, r.name, r.argv, info.sample));
        }
    }
    // an input that is source text is given to its compiler
    let seen = |kind: &str| log.iter().any(|r| r.kind == kind);
    if !seen("sol") {
        return fail("not-run", format!("the Solidity compiler was never run\n{}\n{}", info.sample, o.stdout));
    }
    Ok(())
}

// ------------------------------------------------------------------- C13

fn round_trip(src: &mut Src, info: &mut Info) -> Result<(), Failure> {
    use mutagenyx_lib::config_file::ConfigurationFileDetails as D;
    use mutagenyx_lib::mutation::get_all_mutation_algorithms;
    use mutagenyx_lib::preferences::Preferences;
    use std::convert::TryFrom;
    let odd = |src: &mut Src| {
        src.pick(&["a.sol", "dir/b.vy", "sp ace", "quo\"te", "back\\slash", "é漢", "", "{x}: [1,2]", "tab\there", "new\nline", "stdout", "a,b"]).to_string()
    };
    let many = |src: &mut Src| -> Vec<String> {
        let n = src.few(4);
        (0..n).map(|_| odd(src)).collect()
    };
    let l = if src.flag() { Language::Solidity } else { Language::Vyper };
    let mut algs = get_all_mutation_algorithms();
    algs.sort_by_key(|a| a.to_string());
    let muts: Vec<_> = (0..src.few(5)).map(|_| *src.pick(&algs)).collect();
    let comp = if src.flag() { Some(details(&some_comp(src, true), l)) } else { None };
    let seed = match src.below(4) {
        0 => None,
        1 => Some(src.below(100)),
        2 => Some(u64::MAX - src.below(3)),
        _ => Some(src.any_u64()),
    };
    let (files, fns) = (many(src), many(src));
    let out = if src.flag() { Some(odd(src)) } else { None };
    let num = match src.below(3) {
        0 => 0,
        1 => src.below(1 << 40) as i64,
        _ => src.below(50) as i64,
    };
    let (all, ver, po) = (src.flag(), src.flag(), src.flag());
    let d = D {
        language: Some(l),
        filenames: files.iter().map(|f| f.into()).collect(),
        number_of_mutants: num,
        seed,
        mutations: muts.clone(),
        all_mutations: all,
        compiler_details: comp.clone().map(|c| Preferences::try_from(c).ok().expect("settings")),
        functions: fns.clone(),
        verify_mutants: ver,
        output_directory: out.clone().map(|o| o.into()),
        print_original: po,
    };
    info.sample = format!(
        "{} files {:?} num {} seed {:?} mutations {:?} all {} functions {:?} validate {} out {:?} original {} compiler {:?}",
        l, files, num, seed, muts, all, fns, ver, out, po, comp
    );
    info.key = hash_bytes(info.sample.as_bytes());
    info.nontrivial = true;
    info.evals = 1;
    info.classes.push("write-read".into());
    let sc = Sc::new();
    let path = sc.abs("work/new/conf.mgnx");
    let to_stream = src.flag();
    let r = guarded(|| -> Result<D, String> {
        if to_stream {
            let mut v: Vec<u8> = vec![];
            d.write_to_stream_as_json(&mut v).map_err(|e| e.to_string())?;
            sc.write("work/new/conf.mgnx", &v);
        } else {
            d.write_to_file_as_json(&path).map_err(|e| e.to_string())?;
        }
        D::new_from_file(&path).map_err(|e| e.to_string())
    });
    let e = match r {
        Err(p) => return fail("panic", format!("panic: {}\n{}", p, info.sample)),
        Ok(Err(e)) => return fail("reread", format!("{}\n{}", e, info.sample)),
        Ok(Ok(e)) => e,
    };
    let show = |d: &D| {
        let c = d.compiler_details.clone().map(|p| Value::try_from(p).ok().unwrap_or(Value::Null));
        format!(
            "{:?} {:?} {} {:?} {:?} {} {:?} {:?} {} {:?} {}",
            d.language,
            d.filenames,
            d.number_of_mutants,
            d.seed,
            d.mutations,
            d.all_mutations,
            c,
            d.functions,
            d.verify_mutants,
            d.output_directory,
            d.print_original
        )
    };
    if show(&d) != show(&e) {
        return fail("reread", format!("written: {}\nread:    {}\nfile:\n{}", show(&d), show(&e), sc.read("work/new/conf.mgnx").unwrap_or_default()));
    }
    Ok(())
}

fn mutant_map(files: &BTreeMap<String, Vec<u8>>) -> BTreeMap<String, Vec<u8>> {
    files.iter().filter(|(k, _)| !k.ends_with(".mgnx")).map(|(k, v)| (k.clone(), v.clone())).collect()
}

fn c13(src: &mut Src, info: &mut Info) -> Result<(), Failure> {
    match src.below(3) {
        0 => round_trip(src, info),
        1 => saved(src, info),
        _ => precedence(src, info),
    }
}

/// A run saved with --save-config-files, run again from the saved file.
fn saved(src: &mut Src, info: &mut Info) -> Result<(), Failure> {
    let mut su = Setup::default();
    let (salt, rej) = (src.below(1 << 30), *src.pick(&[0u64, 40]));
    su.tools.push(("bin/solc".into(), json!({"kind": "sol", "salt": salt, "reject": rej, "parse_ok": 50})));
    su.tools.push(("bin/vyper".into(), json!({"kind": "vy", "salt": salt, "reject": rej})));
    let p = prog_mut(src, false);
    let rel = format!("{}{}", folder(src), name(src, 0, p.ext()));
    su.input(&p, src.flag(), &format!("work/{}", rel));
    let mut c = some_comp(src, false);
    c.inc.truncate(if c.base.is_some() { 3 } else { 0 });
    let mut req = Req {
        files: vec![rel.clone()],
        seed: if src.chance(1, 4) { None } else { Some(seed(src)) },
        num: Some(1 + src.few(7)),
        out: Some("first".into()),
        save: true,
        validate: src.chance(1, 3),
        print_original: src.chance(1, 3),
        c,
        ..Default::default()
    };
    let (muts, all) = some_algs(src, &p);
    req.muts = muts;
    req.all = all;
    if src.chance(1, 4) {
        req.fns = mut_sol::choose_fns(src, p.functions());
    }
    let sc = su.build();
    let args = req.mutate();
    info.sample = format!("{}\n{}", show(&args), p.text);
    info.key = hash_bytes(info.sample.as_bytes());
    info.classes.push("saved".into());
    info.evals = 1;
    let o1 = sc.run(&args);
    ended(&o1, "first run")?;
    let cfg = format!("first/{}.mgnx", stem(&base_name(&rel)));
    let first = mutant_map(&sc.files("work/first"));
    if o1.failed() {
        return Ok(());
    }
    info.nontrivial = !o1.mutants().is_empty();
    let saved = match sc.read(&format!("work/{}", cfg)) {
        Some(t) => t,
        None => return fail("not-saved", format!("{} was not written\n{}\n{}", cfg, info.sample, o1.stdout)),
    };
    // the same run to standard output shows the same configuration
    if req.seed.is_some() && src.chance(1, 3) {
        let sc3 = su.build();
        let mut r3 = req.clone();
        r3.stdout = true;
        r3.print_original = false;
        let o3 = sc3.run(&r3.mutate());
        ended(&o3, "run to standard output")?;
        info.evals += 1;
        info.classes.push("configuration on stdout".into());
        let t = o3.text();
        let found = t
            .match_indices('{')
            .filter(|(i, _)| *i == 0 || t.as_bytes()[i - 1] == b'\n')
            .find_map(|(i, _)| serde_json::Deserializer::from_str(&t[i..]).into_iter::<Value>().next().and_then(|r| r.ok()));
        let mut want: Value = serde_json::from_str(&saved).unwrap_or(Value::Null);
        if let Some(b) = want.get_mut("print-original") {
            *b = json!(false);
        }
        match found {
            Some(v) if v == want => (),
            v => {
                return fail(
                    "not-saved",
                    format!("standard output shows the configuration {}\nthe saved one is {}\n{}\n{}", v.unwrap_or(Value::Null), want, show(&r3.mutate()), t),
                )
            }
        }
    }
    // run it again elsewhere, from a directory without the first results
    let s2 = su.build();
    s2.write("work/again.mgnx", saved.as_bytes());
    // options given on the command line are overruled by the saved file
    let other = if src.flag() {
        Req { files: vec!["again.mgnx".into()], ..Default::default() }
    } else {
        Req {
            files: vec!["again.mgnx".into()],
            seed: Some(1),
            num: Some(2),
            muts: vec!["Integer".into()],
            fns: vec![],
            out: Some("zzz".into()),
            ..Default::default()
        }
    };
    let o2 = s2.run(&other.mutate());
    ended(&o2, "second run")?;
    let second = mutant_map(&s2.files("work/first"));
    if let Some(d) = diff(&first, &second) {
        return fail(
            "not-reproduced",
            format!(
                "the saved configuration makes other files: {}\n{}\nsaved:\n{}\nfirst output:\n{}\nsecond output:\n{}",
                d, info.sample, saved, o1.stdout, o2.stdout
            ),
        );
    }
    if o1.mutants() != o2.mutants() {
        return fail("not-reproduced", format!("the saved configuration reports other mutants:\n{}\n---\n{}\nsaved:\n{}", o1.stdout, o2.stdout, saved));
    }
    Ok(())
}

/// The same effective settings, given by configuration + command line and by command line alone.
fn precedence(src: &mut Src, info: &mut Info) -> Result<(), Failure> {
    let mut su = Setup::default();
    let (salt, rej) = (src.below(1 << 30), *src.pick(&[0u64, 40]));
    su.tools.push(("bin/solc".into(), json!({"kind": "sol", "salt": salt, "reject": rej})));
    su.tools.push(("bin/solc2".into(), json!({"kind": "sol", "salt": salt + 1, "reject": rej})));
    su.tools.push(("bin/vyper".into(), json!({"kind": "vy", "salt": salt, "reject": rej})));
    su.tools.push(("bin/vyper2".into(), json!({"kind": "vy", "salt": salt + 1, "reject": rej})));
    let p = prog_mut(src, false);
    let rel = format!("{}{}", folder(src), name(src, 0, p.ext()));
    su.input(&p, src.flag(), &format!("work/{}", rel));
    let mut two: Vec<(String, &'static str)> = vec![(rel.clone(), p.ext())];
    let mut sample = p.text.clone();
    if src.chance(1, 4) {
        let q = prog_in(src, p.l, false);
        let r2 = format!("{}{}", folder(src), name(src, 1, q.ext()));
        su.input(&q, src.flag(), &format!("work/{}", r2));
        sample.push_str(&q.text);
        two.push((r2, q.ext()));
    }
    // command line values
    let (muts, all) = some_algs(src, &p);
    let mut cli = Req { seed: Some(seed(src)), num: Some(src.range(1, 4)), muts, all, ..Default::default() };
    cli.validate = src.flag();
    cli.print_original = src.flag();
    cli.stdout = false;
    cli.out = if src.flag() { Some("cliout".into()) } else { None };
    if src.flag() {
        cli.fns = mut_sol::choose_fns(src, p.functions());
    }
    if src.chance(1, 3) {
        cli.c.solc = Some("solc2".into());
        cli.c.vyper = Some("vyper2".into());
    }
    // configuration values
    let mut eff = cli.clone();
    let mut c = json!({"language": p.l.to_string(), "filenames": two.iter().map(|x| x.0.clone()).collect::<Vec<_>>()});
    // these always come from the configuration file (with the documented defaults)
    eff.num = Some(5);
    if src.chance(3, 4) {
        let n = src.few(9);
        c["num-mutants"] = json!(n);
        eff.num = Some(n);
    }
    eff.validate = false;
    if src.chance(3, 4) {
        eff.validate = src.flag();
        c["validate-mutants"] = json!(eff.validate);
    }
    eff.print_original = false;
    if src.chance(3, 4) {
        eff.print_original = src.flag();
        c["print-original"] = json!(eff.print_original);
    }
    // these fall back to the command line
    if src.flag() {
        let s = seed(src);
        c["seed"] = json!(s);
        eff.seed = Some(s);
    }
    match src.below(6) {
        0 | 1 => {
            let names = alg_names();
            let n = 1 + src.few(6);
            let v: Vec<String> = (0..n).map(|_| src.pick(&names).clone()).collect();
            c["mutations"] = json!(v);
            eff.muts = v;
            eff.all = false;
            if src.chance(1, 4) {
                c["all-mutations"] = json!(false);
            }
        }
        2 => {
            c["all-mutations"] = json!(true);
            eff.all = true;
            if src.flag() {
                c["mutations"] = json!(["Integer"]);
            }
        }
        3 => {
            c["all-mutations"] = json!(false);
        }
        _ => {}
    }
    if src.chance(1, 3) {
        let f = mut_sol::choose_fns(src, p.functions());
        c["functions"] = json!(f);
        eff.fns = f;
    }
    if src.flag() {
        let o = src.pick(&["confout", "conf/out", "./o", "o ut"]).to_string();
        c["output-directory"] = json!(o);
        eff.out = Some(o);
    } else if src.chance(1, 10) {
        c["output-directory"] = json!("stdout");
        eff.stdout = true;
    }
    if src.chance(1, 2) {
        let mut cfg = Comp::default();
        let (s, v) = if src.flag() { ("solc2", "vyper2") } else { ("solc", "vyper") };
        cfg.solc = Some(s.into());
        cfg.vyper = Some(v.into());
        c["compiler-details"] = details(&cfg, p.l);
        eff.c = overlay(&cli.c, &cfg, p.l);
    }
    su.files.push(("work/run.mgnx".into(), c.to_string().into_bytes()));
    let mut with = cli.clone();
    with.files = vec!["run.mgnx".into()];
    eff.files = two.iter().map(|x| x.0.clone()).collect();
    let (a1, a2) = (with.mutate(), eff.mutate());
    info.sample = format!("{}\nrun.mgnx: {}\nsame as: {}\n{}", show(&a1), c, show(&a2), sample);
    info.key = hash_bytes(info.sample.as_bytes());
    info.evals = 1;
    info.classes.push("precedence".into());
    let (s1, s2) = (su.build(), su.build());
    let o1 = s1.run(&a1);
    ended(&o1, "run with the configuration")?;
    let o2 = s2.run(&a2);
    ended(&o2, "run without the configuration")?;
    info.nontrivial = !o2.failed();
    if let Some(d) = diff(&s1.files("work"), &s2.files("work")) {
        return fail(
            "precedence",
            format!("the configuration and the equivalent command line make different files: {}\n{}\n{}\n---\n{}", d, info.sample, o1.stdout, o2.stdout),
        );
    }
    if o1.text() != o2.text() {
        return fail(
            "precedence",
            format!("the configuration and the equivalent command line report differently:\n{}\n---\n{}\n{}", o1.stdout, o2.stdout, info.sample),
        );
    }
    Ok(())
}

// ------------------------------------------------------------------- C14

/// What a file content is, by the documentation.
#[derive(PartialEq, Debug, Clone, Copy)]
enum Kind {
    Ast(Language),
    Neither,
    /// marks of both languages: not decided here
    Both,
}
fn kind_of(data: &[u8]) -> Kind {
    let v: Value = match serde_json::from_slice(data) {
        Ok(v) => v,
        Err(_) => return Kind::Neither,
    };
    let o = match v.as_object() {
        Some(o) => o,
        None => return Kind::Neither,
    };
    let s = o.get("nodeType").and_then(|x| x.as_str()) == Some("SourceUnit");
    let y = o.contains_key("contract_name") && o.contains_key("ast");
    match (s, y) {
        (true, false) => Kind::Ast(Language::Solidity),
        (false, true) => Kind::Ast(Language::Vyper),
        (false, false) => Kind::Neither,
        _ => Kind::Both,
    }
}

fn junk(src: &mut Src, p: &Prog) -> Vec<u8> {
    let js = p.ast.to_string();
    match src.below(16) {
        13..=15 => {
            // an object with some of the marks, and things close to them
            let mut o = serde_json::Map::new();
            for _ in 0..src.range(1, 4) {
                let k = src
                    .pick(&[
                        "nodeType",
                        "contract_name",
                        "ast",
                        "ast_type",
                        "nodetype",
                        "node_type",
                        "name",
                        "id",
                        "absolutePath",
                        "contractName",
                        "AST",
                        "nodes",
                        "src",
                        "sources",
                        "children",
                        "attributes",
                        "language",
                    ])
                    .to_string();
                let v = match src.below(6) {
                    0 => json!("SourceUnit"),
                    1 => json!(*src.pick(&["Module", "sourceunit", "SourceUnits", "ISourceUnit", "Source Unit", "", "ast", "Solidity", "Vyper"])),
                    2 => json!({"nodeType": "SourceUnit", "ast": {}, "contract_name": "c"}),
                    3 => json!([{"nodeType": "SourceUnit"}]),
                    4 => p.ast.clone(),
                    _ => json!(*src.pick(&[json!(null), json!(true), json!(0), json!({}), json!([])])),
                };
                o.insert(k, v);
            }
            Value::Object(o).to_string().into_bytes()
        }
        0 => vec![],
        1 => js.as_bytes()[..src.below(js.len() as u64) as usize].to_vec(),
        2 => {
            let mut b = js.into_bytes();
            let i = src.below(b.len() as u64) as usize;
            b[i] = src.below(256) as u8;
            b
        }
        3 => {
            let n = src.small(60);
            (0..n).map(|_| src.below(256) as u8).collect()
        }
        4 => src
            .pick(&[
                "null",
                "true",
                "17",
                "\"SourceUnit\"",
                "[]",
                "{}",
                "[{\"nodeType\":\"SourceUnit\"}]",
                "{\"nodeType\":\"sourceunit\"}",
                "{\"nodeType\":5}",
                "{\"nodeType\":null}",
                "{\"nodeType\":[\"SourceUnit\"]}",
            ])
            .as_bytes()
            .to_vec(),
        5 => src
            .pick(&[
                "{\"contract_name\":\"x\"}",
                "{\"ast\":{}}",
                "{\"contractName\":\"x\",\"ast\":{}}",
                "{\"ast\":{\"contract_name\":1}}",
                "{\"ast_type\":\"Module\"}",
            ])
            .as_bytes()
            .to_vec(),
        6 => json!({"sources": {"a.sol": {"AST": p.ast}}}).to_string().into_bytes(),
        7 => json!([p.ast]).to_string().into_bytes(),
        8 => format!("{}{}", js, src.pick(&["}", "x", "{}", "\0", "]"])).into_bytes(),
        9 => {
            let mut v = p.ast.clone();
            let k = src.pick(&["nodeType", "contract_name", "ast"]).to_string();
            v.as_object_mut().unwrap().remove(&k);
            v.to_string().into_bytes()
        }
        10 => {
            let mut v = p.ast.clone();
            let t = src.pick(&["ContractDefinition", "PragmaDirective", "", "SourceUnit ", "Module"]).to_string();
            v["nodeType"] = json!(t);
            v.as_object_mut().unwrap().remove("ast");
            v.to_string().into_bytes()
        }
        11 => {
            let mut b = vec![0xef, 0xbb, 0xbf];
            b.extend(js.as_bytes());
            b
        }
        _ => p.text.clone().into_bytes(),
    }
}

/// A program whose AST is nested more than 128 levels deep.
fn deep(src: &mut Src, info: &mut Info) -> Result<(), Failure> {
    use mutagenyx_lib::preferences::Preferences;
    use mutagenyx_lib::recognizer::Recognizer;
    let n = src.range(128, 400);
    let text = format!("{{\"nodeType\":\"SourceUnit\",\"nodes\":[{}null{}]}}", "{\"expression\":".repeat(n), "}".repeat(n));
    info.sample = format!("Solidity AST nested {} deep", n);
    info.key = hash_bytes(info.sample.as_bytes());
    info.evals = 1;
    info.classes.push("deep-ast".into());
    let sc = Sc::new();
    sc.write("work/p.json", text.as_bytes());
    let mut prefs = Preferences::new();
    let path = sc.abs("work/p.json");
    let r = guarded(|| Recognizer::new(&mut prefs).recognize_ast_file(&path).map(|r| r.language));
    match r {
        Ok(Some(Language::Solidity)) => Ok(()),
        Ok(_) => fail("deep-ast", format!("{} is not recognised", info.sample)),
        Err(e) => fail("panic", format!("panic: {}\n{}", e, info.sample)),
    }
}

fn recognise(src: &mut Src, info: &mut Info) -> Result<(), Failure> {
    use mutagenyx_lib::preferences::Preferences;
    use mutagenyx_lib::recognizer::{FileType, Recognizer};
    if src.chance(1, 60) {
        return deep(src, info);
    }
    let p = prog(src, false);
    let sc = Sc::new();
    let data = match src.below(3) {
        0 => p.ast.to_string().into_bytes(),
        1 if p.l == Language::Vyper && src.flag() => serde_json::to_vec_pretty(&p.ast).unwrap(),
        _ => junk(src, &p),
    };
    let nm = if src.chance(1, 5) { format!("p{}", src.pick(&[".mgnx", ".mgnx.json", ".MGNX", "mgnx", ".mgn"])) } else { name(src, 0, p.ext()) };
    // configuration-like content
    let lang_word = src.pick(&["Solidity", "Vyper", "solidity", "Rust", "", "Solidity ", "vyper"]).to_string();
    let data = if src.chance(1, 5) {
        match src.below(4) {
            0 => json!({"language": lang_word}).to_string().into_bytes(),
            1 => json!({"language": [lang_word], "filenames": []}).to_string().into_bytes(),
            2 => json!({"Language": lang_word, "filenames": ["a"]}).to_string().into_bytes(),
            _ => json!({"language": lang_word, "filenames": ["p0.sol"]}).to_string().into_bytes(),
        }
    } else {
        data
    };
    let cfg = if nm.ends_with(".mgnx") {
        serde_json::from_slice::<Value>(&data)
            .ok()
            .and_then(|v| v.get("language").and_then(|l| l.as_str().map(|s| s.to_string())))
            .filter(|s| s == "Solidity" || s == "Vyper")
    } else {
        None
    };
    let kind = kind_of(&data);
    info.sample = format!("{}:\n{}", nm, String::from_utf8_lossy(&data).chars().take(2000).collect::<String>());
    info.key = hash_bytes(info.sample.as_bytes());
    info.nontrivial = data.len() > 2;
    info.evals = 1;
    info.classes.push("recognise".into());
    sc.write(&format!("work/{}", nm), &data);
    let mut prefs = Preferences::new();
    for l in ["Solidity", "Vyper"] {
        let (mut a, mut b) = (Preferences::new(), Preferences::new());
        a.set_string_for_key("path", &sc.abs("bin/none"));
        b.set_preferences_for_key("compiler", a);
        prefs.set_preferences_for_key(l, b);
    }
    let path = sc.abs(&format!("work/{}", nm));
    let r = guarded(|| Recognizer::new(&mut prefs).recognize_file(&path).map(|r| (r.language, r.file_type)).map_err(|e| e.to_string()));
    let r = match r {
        Ok(r) => r,
        Err(e) => return fail("panic", format!("panic: {}\n{}", e, info.sample)),
    };
    let got = match &r {
        Ok((l, FileType::Config)) => format!("configuration {}", l),
        Ok((l, FileType::AST)) => format!("AST {}", l),
        Ok((l, FileType::Source)) => format!("source {}", l),
        Err(_) => "error".to_string(),
    };
    let want = match (cfg, kind) {
        (Some(l), _) => format!("configuration {}", l),
        (None, Kind::Ast(l)) => format!("AST {}", l),
        (None, Kind::Neither) => "error".into(),
        (None, Kind::Both) => return Ok(()),
    };
    info.classes.push(want.clone());
    if got != want {
        return fail("recognised", format!("recognised as {}, it is {}\n{}", got, want, info.sample));
    }
    Ok(())
}

fn c14(src: &mut Src, info: &mut Info) -> Result<(), Failure> {
    if src.chance(2, 3) {
        return recognise(src, info);
    }
    let mut su = Setup::default();
    let p = prog(src, false);
    let pretty = src.flag();
    let mut req = Req { seed: Some(1), num: Some(2), all: true, ..Default::default() };
    req.stdout = src.chance(1, 4);
    req.validate = src.chance(1, 6);
    req.save = src.chance(1, 6);
    req.print_original = src.chance(1, 6);
    let have_sol = src.chance(2, 3);
    let have_vy = src.chance(2, 3);
    let faults = ["nofile", "empty", "trunc", "notjson", "other", "noversion"];
    let fault = if src.chance(1, 2) { *src.pick(&faults) } else { "" };
    let ver = *src.pick(&[
        "0.3.7+commit.6020b8b\n",
        "3.1.0\n",
        "3.1.0",
        "\n",
        "",
        "x\n",
        "v\n",
        "..\n",
        "é\n",
        "version four\n",
        "1\n",
        "99999999999999999999.1.1\n",
        "3.0\n",
    ]);
    if have_sol {
        su.tools.push(("bin/solc".into(), json!({"kind": "sol", "fault": fault, "noise": src.flag(), "abort": src.chance(1, 6)})));
    }
    if have_vy {
        su.tools.push(("bin/vyper".into(), json!({"kind": "vy", "fault": fault, "version": ver, "noise": src.flag(), "abort": src.chance(1, 6)})));
    }
    let nm = name(src, 0, p.ext());
    // what is in the file, and whether it can be used
    let what;
    let usable: Option<bool>;
    match src.below(6) {
        0 | 1 => {
            su.input(&p, true, &format!("work/{}", nm));
            what = format!("{} source", p.l);
            let have = if p.l == Language::Solidity { have_sol } else { have_vy };
            let clean = fault.is_empty() || (fault == "noversion" && p.l == Language::Solidity);
            let odd_version = p.l == Language::Vyper && (ver.chars().filter(|c| *c == '.').count() < 2 || !ver.starts_with(|c: char| c.is_ascii_digit()));
            usable = if !have {
                Some(false)
            } else if clean && !odd_version {
                Some(true)
            } else if !clean && !odd_version {
                Some(false)
            } else {
                None
            };
        }
        2 => {
            su.input(&p, false, &format!("work/{}", nm));
            what = format!("{} AST", p.l);
            usable = Some(true);
        }
        3 => {
            let d = junk(src, &p);
            usable = if kind_of(&d) == Kind::Neither && !d.starts_with(b"//SOL ") && !d.starts_with(b"#VY ") { Some(false) } else { None };
            what = format!("junk {:?}", String::from_utf8_lossy(&d).chars().take(800).collect::<String>());
            su.files.push((format!("work/{}", nm), d));
        }
        4 => {
            what = "missing file".to_string();
            usable = Some(false);
        }
        _ => {
            what = "directory".to_string();
            su.files.push((format!("work/{}/inner", nm), b"x".to_vec()));
            usable = Some(false);
        }
    }
    let mut arg = nm.clone();
    let mut usable = usable;
    if usable == Some(false) && src.chance(1, 6) {
        arg = src.pick(&["..", ".", "/", "", "nowhere/..", "../"]).to_string();
        usable = Some(false);
    }
    // inside a configuration file
    let mut text = String::new();
    if src.chance(1, 5) && !pretty {
        let c = match src.below(6) {
            0 => json!({"language": p.l.to_string(), "filenames": [arg]}),
            1 => json!({"language": p.l.to_string(), "filenames": "x"}),
            2 => json!({"language": p.l.to_string()}),
            3 => json!({"language": p.l.to_string(), "filenames": [5, null]}),
            4 => json!({"language": p.l.to_string(), "filenames": [], "compiler-details": 7}),
            _ => json!({"language": 5, "filenames": [arg]}),
        };
        let ok = c["language"].is_string() && c["filenames"] == json!([arg]);
        text = format!("conf.mgnx {}", c);
        su.files.push(("work/conf.mgnx".into(), c.to_string().into_bytes()));
        arg = "conf.mgnx".into();
        if !ok {
            usable = None;
        }
    }
    req.files.push(arg);
    let args = if pretty { req.pretty() } else { req.mutate() };
    info.sample = format!("{}\n{} is {}; solc {} vyper {} version {:?} fault {:?}\n{}", show(&args), nm, what, have_sol, have_vy, ver, fault, text);
    info.key = hash_bytes(info.sample.as_bytes()) ^ hash_bytes(p.text.as_bytes());
    info.evals = 1;
    info.nontrivial = usable.is_some();
    info.classes.push(format!("{} usable {:?}", if pretty { "pretty-print" } else { "mutate" }, usable));
    let sc = su.build();
    let before = sc.snap();
    let o = sc.run(&args);
    ended(&o, "run")?;
    let ctx = |m: &str| format!("{}\n{}\noutput:\n{}{}", m, info.sample, o.stdout, o.stderr);
    if o.failed() {
        if sc.snap() != before {
            return fail("output-on-error", ctx("an error was reported, but files were written"));
        }
        let t = o.text();
        if t.lines().count() != 1 {
            return fail("output-on-error", ctx("an error was reported together with other output"));
        }
    }
    match usable {
        Some(false) => {
            if !o.failed() {
                return fail("accepted", ctx("the input is not usable, but no error is reported"));
            }
            if sc.snap() != before {
                return fail("output-on-error", ctx("files were written for an unusable input"));
            }
        }
        Some(true) => {
            let supply: usize = p.model(&[]).values().sum();
            if o.failed() && (pretty || supply > 0) {
                return fail("rejected", ctx("the input is valid, but an error is reported"));
            }
        }
        None => {}
    }
    Ok(())
}

// ------------------------------------------------------------------- C17

/// Output of the algorithms command on a terminal of the given width (None: not a terminal).
fn algorithms(flag: &str, width: Option<u16>) -> Result<String, Failure> {
    let sc = Sc::new();
    let a = vec!["algorithms".to_string(), flag.to_string()];
    let o = match width {
        None => sc.run(&a),
        Some(w) => match sc.run_tty(&a, w) {
            Some(o) => o,
            None => sc.run(&a),
        },
    };
    ended(&o, "algorithms")?;
    Ok(o.stdout.replace("\r\n", "\n"))
}

/// Sections of the listing: the name at the start of a line, then everything up to the next name.
fn sections(text: &str) -> Vec<(String, Vec<String>)> {
    let mut v: Vec<(String, Vec<String>)> = vec![];
    for l in text.lines() {
        let mut words: Vec<String> = l.split_whitespace().map(|w| w.to_string()).collect();
        if !l.starts_with(' ') && !words.is_empty() {
            let n = words.remove(0);
            v.push((n, words));
        } else if let Some(x) = v.last_mut() {
            x.1.append(&mut words);
        }
    }
    v
}

fn listing(src: &mut Src, info: &mut Info) -> Result<(), Failure> {
    use mutagenyx_lib::mutation::all_algorithm_descriptions;
    let width = match src.below(4) {
        0 => None,
        1 => Some(src.range(1, 40) as u16),
        2 => Some(src.range(60, 200) as u16),
        _ => Some(src.range(0, 400) as u16),
    };
    let descr = src.flag();
    info.sample = format!("algorithms {} at width {:?}", if descr { "-d" } else { "-l" }, width);
    info.key = hash_bytes(info.sample.as_bytes());
    info.evals = 1;
    info.nontrivial = true;
    info.classes.push("listing".into());
    let text = algorithms(if descr { "-d" } else { "-l" }, width)?;
    let sec = sections(&text);
    let mut want: Vec<String> = alg_names();
    want.sort();
    let mut names: Vec<String> = sec.iter().map(|s| s.0.clone()).collect();
    let column = want.iter().map(|w| w.len()).max().unwrap_or(0);
    if width.map_or(false, |w| w as usize <= column + 2) {
        // no room for the second column: other lines may start at the margin too
        names.retain(|n| want.contains(n));
        if names != want {
            return fail("listing", format!("{} lists {:?}, the algorithms are {:?}\n{}", info.sample, names, want, text));
        }
        return Ok(());
    }
    if names != want {
        return fail("listing", format!("{} lists {:?}, the algorithms are {:?}\n{}", info.sample, names, want, text));
    }
    for (t, d) in all_algorithm_descriptions() {
        let (_, words) = sec.iter().find(|s| s.0 == t.to_string()).unwrap();
        let w = |s: &str| -> Vec<String> { s.split_whitespace().map(|x| x.to_string()).collect() };
        let sum = w(d.summary);
        if sum.is_empty() || words.len() < sum.len() || words[..sum.len()] != sum[..] {
            return fail("listing", format!("{}: {} is not followed by its summary {:?}\n{}", info.sample, t, d.summary, text));
        }
        let joined = words.concat();
        // the operators the algorithm uses, in the sense of the model
        let ops = mut_sol::op_list(&t.to_string());
        if descr && !ops.is_empty() && t.to_string().ends_with("BinaryOp") {
            let at = match joined.find("Operators:") {
                Some(i) => &joined[i..],
                None => return fail("operators", format!("{}: no operators for {}\n{}", info.sample, t, text)),
            };
            let (a, b) = (at.find('[').unwrap_or(0), at.find(']').unwrap_or(0));
            let list: Vec<String> = serde_json::from_str(at.get(a..=b).unwrap_or("")).unwrap_or_default();
            let (mut x, mut y): (Vec<String>, Vec<String>) = (list, ops.iter().map(|s| s.to_string()).collect());
            x.sort();
            y.sort();
            if x != y {
                return fail("operators", format!("{}: operators of {} are given as {:?}, it uses {:?}", info.sample, t, x, y));
            }
        }
    }
    Ok(())
}

fn c17(src: &mut Src, info: &mut Info) -> Result<(), Failure> {
    if src.chance(1, 4) {
        return listing(src, info);
    }
    let p = prog_mut(src, true);
    let mut su = Setup::default();
    su.compilers();
    su.input(&p, false, "work/p.json");
    let names = alg_names();
    let n = src.few(5) + 1;
    let mut sel: Vec<String> = vec![];
    let mut known: BTreeSet<String> = BTreeSet::new();
    for _ in 0..n {
        let a = src.pick(&names).clone();
        match src.below(6) {
            0 => sel.push(src.pick(&["", "all", "Foo", "integer op", "12", "*"]).to_string()),
            1 => {
                let b = near(src, &a);
                if names.contains(&b) {
                    known.insert(b.clone());
                }
                sel.push(b);
            }
            _ => {
                known.insert(a.clone());
                sel.push(a);
            }
        }
    }
    let all = src.chance(1, 5);
    if all {
        known = names.iter().cloned().collect();
    }
    let mut model = p.model(&[]);
    model.retain(|k, _| known.contains(k));
    let sd = seed(src);
    let mut req = Req { files: vec!["p.json".into()], seed: Some(sd), num: Some(1 + src.few(5)), muts: sel.clone(), all, ..Default::default() };
    let route = src.below(3);
    if route == 1 && !known.is_empty() {
        let mut c = json!({"language": p.l.to_string(), "filenames": ["p.json"], "num-mutants": req.num, "mutations": sel});
        if all {
            c["all-mutations"] = json!(true);
        }
        su.files.push(("work/run.mgnx".into(), c.to_string().into_bytes()));
        req.files = vec!["run.mgnx".into()];
        req.muts = vec![];
        req.all = false;
        info.classes.push("config".into());
    }
    let args = req.mutate();
    info.sample = format!("{} (selected {:?} all {})\n{}", show(&args), sel, all, p.text);
    info.key = hash_bytes(info.sample.as_bytes());
    info.evals = 1;
    let sc = su.build();
    let o = sc.run(&args);
    ended(&o, "run")?;
    let ctx = |m: String| format!("{}\n{}\noutput:\n{}", m, info.sample, o.stdout);
    if model.is_empty() {
        if !o.failed() || !sc.files("work/out").is_empty() {
            return fail("selects", ctx("no usable algorithm is selected, but the run makes output".into()));
        }
        return Ok(());
    }
    info.nontrivial = true;
    let usable: Vec<BTreeSet<String>> = o.usable().into_iter().map(|v| v.into_iter().collect()).collect();
    let want: BTreeSet<String> = model.keys().cloned().collect();
    if usable != vec![want.clone()] {
        return fail("selects", ctx(format!("the selected algorithms that apply are {:?}", want)));
    }
    for (a, path) in o.mutants() {
        info.evals += 1;
        info.classes.push(a.clone());
        let text = sc.read(&format!("work/{}", path)).unwrap_or_default();
        if !want.contains(&a) {
            return fail("selects", ctx(format!("{} was used but not selected", a)));
        }
        if p.ways(&text, &a, &[]).unwrap_or(0) == 0 {
            return fail("does", ctx(format!("{} is announced as {} but is no such mutant\n{}", path, a, text)));
        }
    }
    // all is the same as every name
    if all && route != 1 {
        let r2 = Req { muts: names.clone(), all: false, files: vec!["p.json".into()], ..req.clone() };
        let s2 = su.build();
        let o2 = s2.run(&r2.mutate());
        ended(&o2, "run with every name")?;
        if o2.text() != o.text() || diff(&sc.files("work"), &s2.files("work")).is_some() {
            return fail("all", ctx(format!("selecting every name gives another result:\n{}", o2.stdout)));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------- C18

fn c18(src: &mut Src, info: &mut Info) -> Result<(), Failure> {
    let mut su = Setup::default();
    su.compilers();
    let n = 1 + src.few(9);
    let mut req = Req::default();
    req.stdout = src.chance(1, 2);
    if src.flag() {
        req.out = Some(src.pick(&["o", "deep/o", "o o", "."]).to_string());
    }
    let out = req.out.clone().unwrap_or_else(|| "out".into());
    let mut want: Vec<(String, Option<(String, String)>)> = vec![]; // argument -> printed name and text
    let mut sample = String::new();
    for k in 0..n {
        let p = {
            let mut p = prog(src, false);
            if src.chance(1, 3) {
                p = prog_in(src, p.l, true);
            }
            p
        };
        let base = name(src, k, p.ext());
        let rel = format!("in/{}{}", folder(src), base);
        let at = format!("work/{}", rel);
        match src.below(8) {
            0 => {
                let d = junk(src, &p);
                if kind_of(&d) != Kind::Neither {
                    continue;
                }
                su.files.push((at, d));
                want.push((rel.clone(), None));
            }
            1 => want.push((format!("in/none{}", k), None)),
            x => {
                su.input(&p, x % 2 == 0, &at);
                want.push((rel.clone(), Some((printed_name(&base, p.ext()), p.text.clone()))));
            }
        }
        sample.push_str(&format!("// {}\n{}\n", rel, p.text));
    }
    if want.is_empty() {
        return Ok(());
    }
    // a file may be named more than once
    if src.chance(1, 5) {
        let w = src.pick(&want).clone();
        let at = src.below(want.len() as u64 + 1) as usize;
        want.insert(at, w);
    }
    req.files = want.iter().map(|w| w.0.clone()).collect();
    let args = req.pretty();
    info.sample = format!("{}\n{}", show(&args), sample);
    info.key = hash_bytes(info.sample.as_bytes());
    info.nontrivial = want.iter().filter(|w| w.1.is_some()).count() >= 1 && want.len() >= 2;
    info.evals = want.len() as u64;
    let sc = su.build();
    let o = sc.run(&args);
    ended(&o, "run")?;
    let ctx = |m: String| format!("{}\n{}\noutput:\n{}", m, info.sample, o.stdout);
    let text = o.text();
    if req.stdout {
        let mut rest = text.as_str();
        for (f, w) in &want {
            match w {
                Some((_, t)) => match rest.strip_prefix(t.as_str()) {
                    Some(r) => rest = r,
                    None => return fail("stdout", ctx(format!("standard output does not go on with the program of {}", f))),
                },
                None => {
                    // one line that tells the failure, on a line of its own or directly after a program without a final newline
                    let r = rest.trim_start_matches('\n');
                    if !r.starts_with("Unable to pretty-print ") {
                        return fail("stdout", ctx(format!("the failure of {} is not reported in its place", f)));
                    }
                    rest = match r.find('\n') {
                        Some(i) => &r[i + 1..],
                        None => "",
                    };
                }
            }
        }
        if !rest.trim().is_empty() {
            return fail("stdout", ctx(format!("more output than the programs: {:?}", rest)));
        }
        if !sc.files(&format!("work/{}", out)).into_keys().all(|k| k.starts_with("in/")) {
            return fail("stdout", ctx("files were written although standard output was requested".into()));
        }
    } else {
        let fails: Vec<&str> = text.lines().filter(|l| l.starts_with("Unable to pretty-print ")).collect();
        let bad: Vec<&String> = want.iter().filter(|w| w.1.is_none()).map(|w| &w.0).collect();
        if fails.len() != bad.len() || fails.iter().zip(&bad).any(|(l, f)| !l.contains(&base_name(f)) && f.is_ascii()) {
            return fail("failures", ctx(format!("these files fail, in this order: {:?}", bad)));
        }
        for (f, w) in &want {
            if let Some((nm, t)) = w {
                match sc.read(&format!("work/{}/{}", out, nm)) {
                    Some(x) if x == *t => {}
                    Some(x) => return fail("text", ctx(format!("the printed text of {} is different:\n{}", f, x))),
                    None => return fail("skipped", ctx(format!("{} was not printed", f))),
                }
            }
        }
    }
    // the printed original of a mutation run
    if let Some((f, Some((nm, t)))) = want.iter().find(|w| w.1.is_some()) {
        let to_out = src.flag();
        let r = Req { files: vec![f.clone()], all: true, seed: Some(1), num: Some(1), print_original: true, stdout: !to_out, ..Default::default() };
        let o = sc.run(&r.mutate());
        ended(&o, "mutation run")?;
        info.evals += 1;
        if !o.failed() {
            if to_out {
                let got = sc.read(&format!("work/out/{}", nm));
                if got.as_deref() != Some(t.as_str()) {
                    return fail("original", ctx(format!("the printed original of {} is different: {:?}", f, got)));
                }
            } else if !o.stdout.starts_with(t.as_str()) {
                return fail("original", ctx(format!("the original of {} printed to standard output is different:\n{}", f, o.stdout)));
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------- C20

/// Over many seeds a run of one mutant uses every usable algorithm, and every candidate of one.
pub fn chosen(src: &mut Src, info: &mut Info) -> Result<(), Failure> {
    let p = prog_mut(src, true);
    let model = p.model(&[]);
    if model.is_empty() {
        info.evals = 1;
        return Ok(());
    }
    let few: Vec<String> = model.iter().filter(|x| *x.1 >= 2 && *x.1 <= 6).map(|x| x.0.clone()).collect();
    let by_candidate = !few.is_empty() && src.flag();
    let rel = format!("p.{}", p.ext());
    let mut su = Setup::default();
    su.input(&p, false, &format!("work/{}", rel));
    let sc = su.build();
    let mut req = Req { files: vec![rel], num: Some(1), ..Default::default() };
    let mut open: BTreeSet<String>;
    if by_candidate {
        let a = src.pick(&few).clone();
        open = (0..model[&a]).map(|i| format!("candidate {} of {}", i, a)).collect();
        req.muts = vec![a];
    } else {
        let (muts, all) = some_algs(src, &p);
        open = model.keys().filter(|k| all || muts.contains(k)).cloned().collect();
        req.muts = muts;
        req.all = all;
    }
    info.nontrivial = open.len() >= 2;
    info.classes.push(if by_candidate { "choice of candidate".into() } else { "choice of algorithm".into() });
    let limit = if open.is_empty() { 0 } else { open.len() * 60 + 60 };
    let base = src.below(1 << 40) as i64;
    info.key = hash_bytes(format!("{:?} {} {}", req.muts, base, p.text).as_bytes());
    for k in 0..limit {
        req.seed = Some(base + k as i64);
        let args = req.mutate();
        info.sample = format!("{}\n{}", show(&args), p.text);
        let o = sc.run(&args);
        ended(&o, "run")?;
        info.evals += 1;
        let (alg, path) = match o.mutants().into_iter().next() {
            Some(x) => x,
            None => return fail("no-mutant", format!("no mutant\n{}\noutput:\n{}{}", info.sample, o.stdout, o.stderr)),
        };
        if by_candidate {
            let text = sc.read(&format!("work/{}", path)).unwrap_or_default();
            for i in p.sources(&text, &alg).unwrap_or_default() {
                open.remove(&format!("candidate {} of {}", i, alg));
            }
        } else {
            open.remove(&alg);
        }
        if open.is_empty() {
            break;
        }
    }
    if !open.is_empty() {
        return fail("never-chosen", format!("{} seeds from {} never chose {:?}\n{}", limit, base, open, info.sample));
    }
    Ok(())
}

// ------------------------------------------------------------------- the library's properties, seen through the tool

/// A mutation run whose files are judged by what the property says about mutants.
pub fn through(src: &mut Src, info: &mut Info, id: &str) -> Result<(), Failure> {
    info.classes.push("through the tool".into());
    info.evals = 1;
    let unique = src.flag();
    let mut p = prog_mut(src, unique);
    match id {
        "C03" if p.l != Language::Solidity => p = prog_in(src, Language::Solidity, unique),
        "C04" if p.l != Language::Vyper => p = prog_in(src, Language::Vyper, unique),
        "C15" if src.chance(3, 4) => {
            p.ast = match p.l {
                Language::Solidity => {
                    let mut o = mut_sol::small_opts(src);
                    o.hostile = true;
                    sol::generate(src, o)
                }
                Language::Vyper => {
                    let mut o = mut_vy::small_opts(src);
                    o.hostile = true;
                    vy::generate(src, o)
                }
            };
            p.text = print_ast(&p.sup()).unwrap_or_default();
        }
        _ => {}
    }
    let mut su = Setup::default();
    su.compilers();
    let rel = name(src, 0, p.ext());
    su.input(&p, src.chance(1, 4), &format!("work/{}", rel));
    let mut req = Req { files: vec![rel.clone()], seed: Some(seed(src)), num: Some(1 + src.few(12)), ..Default::default() };
    let (muts, all) = if id == "C05" && src.flag() { (vec![], true) } else { some_algs(src, &p) };
    req.muts = muts;
    req.all = all;
    if id == "C06" || (id == "C15" && src.flag()) {
        req.fns = mut_sol::choose_fns(src, p.functions());
    }
    let mut model = p.model(&req.fns);
    if id == "C15" {
        // the model is for well-formed programs only
        model = match Drv::new(p.l).count(&p.sup(), &perms(&req.fns), 1) {
            Ok(m) => m.into_iter().collect(),
            Err(e) => return fail("count", format!("counting fails: {}\n{}", e, p.ast)),
        };
    }
    model.retain(|k, _| req.all || req.muts.contains(k));
    let supply: usize = model.values().sum();
    // one mutant of one algorithm can be read from standard output
    let one = req.muts.len() == 1 && supply > 0 && src.chance(1, 3);
    if one {
        req.stdout = true;
        req.num = Some(1);
    }
    // the original to compare with comes from the same run or from a run of its own
    let apart = one || src.flag();
    req.print_original = id == "C24" && !apart;
    let mut cli = req.clone();
    if !one && src.chance(1, 4) {
        let mut c = json!({"language": p.l.to_string(), "filenames": [rel], "num-mutants": req.num});
        if !req.fns.is_empty() {
            c["functions"] = json!(req.fns);
            cli.fns = vec![];
        }
        if !req.all {
            c["mutations"] = json!(req.muts);
            cli.muts = vec![];
        }
        if req.print_original {
            c["print-original"] = json!(true);
        }
        su.files.push(("work/run.mgnx".into(), c.to_string().into_bytes()));
        cli.files = vec!["run.mgnx".into()];
    }
    let args = cli.mutate();
    info.sample = format!("{}\n{}", show(&args), p.text);
    info.key = hash_bytes(info.sample.as_bytes());
    let sc = su.build();
    let o = sc.run(&args);
    ended(&o, "run")?;
    let ctx = |m: String| {
        format!(
            "{}\nfunctions {:?}, algorithms {:?}\n{}\noutput:\n{}",
            m,
            req.fns,
            if req.all { vec!["all".to_string()] } else { req.muts.clone() },
            info.sample,
            o.stdout
        )
    };
    if supply == 0 {
        if id != "C15" && (!o.failed() || !sc.files("work/out").is_empty()) {
            return fail("no-candidates", ctx("nothing can be mutated, but no error is reported or files are written".into()));
        }
        return Ok(());
    }
    info.nontrivial = true;
    if o.failed() {
        return fail("refused", ctx(format!("the program has {} candidates but the run fails", supply)));
    }
    if id == "C05" || id == "C06" {
        if o.supported() != vec![supply] {
            return fail("supported", ctx(format!("the program supports {} mutations", supply)));
        }
        let usable: Vec<BTreeSet<String>> = o.usable().into_iter().map(|v| v.into_iter().collect()).collect();
        if usable != vec![model.keys().cloned().collect::<BTreeSet<_>>()] {
            return fail("usable", ctx(format!("usable algorithms are {:?}", model)));
        }
    }
    let ms = if one {
        let all = o.text();
        let text = all.find("AST supports at most ").and_then(|i| all[i..].find('\n').map(|j| all[i + j + 1..].to_string())).unwrap_or_default();
        vec![(req.muts[0].clone(), text)]
    } else {
        mutants_of(&sc, &o, "out", &rel, p.ext()).map_err(|f| Failure { sig: f.sig, msg: ctx(f.msg) })?
    };
    let mut original = String::new();
    if id == "C24" {
        let mut dir = "out";
        if apart {
            dir = "printed";
            let o = sc.run(&Req { files: vec![rel.clone()], out: Some(dir.into()), ..Default::default() }.pretty());
            ended(&o, "printing")?;
        }
        original = match sc.read(&format!("work/{}/{}", dir, printed_name(&base_name(&rel), p.ext()))) {
            Some(t) => t,
            None => return fail("no-original", ctx("the original is not printed".into())),
        };
    }
    for (i, (alg, text)) in ms.iter().enumerate() {
        info.evals += 1;
        info.classes.push(alg.clone());
        let text = text.as_str();
        if id == "C24" {
            crate::props_diff::local(p.l, &original, text, alg)
                .or_else(|e| fail("not-local", ctx(format!("mutant {} ({}): {}\noriginal:\n{}\nmutant:\n{}", i, alg, e, original, text))))?;
        }
        match id {
            "C09" => {
                let m = Mutant { ast: SuperAST::Solidity(Value::Null), node_id: None, text: text.to_string() };
                let r = match p.l {
                    Language::Solidity => mut_sol::told(&p.ast, &m, alg),
                    Language::Vyper => mut_vy::told(&p.ast, &m, alg),
                };
                r.map_err(|f| Failure { sig: f.sig, msg: ctx(format!("mutant {} ({}): {}\n{}", i, alg, f.msg, text)) })?;
            }
            "C15" => {}
            _ => match p.ways(text, alg, &req.fns) {
                Ok(0) => return fail("not-a-mutant", ctx(format!("mutant {} is not a {} mutant of the program\n{}", i, alg, text))),
                Ok(_) => {}
                Err(e) => return fail("not-a-mutant", ctx(format!("mutant {} ({}): {}\n{}", i, alg, e, text))),
            },
        }
    }
    Ok(())
}

/// The text the tool prints for an AST or a source: pretty-print, or the original of a mutation run.
pub fn printed(src: &mut Src, info: &mut Info, l: Language, ast: &Value) -> Result<String, Failure> {
    info.classes.push("through the tool".into());
    let p = Prog { l, ast: ast.clone(), text: String::new() };
    let mut su = Setup::default();
    su.compilers();
    let rel = format!("{}{}", folder(src), name(src, 0, p.ext()));
    su.input(&p, src.chance(1, 4), &format!("work/{}", rel));
    let to_stdout = src.flag();
    let req = Req { files: vec![rel.clone()], stdout: to_stdout, seed: Some(1), num: Some(1), all: true, print_original: true, ..Default::default() };
    // a program without candidates has no mutation run
    let mutate = !to_stdout && src.chance(1, 3) && p.model(&[]).values().sum::<usize>() > 0;
    let args = if mutate { req.mutate() } else { req.pretty() };
    let sc = su.build();
    let o = sc.run(&args);
    ended(&o, "run")?;
    if to_stdout {
        return Ok(o.text());
    }
    match sc.read(&format!("work/out/{}", printed_name(&base_name(&rel), p.ext()))) {
        Some(t) => Ok(t),
        None => fail("print-fails", format!("{} prints nothing\n{}{}", show(&args), o.stdout, o.stderr)),
    }
}

// ------------------------------------------------------------------- C21

/// An option in one of its spellings.
fn spell(src: &mut Src, k: &str, v: &str) -> Vec<String> {
    let short = match k {
        "--output-directory" => Some("-o"),
        "--file" => Some("-f"),
        _ => None,
    };
    match (short, src.below(5)) {
        (Some(s), 1) => vec![s.into(), v.into()],
        (Some(s), 2) => vec![format!("{}{}", s, v)],
        (Some(s), 3) => vec![format!("{}={}", s, v)],
        (_, 4) => vec![format!("{}={}", k, v)],
        _ => vec![k.into(), v.into()],
    }
}

/// What the compilers were asked, without the names of temporary files.
fn asked(sc: &Sc) -> Vec<String> {
    let f = |r: &Rec| {
        let mut o = r.opts.clone();
        if let Some(o) = o.as_object_mut() {
            o.remove("out");
            o.remove("files");
        }
        format!("{} {} {} {:x} {}", r.name, r.mode, o, hash_bytes(r.text.as_bytes()), r.accepted)
    };
    sc.log().iter().map(f).collect()
}

fn c21(src: &mut Src, info: &mut Info) -> Result<(), Failure> {
    if src.chance(1, 30) {
        return unseeded(src, info);
    }
    let mut su = Setup::default();
    let (salt, rej) = (src.below(1 << 30), *src.pick(&[0u64, 40]));
    for (at, kind) in [("bin/solc", "sol"), ("bin/vyper", "vy"), ("tools/solc-x", "sol"), ("tools/vyper-x", "vy")] {
        su.tools.push((at.into(), json!({"kind": kind, "salt": salt, "reject": rej, "parse_ok": 50})));
    }
    let mut files = vec![];
    let n = 1 + src.few(2);
    let mut progs = vec![];
    for k in 0..n {
        let p = prog_mut(src, false);
        let rel = format!("{}{}", folder(src), name(src, k, p.ext()));
        su.input(&p, src.flag(), &format!("work/{}", rel));
        files.push(rel);
        progs.push(p);
    }
    let pretty = src.chance(1, 4);
    // the settings, in long form with every default spelled out
    let out = if src.flag() { "out".to_string() } else { src.pick(&["o2", "a/b", "out/x", "Out"]).to_string() };
    let num = if src.flag() { 1 } else { src.few(6) };
    let solc = src.pick(&["solc", "solc", "../tools/solc-x"]).to_string();
    let vyper = src.pick(&["vyper", "vyper", "../tools/vyper-x"]).to_string();
    let stdout = src.chance(1, 4);
    let mut opts: Vec<(String, String)> = vec![("--output-directory".into(), out), ("--solidity-compiler".into(), solc), ("--vyper-compiler".into(), vyper)];
    let mut flags: Vec<&str> = vec![];
    let mut all = false;
    let mut save = false;
    if !pretty {
        opts.push(("--rng-seed".into(), seed(src).to_string()));
        opts.push(("--num-mutants".into(), num.to_string()));
        let (muts, a) = some_algs(src, &progs[0]);
        all = a;
        for m in muts {
            opts.push(("--mutation".into(), m));
        }
        if src.chance(1, 4) {
            for f in mut_sol::choose_fns(src, progs[0].functions()) {
                opts.push(("--function".into(), f));
            }
        }
        for (f, on) in [("--print-original", src.chance(1, 4)), ("--validate-mutants", src.chance(1, 3))] {
            if on {
                flags.push(f);
            }
        }
        save = src.chance(1, 5);
        if save {
            flags.push("--save-config-files");
        }
        if all {
            flags.push("--all-mutations");
        }
    }
    if stdout {
        flags.push("--stdout");
    }
    for f in &files {
        opts.push(("--file".into(), f.clone()));
    }
    let cmd = if pretty { "pretty-print" } else { "mutate" };
    let mut first: Vec<String> = vec![cmd.into()];
    for (k, v) in &opts {
        first.push(k.clone());
        first.push(v.clone());
    }
    first.extend(flags.iter().map(|f| f.to_string()));
    // the same request, written differently
    let mut units: Vec<(String, Vec<String>)> = vec![];
    let mut hidden = 0;
    for (k, v) in &opts {
        let default = matches!(
            (k.as_str(), v.as_str()),
            ("--output-directory", "out") | ("--num-mutants", "1") | ("--solidity-compiler", "solc") | ("--vyper-compiler", "vyper")
        );
        if default && src.chance(2, 3) {
            hidden += 1;
            continue;
        }
        let mut v = v.clone();
        if k == "--output-directory" && stdout && !save && src.flag() {
            v = "elsewhere".into();
        }
        // a saved configuration lists the values in the order they were given
        let group = if k == "--file" || save { k.clone() } else { String::new() };
        units.push((group, spell(src, k, &v)));
    }
    for f in &flags {
        let f = if *f == "--all-mutations" && src.flag() { "-a" } else { f };
        units.push((String::new(), vec![f.into()]));
    }
    if all && src.flag() {
        for _ in 0..src.range(1, 4) {
            let m = if src.chance(2, 3) { src.pick(&alg_names()).clone() } else { "Nothing".into() };
            units.push((String::new(), spell(src, "--mutation", &m)));
        }
    }
    // any order, but within a group the same order
    let mut by_group: BTreeMap<String, std::collections::VecDeque<Vec<String>>> = BTreeMap::new();
    for (g, u) in units.iter().filter(|u| !u.0.is_empty()) {
        by_group.entry(g.clone()).or_default().push_back(u.clone());
    }
    for i in (1..units.len()).rev() {
        let j = src.below(i as u64 + 1) as usize;
        units.swap(i, j);
    }
    let mut second: Vec<String> = vec![cmd.into()];
    for (g, u) in units {
        second.extend(by_group.get_mut(&g).and_then(|q| q.pop_front()).unwrap_or(u));
    }
    info.sample = format!("{}\n{}\n{}", show(&first), show(&second), progs.iter().map(|p| p.text.as_str()).collect::<Vec<_>>().join("\n"));
    info.key = hash_bytes(info.sample.as_bytes());
    info.evals = 2;
    info.classes.push(if hidden > 0 { "defaults".into() } else { "spelling".into() });
    let (a, b) = (su.build(), su.build());
    let (o1, o2) = (a.run(&first), b.run(&second));
    ended(&o1, "run")?;
    ended(&o2, "run")?;
    info.nontrivial = !o1.failed();
    if o1.text() != o2.text() || o1.code != o2.code {
        return fail(
            "spelling",
            format!(
                "the two command lines report different things\n{}\n--- first\n{}{}\n--- second\n{}{}",
                info.sample, o1.stdout, o1.stderr, o2.stdout, o2.stderr
            ),
        );
    }
    if let Some(d) = diff(&a.files("work"), &b.files("work")) {
        return fail("spelling", format!("the two command lines make different files: {}\n{}", d, info.sample));
    }
    if asked(&a) != asked(&b) {
        return fail("spelling", format!("the two command lines run the compilers differently: {:?} and {:?}\n{}", asked(&a), asked(&b), info.sample));
    }
    Ok(())
}

/// Without a seed, runs differ.
fn unseeded(src: &mut Src, info: &mut Info) -> Result<(), Failure> {
    let p = prog_mut(src, true);
    info.evals = 1;
    info.sample = p.text.clone();
    info.key = hash_bytes(p.text.as_bytes());
    let rel = format!("p.{}", p.ext());
    let mut su = Setup::default();
    su.input(&p, false, &format!("work/{}", rel));
    if p.model(&[]).values().filter(|n| **n > 0).count() < 3 {
        return Ok(());
    }
    info.nontrivial = true;
    info.classes.push("no seed".into());
    let args = Req { files: vec![rel], num: Some(1), all: true, stdout: true, ..Default::default() }.mutate();
    let sc = su.build();
    let mut first: Option<String> = None;
    // at least three algorithms: the chance that 60 runs choose the same one is below 3^-59
    for _ in 0..60 {
        let o = sc.run(&args);
        ended(&o, "run")?;
        info.evals += 1;
        match &first {
            None => first = Some(o.text()),
            Some(f) if *f != o.text() => return Ok(()),
            _ => (),
        }
        std::thread::sleep(std::time::Duration::from_millis(2));
    }
    fail("always-the-same", format!("60 runs without a seed made the same mutant\n{}\n{}", show(&args), p.text))
}

pub fn props() -> Vec<Prop> {
    type Case = fn(&mut Src, &mut Info) -> Result<(), Failure>;
    let p = |id: &'static str, rule: &'static str, quick: u64, case: Case| Prop { id, rule, quick, thorough: quick * 60, cpu_limit_s: 40, workers: 8, case };
    vec![
        p("C07", "mutants were written (or printed)", 2500, c07),
        p("C08", "at least two mutants were written", 4000, c08),
        p("C10", "some mutants accepted and, unless printed, some rejected", 3000, c10),
        p("C11", "files were written, or standard output was requested", 3000, c11),
        p("C12", "a compiler was run on a file", 4000, c12),
        p("C13", "a configuration was written and read, or used in a run that worked", 5000, c13),
        p("C14", "the content decides what has to happen", 16000, c14),
        p("C17", "a usable algorithm is selected, or a listing", 6000, c17),
        p("C21", "the command did something", 4000, c21),
        p("C18", "two or more files, one of them printable", 5000, c18),
    ]
}
