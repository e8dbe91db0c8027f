//! Vyper mutants: which nodes each algorithm may change, and what the changed program is.
//! Written from the algorithms' documentation; decides C04 and the Vyper side of C05, C06, C09, C15.
use crate::mut_sol::{choose_fns, need_count, need_mutant, perfect, requests, squeeze, Case};
use crate::mutdrv::{alg_names, perms, Drv, Mutant};
use crate::props_sol::print_ast;
use crate::runner::{fail, Failure, Info};
use crate::src::{hash_bytes, Src};
use crate::vy::{self, arr, at, fits, key, l, n, st, sym, Key, Opts, Ref, T};
use mutagenyx_lib::super_ast::SuperAST;
use mutagenyx_lib::Language;
use num_bigint::BigInt;
use serde_json::{json, Value};

pub const ALGS: &[&str] = &[
    "ArithmeticBinaryOp",
    "LogicalBinaryOp",
    "BitwiseBinaryOp",
    "BitshiftBinaryOp",
    "ComparisonBinaryOp",
    "Assignment",
    "DeleteStatement",
    "FunctionCall",
    "SwapFunctionArguments",
    "IfStatement",
    "Integer",
    "SwapOperatorArguments",
    "SwapLines",
    "UnaryOp",
];

#[derive(Clone)]
pub struct Cand<'a> {
    /// nodes from the module down, with the member they were reached through
    pub path: Vec<(&'a Value, String)>,
}

impl<'a> Cand<'a> {
    pub fn node(&self) -> &'a Value {
        self.path.last().unwrap().0
    }
}

#[derive(Clone)]
pub struct Alt {
    over: Vec<(Key, T)>,
    body: Option<(Key, T)>,
    old: String,
    new: Option<String>,
    ordered: bool,
    placed: bool,
}

fn op_names(alg: &str) -> &'static [&'static str] {
    match alg {
        "ArithmeticBinaryOp" => &["Add", "Sub", "Mult", "Div", "Mod", "Pow"],
        "LogicalBinaryOp" => &["And", "Or"],
        "BitwiseBinaryOp" => &["BitAnd", "BitOr", "BitXor"],
        "BitshiftBinaryOp" => &["LShift", "RShift"],
        "ComparisonBinaryOp" => &["Eq", "NotEq", "Gt", "Lt", "GtE", "LtE"],
        "SwapOperatorArguments" => &["Sub", "Div", "Mod", "Pow", "Gt", "Lt", "LtE", "GtE", "LShift", "RShift"],
        _ => &[],
    }
}

fn not_return(v: &Value) -> bool {
    at(v) != "Return"
}

pub fn eligible(alg: &str, v: &Value) -> bool {
    let op = || op_names(alg).contains(&at(&v["op"]));
    match alg {
        "ArithmeticBinaryOp" | "LogicalBinaryOp" | "BitwiseBinaryOp" | "BitshiftBinaryOp" | "ComparisonBinaryOp" => {
            ["BinOp", "BoolOp", "Compare"].contains(&at(v)) && op()
        }
        "SwapOperatorArguments" => ["BinOp", "Compare"].contains(&at(v)) && op(),
        "Assignment" => at(v) == "Assign",
        "DeleteStatement" => {
            let b = arr(v, "body");
            let declares = b.len() == 1 && at(&b[0]) == "Expr" && ["view", "pure", "payable", "nonpayable"].contains(&st(&b[0]["value"], "id"));
            ["FunctionDef", "For", "If", "Module"].contains(&at(v)) && !b.is_empty() && !declares
        }
        "FunctionCall" => at(v) == "Call" && !arr(v, "args").is_empty(),
        "SwapFunctionArguments" => at(v) == "Call" && arr(v, "args").len() >= 2,
        "IfStatement" => at(v) == "If",
        "Integer" => at(v) == "Int",
        "SwapLines" => ["FunctionDef", "For", "If"].contains(&at(v)) && arr(v, "body").iter().filter(|s| not_return(s)).count() >= 2,
        "UnaryOp" => at(v) == "UnaryOp",
        _ => false,
    }
}

pub fn candidates<'a>(ast: &'a Value, alg: &str) -> Vec<Cand<'a>> {
    let mut out = vec![];
    walk(ast, "", alg, &mut vec![], &mut out);
    out
}

fn walk<'a>(v: &'a Value, via: &str, alg: &str, path: &mut Vec<(&'a Value, String)>, out: &mut Vec<Cand<'a>>) {
    match v {
        Value::Array(a) => a.iter().for_each(|x| walk(x, via, alg, path, out)),
        Value::Object(o) => {
            let node = o.contains_key("ast_type");
            if node {
                path.push((v, via.to_string()));
                if eligible(alg, v) {
                    out.push(Cand { path: path.clone() });
                }
            }
            for (k, x) in o {
                walk(x, k, alg, path, out);
            }
            if node {
                path.pop();
            }
        }
        _ => {}
    }
}

fn frag(v: &Value) -> String {
    squeeze(&print_ast(&SuperAST::Vyper(v.clone())).unwrap_or_default())
}

fn with_op(v: &Value, op: &str) -> Value {
    let mut w = v.clone();
    w["op"]["ast_type"] = json!(op);
    w
}

/// What may stand in a body whose only statement was deleted.
fn filler(v: &Value) -> T {
    let ret = |x: T| n("Return", vec![x]);
    let pass = || n("Pass", vec![]);
    let r = match v.get("returns") {
        Some(r) if r.is_object() => r,
        _ => return pass(),
    };
    match at(r) {
        "Name" => {
            let id = st(r, "id");
            if id.starts_with("boo") {
                T::Or(vec![ret(l("const", "True")), ret(l("const", "False"))])
            } else if id.starts_with("uin") {
                ret(T::Int(BigInt::from(0), BigInt::from(10)))
            } else if id.starts_with("int") {
                ret(T::Int(BigInt::from(-10), BigInt::from(10)))
            } else if id.starts_with("str") {
                T::Or(vec![ret(l("str", LOREM))])
            } else {
                pass()
            }
        }
        k @ ("Tuple" | "List") => ret(n(k, arr(r, "elements").iter().map(|_| l("const", "None")).collect())),
        _ => pass(),
    }
}
const LOREM: &str = "Lorem ipsum dolor sit amet, consectetur adipiscing elit, sed do eiusmod tempor incididunt ut labore et dolore magna aliqua.";

pub fn alts(c: &Cand, alg: &str, frags: bool, comment: bool) -> Vec<Alt> {
    let r = Ref::default();
    let v = c.node();
    let f = |x: &Value| if frags { frag(x) } else { String::new() };
    let one = |x: &Value, p: T, old: String, new: Option<String>, ordered: bool| Alt { over: vec![(key(x), p)], body: None, old, new, ordered, placed: false };
    let mut out = vec![];
    match alg {
        "ArithmeticBinaryOp" | "LogicalBinaryOp" | "BitwiseBinaryOp" | "BitshiftBinaryOp" | "ComparisonBinaryOp" => {
            for o in op_names(alg).iter().filter(|o| **o != at(&v["op"])) {
                let w = with_op(v, o);
                out.push(one(v, r.t(&w), f(v), Some(f(&w)), true));
            }
        }
        "SwapOperatorArguments" => {
            let kind = if at(v) == "BinOp" { "Bin" } else { "Cmp" };
            let p = n(&format!("{} {}", kind, sym(at(&v["op"]))), vec![r.t(&v["right"]), r.t(&v["left"])]);
            out.push(one(v, p, f(&v["left"]), Some(f(&v["right"])), false));
        }
        "Assignment" => {
            let x = &v["value"];
            let two = |k: u32| BigInt::from(2).pow(k);
            for b in ["True", "False"] {
                out.push(one(x, l("const", b), f(x), Some(b.into()), true));
            }
            out.push(one(x, T::Int(-two(127), two(128)), f(x), None, true));
            out.push(one(x, T::Dec(-1.8707220957835559e40, 1.8707220957835559e40), f(x), None, true));
        }
        "FunctionCall" => {
            for a in arr(v, "args") {
                out.push(one(v, r.t(a), f(v), Some(f(a)), true));
            }
        }
        "SwapFunctionArguments" => {
            let a = arr(v, "args");
            for i in 0..a.len() {
                for j in i + 1..a.len() {
                    out.push(Alt {
                        over: vec![(key(&a[i]), r.t(&a[j])), (key(&a[j]), r.t(&a[i]))],
                        body: None,
                        old: f(&a[i]),
                        new: Some(f(&a[j])),
                        ordered: false,
                        placed: false,
                    });
                }
            }
        }
        "IfStatement" => {
            let t = &v["test"];
            for b in ["True", "False"] {
                out.push(one(t, l("const", b), f(t), Some(b.into()), true));
            }
            let not = json!({"ast_type": "UnaryOp", "node_id": 1, "op": {"ast_type": "Not", "node_id": 2}, "operand": t});
            out.push(one(t, r.t(&not), f(t), Some(f(&not)), true));
        }
        "Integer" => {
            let x: BigInt = v["value"].to_string().parse().unwrap();
            let single = |k: i32| T::Int(x.clone() + k, x.clone() + k);
            let p = T::Or(vec![single(1), single(-1), T::Int(BigInt::from(i64::MIN), BigInt::from(i64::MAX))]);
            out.push(one(v, p, f(v), None, true));
        }
        "UnaryOp" => out.push(one(v, r.t(&v["operand"]), f(v), Some(f(&v["operand"])), true)),
        "SwapLines" | "DeleteStatement" => {
            let b = arr(v, "body");
            let parts: Vec<T> = b.iter().map(|x| r.t(x)).collect();
            if alg == "SwapLines" {
                for i in 0..b.len() {
                    for j in i + 1..b.len() {
                        if !not_return(&b[i]) || !not_return(&b[j]) {
                            continue;
                        }
                        let mut q = parts.clone();
                        q.swap(i, j);
                        let mut put = |q: Vec<T>, placed: bool| {
                            out.push(Alt { over: vec![], body: Some((key(v), n("Body", q))), old: f(&b[i]), new: Some(f(&b[j])), ordered: false, placed })
                        };
                        put(q.clone(), false);
                        if comment {
                            for at in [0, i] {
                                let mut w = q.clone();
                                w.insert(at, T::Comment);
                                put(w, true);
                            }
                        }
                    }
                }
            } else {
                for i in 0..b.len() {
                    let mut q = parts.clone();
                    q.remove(i);
                    if q.is_empty() {
                        q.push(filler(v));
                    }
                    if comment {
                        q.insert(i.min(q.len()), T::Comment);
                    }
                    out.push(Alt { over: vec![], body: Some((key(v), n("Body", q))), old: f(&b[i]), new: None, ordered: true, placed: true });
                }
            }
        }
        _ => {}
    }
    out
}

/// The statement or declaration the changed code stands in.
fn holder(c: &Cand) -> Option<Key> {
    for k in (1..c.path.len()).rev() {
        let (p, via) = (c.path[k - 1].0, c.path[k].1.as_str());
        match (at(p), via) {
            ("Module" | "FunctionDef" | "For" | "If", "body") | ("If", "orelse") => return Some(key(c.path[k].0)),
            _ => {}
        }
    }
    None
}

fn tree(ast: &Value, c: &Cand, a: &Alt, comment: bool) -> T {
    let mut r = Ref::default();
    for (k, t) in &a.over {
        r.over.insert(*k, t.clone());
    }
    if let Some((k, t)) = &a.body {
        r.body.insert(*k, t.clone());
    }
    if comment && !a.placed {
        if let Some(k) = holder(c) {
            r.before.insert(k);
        }
    }
    r.module(ast)
}

fn matches(ast: &Value, got: &T, c: &Cand, alg: &str) -> Result<(), String> {
    let mut err = String::from("nothing to change");
    for a in alts(c, alg, false, false) {
        match fits(&tree(ast, c, &a, false), got, &mut vec![]) {
            Ok(()) => return Ok(()),
            Err(e) => err = e,
        }
    }
    Err(err)
}

fn has_id(v: &Value, id: u64) -> bool {
    match v {
        Value::Object(o) => v.get("node_id").and_then(|x| x.as_u64()) == Some(id) || o.values().any(|x| has_id(x, id)),
        Value::Array(a) => a.iter().any(|x| has_id(x, id)),
        _ => false,
    }
}

fn by_hint(cands: &[Cand], m: &Mutant) -> Vec<usize> {
    let mut ix: Vec<usize> = (0..cands.len()).collect();
    if let Some(id) = m.node_id {
        ix.sort_by_key(|i| (!has_id(cands[*i].node(), id), usize::MAX - cands[*i].path.len()));
    }
    ix
}

// ------------------------------------------------------------------ cases

pub fn small_opts(src: &mut Src) -> Opts {
    let mut o = Opts::default_with(src);
    o.items = o.items.min(4);
    o.stmts = o.stmts.min(4);
    o.depth = o.depth.min(3);
    o
}

pub fn case(src: &mut Src, o: Opts, info: &mut Info) -> Case {
    let ast = vy::generate(src, o);
    info.key = hash_bytes(ast.to_string().as_bytes());
    info.sample = print_ast(&SuperAST::Vyper(ast.clone())).unwrap_or_else(|e| format!("(does not print: {}) {}", e, ast));
    let seed = src.any_u64();
    info.classes.push("vyper".into());
    Case { sup: SuperAST::Vyper(ast.clone()), ast, drv: Drv::new(Language::Vyper), seed }
}

fn read(m: &Mutant, alg: &str, keep: bool) -> Result<T, Failure> {
    match vy::read(&m.text, keep) {
        Ok(t) => Ok(t),
        Err(e) => fail("syntax", format!("{} mutant is not Vyper: {}\n{}", alg, e, m.text)),
    }
}

pub fn c04(src: &mut Src, info: &mut Info) -> Result<(), Failure> {
    let mut o = small_opts(src);
    o.unique = src.flag();
    let mut c = case(src, o, info);
    let before = c.ast.clone();
    let counts = need_count(&mut c, &[])?;
    for (alg, i, seed) in requests(src, &counts, 2) {
        let m = need_mutant(&mut c, &alg, i, seed, &[])?;
        info.evals += 1;
        info.nontrivial = true;
        info.classes.push(alg.clone());
        let got = read(&m, &alg, false)?;
        let cands = candidates(&before, &alg);
        let mut err = String::from("the algorithm has no candidate in this program");
        let mut ok = false;
        for (k, ci) in by_hint(&cands, &m).into_iter().enumerate() {
            match matches(&before, &got, &cands[ci], &alg) {
                Ok(()) => {
                    ok = true;
                    break;
                }
                Err(e) if k == 0 => err = e,
                Err(_) => {}
            }
        }
        if !ok {
            return fail(
                &format!("edit-{}", alg),
                format!(
                    "{} candidate {} seed {}: the mutant is not the program with one such change: {}\noriginal:\n{}\nmutant:\n{}",
                    alg, i, seed, err, info.sample, m.text
                ),
            );
        }
        if c.sup != SuperAST::Vyper(before.clone()) {
            return fail("input-changed", format!("{} changed the AST it was given", alg));
        }
    }
    Ok(())
}

fn bijection(c: &mut Case, info: &mut Info, alg: &str, cands: &[Cand], fns: &[String], seed: u64, what: &str) -> Result<(), Failure> {
    let n = cands.len();
    let root = c.ast.clone();
    // the candidates borrow another copy of the program: find them by position in ours
    let own = candidates(&root, alg);
    let own: Vec<Cand> = own.into_iter().filter(|x| fns.is_empty() || inside(x, fns)).collect();
    let mut sets = vec![];
    for i in 0..n {
        let m = match c.drv.mutate(&c.sup, alg, i, seed.wrapping_add(i as u64), &perms(fns)) {
            Ok(m) => m,
            Err(e) => return fail("no-mutant", format!("{} candidate {} of {}: {}", alg, i, n, e)),
        };
        info.evals += 1;
        let got = read(&m, alg, false)?;
        let ok: Vec<usize> = by_hint(&own, &m).into_iter().filter(|k| matches(&root, &got, &own[*k], alg).is_ok()).collect();
        if ok.is_empty() {
            return fail(
                &format!("{}-{}", what, alg),
                format!("{} index {} of {} does not change one of the {} nodes it may change\noriginal:\n{}\nmutant:\n{}", alg, i, n, n, info.sample, m.text),
            );
        }
        sets.push(ok);
    }
    if !perfect(&sets, n) {
        return fail(
            &format!("{}-{}", what, alg),
            format!("{}: the {} indices do not reach {} different nodes: {:?}\noriginal:\n{}", alg, n, n, sets, info.sample),
        );
    }
    Ok(())
}

fn inside(c: &Cand, fns: &[String]) -> bool {
    c.path.iter().any(|(v, _)| at(v) == "FunctionDef" && fns.iter().any(|f| f == st(v, "name")))
}

/// Counts and indices, for the whole program (fns empty) or for some functions.
fn counted(src: &mut Src, info: &mut Info, mut c: Case, fns: Vec<String>, max: usize) -> Result<(), Failure> {
    let counts = need_count(&mut c, &fns)?;
    info.evals += 1;
    let ast = c.ast.clone();
    let what = if fns.is_empty() { "index" } else { "inside" };
    let mut per: Vec<(&str, Vec<Cand>)> = vec![];
    let mut outside = 0;
    for alg in ALGS {
        let all = candidates(&ast, alg);
        let total = all.len();
        let cands: Vec<Cand> = all.into_iter().filter(|x| fns.is_empty() || inside(x, &fns)).collect();
        outside += total - cands.len();
        let have = counts.get(*alg).copied().unwrap_or(0);
        if have != cands.len() {
            return fail(
                &format!("count-{}", alg),
                format!("{}: {} candidates reported for functions {:?}, the program has {}\n{}", alg, have, fns, cands.len(), info.sample),
            );
        }
        if !cands.is_empty() {
            info.classes.push(alg.to_string());
            per.push((alg, cands));
        }
    }
    if let Some(x) = counts.keys().find(|k| !ALGS.contains(&k.as_str())) {
        return fail("count-unknown", format!("candidates for {}, which Vyper does not support", x));
    }
    info.nontrivial = if fns.is_empty() { per.iter().any(|p| p.1.len() >= 2) } else { !per.is_empty() && outside > 0 };
    let k = per.len().min(3);
    for _ in 0..k {
        let k = src.below(per.len() as u64) as usize;
        let (alg, cands) = per.swap_remove(k);
        if cands.len() > max {
            continue;
        }
        let seed = src.below(1 << 32);
        bijection(&mut c, info, alg, &cands, &fns, seed, what)?;
    }
    Ok(())
}

pub fn c05(src: &mut Src, info: &mut Info) -> Result<(), Failure> {
    let mut o = small_opts(src);
    o.unique = !src.chance(1, 4);
    let c = case(src, o, info);
    counted(src, info, c, vec![], 24)
}

pub fn fn_names(v: &Value, out: &mut Vec<String>) {
    match v {
        Value::Object(o) => {
            if at(v) == "FunctionDef" && !out.contains(&st(v, "name").to_string()) {
                out.push(st(v, "name").to_string());
            }
            o.values().for_each(|x| fn_names(x, out));
        }
        Value::Array(a) => a.iter().for_each(|x| fn_names(x, out)),
        _ => {}
    }
}

pub fn c06(src: &mut Src, info: &mut Info) -> Result<(), Failure> {
    let mut o = small_opts(src);
    o.clash = src.chance(2, 3);
    o.unique = src.flag();
    o.items = if src.chance(1, 10) { src.range(7, 14) } else { src.range(3, 6) };
    let c = case(src, o, info);
    let mut names = vec![];
    fn_names(&c.ast, &mut names);
    let fns = choose_fns(src, names);
    info.sample = format!("# --function {:?}\n{}", fns, info.sample);
    counted(src, info, c, fns, 16)
}

// ------------------------------------------------------------------- C09

/// The texts of the comments in the tree that tell about a mutation.
fn comments(t: &T, out: &mut Vec<String>) {
    if let T::N(k, c) = t {
        if k == "Comment" {
            if let Some(T::L(_, s)) = c.first() {
                out.push(s.clone());
            }
        }
        c.iter().for_each(|x| comments(x, out));
    }
}

fn says(text: &str, a: &Alt, caps: &[String]) -> Result<(), String> {
    let t = squeeze(text);
    let new = match &a.new {
        Some(x) => x.clone(),
        None => caps.first().cloned().unwrap_or_default(),
    };
    let q = |s: &str| format!("'{}", s);
    let in_order = |x: &str, y: &str| match t.find(&q(x)) {
        Some(i) => t[i + x.len()..].contains(&q(y)),
        None => false,
    };
    if in_order(&a.old, &new) || (!a.ordered && in_order(&new, &a.old)) {
        Ok(())
    } else {
        Err(format!("expected it to tell '{}' and '{}'", a.old, new))
    }
}

/// Whether the mutant carries one comment, before the statement that changed, which tells the change.
pub fn told(ast: &Value, m: &Mutant, alg: &str) -> Result<(), Failure> {
    let bare = read(m, alg, false)?;
    let full = read(m, alg, true)?;
    let mut texts = vec![];
    comments(&full, &mut texts);
    let about: Vec<&String> = texts.iter().filter(|t| alg_names().iter().any(|a| t.trim().starts_with(&format!("{} Mutator:", a)))).collect();
    let kind = format!("comment-{}", alg);
    if about.len() != 1 || texts.len() != 1 {
        return fail(&kind, format!("{} comments, {} of them about a mutation; expected one", texts.len(), about.len()));
    }
    let text = about[0].clone();
    if !text.trim().starts_with(&format!("{} Mutator:", alg)) {
        return fail(&kind, format!("the comment names another algorithm: {}", text));
    }
    if alg_names().iter().map(|a| text.matches(&format!("{} Mutator:", a)).count()).sum::<usize>() != 1 {
        return fail(&kind, "more than one comment about a mutation".to_string());
    }
    let cands = candidates(ast, alg);
    let (mut placed, mut err) = (false, String::new());
    for (k, ci) in by_hint(&cands, m).into_iter().enumerate() {
        let cand = &cands[ci];
        if matches(ast, &bare, cand, alg).is_err() {
            continue;
        }
        for a in alts(cand, alg, true, true) {
            let mut caps = vec![];
            match fits(&tree(ast, cand, &a, true), &full, &mut caps) {
                Err(e) => {
                    if k == 0 && err.is_empty() {
                        err = e;
                    }
                }
                Ok(()) => {
                    placed = true;
                    let r = if alg == "DeleteStatement" {
                        if squeeze(&text).ends_with(&a.old) {
                            Ok(())
                        } else {
                            Err(format!("expected it to hold the statement {}", a.old))
                        }
                    } else {
                        says(&text, &a, &caps)
                    };
                    match r {
                        Ok(()) => return Ok(()),
                        Err(e) => err = e,
                    }
                }
            }
        }
    }
    if !placed {
        return fail(&format!("place-{}", alg), format!("the comment does not stand before the changed statement: {}", err));
    }
    fail(&format!("content-{}", alg), format!("the comment does not describe the change: {}", err))
}

pub fn c09(src: &mut Src, info: &mut Info) -> Result<(), Failure> {
    let mut o = small_opts(src);
    o.unique = src.flag();
    let mut c = case(src, o, info);
    let counts = need_count(&mut c, &[])?;
    let ast = c.ast.clone();
    for (alg, i, seed) in requests(src, &counts, 2) {
        let m = need_mutant(&mut c, &alg, i, seed, &[])?;
        info.evals += 1;
        info.nontrivial = true;
        info.classes.push(alg.clone());
        told(&ast, &m, &alg).map_err(|f| Failure {
            sig: f.sig,
            msg: format!("{} candidate {} seed {}: {}\noriginal:\n{}\nmutant:\n{}", alg, i, seed, f.msg, info.sample, m.text),
        })?;
    }
    Ok(())
}

// ------------------------------------------------------------------- C15

pub fn c15(src: &mut Src, info: &mut Info) -> Result<(), Failure> {
    let mut o = Opts::default_with(src);
    o.hostile = src.chance(3, 4);
    o.clash = src.flag();
    let mut c = case(src, o, info);
    if info.sample.starts_with("(does not print") {
        return fail("print", info.sample.clone());
    }
    let mut names = vec![];
    fn_names(&c.ast, &mut names);
    let fns = if src.chance(1, 3) { choose_fns(src, names) } else { vec![] };
    let counts = need_count(&mut c, &fns)?;
    for (alg, i, seed) in requests(src, &counts, 3) {
        need_mutant(&mut c, &alg, i, seed, &fns)?;
        info.evals += 1;
        info.nontrivial = true;
        info.classes.push(alg);
    }
    Ok(())
}

// ------------------------------------------------------------------ C20

fn goals(c: &Cand, alg: &str) -> Vec<(String, Alt)> {
    let v = c.node();
    let one = |x: &Value, p: T| Alt { over: vec![(key(x), p)], body: None, old: String::new(), new: None, ordered: true, placed: false };
    let two = |k: u32| BigInt::from(2).pow(k);
    match alg {
        "Assignment" => {
            let x = &v["value"];
            vec![
                ("True".into(), one(x, l("const", "True"))),
                ("False".into(), one(x, l("const", "False"))),
                ("negative integer".into(), one(x, T::Int(-two(127), BigInt::from(-1)))),
                ("integer not negative".into(), one(x, T::Int(BigInt::from(0), two(128)))),
                ("decimal".into(), one(x, T::Dec(-1.8707220957835559e40, 1.8707220957835559e40))),
            ]
        }
        "Integer" => {
            let x: BigInt = v["value"].to_string().parse().unwrap();
            let single = |k: i32| T::Int(x.clone() + k, x.clone() + k);
            let other = T::Or(vec![T::Int(BigInt::from(i64::MIN), x.clone() - 2), T::Int(x.clone() + 2, BigInt::from(i64::MAX))]);
            vec![("plus one".into(), one(v, single(1))), ("minus one".into(), one(v, single(-1))), ("another integer".into(), one(v, other))]
        }
        _ => alts(c, alg, false, false).into_iter().enumerate().map(|(i, a)| (format!("change {}", i), a)).collect(),
    }
}

pub fn c20(src: &mut Src, info: &mut Info) -> Result<(), Failure> {
    let mut o = small_opts(src);
    o.unique = true;
    let mut c = case(src, o, info);
    let counts = need_count(&mut c, &[])?;
    let mut reqs = requests(src, &counts, 1);
    reqs.truncate(3);
    let ast = c.ast.clone();
    for (alg, i, base) in reqs {
        let cands = candidates(&ast, &alg);
        let mut open: Vec<Vec<(String, Alt)>> = vec![];
        let mut at: Vec<usize> = vec![];
        let mut tries = 0;
        let mut limit = 1;
        while tries < limit {
            let m = need_mutant(&mut c, &alg, i, base.wrapping_add(tries as u64), &[])?;
            let got = read(&m, &alg, false)?;
            if tries == 0 {
                at = (0..cands.len()).filter(|k| matches(&ast, &got, &cands[*k], &alg).is_ok()).collect();
                if at.is_empty() {
                    break; // not a mutant at all: C04
                }
                open = at.iter().map(|k| goals(&cands[*k], &alg)).collect();
                limit = open.iter().map(|g| g.len()).max().unwrap() * 60 + 60;
                if open.iter().any(|g| g.len() >= 2) {
                    info.nontrivial = true;
                }
            }
            tries += 1;
            for (k, g) in at.iter().zip(open.iter_mut()) {
                g.retain(|x| fits(&tree(&ast, &cands[*k], &x.1, false), &got, &mut vec![]).is_err());
            }
            if open.iter().any(|g| g.is_empty()) {
                break;
            }
        }
        info.evals += tries as u64;
        info.classes.push(alg.clone());
        if !at.is_empty() && open.iter().all(|g| !g.is_empty()) {
            let left: Vec<&String> = open[0].iter().map(|x| &x.0).collect();
            return fail(
                &format!("never-{}", alg),
                format!("{} candidate {}: {} seeds from {} never made these changes: {:?}\noriginal:\n{}", alg, i, tries, base, left, info.sample),
            );
        }
    }
    Ok(())
}

// ------------------------------------------------------------ used by the command line checks

/// Which candidates this text can come from.
pub fn sources(ast: &Value, text: &str, alg: &str, fns: &[String]) -> Result<Vec<usize>, String> {
    let got = vy::read(text, false)?;
    let cs = candidates(ast, alg);
    Ok(cs.iter().filter(|c| fns.is_empty() || inside(c, fns)).enumerate().filter(|x| matches(ast, &got, x.1, alg).is_ok()).map(|x| x.0).collect())
}

/// Candidates per algorithm.
pub fn model(ast: &Value, fns: &[String]) -> std::collections::BTreeMap<String, usize> {
    ALGS.iter().map(|a| (a.to_string(), candidates(ast, a).iter().filter(|c| fns.is_empty() || inside(c, fns)).count())).filter(|x| x.1 > 0).collect()
}

/// In how many ways (up to 2) the algorithm can make this text from the program.
pub fn ways(ast: &Value, text: &str, alg: &str, fns: &[String]) -> Result<usize, String> {
    let got = vy::read(text, false)?;
    let mut n = 0;
    for c in candidates(ast, alg).iter().filter(|c| fns.is_empty() || inside(c, fns)) {
        for a in alts(c, alg, false, false) {
            if fits(&tree(ast, c, &a, false), &got, &mut vec![]).is_ok() {
                n += 1;
                if n == 2 {
                    return Ok(2);
                }
            }
        }
    }
    Ok(n)
}

pub fn functions(ast: &Value) -> Vec<String> {
    let mut names = vec![];
    fn_names(ast, &mut names);
    names
}
