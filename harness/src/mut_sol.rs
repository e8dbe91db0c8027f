//! Solidity mutants: which nodes each algorithm may change, and what the changed program is.
//! Written from the algorithms' documentation; decides C03, C05, C06, C09 and C15 for Solidity.
use crate::lex::*;
use crate::mutdrv::{alg_names, perms, Drv, Mutant};
use crate::props_sol::print_ast;
use crate::runner::{fail, Failure, Info};
use crate::sol::{self, Opts};
use crate::solref::{key, Key, Render};
use crate::src::near;
use crate::src::{hash_bytes, Src};
use mutagenyx_lib::super_ast::SuperAST;
use mutagenyx_lib::Language;
use num_bigint::BigInt;
use serde_json::Value;
use std::rc::Rc;

pub const ALGS: &[&str] = &[
    "ArithmeticBinaryOp",
    "LogicalBinaryOp",
    "BitwiseBinaryOp",
    "BitshiftBinaryOp",
    "ComparisonBinaryOp",
    "Assignment",
    "DeleteStatement",
    "FunctionCall",
    "SwapFunctionArguments",
    "IfStatement",
    "Integer",
    "SwapOperatorArguments",
    "SwapLines",
    "UnaryOp",
    "Require",
    "UncheckedBlock",
    "ElimDelegateCall",
];

pub struct Step<'a> {
    pub node: &'a Value,
    /// the member of the parent node this node was reached through
    pub via: String,
}

pub struct Cand<'a> {
    pub path: Vec<Step<'a>>,
}

impl<'a> Cand<'a> {
    pub fn node(&self) -> &'a Value {
        self.path.last().unwrap().node
    }
}

#[derive(Clone)]
pub struct Alt {
    pub over: Vec<(Key, Pat)>,
    /// printed form of what was replaced / what replaced it (None: read it off the mutant)
    pub old: String,
    pub new: Option<String>,
    pub ordered: bool,
    /// the overriding pattern places the comment itself
    pub placed: bool,
}

fn st<'a>(v: &'a Value, k: &str) -> &'a str {
    v.get(k).and_then(|x| x.as_str()).unwrap_or("")
}
fn nt(v: &Value) -> &str {
    st(v, "nodeType")
}
fn arr<'a>(v: &'a Value, k: &str) -> &'a [Value] {
    v.get(k).and_then(|x| x.as_array()).map(|x| x.as_slice()).unwrap_or(&[])
}

pub fn op_list(alg: &str) -> &'static [&'static str] {
    match alg {
        "ArithmeticBinaryOp" => &["+", "-", "*", "/", "%", "**"],
        "LogicalBinaryOp" => &["&&", "||"],
        "BitwiseBinaryOp" => &["&", "|", "^"],
        "BitshiftBinaryOp" => &["<<", ">>"],
        "ComparisonBinaryOp" => &["==", "!=", ">", "<", ">=", "<="],
        "SwapOperatorArguments" => &["-", "/", "%", "**", ">", "<", "<=", ">=", "<<", ">>"],
        _ => &[],
    }
}

fn int_type(ts: &str) -> Option<(bool, u32)> {
    let (signed, rest) = if let Some(r) = ts.strip_prefix("uint") {
        (false, r)
    } else if let Some(r) = ts.strip_prefix("int") {
        (true, r)
    } else {
        return None;
    };
    if rest.is_empty() || !rest.chars().all(|c| c.is_ascii_digit()) {
        return None;
    }
    rest.parse().ok().map(|n| (signed, n))
}

fn integer_literal(text: &str) -> Option<BigInt> {
    if text.contains('.') || text.to_lowercase().starts_with("0x") && text.len() < 3 {
        return None;
    }
    let t = text.to_lowercase();
    if !t.starts_with("0x") && t.contains("e-") {
        return None;
    }
    int_value(text)
}

pub fn eligible(alg: &str, v: &Value) -> bool {
    match alg {
        "ArithmeticBinaryOp" | "LogicalBinaryOp" | "BitwiseBinaryOp" | "BitshiftBinaryOp" | "ComparisonBinaryOp" | "SwapOperatorArguments" => {
            nt(v) == "BinaryOperation" && op_list(alg).contains(&st(v, "operator"))
        }
        "UnaryOp" => {
            nt(v) == "UnaryOperation" && {
                let l: &[&str] = if v["prefix"] == true { &["++", "--", "~"] } else { &["++", "--"] };
                l.contains(&st(v, "operator"))
            }
        }
        "Assignment" => nt(v) == "Assignment" && (sol::ts_of(v) == "bool" || int_type(&sol::ts_of(v)).is_some()),
        "DeleteStatement" => nt(v) == "Block" && arr(v, "statements").len() > 1 && arr(v, "statements").iter().any(|s| nt(s) == "ExpressionStatement"),
        "FunctionCall" => nt(v) == "FunctionCall" && arr(v, "arguments").iter().any(|a| nt(a) != "Literal"),
        "SwapFunctionArguments" => nt(v) == "FunctionCall" && !same_type_pairs(v).is_empty(),
        "IfStatement" => nt(v) == "IfStatement",
        "Integer" => nt(v) == "Literal" && st(v, "kind") == "number" && integer_literal(st(v, "value")).is_some(),
        "SwapLines" => nt(v) == "Block" && arr(v, "statements").iter().filter(|s| nt(s) != "Return").count() >= 2,
        "Require" => nt(v) == "FunctionCall" && v.get("expression").map(|e| st(e, "name") == "require").unwrap_or(false) && !arr(v, "arguments").is_empty(),
        "UncheckedBlock" => nt(v) == "Block" && arr(v, "statements").iter().any(|s| nt(s) != "Return" && nt(s) != "UncheckedBlock"),
        "ElimDelegateCall" => nt(v) == "MemberAccess" && st(v, "memberName") == "delegatecall",
        _ => false,
    }
}

fn same_type_pairs(v: &Value) -> Vec<(usize, usize)> {
    let a = arr(v, "arguments");
    let mut o = vec![];
    for i in 0..a.len() {
        for j in i + 1..a.len() {
            if sol::ts_of(&a[i]) == sol::ts_of(&a[j]) {
                o.push((i, j));
            }
        }
    }
    o
}

pub fn candidates<'a>(ast: &'a Value, alg: &str) -> Vec<Cand<'a>> {
    let mut out = vec![];
    let mut path: Vec<(&'a Value, String)> = vec![];
    walk(ast, "", alg, &mut path, &mut out);
    out
}

fn walk<'a>(v: &'a Value, via: &str, alg: &str, path: &mut Vec<(&'a Value, String)>, out: &mut Vec<Cand<'a>>) {
    match v {
        Value::Array(a) => {
            for x in a {
                walk(x, via, alg, path, out);
            }
        }
        Value::Object(o) => {
            let is_node = o.contains_key("nodeType");
            if is_node {
                path.push((v, via.to_string()));
                if eligible(alg, v) {
                    out.push(Cand { path: path.iter().map(|(n, s)| Step { node: n, via: s.clone() }).collect() });
                }
            }
            for (k, x) in o {
                if x.is_object() || x.is_array() {
                    walk(x, k, alg, path, out);
                }
            }
            if is_node {
                path.pop();
            }
        }
        _ => {}
    }
}

/// Printed form of a part of the program, without whitespace.
fn frag(v: &Value) -> String {
    squeeze(&print_ast(&SuperAST::Solidity(v.clone())).unwrap_or_default())
}
pub fn squeeze(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

fn pow2(n: u32) -> BigInt {
    BigInt::from(2).pow(n)
}

/// All results the algorithm may produce on the candidate. `frags` asks for the printed pieces.
pub fn alts(c: &Cand, alg: &str, frags: bool, comment: bool) -> Vec<Alt> {
    let r = Render::new();
    let v = c.node();
    let f = |x: &Value| if frags { frag(x) } else { String::new() };
    let mut out = vec![];
    let mut push = |over: Vec<(Key, Pat)>, old: String, new: Option<String>, ordered: bool, placed: bool| out.push(Alt { over, old, new, ordered, placed });
    match alg {
        "ArithmeticBinaryOp" | "LogicalBinaryOp" | "BitwiseBinaryOp" | "BitshiftBinaryOp" | "ComparisonBinaryOp" => {
            let (l, rr) = (Rc::new(r.p(&v["leftExpression"])), Rc::new(r.p(&v["rightExpression"])));
            for o in op_list(alg).iter().filter(|o| **o != st(v, "operator")) {
                push(
                    vec![(key(v), seq(vec![Pat::Shared(l.clone()), t(o), Pat::Shared(rr.clone())]))],
                    st(v, "operator").into(),
                    Some(o.to_string()),
                    true,
                    false,
                );
            }
        }
        "SwapOperatorArguments" => {
            let p = seq(vec![r.p(&v["rightExpression"]), t(st(v, "operator")), r.p(&v["leftExpression"])]);
            push(vec![(key(v), p)], f(&v["leftExpression"]), Some(f(&v["rightExpression"])), false, false);
        }
        "UnaryOp" => {
            let pre = v["prefix"] == true;
            let l: &[&str] = if pre { &["++", "--", "~"] } else { &["++", "--"] };
            for o in l.iter().filter(|o| **o != st(v, "operator")) {
                let e = r.p(&v["subExpression"]);
                let p = if pre { seq(vec![t(o), e]) } else { seq(vec![e, t(o)]) };
                push(vec![(key(v), p)], st(v, "operator").into(), Some(o.to_string()), true, false);
            }
        }
        "Assignment" => {
            let ts = sol::ts_of(v);
            let head = vec![r.p(&v["leftHandSide"]), t(st(v, "operator"))];
            let mk = |p: Pat| {
                let mut h = head.clone();
                h.push(p);
                seq(h)
            };
            if let Some((signed, n)) = int_type(&ts) {
                let (lo, hi) = if signed { (-pow2(n - 1), pow2(n - 1) - 1) } else { (BigInt::from(0), pow2(n) - 1) };
                push(vec![(key(v), mk(Pat::IntRange(lo, hi)))], f(&v["rightHandSide"]), None, true, false);
            } else {
                for b in ["true", "false"] {
                    push(vec![(key(v), mk(t(b)))], f(&v["rightHandSide"]), Some(b.to_string()), true, false);
                }
            }
        }
        "FunctionCall" => {
            for a in arr(v, "arguments").iter().filter(|a| nt(a) != "Literal") {
                push(vec![(key(v), r.p(a))], f(v), Some(f(a)), true, false);
            }
        }
        "SwapFunctionArguments" => {
            let a = arr(v, "arguments");
            for (i, j) in same_type_pairs(v) {
                push(vec![(key(&a[i]), r.p(&a[j])), (key(&a[j]), r.p(&a[i]))], f(&a[i]), Some(f(&a[j])), false, false);
            }
        }
        "IfStatement" => {
            let c = &v["condition"];
            let neg = seq(vec![t("! ("), r.p(c), t(")")]);
            push(vec![(key(c), t("true"))], f(c), Some("true".into()), true, false);
            push(vec![(key(c), t("false"))], f(c), Some("false".into()), true, false);
            push(vec![(key(c), neg)], f(c), Some(format!("!({})", f(c))), true, false);
        }
        "Integer" => {
            let n = integer_literal(st(v, "value")).unwrap();
            let unit = if st(v, "subdenomination").is_empty() { nil() } else { t(st(v, "subdenomination")) };
            let p = Pat::OneOf(vec![Pat::IntIn(vec![n.clone() - 1, n + 1]), Pat::IntRange(BigInt::from(0), pow2(64) - 1)]);
            push(vec![(key(v), seq(vec![p, unit]))], st(v, "value").into(), None, true, false);
        }
        "Require" => {
            let a = &v["arguments"][0];
            push(vec![(key(a), seq(vec![t("! ("), r.p(a), t(")")]))], f(a), Some(format!("!({})", f(a))), true, false);
        }
        "ElimDelegateCall" => {
            push(vec![(key(v), seq(vec![r.p(&v["expression"]), t("."), t("call")]))], "delegatecall".into(), Some("call".into()), true, false);
        }
        "DeleteStatement" | "UncheckedBlock" | "SwapLines" => {
            let ss = arr(v, "statements");
            let parts: Vec<Rc<Pat>> = ss.iter().map(|x| Rc::new(r.p(x))).collect();
            let sh = |i: usize| Pat::Shared(parts[i].clone());
            let cm = || if comment { Pat::Comment } else { nil() };
            if alg == "SwapLines" {
                for i in 0..ss.len() {
                    for j in i + 1..ss.len() {
                        if nt(&ss[i]) == "Return" || nt(&ss[j]) == "Return" {
                            continue;
                        }
                        let order: Vec<usize> = (0..ss.len())
                            .map(|k| {
                                if k == i {
                                    j
                                } else if k == j {
                                    i
                                } else {
                                    k
                                }
                            })
                            .collect();
                        let ps: Vec<Pat> = order.iter().map(|k| sh(*k)).collect();
                        let (fo, fnn) = (f(&ss[i]), f(&ss[j]));
                        // the comment stands before the block, or before the first of the swapped lines
                        push(vec![(key(v), r.block_of(v, ps.clone()))], fo.clone(), Some(fnn.clone()), false, false);
                        if comment {
                            for at in [0, i] {
                                let mut q = ps.clone();
                                q.insert(at, Pat::Comment);
                                push(vec![(key(v), r.block_of(v, q))], fo.clone(), Some(fnn.clone()), false, true);
                            }
                        }
                    }
                }
            } else {
                for i in 0..ss.len() {
                    let mut ps: Vec<Pat> = (0..ss.len()).map(sh).collect();
                    if alg == "DeleteStatement" {
                        if nt(&ss[i]) != "ExpressionStatement" {
                            continue;
                        }
                        ps[i] = cm();
                        push(vec![(key(v), r.block_of(v, ps))], f(&ss[i]), Some(String::new()), true, true);
                    } else {
                        if nt(&ss[i]) == "Return" || nt(&ss[i]) == "UncheckedBlock" {
                            continue;
                        }
                        ps[i] = seq(vec![cm(), t("unchecked {"), sh(i), t("}")]);
                        push(vec![(key(v), r.block_of(v, ps))], f(&ss[i]), Some(format!("unchecked{{{}}}", f(&ss[i]))), true, true);
                    }
                }
            }
        }
        _ => {}
    }
    out
}

/// The statement or declaration that holds the changed code: (key, single-statement body).
fn holder(c: &Cand) -> Option<(Key, bool)> {
    for k in (1..c.path.len()).rev() {
        let (p, n) = (c.path[k - 1].node, c.path[k].node);
        let via = c.path[k].via.as_str();
        match (nt(p), via) {
            ("Block", "statements") | ("UncheckedBlock", "statements") | ("ContractDefinition", "nodes") | ("SourceUnit", "nodes") => {
                return Some((key(n), false))
            }
            ("IfStatement", "trueBody")
            | ("IfStatement", "falseBody")
            | ("ForStatement", "body")
            | ("WhileStatement", "body")
            | ("DoWhileStatement", "body")
                if nt(n) != "Block" =>
            {
                return Some((key(n), true))
            }
            _ => {}
        }
    }
    None
}

pub fn pattern(ast: &Value, c: &Cand, over: &[(Key, Pat)], comment: bool, placed: bool) -> Pat {
    let mut r = Render::new();
    for (k, p) in over {
        r.over.insert(*k, p.clone());
    }
    if !placed {
        if let Some((k, braces)) = holder(c) {
            if braces {
                r.braces.insert(k);
            }
            if comment {
                r.before.insert(k, Pat::Comment);
            }
        }
    }
    r.p(ast)
}

/// Does the mutant text show the candidate with one allowed change?
pub fn matches(ast: &Value, toks: &[Tok], c: &Cand, alg: &str) -> Result<(), String> {
    let al = alts(c, alg, false, false);
    if al.is_empty() {
        return Err("no alternatives".into());
    }
    if al.iter().all(|a| a.over.len() == 1 && a.over[0].0 == al[0].over[0].0) {
        let k = al[0].over[0].0;
        let one = Pat::OneOf(al.into_iter().map(|mut a| a.over.pop().unwrap().1).collect());
        return Matcher::new(toks).matches(&pattern(ast, c, &[(k, one)], false, false));
    }
    let mut err = String::new();
    for a in al {
        match Matcher::new(toks).matches(&pattern(ast, c, &a.over, false, false)) {
            Ok(()) => return Ok(()),
            Err(e) => err = e,
        }
    }
    Err(err)
}

fn has_id(v: &Value, id: u64) -> bool {
    match v {
        Value::Object(o) => v.get("id").and_then(|x| x.as_u64()) == Some(id) || o.values().any(|x| has_id(x, id)),
        Value::Array(a) => a.iter().any(|x| has_id(x, id)),
        _ => false,
    }
}

/// Candidates in the order in which they are worth trying.
fn by_hint(cands: &[Cand], m: &Mutant) -> Vec<usize> {
    let mut ix: Vec<usize> = (0..cands.len()).collect();
    if let Some(id) = m.node_id {
        ix.sort_by_key(|i| (!has_id(cands[*i].node(), id), usize::MAX - cands[*i].path.len()));
    }
    ix
}

pub fn identify(ast: &Value, toks: &[Tok], cands: &[Cand], m: &Mutant, alg: &str) -> Result<usize, String> {
    let mut err = String::from("the algorithm has no candidate in this program");
    for (k, i) in by_hint(cands, m).into_iter().enumerate() {
        match matches(ast, toks, &cands[i], alg) {
            Ok(()) => return Ok(i),
            Err(e) if k == 0 => err = e,
            Err(_) => {}
        }
    }
    Err(err)
}

// ------------------------------------------------------------------ cases

pub fn small_opts(src: &mut Src) -> Opts {
    let mut o = Opts::default_with(src);
    o.members = o.members.min(3);
    o.stmts = o.stmts.min(4);
    o.depth = o.depth.min(3);
    o
}

pub struct Case {
    pub ast: Value,
    pub sup: SuperAST,
    pub drv: Drv,
    pub seed: u64,
}

pub fn case(src: &mut Src, o: Opts, info: &mut Info) -> Case {
    let ast = sol::generate(src, o);
    info.key = hash_bytes(ast.to_string().as_bytes());
    info.sample = print_ast(&SuperAST::Solidity(ast.clone())).unwrap_or_else(|e| format!("(does not print: {}) {}", e, ast));
    let seed = src.any_u64();
    Case { sup: SuperAST::Solidity(ast.clone()), ast, drv: Drv::new(Language::Solidity), seed }
}

/// A few (algorithm, index, seed) requests over the candidates the tool reports.
pub fn requests(src: &mut Src, counts: &std::collections::HashMap<String, usize>, per_alg: usize) -> Vec<(String, usize, u64)> {
    let mut out = vec![];
    for a in alg_names() {
        let n = counts.get(&a).copied().unwrap_or(0);
        if n == 0 {
            continue;
        }
        for _ in 0..per_alg {
            let i = src.below(n as u64) as usize;
            let seed = src.below(1 << 32);
            out.push((a.clone(), i, seed));
        }
    }
    // interleave: the mutators keep state between calls
    let n = out.len();
    for i in (1..n).rev() {
        let j = src.below(i as u64 + 1) as usize;
        out.swap(i, j);
    }
    out
}

pub fn need_mutant(case: &mut Case, alg: &str, index: usize, seed: u64, fns: &[String]) -> Result<Mutant, Failure> {
    match case.drv.mutate(&case.sup, alg, index, seed, &perms(fns)) {
        Ok(m) => Ok(m),
        Err(e) => fail("no-mutant", format!("{} candidate {} seed {}: {}", alg, index, seed, e)),
    }
}

pub fn need_count(case: &mut Case, fns: &[String]) -> Result<std::collections::HashMap<String, usize>, Failure> {
    let (seed, sup) = (case.seed, &case.sup);
    match case.drv.count(sup, &perms(fns), seed) {
        Ok(c) => Ok(c),
        Err(e) => fail("no-count", format!("counting candidates: {}", e)),
    }
}

fn toks_of(m: &Mutant, alg: &str) -> Result<Lexed, Failure> {
    match lex(&m.text) {
        Ok(l) => Ok(l),
        Err(e) => fail("lex", format!("{} mutant is not Solidity text: {}\n{}", alg, e, m.text)),
    }
}

fn pick_opts(src: &mut Src) -> Opts {
    let mut o = small_opts(src);
    o.unique = src.flag();
    o
}

pub fn c03(src: &mut Src, info: &mut Info) -> Result<(), Failure> {
    let o = pick_opts(src);
    let mut c = case(src, o, info);
    let before = c.ast.clone();
    let counts = need_count(&mut c, &[])?;
    for (alg, i, seed) in requests(src, &counts, 2) {
        let m = need_mutant(&mut c, &alg, i, seed, &[])?;
        info.evals += 1;
        info.nontrivial = true;
        info.classes.push(alg.clone());
        let l = toks_of(&m, &alg)?;
        let cands = candidates(&c.ast, &alg);
        if let Err(e) = identify(&c.ast, &l.toks, &cands, &m, &alg) {
            return fail(
                &format!("edit-{}", alg),
                format!(
                    "{} candidate {} seed {}: the mutant is not the program with one such change: {}\noriginal:\n{}\nmutant:\n{}",
                    alg, i, seed, e, info.sample, m.text
                ),
            );
        }
        if c.sup != SuperAST::Solidity(before.clone()) {
            return fail("input-changed", format!("{} changed the AST it was given", alg));
        }
    }
    Ok(())
}

/// Can every index be given its own candidate?
pub fn perfect(sets: &[Vec<usize>], n: usize) -> bool {
    fn go(i: usize, sets: &[Vec<usize>], seen: &mut Vec<bool>, owner: &mut Vec<Option<usize>>) -> bool {
        for &c in &sets[i] {
            if seen[c] {
                continue;
            }
            seen[c] = true;
            if owner[c].is_none() || go(owner[c].unwrap(), sets, seen, owner) {
                owner[c] = Some(i);
                return true;
            }
        }
        false
    }
    let mut owner = vec![None; n];
    (0..sets.len()).all(|i| go(i, sets, &mut vec![false; n], &mut owner))
}

fn bijection(c: &mut Case, info: &mut Info, alg: &str, cands: &[Cand], fns: &[String], seed: u64, what: &str) -> Result<(), Failure> {
    let n = cands.len();
    let mut sets = vec![];
    for i in 0..n {
        let m = match c.drv.mutate(&c.sup, alg, i, seed.wrapping_add(i as u64), &perms(fns)) {
            Ok(m) => m,
            Err(e) => return fail("no-mutant", format!("{} candidate {} of {}: {}", alg, i, n, e)),
        };
        info.evals += 1;
        let l = toks_of(&m, alg)?;
        let root = cands[0].path[0].node;
        let ok: Vec<usize> = by_hint(cands, &m).into_iter().filter(|k| matches(root, &l.toks, &cands[*k], alg).is_ok()).collect();
        if ok.is_empty() {
            return fail(
                &format!("{}-{}", what, alg),
                format!("{} index {} of {} does not change one of the {} nodes it may change\noriginal:\n{}\nmutant:\n{}", alg, i, n, n, info.sample, m.text),
            );
        }
        sets.push(ok);
    }
    if !perfect(&sets, n) {
        return fail(
            &format!("{}-{}", what, alg),
            format!("{}: the {} indices do not reach {} different nodes: {:?}\noriginal:\n{}", alg, n, n, sets, info.sample),
        );
    }
    Ok(())
}

pub fn c05(src: &mut Src, info: &mut Info) -> Result<(), Failure> {
    let mut o = small_opts(src);
    o.unique = !src.chance(1, 4);
    let mut c = case(src, o, info);
    let counts = need_count(&mut c, &[])?;
    info.evals += 1;
    let ast = c.ast.clone();
    let mut per: Vec<(&str, Vec<Cand>)> = vec![];
    for alg in ALGS {
        let cands = candidates(&ast, alg);
        let have = counts.get(*alg).copied().unwrap_or(0);
        if have != cands.len() {
            return fail(&format!("count-{}", alg), format!("{}: {} candidates reported, the program has {}\n{}", alg, have, cands.len(), info.sample));
        }
        if !cands.is_empty() {
            info.classes.push(alg.to_string());
            per.push((alg, cands));
        }
    }
    if let Some(x) = counts.keys().find(|k| !ALGS.contains(&k.as_str())) {
        return fail("count-unknown", format!("candidates for an unknown algorithm {}", x));
    }
    info.nontrivial = per.iter().any(|p| p.1.len() >= 2);
    // every index of up to three algorithms
    let n = per.len().min(3);
    for _ in 0..n {
        let k = src.below(per.len() as u64) as usize;
        let (alg, cands) = per.swap_remove(k);
        if cands.len() > 24 {
            continue;
        }
        let seed = src.below(1 << 32);
        bijection(&mut c, info, alg, &cands, &[], seed, "index")?;
    }
    Ok(())
}

pub fn fn_names(v: &Value, ty: &str, out: &mut Vec<String>) {
    match v {
        Value::Object(o) => {
            if nt(v) == ty && !st(v, "name").is_empty() && !out.contains(&st(v, "name").to_string()) {
                out.push(st(v, "name").to_string());
            }
            o.values().for_each(|x| fn_names(x, ty, out));
        }
        Value::Array(a) => a.iter().for_each(|x| fn_names(x, ty, out)),
        _ => {}
    }
}

pub fn choose_fns(src: &mut Src, mut names: Vec<String>) -> Vec<String> {
    let mut f = vec![];
    let k = 1 + if src.chance(1, 6) { src.range(2, 7) } else { src.below(2) as usize };
    for _ in 0..k {
        if names.is_empty() {
            break;
        }
        let i = src.below(names.len() as u64) as usize;
        f.push(names.swap_remove(i));
    }
    if f.is_empty() || src.chance(1, 12) {
        f.push("noSuchFunction".into());
    }
    if src.chance(1, 6) {
        let i = src.below(f.len() as u64) as usize;
        let n = f[i].clone();
        f.push(if src.flag() { n } else { near(src, &n) });
    }
    f
}

pub fn c06(src: &mut Src, info: &mut Info) -> Result<(), Failure> {
    let mut o = small_opts(src);
    o.clash = src.chance(2, 3);
    o.unique = src.flag();
    o.members = if src.chance(1, 10) { src.range(5, 10) } else { src.range(2, 4) };
    o.stmts = o.stmts.min(3);
    let mut c = case(src, o, info);
    let ast = c.ast.clone();
    let mut names = vec![];
    fn_names(&ast, "FunctionDefinition", &mut names);
    let mut mods = vec![];
    fn_names(&ast, "ModifierDefinition", &mut mods);
    names.retain(|n| !mods.contains(n));
    let fns = choose_fns(src, names);
    info.sample = format!("// --function {:?}\n{}", fns, info.sample);
    let counts = need_count(&mut c, &fns)?;
    info.evals += 1;
    let mut per: Vec<(&str, Vec<Cand>)> = vec![];
    let mut outside = 0;
    for alg in ALGS {
        let all = candidates(&ast, alg);
        let total = all.len();
        let cands: Vec<Cand> =
            all.into_iter().filter(|c| c.path.iter().any(|s| nt(s.node) == "FunctionDefinition" && fns.iter().any(|f| f == st(s.node, "name")))).collect();
        outside += total - cands.len();
        let have = counts.get(*alg).copied().unwrap_or(0);
        if have != cands.len() {
            return fail(
                &format!("count-{}", alg),
                format!("{}: {} candidates reported for functions {:?}, they have {} (whole program {})\n{}", alg, have, fns, cands.len(), total, info.sample),
            );
        }
        if !cands.is_empty() {
            info.classes.push(alg.to_string());
            per.push((alg, cands));
        }
    }
    info.nontrivial = !per.is_empty() && outside > 0;
    let n = per.len().min(3);
    for _ in 0..n {
        let k = src.below(per.len() as u64) as usize;
        let (alg, cands) = per.swap_remove(k);
        if cands.len() > 16 {
            continue;
        }
        let seed = src.below(1 << 32);
        bijection(&mut c, info, alg, &cands, &fns, seed, "inside")?;
    }
    Ok(())
}

// ------------------------------------------------------------------- C09

/// Merge the mutation comment into the token stream. Err: none or several.
fn with_comment(l: &Lexed, alg: &str) -> Result<(Vec<Tok>, String), String> {
    let mut found: Vec<(usize, String)> = vec![];
    let mut i = 0;
    while i < l.comments.len() {
        let (_, raw) = &l.comments[i];
        let body = raw.trim_start_matches("//").trim();
        let names_one = raw.starts_with("//") && alg_names().iter().any(|a| body.starts_with(&format!("{} Mutator:", a)));
        if names_one {
            let pos = l.comment_pos[i];
            let mut text = String::new();
            let mut k = i;
            while k < l.comments.len() && l.comment_pos[k] == pos && l.comments[k].1.starts_with("//") {
                let body = &l.comments[k].1[2..];
                if k > i && alg_names().iter().any(|a| body.trim().starts_with(&format!("{} Mutator:", a))) {
                    break;
                }
                text.push_str(body);
                text.push('\n');
                k += 1;
            }
            found.push((pos, text));
            i = k;
        } else {
            i += 1;
        }
    }
    if found.len() != 1 {
        return Err(format!("{} mutation comments, expected exactly one", found.len()));
    }
    let (pos, text) = found.pop().unwrap();
    if !text.trim().starts_with(&format!("{} Mutator:", alg)) {
        return Err(format!("the comment names another algorithm: {}", text));
    }
    let mut toks = l.toks.clone();
    toks.insert(pos, Tok::Comment(text.clone()));
    Ok((toks, text))
}

fn says(text: &str, old: &str, new: &str, ordered: bool) -> bool {
    let t = squeeze(text);
    let q = |s: &str| format!("'{}'", s);
    let in_order = |a: &str, b: &str| match t.find(&q(a)) {
        Some(i) => b.is_empty() || t[i + a.len()..].contains(&q(b)),
        None => false,
    };
    in_order(old, new) || (!ordered && in_order(new, old))
}

/// Whether the mutant carries one comment, before the statement that changed, which tells the change.
pub fn told(ast: &Value, m: &Mutant, alg: &str) -> Result<(), Failure> {
    let l = toks_of(m, alg)?;
    let (toks, text) = match with_comment(&l, alg) {
        Ok(x) => x,
        Err(e) => return fail(&format!("comment-{}", alg), e),
    };
    let cands = candidates(ast, alg);
    let mut placed = false;
    let mut err = String::new();
    for (k, ci) in by_hint(&cands, m).into_iter().enumerate() {
        let cand = &cands[ci];
        if matches(ast, &l.toks, cand, alg).is_err() {
            continue;
        }
        for a in alts(cand, alg, true, true) {
            let mut mt = Matcher::new(&toks);
            match mt.check(&pattern(ast, cand, &a.over, true, a.placed)) {
                Err(e) => {
                    if k == 0 && err.is_empty() {
                        err = e;
                    }
                }
                Ok(()) => {
                    placed = true;
                    let new = match &a.new {
                        Some(n) => n.clone(),
                        None => mt.number.clone().unwrap_or_default(),
                    };
                    if says(&text, &a.old, &new, a.ordered) {
                        return Ok(());
                    }
                    err = format!("expected it to tell '{}' and '{}'", a.old, new);
                }
            }
        }
    }
    if !placed {
        return fail(&format!("place-{}", alg), format!("the comment does not stand before the changed statement: {}", err));
    }
    fail(&format!("content-{}", alg), format!("the comment does not describe the change: {}", err))
}

pub fn c09(src: &mut Src, info: &mut Info) -> Result<(), Failure> {
    let o = pick_opts(src);
    let mut c = case(src, o, info);
    let counts = need_count(&mut c, &[])?;
    let ast = c.ast.clone();
    for (alg, i, seed) in requests(src, &counts, 2) {
        let m = need_mutant(&mut c, &alg, i, seed, &[])?;
        info.evals += 1;
        info.nontrivial = true;
        info.classes.push(alg.clone());
        told(&ast, &m, &alg).map_err(|f| Failure {
            sig: f.sig,
            msg: format!("{} candidate {} seed {}: {}\noriginal:\n{}\nmutant:\n{}", alg, i, seed, f.msg, info.sample, m.text),
        })?;
    }
    Ok(())
}

// ------------------------------------------------------------------- C15

pub fn c15(src: &mut Src, info: &mut Info) -> Result<(), Failure> {
    let mut o = Opts::default_with(src);
    o.hostile = src.chance(3, 4);
    o.clash = src.flag();
    let mut c = case(src, o, info);
    if info.sample.starts_with("(does not print") {
        return fail("print", info.sample.clone());
    }
    let mut names = vec![];
    fn_names(&c.ast, "FunctionDefinition", &mut names);
    let fns = if src.chance(1, 3) { choose_fns(src, names) } else { vec![] };
    let counts = need_count(&mut c, &fns)?;
    for (alg, i, seed) in requests(src, &counts, 3) {
        need_mutant(&mut c, &alg, i, seed, &fns)?;
        info.evals += 1;
        info.nontrivial = true;
        info.classes.push(alg);
    }
    Ok(())
}

// ------------------------------------------------------------------ C20

/// The changes of a candidate that some seed has to make; each entry lists equivalent forms.
fn goals(c: &Cand, alg: &str) -> Vec<(String, Vec<Alt>)> {
    let al = alts(c, alg, false, false);
    let v = c.node();
    let r = Render::new();
    let one = |what: &str, p: Pat| (what.to_string(), vec![Alt { over: vec![(key(v), p)], old: String::new(), new: None, ordered: true, placed: false }]);
    match alg {
        "SwapFunctionArguments" => {
            // some pair of each type
            let a = arr(v, "arguments");
            let mut g: Vec<(String, Vec<Alt>)> = vec![];
            for ((i, _), x) in same_type_pairs(v).into_iter().zip(al) {
                let ts = sol::ts_of(&a[i]);
                match g.iter_mut().find(|y| y.0 == ts) {
                    Some(y) => y.1.push(x),
                    None => g.push((ts, vec![x])),
                }
            }
            g
        }
        "Assignment" => match int_type(&sol::ts_of(v)) {
            None => al.into_iter().enumerate().map(|(i, a)| (format!("change {}", i), vec![a])).collect(),
            Some((signed, n)) => {
                let mk = |lo: BigInt, hi: BigInt| seq(vec![r.p(&v["leftHandSide"]), t(st(v, "operator")), Pat::IntRange(lo, hi)]);
                if signed {
                    vec![one("negative number", mk(-pow2(n - 1), BigInt::from(-1))), one("number not negative", mk(BigInt::from(0), pow2(n - 1) - 1))]
                } else {
                    // wider types get numbers of 128 bits
                    let half = pow2(n.min(128) - 1);
                    vec![one("small number", mk(BigInt::from(0), half.clone() - 1)), one("large number", mk(half, pow2(n) - 1))]
                }
            }
        },
        "Integer" => {
            let n = integer_literal(st(v, "value")).unwrap();
            let unit = || {
                if st(v, "subdenomination").is_empty() {
                    nil()
                } else {
                    t(st(v, "subdenomination"))
                }
            };
            let other = Pat::OneOf(vec![Pat::IntRange(BigInt::from(0), n.clone() - 2), Pat::IntRange(n.clone() + 2, pow2(64) - 1)]);
            vec![
                one("minus one", seq(vec![Pat::IntIn(vec![n.clone() - 1]), unit()])),
                one("plus one", seq(vec![Pat::IntIn(vec![n + 1]), unit()])),
                one("another number", seq(vec![other, unit()])),
            ]
        }
        _ => al.into_iter().enumerate().map(|(i, a)| (format!("change {}", i), vec![a])).collect(),
    }
}

pub fn c20(src: &mut Src, info: &mut Info) -> Result<(), Failure> {
    let mut o = small_opts(src);
    o.unique = true;
    let mut c = case(src, o, info);
    let counts = need_count(&mut c, &[])?;
    let mut reqs = requests(src, &counts, 1);
    reqs.truncate(3);
    let ast = c.ast.clone();
    for (alg, i, base) in reqs {
        let cands = candidates(&ast, &alg);
        // the candidate, or the candidates that look the same, and the changes not seen yet
        let mut open: Vec<Vec<(String, Vec<Alt>)>> = vec![];
        let mut at: Vec<usize> = vec![];
        let mut tries = 0;
        let mut limit = 1;
        while tries < limit {
            let m = need_mutant(&mut c, &alg, i, base.wrapping_add(tries as u64), &[])?;
            let l = toks_of(&m, &alg)?;
            if tries == 0 {
                at = (0..cands.len()).filter(|k| matches(&ast, &l.toks, &cands[*k], &alg).is_ok()).collect();
                if at.is_empty() {
                    break; // not a mutant at all: C03
                }
                open = at.iter().map(|k| goals(&cands[*k], &alg)).collect();
                limit = open.iter().map(|g| g.len()).max().unwrap() * 60 + 60;
                if open.iter().any(|g| g.len() >= 2) {
                    info.nontrivial = true;
                }
            }
            tries += 1;
            for (k, g) in at.iter().zip(open.iter_mut()) {
                g.retain(|x| !x.1.iter().any(|a| Matcher::new(&l.toks).matches(&pattern(&ast, &cands[*k], &a.over, false, false)).is_ok()));
            }
            if open.iter().any(|g| g.is_empty()) {
                break;
            }
        }
        info.evals += tries as u64;
        info.classes.push(alg.clone());
        if !at.is_empty() && open.iter().all(|g| !g.is_empty()) {
            let left: Vec<&String> = open[0].iter().map(|x| &x.0).collect();
            return fail(
                &format!("never-{}", alg),
                format!("{} candidate {}: {} seeds from {} never made these changes: {:?}\noriginal:\n{}", alg, i, tries, base, left, info.sample),
            );
        }
    }
    Ok(())
}

// ------------------------------------------------------------ used by the command line checks

/// Which candidates this text can come from.
pub fn sources(ast: &Value, text: &str, alg: &str, fns: &[String]) -> Result<Vec<usize>, String> {
    let l = lex(text)?;
    let cs = candidates(ast, alg);
    Ok(cs.iter().filter(|c| inside(c, fns)).enumerate().filter(|x| matches(ast, &l.toks, x.1, alg).is_ok()).map(|x| x.0).collect())
}

fn inside(c: &Cand, fns: &[String]) -> bool {
    fns.is_empty() || c.path.iter().any(|s| nt(s.node) == "FunctionDefinition" && fns.iter().any(|f| f == st(s.node, "name")))
}

/// Candidates per algorithm.
pub fn model(ast: &Value, fns: &[String]) -> std::collections::BTreeMap<String, usize> {
    ALGS.iter().map(|a| (a.to_string(), candidates(ast, a).iter().filter(|c| inside(c, fns)).count())).filter(|x| x.1 > 0).collect()
}

/// In how many ways (up to 2) the algorithm can make this text from the program.
pub fn ways(ast: &Value, text: &str, alg: &str, fns: &[String]) -> Result<usize, String> {
    let l = lex(text)?;
    let mut n = 0;
    for c in candidates(ast, alg).iter().filter(|c| inside(c, fns)) {
        if matches(ast, &l.toks, c, alg).is_err() {
            continue;
        }
        for a in alts(c, alg, false, false) {
            if Matcher::new(&l.toks).matches(&pattern(ast, c, &a.over, false, false)).is_ok() {
                n += 1;
                if n == 2 {
                    return Ok(2);
                }
            }
        }
    }
    Ok(n)
}

/// Names of functions that are not also names of modifiers.
pub fn functions(ast: &Value) -> Vec<String> {
    let (mut names, mut mods) = (vec![], vec![]);
    fn_names(ast, "FunctionDefinition", &mut names);
    fn_names(ast, "ModifierDefinition", &mut mods);
    names.retain(|n| !mods.contains(n));
    names
}
