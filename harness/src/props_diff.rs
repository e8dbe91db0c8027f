//! C24: a mutant, compared line by line with the printed original.
use crate::lex::{lex, Tok};
use crate::mut_sol::{need_count, need_mutant, requests, Case};
use crate::mutdrv::alg_names;
use crate::runner::{fail, Failure, Info, Prop};
use crate::src::Src;
use crate::{mut_sol, mut_vy};
use mutagenyx_lib::Language;
use std::collections::BTreeMap;

/// The lines of a mutant without those of the mutation comment. Between items the comment is set
/// off by a blank line, like every item: two readings.
fn without_comment(text: &str, mark: &str) -> Result<Vec<Vec<String>>, String> {
    let lines: Vec<&str> = text.split('\n').collect();
    let starts = |l: &str| {
        l.trim_start().strip_prefix(mark).map(|b| alg_names().iter().any(|a| b.trim_start().starts_with(&format!("{} Mutator:", a)))).unwrap_or(false)
    };
    let first = match lines.iter().position(|l| starts(l)) {
        Some(i) => i,
        None => return Err("no line of the mutant starts the mutation comment".into()),
    };
    let mut end = first + 1;
    while end < lines.len() && lines[end].trim_start().starts_with(mark) && !lines[end].trim_start().starts_with("///") {
        end += 1;
    }
    let rest = |end: usize| lines[..first].iter().chain(&lines[end..]).map(|s| s.to_string()).collect::<Vec<_>>();
    let mut out = vec![rest(end)];
    if end < lines.len() && lines[end].trim().is_empty() {
        out.push(rest(end + 1));
    }
    Ok(out)
}

/// Lines of the two texts between the common lines at the start and at the end.
fn hunks(o: &[String], m: &[String]) -> (usize, usize, usize) {
    let p = o.iter().zip(m).take_while(|(a, b)| a == b).count();
    let most = o.len().min(m.len()) - p;
    let s = o.iter().rev().zip(m.iter().rev()).take(most).take_while(|(a, b)| a == b).count();
    (p, o.len() - s, m.len() - s)
}

fn indent(l: &str) -> &str {
    &l[..l.len() - l.trim_start().len()]
}

fn sol_local(o: &[String], m: &[String], alg: &str) -> Result<(), String> {
    let (p, oe, me) = hunks(o, m);
    if p == oe && p == me {
        // equal operands were swapped
        return Ok(());
    }
    if alg == "SwapLines" {
        let sorted = |v: &[String]| {
            let mut v = v.to_vec();
            v.sort();
            v
        };
        if sorted(&o[p..oe]) != sorted(&m[p..me]) {
            return Err("the lines are not those of the original in another order".into());
        }
        return Ok(());
    }
    let take = |lines: &[String], end: usize| -> Result<Vec<(String, bool, bool)>, String> {
        let l = lex(&lines.join("\n"))?;
        let n = l.toks.len();
        // the ';' of a loop's head ends no statement
        let mut depth = 0i64;
        let heads: Vec<bool> = l
            .toks
            .iter()
            .map(|t| {
                match t {
                    Tok::Op(o) if o == "(" => depth += 1,
                    Tok::Op(o) if o == ")" => depth -= 1,
                    _ => {}
                }
                depth > 0
            })
            .collect();
        Ok((0..n)
            .filter(|&i| l.lines[i] >= p && l.lines[i] < end)
            .map(|i| (l.toks[i].to_string(), i == 0 || l.lines[i - 1] != l.lines[i], !heads[i] && (i + 1 == n || l.lines[i + 1] != l.lines[i])))
            .collect())
    };
    let (a, b) = (take(o, oe)?, take(m, me)?);
    let same = |x: &[(String, bool, bool)], y: &[(String, bool, bool)]| x.len() == y.len() && x.iter().zip(y).all(|(u, v)| u.0 == v.0);
    if same(&a, &b) {
        return Err("lines differ in layout only".into());
    }
    let closes = |x: &(String, bool, bool)| x.2 && [";", "{", "}"].contains(&x.0.as_str());
    let k = a.iter().zip(&b).take_while(|(x, y)| x.0 == y.0).count();
    if let Some(i) = (0..k).find(|&i| closes(&a[i]) && closes(&b[i])) {
        return Err(format!("the lines before the change, up to token {} of the changed lines, differ in layout only", i + 1));
    }
    let k = a.iter().rev().zip(b.iter().rev()).take_while(|(x, y)| x.0 == y.0).count().min(a.len().min(b.len()).saturating_sub(1));
    if let Some(i) = (0..k).find(|&i| {
        let (x, y) = (a.len() - 1 - i, b.len() - 1 - i);
        // a statement that got a block around it can end like the block
        a[x].0 != "}" && x > 0 && y > 0 && a[x].1 && b[y].1 && closes(&a[x - 1]) && closes(&b[y - 1])
    }) {
        return Err(format!("the lines after the change, the last {} tokens of the changed lines, differ in layout only", i + 1));
    }
    let fresh = p == 0 || o[p - 1].trim().is_empty() || [';', '{', '}'].iter().any(|c| o[p - 1].trim_end().ends_with(*c));
    if fresh && p < oe && p < me && !o[p].trim().is_empty() && !m[p].trim().is_empty() && indent(&o[p]) != indent(&m[p]) {
        return Err("the changed lines start at another indentation".into());
    }
    Ok(())
}

/// A dictionary is printed over several lines.
fn logical_lines(v: &[String]) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    let (mut depth, mut doc) = (0, false);
    for l in v {
        let t = l.trim();
        if doc || (depth == 0 && t.starts_with("\"\"\"")) {
            doc = if doc { !t.ends_with("\"\"\"") } else { t.len() < 6 || !t.ends_with("\"\"\"") };
            out.push(l.clone());
            continue;
        }
        if depth > 0 {
            let last = out.last_mut().unwrap();
            last.push('\n');
            last.push_str(l);
        } else {
            out.push(l.clone());
        }
        if depth > 0 && t.starts_with('}') {
            depth -= 1;
        }
        if t.ends_with('{') {
            depth += 1;
        }
    }
    out
}

fn vy_local(o: &[String], m: &[String], alg: &str) -> Result<(), String> {
    let (p, oe, me) = hunks(o, m);
    if p == oe && p == me {
        // equal operands were swapped
        return Ok(());
    }
    let mut count: BTreeMap<&str, i64> = BTreeMap::new();
    o[p..oe].iter().for_each(|l| *count.entry(l).or_default() += 1);
    m[p..me].iter().for_each(|l| *count.entry(l).or_default() -= 1);
    let gone: i64 = count.values().filter(|x| **x > 0).sum();
    let new: i64 = -count.values().filter(|x| **x < 0).sum::<i64>();
    let most = match alg {
        "SwapLines" => (0, 0),
        "DeleteStatement" => (i64::MAX, 1),
        _ => (1, 1),
    };
    if gone > most.0 || new > most.1 {
        return Err(format!("{} lines are gone and {} are new", gone, new));
    }
    if p < oe && p < me && !o[p].trim().is_empty() && !m[p].trim().is_empty() && indent(&o[p]) != indent(&m[p]) {
        return Err("the changed lines start at another indentation".into());
    }
    Ok(())
}

pub fn local(l: Language, original: &str, mutant: &str, alg: &str) -> Result<(), String> {
    let o: Vec<String> = original.split('\n').map(|s| s.to_string()).collect();
    // a deleted Vyper statement stays as a comment, between blank lines where it was a top-level one
    let keep = |l: &&String| !l.trim_start().starts_with('#') && (alg != "DeleteStatement" || !l.trim().is_empty());
    let logical = |v: &[String]| logical_lines(&v.iter().filter(keep).cloned().collect::<Vec<_>>());
    let mut why = String::new();
    for m in without_comment(mutant, if l == Language::Solidity { "//" } else { "#" })? {
        let r = match l {
            Language::Solidity => sol_local(&o, &m, alg).or_else(|e| {
                // a line that fills the page can end with a blank, or leave it to the next line
                let odd = |s: &str| indent(s).len() % 4 == 1;
                let trim = |v: &[String]| v.iter().map(|s| s[odd(s) as usize..].trim_end().to_string()).collect::<Vec<_>>();
                let (to, tm) = (trim(&o), trim(&m));
                let (p, oe, me) = hunks(&to, &tm);
                let edges = (0..p).filter(|&i| o[i] != m[i]).count() + (oe..o.len()).filter(|&i| o[i] != m[i - oe + me]).count();
                if edges > 2 {
                    return Err(e);
                }
                sol_local(&to, &tm, alg)
            }),
            Language::Vyper => vy_local(&logical(&o), &logical(&m), alg),
        };
        match r {
            Ok(()) => return Ok(()),
            Err(e) => why = e,
        }
    }
    Err(why)
}

fn c24(src: &mut Src, info: &mut Info) -> Result<(), Failure> {
    if src.chance(1, 25) {
        return crate::props_cli::through(src, info, "C24");
    }
    let l = if src.chance(2, 5) { Language::Vyper } else { Language::Solidity };
    let mut c: Case = match l {
        Language::Vyper => {
            let mut o = mut_vy::small_opts(src);
            o.unique = src.flag();
            mut_vy::case(src, o, info)
        }
        Language::Solidity => {
            let mut o = mut_sol::small_opts(src);
            o.unique = src.flag();
            mut_sol::case(src, o, info)
        }
    };
    let counts = need_count(&mut c, &[])?;
    for (alg, i, seed) in requests(src, &counts, 2) {
        let m = need_mutant(&mut c, &alg, i, seed, &[])?;
        info.evals += 1;
        info.nontrivial = true;
        info.classes.push(alg.clone());
        let ways = match l {
            Language::Solidity => mut_sol::ways(&c.ast, &m.text, &alg, &[]),
            Language::Vyper => mut_vy::ways(&c.ast, &m.text, &alg, &[]),
        };
        if !matches!(ways, Ok(n) if n > 0) {
            return fail("elsewhere", format!("{} candidate {} seed {}: more than one place differs: {:?}\noriginal:\n{}\nmutant:\n{}", alg, i, seed, ways, info.sample, m.text));
        }
        if let Err(e) = local(l, &info.sample, &m.text, &alg) {
            return fail("not-local", format!("{} candidate {} seed {}: {}\noriginal:\n{}\nmutant:\n{}", alg, i, seed, e, info.sample, m.text));
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C24", rule: "at least one mutant was made", quick: 12000, thorough: 1_200_000, cpu_limit_s: 20, workers: 8, case: c24 }]
}
