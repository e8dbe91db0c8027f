//! C22: permissions. A history of grants against a list model, and the candidates and mutants under
//! arbitrary grants against those under the grants of a function restriction.
use crate::mut_sol::{self, ALGS};
use crate::mut_vy;
use crate::mutdrv::{perms, Drv};
use crate::runner::{fail, guarded, Failure, Info, Prop};
use crate::src::{hash_bytes, Src};
use mutagenyx_lib::permissions::*;
use mutagenyx_lib::super_ast::SuperAST;
use serde_json::Value;

/// A grant or a query: action, scope, the name (None: any), yes or no. The scope `*` has no name.
#[derive(Clone, Debug, PartialEq)]
struct G {
    visit: bool,
    scope: char,
    name: Option<String>,
    allow: bool,
}

fn grant(s: &mut Src, names: &[String]) -> G {
    let scope = *s.pick(&['n', 'c', 'n', 'c', 't', '*']);
    let name = if scope == '*' || s.chance(1, 4) { None } else { Some(s.pick(names).clone()) };
    G { visit: s.chance(1, 3), scope, name, allow: !s.chance(1, 4) }
}

fn action(g: &G) -> PermissionAction {
    let p = if g.allow { Permission::Allow } else { Permission::Deny };
    let o = match &g.name {
        None => PermissionObject::Any(p.clone()),
        Some(n) => PermissionObject::Value(n.clone(), p.clone()),
    };
    let sc = match g.scope {
        'n' => PermissionScope::Name(o),
        'c' => PermissionScope::Children(o),
        't' => PermissionScope::Type(o),
        _ => PermissionScope::Any(p),
    };
    if g.visit {
        PermissionAction::Visit(sc)
    } else {
        PermissionAction::Mutate(sc)
    }
}

/// Does the grant answer the query?
fn answers(g: &G, q: &G) -> bool {
    g.visit == q.visit && g.allow == q.allow && (g.scope == '*' || (g.scope == q.scope && (g.name.is_none() || g.name == q.name)))
}

fn history(s: &mut Src, info: &mut Info) -> Result<(), Failure> {
    let names: Vec<String> = ["f", "g", "", "F", "*", "ff"].iter().map(|x| x.to_string()).collect();
    let mut real = Permissions::new();
    let mut model: Vec<G> = vec![];
    let mut log: Vec<String> = vec![];
    for _ in 0..3 + s.small(25) {
        match s.below(12) {
            0..=4 => {
                let g = grant(s, &names);
                log.push(format!("add {:?}", g));
                real.add_permission(action(&g));
                model.push(g);
            }
            5 | 6 => {
                let g = if !model.is_empty() && s.chance(4, 5) { model[s.below(model.len() as u64) as usize].clone() } else { grant(s, &names) };
                log.push(format!("remove {:?}", g));
                real.remove_permission(action(&g));
                if let Some(i) = model.iter().position(|x| *x == g) {
                    model.remove(i);
                }
            }
            7 if s.chance(1, 4) => {
                log.push("clear".into());
                real.clear();
                model.clear();
            }
            8 => {
                // a copy goes its own way
                let mut copy = real.clone();
                let g = grant(s, &names);
                copy.add_permission(action(&g));
                if copy.len() != model.len() + 1 {
                    return fail("copy", format!("{}: a copy with one more grant has {} of {}", log.join("; "), copy.len(), model.len() + 1));
                }
                copy.clear();
            }
            _ => {
                let q = grant(s, &names);
                let have = match guarded(|| real.have_permission(action(&q))) {
                    Ok(h) => h,
                    Err(e) => return fail("panic", format!("{}: {:?}: {}", log.join("; "), q, e)),
                };
                let want = model.iter().any(|g| answers(g, &q));
                info.evals += 1;
                if have != want {
                    return fail("answer", format!("after {}: permission {:?} is {}, the grants say {}", log.join("; "), q, have, want));
                }
            }
        }
        if real.len() != model.len() || real.is_empty() != model.is_empty() {
            return fail("size", format!("after {}: {} grants (empty: {}), expected {}", log.join("; "), real.len(), real.is_empty(), model.len()));
        }
    }
    info.classes.push("history".into());
    info.nontrivial = model.len() >= 2 && info.evals > 0;
    info.sample = log.join("; ");
    info.key = hash_bytes(info.sample.as_bytes());
    Ok(())
}

/// Candidates and mutants under these grants.
fn program(s: &mut Src, info: &mut Info) -> Result<(), Failure> {
    let vyper = s.chance(2, 5);
    let (mut drv, sup, ast, names): (Drv, SuperAST, Value, Vec<String>) = if vyper {
        let mut o = mut_vy::small_opts(s);
        o.stmts = o.stmts.min(3);
        let c = mut_vy::case(s, o, info);
        let mut n = vec![];
        mut_vy::fn_names(&c.ast, &mut n);
        (c.drv, c.sup, c.ast, n)
    } else {
        let mut o = mut_sol::small_opts(s);
        o.clash = s.flag();
        o.members = s.range(2, 4);
        o.stmts = o.stmts.min(3);
        let c = mut_sol::case(s, o, info);
        let mut n = vec![];
        mut_sol::fn_names(&c.ast, "FunctionDefinition", &mut n);
        mut_sol::fn_names(&c.ast, "ModifierDefinition", &mut n);
        (c.drv, c.sup, c.ast, n)
    };
    let mut all = names.clone();
    all.push("noSuchFunction".into());
    let mut grants: Vec<G> = (0..s.small(5)).map(|_| grant(s, &all)).collect();
    if s.chance(3, 4) {
        // most of the time there is something to see
        grants.push(G { visit: true, scope: '*', name: None, allow: true });
        grants.push(G { visit: false, scope: 'c', name: Some(s.pick(&all).clone()), allow: true });
        let i = s.below(grants.len() as u64) as usize;
        let g = grants.pop().unwrap();
        grants.insert(i, g);
    }
    let mut p = Permissions::new();
    for g in &grants {
        p.add_permission(action(g));
    }
    // what they amount to
    let ok = |visit: bool, scope: char, name: Option<&str>| grants.iter().any(|g| answers(g, &G { visit, scope, name: name.map(String::from), allow: true }));
    let none = !ok(true, '*', None);
    let any = ok(false, 'n', None) || ok(false, 'c', None);
    let inside: Vec<String> = names.iter().filter(|n| ok(false, 'c', Some(n))).cloned().collect();
    let named: Vec<String> = names.iter().filter(|n| ok(false, 'n', Some(n))).cloned().collect();
    // functions from the outside in, and whether the candidate is itself the innermost of them
    let owners = |alg: &str| -> Vec<(Vec<String>, bool)> {
        let one = |path: Vec<&Value>, tag: &str, kinds: &[&str]| {
            let is = |n: &Value| n.get(tag).and_then(|x| x.as_str()).map_or(false, |x| kinds.contains(&x));
            let own = path.iter().filter(|n| is(n)).map(|n| n["name"].as_str().unwrap_or("").to_string()).collect();
            (own, is(path[path.len() - 1]))
        };
        if vyper {
            mut_vy::candidates(&ast, alg).iter().map(|c| one(c.path.iter().map(|x| x.0).collect(), "ast_type", &["FunctionDef"])).collect()
        } else {
            mut_sol::candidates(&ast, alg)
                .iter()
                .map(|c| one(c.path.iter().map(|x| x.node).collect(), "nodeType", &["FunctionDefinition", "ModifierDefinition"]))
                .collect()
        }
    };
    let allowed = |(own, itself): &(Vec<String>, bool)| {
        let n = own.len();
        !none && (any || own[..if *itself { n - 1 } else { n }].iter().any(|f| inside.contains(f)) || (*itself && named.contains(&own[n - 1])))
    };
    let nothing = none || (!any && inside.is_empty() && named.is_empty());
    info.sample = format!("// grants {:?}\n{}", grants, info.sample);
    info.classes.push(
        if nothing {
            "nothing"
        } else if any {
            "everything"
        } else {
            "some functions"
        }
        .into(),
    );
    let seed = s.any_u64();
    let have = match drv.count(&sup, &p, seed) {
        Ok(a) => a,
        Err(e) => return fail("no-count", format!("counting candidates: {}\n{}", e, info.sample)),
    };
    info.evals += 1;
    let what = if nothing {
        "nothing".to_string()
    } else if any {
        "everything".to_string()
    } else {
        format!("functions {:?} and inside {:?}", named, inside)
    };
    for alg in ALGS {
        let (h, w) = (have.get(*alg).copied().unwrap_or(0), owners(alg).iter().filter(|o| allowed(o)).count());
        if h != w {
            return fail(&format!("count-{}", alg), format!("the grants allow {}: {} has {} candidates, expected {}\n{}", what, alg, h, w, info.sample));
        }
    }
    info.nontrivial = !nothing && !any && have.values().any(|n| *n > 0);
    // the same as a restriction to functions
    let plain = if any { perms(&[]) } else { perms(&inside) };
    if !any && named != inside {
        return Ok(());
    }
    let algs: Vec<&str> = ALGS.iter().filter(|a| have.get(**a).copied().unwrap_or(0) > 0).cloned().collect();
    for _ in 0..algs.len().min(3) {
        let alg = *s.pick(&algs);
        let i = s.below(have[alg] as u64) as usize;
        match (drv.mutate(&sup, alg, i, seed, &p), drv.mutate(&sup, alg, i, seed, &plain)) {
            (Ok(a), Ok(b)) => {
                info.evals += 1;
                if a.text != b.text {
                    return fail(
                        &format!("mutant-{}", alg),
                        format!("the grants allow {}: {} candidate {} gives another mutant\n{}\ninstead of\n{}\n{}", what, alg, i, a.text, b.text, info.sample),
                    );
                }
            }
            (Err(e), _) | (_, Err(e)) => return fail("no-mutant", format!("the grants allow {}: {} candidate {}: {}\n{}", what, alg, i, e, info.sample)),
        }
    }
    Ok(())
}

fn c22(s: &mut Src, info: &mut Info) -> Result<(), Failure> {
    if s.chance(1, 2) {
        history(s, info)
    } else {
        program(s, info)
    }
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C22",
        rule: "grants that allow some functions but not the whole program, with candidates; or a history that ends with two grants",
        quick: 160_000,
        thorough: 12_000_000,
        cpu_limit_s: 20,
        workers: 8,
        case: c22,
    }]
}
