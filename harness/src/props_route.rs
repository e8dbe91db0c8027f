//! C25: what is mutated decides the mutants; how the run is set up around it does not.
use crate::cli::*;
use crate::mut_sol;
use crate::props_cli::*;
use crate::runner::{fail, Failure, Info, Prop};
use crate::src::{hash_bytes, Src};
use serde_json::{json, Value};

/// The same JSON value, with other blanks and another order of keys.
fn respell(src: &mut Src, v: &Value, out: &mut String, wide: bool) {
    let gap = |src: &mut Src, out: &mut String| {
        if wide && src.chance(1, 3) {
            out.push_str(*src.pick(&[" ", "\n", "\t", "\r\n", "  "]));
        }
    };
    match v {
        Value::Object(m) => {
            let mut keys: Vec<&String> = m.keys().collect();
            if src.flag() {
                keys.reverse();
            }
            if keys.len() > 1 {
                let k = src.below(keys.len() as u64) as usize;
                keys.rotate_left(k);
            }
            out.push('{');
            for (i, k) in keys.into_iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                gap(src, out);
                out.push_str(&Value::from(k.as_str()).to_string());
                gap(src, out);
                out.push(':');
                gap(src, out);
                respell(src, &m[k], out, wide);
            }
            gap(src, out);
            out.push('}');
        }
        Value::Array(a) => {
            out.push('[');
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                gap(src, out);
                respell(src, x, out, wide);
            }
            gap(src, out);
            out.push(']');
        }
        _ => out.push_str(&v.to_string()),
    }
}

fn c25(src: &mut Src, info: &mut Info) -> Result<(), Failure> {
    let unique = src.flag();
    let p = prog_mut(src, unique);
    let mut req = Req { seed: Some(seed(src)), num: Some(1 + src.few(10)), ..Default::default() };
    let (muts, all) = some_algs(src, &p);
    req.muts = muts;
    req.all = all;
    if src.chance(1, 5) {
        req.fns = mut_sol::choose_fns(src, p.functions());
    }
    // the plain run: an AST in the current directory, mutants written to out
    let plain = format!("p.{}", p.ext());
    let mut su = Setup::default();
    su.compilers();
    su.input(&p, false, &format!("work/{}", plain));
    let mut first = req.clone();
    first.files = vec![plain.clone()];

    // the same request, set up in another way
    let mut s2 = Setup::default();
    s2.compilers();
    let mut second = req.clone();
    let mut how: Vec<String> = vec![];
    let moved = src.flag();
    let rel = if moved { format!("{}{}", folder(src), name(src, 0, p.ext())) } else { plain.clone() };
    if rel != plain {
        how.push("name".into());
    }
    if src.chance(1, 3) {
        how.push("source".into());
        s2.input(&p, true, &format!("work/{}", rel));
    } else if src.flag() {
        how.push("spelling of the AST".into());
        let mut t = String::new();
        let wide = src.flag();
        respell(src, &p.ast, &mut t, wide);
        s2.files.push((format!("work/{}", rel), t.into_bytes()));
    } else {
        s2.input(&p, false, &format!("work/{}", rel));
    }
    let absolute = src.chance(1, 4);
    if absolute {
        how.push("absolute path".into());
    }
    let stdout = src.chance(1, 3);
    let mut dir = "out";
    if stdout {
        how.push("standard output".into());
        second.stdout = true;
    } else if src.flag() {
        dir = *src.pick(&["other", "deep/er/out", "../side", "mutants", "a b", "é"]);
        how.push("output directory".into());
        second.out = Some(dir.into());
    }
    if src.chance(1, 3) {
        how.push("printed original".into());
        second.print_original = true;
    }
    if src.chance(1, 3) {
        how.push("saved configuration".into());
        second.save = true;
    }
    if src.chance(1, 3) {
        how.push("validation".into());
        second.validate = true;
    }
    let stale = !stdout && src.chance(1, 3);
    if stale {
        how.push("files of an earlier run".into());
        for i in 0..3 {
            s2.files.push((format!("work/{}/{}_{}.{}", dir, base_name(&rel), i, p.ext()), vec![b'x'; src.range(0, 9000)]));
        }
    }
    let config = src.chance(1, 4);
    if how.is_empty() {
        how.push("printed original".into());
        second.print_original = true;
    }

    let sc2 = {
        let mut s2 = s2.clone();
        if config {
            how.push("configuration file".into());
            s2.files.push(("work/run.mgnx".into(), vec![]));
        }
        s2.build()
    };
    let file = if absolute { sc2.abs(&format!("work/{}", rel)) } else { rel.clone() };
    second.files = vec![file.clone()];
    let mut cli = second.clone();
    if config {
        let c = json!({"language": p.l.to_string(), "filenames": [file], "num-mutants": req.num, "print-original": second.print_original, "validate-mutants": second.validate});
        sc2.write("work/run.mgnx", c.to_string().as_bytes());
        cli.files = vec!["run.mgnx".into()];
        cli.num = None;
    }
    let root = sc2.abs("");
    info.sample = format!("{}\n{}\n{}", show(&first.mutate()), show(&cli.mutate()).replace(&root, "/ROOT/"), p.text);
    info.key = hash_bytes(info.sample.as_bytes());
    info.evals = 2;
    info.classes = how.clone();

    let sc = su.build();
    let o1 = sc.run(&first.mutate());
    ended(&o1, "plain run")?;
    let o2 = sc2.run(&cli.mutate());
    ended(&o2, "other run")?;
    let ctx = |m: String| format!("{}\ndifference: {:?}\n{}\noutput:\n{}\noutput of the other run:\n{}", m, how, info.sample, o1.stdout, o2.stdout.replace(&root, "/ROOT/"));
    if o1.failed() != o2.failed() {
        return fail("refused", ctx("one of the two runs fails".into()));
    }
    if o1.failed() {
        return Ok(());
    }
    let at = |f: Failure| Failure { sig: f.sig, msg: ctx(f.msg) };
    let a = mutants_of(&sc, &o1, "out", &plain, p.ext()).map_err(at)?;
    info.nontrivial = !a.is_empty();
    info.evals += a.len() as u64;
    // what a run tells about the program before it makes the mutants
    if o1.supported() != o2.supported() || o1.usable() != o2.usable() || o1.lowered() != o2.lowered() {
        return fail("report", ctx("the runs report different candidates".into()));
    }
    if stdout {
        let t = o2.text();
        let all: String = a.iter().map(|x| x.1.as_str()).collect();
        let head = match t.strip_suffix(&all) {
            Some(h) => h,
            None => return fail("other-mutants", ctx(format!("standard output does not end with the mutants of the plain run, which are\n{}", all))),
        };
        let last = head.lines().last().unwrap_or("");
        if !last.starts_with("AST supports at most ") && !last.starts_with("Reached the limit of mutable nodes") {
            return fail("other-mutants", ctx(format!("before the {} mutants of the plain run standard output has\n{}", a.len(), last)));
        }
        return Ok(());
    }
    if stale {
        // leftovers of the earlier run are no mutants of this one
        for i in o2.mutants().len()..3 {
            let _ = std::fs::remove_file(sc2.path(&format!("work/{}/{}_{}.{}", dir, base_name(&rel), i, p.ext())));
        }
    }
    let b = mutants_of(&sc2, &o2, dir, &base_name(&rel), p.ext()).map_err(at)?;
    if let Some(i) = (0..a.len().max(b.len())).find(|&i| a.get(i) != b.get(i)) {
        return fail("other-mutants", ctx(format!("mutant {} is\n{:?}\nin the plain run and in the other run\n{:?}", i, a.get(i), b.get(i))));
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C25", rule: "the plain run made at least one mutant", quick: 5000, thorough: 500_000, cpu_limit_s: 60, workers: 8, case: c25 }]
}
