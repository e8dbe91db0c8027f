//! C16 (text layout) and C19 (settings store).
use crate::runner::{fail, guarded, Failure, Info, Prop};
use crate::src::{hash_bytes, Src};
use mutagenyx_lib::preferences::{PreferenceValue as V, Preferences};
use mutagenyx_lib::pretty_printer::*;
use serde_json::Value;
use std::collections::HashMap;
use std::convert::TryFrom;

// ------------------------------------------------------------------- C16

#[derive(Debug, Clone)]
enum Op {
    Token(String),
    Tokens(String, usize),
    Str(String),
    Triple(String),
    Space,
    Spaces(usize),
    Newline,
    Line,
    In,
    InBy(usize),
    Out,
    OutBy(usize),
    Flow(String, String),
}

fn word(s: &mut Src, max: usize) -> String {
    let n = 1 + s.small(max);
    let set: Vec<char> = match s.below(8) {
        0 => "αβ漢é".chars().collect(),
        1 => "\"'\\/*#\t-".chars().collect(),
        _ => "abcdefgh".chars().collect(),
    };
    (0..n).map(|_| *s.pick(&set)).collect()
}
fn token(s: &mut Src, max: usize) -> String {
    // tokens start and end with something visible
    let w = word(s, max).replace('\t', "t");
    if s.chance(1, 6) {
        format!("{} {}", w, word(s, max).replace('\t', "t"))
    } else {
        w
    }
}

fn text(s: &mut Src, page: usize) -> String {
    let n = s.small(40);
    let mut t = String::new();
    if s.chance(1, 6) {
        t.push(' ');
    }
    for i in 0..n {
        if i > 0 {
            match s.below(8) {
                0 => t.push_str("  "),
                1 => t.push('\n'),
                2 => t.push_str(" \n  "),
                _ => t.push(' '),
            }
        }
        let m = if s.chance(1, 10) { page + 6 } else { 9 };
        t.push_str(&word(s, m));
    }
    if s.chance(1, 6) {
        t.push_str(*s.pick(&[" ", "\n", "  \n"]));
    }
    t
}

fn words(t: &str) -> Vec<String> {
    t.split([' ', '\n']).filter(|w| !w.is_empty()).map(|w| w.to_string()).collect()
}

fn c16(s: &mut Src, info: &mut Info) -> Result<(), Failure> {
    let tab = 1 + s.small(7);
    let page = match s.below(4) {
        0 => s.range(2, 20),
        1 => s.range(2, 60),
        _ => s.range(20, 160),
    };
    let max_indent = (page / tab).saturating_sub(1);
    let n = 1 + s.small(24);
    let mut ops = vec![];
    for _ in 0..n {
        ops.push(match s.below(14) {
            0..=2 => Op::Token(token(s, if s.log.len() % 7 == 0 { page + 4 } else { 8 })),
            3 => Op::Tokens(token(s, 4), s.range(0, 4)),
            4 => Op::Str(token(s, 10)),
            5 => Op::Triple(token(s, 10)),
            6 => Op::Space,
            7 => Op::Spaces(s.range(0, 4)),
            8 => Op::Newline,
            9 => Op::Line,
            10 => {
                if s.flag() {
                    Op::In
                } else {
                    Op::InBy(s.range(0, 5))
                }
            }
            11 => {
                if s.flag() {
                    Op::Out
                } else {
                    Op::OutBy(s.range(0, 5))
                }
            }
            _ => {
                let next = s.pick(&["", " * ", "# ", "// ", "/// "]).to_string();
                Op::Flow(text(s, page), next)
            }
        });
    }
    info.sample = format!("tab {} page {} {:?}", tab, page, ops);
    info.key = hash_bytes(info.sample.as_bytes());
    info.nontrivial = ops.iter().any(|o| matches!(o, Op::Flow(t, _) if t.len() + 4 > page))
        || ops.iter().filter(|o| matches!(o, Op::Token(_) | Op::Str(_) | Op::Triple(_) | Op::Tokens(..))).count() >= 3;

    let mut p = PrettyPrinter::new(tab, page);
    let mut out: Vec<u8> = vec![];
    let mut indent = 0usize;
    for (k, op) in ops.iter().enumerate() {
        let from = out.len();
        let r = guarded(|| {
            match op {
                Op::Token(t) => write_token(&mut p, &mut out, t),
                Op::Tokens(t, n) => write_tokens(&mut p, &mut out, t, *n),
                Op::Str(t) => write_string(&mut p, &mut out, t),
                Op::Triple(t) => write_triple_string(&mut p, &mut out, t),
                Op::Space => write_space(&mut p, &mut out),
                Op::Spaces(n) => write_spaces(&mut p, &mut out, *n),
                Op::Newline => write_newline(&mut p, &mut out),
                Op::Line => {
                    write_newline(&mut p, &mut out);
                    write_indent(&mut p, &mut out)
                }
                Op::In => p.increase_indent(),
                Op::InBy(n) => p.increase_indent_by(*n),
                Op::Out => p.decrease_indent(),
                Op::OutBy(n) => p.decrease_indent_by(*n),
                Op::Flow(t, n) => write_flowable_text(&mut p, &mut out, t, n),
            };
        });
        let ctx = |e: &str| format!("operation {} {:?}: {}\n{}", k, op, e, info.sample);
        if let Err(e) = r {
            return fail("panic", ctx(&e));
        }
        info.evals += 1;
        let whole = match std::str::from_utf8(&out) {
            Ok(x) => x.to_string(),
            Err(_) => return fail("utf8", ctx("the output is not UTF-8")),
        };
        let new = &whole[from..];
        let before = whole[..from].rsplit('\n').next().unwrap_or("").to_string();
        match op {
            Op::In => indent = (indent + 1).min(max_indent),
            Op::InBy(n) => indent = (indent + n).min(max_indent),
            Op::Out => indent = indent.saturating_sub(1),
            Op::OutBy(n) => indent = indent.saturating_sub(*n),
            _ => {}
        }
        let ind = " ".repeat(indent * tab);
        match op {
            Op::In | Op::InBy(_) | Op::Out | Op::OutBy(_) => {
                if !new.is_empty() {
                    return fail("indent", ctx("text written"));
                }
            }
            Op::Newline => {
                if new != "\n" {
                    return fail("newline", ctx(&format!("wrote {:?}", new)));
                }
            }
            Op::Line => {
                if new != format!("\n{}", ind) {
                    return fail("indent", ctx(&format!("wrote {:?}, the indentation is {} columns", new, ind.len())));
                }
            }
            Op::Space | Op::Spaces(_) => {
                let n = if let Op::Spaces(n) = op { *n } else { 1 };
                if new.trim().len() > 0 || new.matches(' ').count() < n {
                    return fail("space", ctx(&format!("wrote {:?}", new)));
                }
            }
            Op::Token(_) | Op::Tokens(..) | Op::Str(_) | Op::Triple(_) => {
                let (one, n) = match op {
                    Op::Token(t) => (t.clone(), 1),
                    Op::Tokens(t, n) => (t.clone(), *n),
                    Op::Str(t) => (format!("\"{}\"", t), 1),
                    Op::Triple(t) => (format!("\"\"\"{}\"\"\"", t), 1),
                    _ => unreachable!(),
                };
                let mut rest = new;
                let mut col = before.len();
                for _ in 0..n {
                    let at = match rest.find(&one) {
                        Some(i) => i,
                        None => return fail("token", ctx(&format!("the token is not whole in {:?}", new))),
                    };
                    let gap = &rest[..at];
                    if !gap.is_empty() && (!gap.starts_with('\n') || !gap.trim().is_empty()) {
                        return fail("token", ctx(&format!("unexpected text {:?} before the token", gap)));
                    }
                    if let Some(i) = gap.rfind('\n') {
                        col = gap.len() - i - 1;
                    } else if col + one.len() > page && one.len() <= page && col > 0 && !before.trim().is_empty() {
                        return fail("width", ctx("the token runs over the page though it could start a line"));
                    }
                    col += one.len();
                    rest = &rest[at + one.len()..];
                }
                if !rest.is_empty() {
                    return fail("token", ctx(&format!("unexpected text {:?} after the token", rest)));
                }
            }
            Op::Flow(t, next) => {
                // the continuation text needs room for the text after it
                if ind.len() + next.len() + 2 > page {
                    continue;
                }
                let lines: Vec<&str> = new.split('\n').collect();
                let mut got = vec![];
                for (i, line) in lines.iter().enumerate() {
                    let full = if i == 0 { before.len() + line.len() } else { line.len() };
                    let body = if i == 0 {
                        *line
                    } else {
                        match line.strip_prefix(&format!("{}{}", ind, next)) {
                            Some(b) => b,
                            None => return fail("start", ctx(&format!("line {:?} does not start with the indentation and {:?}", line, next))),
                        }
                    };
                    let w = words(body);
                    let single = i > 0 && w.len() == 1;
                    if full > page && !single && !w.is_empty() {
                        return fail("width", ctx(&format!("{:?} is longer than the page", line)));
                    }
                    got.extend(w);
                }
                if got != words(t) {
                    return fail("words", ctx(&format!("the words became {:?}", new)));
                }
                let flat = words(t).join(" ");
                if before.len() + flat.len() + 4 < page && lines.len() > 1 {
                    return fail("break", ctx(&format!("broken though it fits: {:?}", new)));
                }
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------- C19

fn pkey(s: &mut Src) -> String {
    s.pick(&["a", "b", "", "a.b", "compiler-details", "é", "a/b", "0", "\"q\"", "Seed", "seed", " "]).to_string()
}

fn pvalue(s: &mut Src, d: usize) -> V {
    match s.below(if d == 0 { 6 } else { 8 }) {
        0 => V::Null,
        1 => V::Boolean(s.flag()),
        2 => V::Int(match s.below(8) {
            0 => i64::MIN,
            1 => i64::MAX,
            2 => -1,
            3 => 0,
            4 => u32::MAX as i64 + 1,
            5 => s.any_u64() as i64,
            _ => s.below(100) as i64,
        }),
        3 => V::Float(match s.below(8) {
            0 => 0.0,
            1 => -1.0,
            2 => 3.0,
            3 => f64::MAX,
            4 => f64::MIN_POSITIVE,
            5 => 9223372036854775808.0,
            6 => -(s.below(1 << 40) as f64) / 1024.0,
            _ => s.below(1000) as f64 / 7.0,
        }),
        4 | 5 => V::String(match s.below(6) {
            0 => String::new(),
            1 => "10".into(),
            2 => "true".into(),
            3 => "null".into(),
            4 => "é\n\"\\".into(),
            _ => token(s, 8),
        }),
        6 => V::Array((0..s.small(5)).map(|_| pvalue(s, d - 1)).collect()),
        _ => V::Map(pmap(s, d - 1)),
    }
}
fn pmap(s: &mut Src, d: usize) -> HashMap<String, V> {
    (0..s.small(5)).map(|_| (pkey(s), pvalue(s, d))).collect()
}

/// The JSON form of a value, written down independently.
fn to_json(v: &V) -> Value {
    match v {
        V::Null => Value::Null,
        V::Boolean(b) => Value::Bool(*b),
        V::Int(i) => Value::Number((*i).into()),
        V::Float(f) => Value::Number(serde_json::Number::from_f64(*f).unwrap()),
        V::String(x) => Value::String(x.clone()),
        V::Array(a) => Value::Array(a.iter().map(to_json).collect()),
        V::Map(m) => Value::Object(m.iter().map(|(k, x)| (k.clone(), to_json(x))).collect()),
    }
}

fn reads(p: &Preferences, model: &HashMap<String, V>, k: &str) -> Result<(), String> {
    let m = model.get(k);
    let eq = |what: &str, same: bool| {
        if same {
            Ok(())
        } else {
            Err(format!("{}({:?}) with {:?} stored", what, k, m))
        }
    };
    eq("contains_key", p.contains_key(k) == m.is_some())?;
    eq("get_value_for_key", p.get_value_for_key(k).as_ref() == m)?;
    eq("get_int_for_key", p.get_int_for_key(k) == m.and_then(|v| if let V::Int(i) = v { Some(*i) } else { None }))?;
    eq("get_float_for_key", p.get_float_for_key(k) == m.and_then(|v| if let V::Float(i) = v { Some(*i) } else { None }))?;
    eq("get_string_for_key", p.get_string_for_key(k) == m.and_then(|v| if let V::String(i) = v { Some(i.clone()) } else { None }))?;
    eq("get_bool_for_key", p.get_bool_for_key(k) == m.and_then(|v| if let V::Boolean(i) = v { Some(*i) } else { None }))?;
    eq("get_array_for_key", p.get_array_for_key(k) == m.and_then(|v| if let V::Array(i) = v { Some(i.clone()) } else { None }))?;
    let map = m.and_then(|v| if let V::Map(i) = v { Some(i.clone()) } else { None });
    eq("get_map_for_key", p.get_map_for_key(k) == map)?;
    match (p.get_preferences_for_key(k), map) {
        (None, None) => {}
        (Some(q), Some(mm)) => {
            eq("get_preferences_for_key", q.len() == mm.len())?;
            for (k, v) in &mm {
                eq("get_preferences_for_key", q.get_value_for_key(k).as_ref() == Some(v))?;
            }
        }
        _ => eq("get_preferences_for_key", false)?,
    }
    Ok(())
}

fn c19(s: &mut Src, info: &mut Info) -> Result<(), Failure> {
    let mut model: HashMap<String, V> = HashMap::new();
    let mut p = match s.below(3) {
        0 => Preferences::new(),
        1 => Preferences::default(),
        _ => {
            model = pmap(s, 2);
            Preferences::new_from_map(model.clone())
        }
    };
    let mut h = vec![format!("start {:?}", model)];
    let n = s.small(20);
    for _ in 0..n {
        let k = pkey(s);
        let v = pvalue(s, 2);
        let before = p.clone();
        let old = model.clone();
        let typed = s.flag();
        h.push(format!("set {:?} {:?}", k, v));
        match (&v, typed) {
            (V::Int(i), true) => p.set_int_for_key(&k, *i),
            (V::Float(i), true) => p.set_float_for_key(&k, *i),
            (V::String(i), true) => p.set_string_for_key(&k, i),
            (V::Boolean(i), true) => p.set_bool_for_key(&k, *i),
            (V::Array(i), true) => p.set_array_for_key(&k, i.clone()),
            (V::Map(i), true) => {
                if s.flag() {
                    p.set_map_for_key(&k, i.clone())
                } else {
                    p.set_preferences_for_key(&k, Preferences::new_from_map(i.clone()))
                }
            }
            _ => p.set_value_for_key(&k, v.clone()),
        }
        model.insert(k.clone(), v);
        info.evals += 1;
        let ctx = |e: &str| format!("{}\nhistory: {:?}", e, h);
        for q in [&k, &pkey(s)] {
            if let Err(e) = reads(&p, &model, q) {
                return fail("read", ctx(&e));
            }
            if let Err(e) = reads(&before, &old, q) {
                return fail("copy", ctx(&format!("a copy made before the write changed: {}", e)));
            }
        }
        if p.len() != model.len() || p.is_empty() != model.is_empty() {
            return fail("len", ctx("wrong number of entries"));
        }
    }
    info.sample = h.join("; ");
    info.key = hash_bytes(info.sample.as_bytes());
    info.nontrivial = model.len() >= 2 && model.values().any(|v| matches!(v, V::Array(_) | V::Map(_)));
    let ctx = |e: &str| format!("{}\nhistory: {}", e, info.sample);
    // to JSON and back
    let want = to_json(&V::Map(model.clone()));
    let js = match Value::try_from(p.clone()) {
        Ok(j) => j,
        Err(e) => return fail("to-json", ctx(&e.to_string())),
    };
    if js != want {
        return fail("to-json", ctx(&format!("JSON {} instead of {}", js, want)));
    }
    let back = match Preferences::try_from(js.clone()) {
        Ok(b) => b,
        Err(e) => return fail("from-json", ctx(&e.to_string())),
    };
    if back.len() != model.len() {
        return fail("from-json", ctx("entries lost"));
    }
    for k in model.keys() {
        if let Err(e) = reads(&back, &model, k) {
            return fail("from-json", ctx(&e));
        }
        let one = &model[k];
        match Value::try_from(one.clone()) {
            Ok(j) if j == to_json(one) => {}
            r => return fail("to-json", ctx(&format!("{:?} became {:?}", one, r.ok()))),
        }
        match V::try_from(to_json(one)) {
            Ok(v) if v == *one => {}
            r => return fail("from-json", ctx(&format!("{:?} became {:?}", one, r.ok()))),
        }
    }
    info.evals += 1;
    // a settings table is a JSON object
    let other = pvalue(s, 1);
    if !matches!(other, V::Map(_)) && Preferences::try_from(to_json(&other)).is_ok() {
        return fail("not-object", ctx(&format!("{:?} accepted as a settings table", other)));
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C16",
            rule: "text that needs a second line, or at least three tokens",
            quick: 2_000_000,
            thorough: 80_000_000,
            cpu_limit_s: 10,
            workers: 8,
            case: c16,
        },
        Prop {
            id: "C19",
            rule: "at least two entries, one of them a table or list",
            quick: 1_200_000,
            thorough: 40_000_000,
            cpu_limit_s: 10,
            workers: 8,
            case: c19,
        },
    ]
}
