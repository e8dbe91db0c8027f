//! Solidity: C01 (printing).
use crate::lex::{lex, Matcher, Pat, Tok};
use crate::runner::{fail, guarded, Failure, Info, Prop};
use crate::sol::{self, Opts};
use crate::solref::{key, Key, Render};
use crate::src::{hash_bytes, Src};
use mutagenyx_lib::language_interface::{LanguageInterface, MutableLanguage};
use mutagenyx_lib::pretty_printer::PrettyPrinter;
use mutagenyx_lib::super_ast::SuperAST;
use mutagenyx_lib::Language;
use serde_json::Value;

pub fn lang(l: Language) -> Box<dyn MutableLanguage> {
    LanguageInterface::get_language_object_for_language(&l).ok().expect("language object")
}

/// Print with the settings the tool uses.
pub fn print_ast(ast: &SuperAST) -> Result<String, String> {
    print_ast_on(ast, 4, 150)
}

pub fn print_ast_on(ast: &SuperAST, tab: usize, width: usize) -> Result<String, String> {
    let mut l = lang(match ast {
        SuperAST::Solidity(_) => Language::Solidity,
        _ => Language::Vyper,
    });
    let mut out: Vec<u8> = vec![];
    let r = guarded(|| {
        let mut pp = PrettyPrinter::new(tab, width);
        l.pretty_print_ast_to_stream(ast, &mut out, &mut pp).map_err(|e| format!("error: {}", e))
    });
    match r {
        Err(p) => Err(format!("panic: {}", p)),
        Ok(Err(e)) => Err(e),
        Ok(Ok(())) => String::from_utf8(out).map_err(|e| e.to_string()),
    }
}

/// Tokens of a run of decoration characters used in comments.
fn words_of(c: &str) -> Vec<String> {
    let body = c.trim_start_matches("/**").trim_start_matches("/*").trim_start_matches("//").trim_end_matches("*/");
    body.split_whitespace().map(|w| w.to_string()).filter(|w| w != "*" && w != "//" && w != "///").collect()
}

pub fn check_print(ast: &Value, text: &str) -> Result<(), String> {
    let l = lex(text)?;
    let pat = Render::new().p(ast);
    Matcher::new(&l.toks).matches(&pat)
}

/// The words of a documentation text that must be found again. "*/" cannot stand inside a block
/// comment: it may come out as "*" and "/".
fn doc_words(text: &str) -> Vec<String> {
    text.replace("*/", "* /").split_whitespace().map(|w| w.to_string()).filter(|w| w != "*" && w != "//" && w != "///").collect()
}

/// Documented declarations in source order.
fn documented<'a>(v: &'a Value, out: &mut Vec<(Key, Vec<String>)>) {
    if let Some(o) = v.as_object() {
        let nt = v.get("nodeType").and_then(|x| x.as_str()).unwrap_or("");
        if matches!(nt, "ContractDefinition" | "FunctionDefinition" | "ModifierDefinition" | "VariableDeclaration") {
            if let Some(t) = v.get("documentation").and_then(|d| d.get("text")).and_then(|t| t.as_str()) {
                let w = doc_words(t);
                if !w.is_empty() {
                    out.push((key(v), w));
                }
            }
        }
        for x in o.values() {
            documented(x, out);
        }
    } else if let Some(a) = v.as_array() {
        for x in a {
            documented(x, out);
        }
    }
}

/// Every documentation text is a comment (or several in a row) directly before its declaration.
fn check_docs(ast: &Value, text: &str) -> Result<(), String> {
    let l = lex(text)?;
    let mut want = vec![];
    documented(ast, &mut want);
    let mut groups: Vec<(usize, Vec<String>)> = vec![];
    let mut licenses = vec![];
    for (i, (_, c)) in l.comments.iter().enumerate() {
        if let Some(x) = c.strip_prefix("//").and_then(|c| c.trim().strip_prefix("SPDX-License-Identifier:")) {
            licenses.push(x.trim().to_string());
            continue;
        }
        let p = l.comment_pos[i];
        match groups.last_mut() {
            Some(g) if g.0 == p => g.1.extend(words_of(c)),
            _ => groups.push((p, words_of(c))),
        }
    }
    let license: Vec<String> = ast.get("license").and_then(|x| x.as_str()).map(|x| x.to_string()).into_iter().collect();
    if license != licenses {
        return Err(format!("the license is {:?}, printed as {:?}", license, licenses));
    }
    let mut r = Render::new();
    let mut at = 0;
    let mut places = vec![];
    for (k, w) in &want {
        match groups[at..].iter().position(|g| g.1 == *w) {
            Some(i) => {
                places.push(groups[at + i].0);
                at += i + 1;
            }
            None => return Err(format!("the documentation {:?} is missing from the comments (or stands out of order)", w.join(" "))),
        }
        r.before.insert(*k, Pat::Comment);
    }
    let mut toks = l.toks.clone();
    for p in places.into_iter().rev() {
        toks.insert(p, Tok::Comment(String::new()));
    }
    Matcher::new(&toks).matches(&r.p(ast)).map_err(|e| format!("documentation does not stand before its declaration: {}", e))
}

fn c01(src: &mut Src, info: &mut Info) -> Result<(), Failure> {
    let o = Opts::default_with(src);
    let ast = sol::generate(src, o);
    info.evals = 1;
    let js = ast.to_string();
    info.key = hash_bytes(js.as_bytes());
    info.nontrivial = js.matches("\"nodeType\"").count() >= 8;
    info.sample = js.clone();
    let (tab, width) = if src.chance(1, 3) { (src.below(9) as usize, *src.pick(&[149usize, 100, 80, 60, 40, 20, 10, 1, 500])) } else { (4, 150) };
    info.classes.push(if width < 150 { "narrow page".into() } else { "page".into() });
    let text = if src.chance(1, 400) {
        crate::props_cli::printed(src, info, Language::Solidity, &ast)?
    } else {
        match print_ast_on(&SuperAST::Solidity(ast.clone()), tab, width) {
            Ok(t) => t,
            Err(e) => return fail("print-fails", format!("pretty printing fails: {}", e)),
        }
    };
    info.sample = text.clone();
    if let Err(e) = check_print(&ast, &text) {
        return fail("tokens", format!("printed text is not the program of the AST: {}\nprinted:\n{}", e, text));
    }
    if let Err(e) = check_docs(&ast, &text) {
        return fail("docs", format!("{}\nprinted:\n{}", e, text));
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C01", rule: "at least 8 AST nodes", quick: 120_000, thorough: 12_000_000, cpu_limit_s: 20, workers: 8, case: c01 }]
}
