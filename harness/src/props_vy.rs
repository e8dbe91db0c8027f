//! Vyper: C02 (printing).
use crate::props_sol::{print_ast, print_ast_on};
use crate::runner::{fail, Failure, Info, Prop};
use crate::src::{hash_bytes, Src};
use crate::vy::{self, Opts, Ref};
use mutagenyx_lib::super_ast::SuperAST;
use mutagenyx_lib::Language;

/// An integer literal that a JSON number of 64 bits cannot carry, read from a file the way the tool reads it.
fn big_int(src: &mut Src, info: &mut Info) -> Result<(), Failure> {
    let digits: String = (0..src.range(21, 78)).map(|i| (b'1' + (i % 9) as u8) as char).collect();
    let text = serde_json::json!({"contract_name": "p.vy", "ast": {"ast_type": "Module", "node_id": 0, "name": "p.vy", "doc_string": null, "body": [
        {"ast_type": "AnnAssign", "node_id": 1, "target": {"ast_type": "Name", "node_id": 2, "id": "x"}, "annotation": {"ast_type": "Name", "node_id": 3, "id": "uint256"},
         "value": {"ast_type": "Int", "node_id": 4, "value": 42}, "simple": 1}]}})
    .to_string()
    .replace("42", &digits);
    info.classes.push("big-int".into());
    info.sample = text.clone();
    info.key = hash_bytes(text.as_bytes());
    let ast: serde_json::Value = match serde_json::from_str(&text) {
        Ok(v) => v,
        Err(e) => return fail("big-int", e.to_string()),
    };
    match print_ast(&SuperAST::Vyper(ast)) {
        Ok(t) if t.contains(&digits) => Ok(()),
        Ok(t) => fail("big-int", format!("the literal {} is lost\nprinted:\n{}", digits, t)),
        Err(e) => fail("big-int", e.to_string()),
    }
}

/// Tab and page widths.
fn vy_settings(src: &mut Src) -> (usize, usize) {
    let tab = src.range(1, 9);
    let width = *src.pick(&[149usize, 100, 80, 60, 40, 20, 10, 1, 500]);
    (tab, width)
}

fn c02(src: &mut Src, info: &mut Info) -> Result<(), Failure> {
    let mut o = Opts::default_with(src);
    o.unique = src.chance(1, 4);
    o.deepest = true;
    let ast = vy::generate(src, o);
    info.evals = 1;
    if src.chance(1, 100) {
        return big_int(src, info);
    }
    let js = ast.to_string();
    info.key = hash_bytes(js.as_bytes());
    info.nontrivial = js.matches("\"ast_type\"").count() >= 8;
    info.sample = js;
    let (tab, width) = if src.chance(1, 3) { vy_settings(src) } else { (4, 150) };
    info.classes.push(if width < 150 { "narrow page".into() } else { "page".into() });
    let text = if src.chance(1, 800) {
        crate::props_cli::printed(src, info, Language::Vyper, &ast)?
    } else {
        match print_ast_on(&SuperAST::Vyper(ast.clone()), tab, width) {
            Ok(t) => t,
            Err(e) => return fail("print-fails", format!("pretty printing fails: {}", e)),
        }
    };
    info.sample = text.clone();
    let got = match vy::read(&text, false) {
        Ok(t) => t,
        Err(e) => return fail("syntax", format!("printed text is not Vyper: {}\nprinted:\n{}", e, text)),
    };
    if let Err(e) = vy::fits(&Ref::default().module(&ast), &got, &mut vec![]) {
        return fail("tree", format!("printed text is not the program of the AST: {}\nprinted:\n{}", e, text));
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C02", rule: "at least 8 AST nodes", quick: 240_000, thorough: 20_000_000, cpu_limit_s: 20, workers: 8, case: c02 }]
}
