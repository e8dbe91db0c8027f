//! Vyper: AST generator, the tree an AST stands for, and an independent reader of Vyper text.
use crate::src::Src;
use num_bigint::BigInt;
use serde_json::{json, Value};
use std::collections::{HashMap, HashSet};

// ------------------------------------------------------------------ generator

#[derive(Clone)]
pub struct Opts {
    pub items: usize,
    pub stmts: usize,
    pub depth: usize,
    /// all literals and names of expressions differ
    pub unique: bool,
    /// other declarations reuse function names
    pub clash: bool,
    /// odd strings, huge integers, long names, deep blocks
    pub hostile: bool,
    /// blocks nested beyond the width of the page
    pub deepest: bool,
}

impl Opts {
    pub fn default_with(src: &mut Src) -> Opts {
        Opts { items: src.range(1, 6), stmts: src.range(1, 5), depth: src.range(1, 4), unique: false, clash: false, hostile: src.flag(), deepest: false }
    }
}

struct G<'a> {
    s: &'a mut Src,
    o: Opts,
    id: u64,
    uniq: u64,
    fns: Vec<String>,
    /// how many more lists may be unusually long
    wide: usize,
    /// levels of statements and of expressions still to be nested
    deep: usize,
    deep_expr: usize,
}

pub fn generate(s: &mut Src, o: Opts) -> Value {
    let wide = if s.chance(1, 8) { s.range(1, 3) } else { 0 };
    let id = if s.chance(1, 8) { 9_999_999 - s.below(120) } else { 0 };
    let (deep, deep_expr) = match s.below(40) {
        38 => (if o.deepest && s.chance(1, 6) { s.range(30, 45) } else { s.range(4, 20) }, 0),
        39 => (0, s.range(4, 30)),
        _ => (0, 0),
    };
    let mut g = G { wide, deep, deep_expr, s, o, id, uniq: 0, fns: vec![] };
    let body = g.module_body();
    let doc = g.doc(1, 3);
    let m = g.n("Module", json!({"name": "contract.vy", "body": body, "doc_string": doc}));
    json!({"contract_name": "contract.vy", "ast": m})
}

const WORDS: &[&str] = &["alpha", "beta", "count", "owner", "total", "x", "y", "value_of", "_hidden", "amount", "i", "flag9"];
const TYPES: &[&str] = &["uint256", "int128", "bool", "address", "bytes32", "uint8", "int256", "decimal", "S", "ab", "ERC20", "string"];

impl<'a> G<'a> {
    fn n(&mut self, ty: &str, v: Value) -> Value {
        let mut v = v;
        let o = v.as_object_mut().unwrap();
        o.insert("ast_type".into(), json!(ty));
        o.insert("node_id".into(), json!(self.id));
        o.insert("lineno".into(), json!(self.id / 3 + 1));
        o.insert("col_offset".into(), json!(self.id % 80));
        o.insert("src".into(), json!(format!("{}:{}:0", self.id * 7, self.id % 11 + 1)));
        self.id += 1;
        v
    }
    fn word(&mut self) -> String {
        let mut w = self.s.pick(WORDS).to_string();
        if self.o.unique {
            self.uniq += 1;
            w = format!("{}{}", w, self.uniq);
        }
        if self.o.hostile && self.s.chance(1, 25) {
            let k = self.s.range(20, 180);
            w.push_str(&"z".repeat(k));
        }
        w
    }
    fn name(&mut self) -> Value {
        let w = self.word();
        self.n("Name", json!({ "id": w }))
    }
    fn name_of(&mut self, w: &str) -> Value {
        self.n("Name", json!({ "id": w }))
    }
    fn doc(&mut self, p: u64, q: u64) -> Value {
        if !self.s.chance(p, q) {
            return Value::Null;
        }
        let mut t = String::new();
        for _ in 0..self.s.range(1, 12) {
            let w = match self.s.below(if self.o.hostile { 9 } else { 5 }) {
                0..=4 => self.s.pick(&["@notice", "Returns", "the", "value", "of", "param_x"]).to_string(),
                5 => "back\\slash\\".into(),
                6 => "\"\"\"quoted\"\"\"".into(),
                7 => "\u{e9}t\u{e9}".into(),
                _ => "w".repeat(self.s.range(1, 170)),
            };
            t.push_str(&w);
            t.push_str(*self.s.pick(&[" ", " ", " ", "\n    ", "  "]));
        }
        if self.s.flag() {
            t = t.trim().to_string();
        }
        self.n("DocStr", json!({ "value": t }))
    }

    fn int_value(&mut self) -> Value {
        if self.o.unique {
            self.uniq += 1;
            return json!(1000 + 13 * self.uniq);
        }
        match self.s.below(if self.o.hostile { 12 } else { 8 }) {
            0..=4 => json!(self.s.below(100)),
            5 => json!(self.s.below(1 << 40)),
            6 => json!(-(self.s.below(1000) as i64)),
            7 => json!(0),
            8 => json!(i64::MAX),
            9 => json!(i64::MIN),
            10 => json!(u64::MAX),
            _ => json!((1u64 << 63) + self.s.below(1 << 40)),
        }
    }
    fn int(&mut self) -> Value {
        let v = self.int_value();
        self.n("Int", json!({ "value": v }))
    }
    fn string(&mut self) -> String {
        let mut t = String::new();
        for _ in 0..self.s.range(0, 6) {
            let p = match self.s.below(if self.o.hostile { 12 } else { 4 }) {
                0..=3 => self.s.pick(&["hello", "a b", "lock", "#", "x  y"]).to_string(),
                4 => "\\".into(),
                5 => "\"".into(),
                6 => "\n".into(),
                7 => "\t\r".into(),
                8 => "'".into(),
                9 => "\u{1}\u{7f}".into(),
                10 => "\u{e9}\u{4e2d}".into(),
                _ => "long ".repeat(self.s.range(1, 40)),
            };
            t.push_str(&p);
        }
        if self.o.unique {
            self.uniq += 1;
            t = format!("{}{}", t, self.uniq);
        }
        t
    }
    fn literal(&mut self) -> Value {
        match self.s.below(9) {
            0..=2 => self.int(),
            3 => {
                let b = self.s.below(3);
                let v = match b {
                    0 => json!(true),
                    1 => json!(false),
                    _ => Value::Null,
                };
                self.n("NameConstant", json!({ "value": v }))
            }
            4 => {
                self.uniq += 1;
                let neg = if self.s.chance(1, 4) { "-" } else { "" };
                let t = if self.o.unique { format!("{}.5", self.uniq) } else { format!("{}{}.{}", neg, self.s.below(1000), self.s.below(100000)) };
                self.n("Decimal", json!({ "value": t }))
            }
            5 | 6 => {
                let t = self.string();
                self.n("Str", json!({ "value": t }))
            }
            7 => {
                let k = *self.s.pick(&[20usize, 32, 4, 1]);
                let t: String = (0..k).map(|_| format!("{:02X}", self.s.below(256))).collect();
                self.n("Hex", json!({ "value": format!("0x{}", t) }))
            }
            _ => {
                let k = self.s.small(6);
                let t: String = (0..k).map(|_| format!("{:02x}", self.s.below(256))).collect();
                self.n("Bytes", json!({ "value": format!("0x{}", t) }))
            }
        }
    }
    fn op(&mut self, l: &[&str]) -> Value {
        let o = self.s.pick(l).to_string();
        self.n(&o, json!({}))
    }
    fn exprs(&mut self, d: usize, lo: usize, hi: usize) -> Vec<Value> {
        let k = self.s.range(lo, hi);
        let k = if hi > lo { self.many(k) } else { k };
        (0..k).map(|_| self.expr(d)).collect()
    }
    fn many(&mut self, n: usize) -> usize {
        if self.wide > 0 && self.s.chance(1, 4) {
            self.wide -= 1;
            n + self.s.range(2, 9)
        } else {
            n
        }
    }
    fn attr(&mut self, v: Value) -> Value {
        let v = if ["Int", "Decimal", "Hex"].contains(&at(&v)) { self.name() } else { v };
        let w = if !self.o.unique && !self.fns.is_empty() && self.s.chance(1, 4) { self.fns[0].clone() } else { self.word() };
        self.n("Attribute", json!({"value": v, "attr": w}))
    }
    fn subscript(&mut self, v: Value, d: usize) -> Value {
        let e = if self.s.chance(1, 8) {
            let el = self.exprs(d, 2, 3);
            self.n("Tuple", json!({ "elements": el }))
        } else {
            self.expr(d)
        };
        let i = self.n("Index", json!({ "value": e }));
        self.n("Subscript", json!({"value": v, "slice": i}))
    }
    fn call(&mut self, d: usize) -> Value {
        let f = match self.s.below(6) {
            0 | 1 => self.name(),
            2 | 3 => {
                let s = self.name_of("self");
                self.attr(s)
            }
            4 => {
                let w = self.s.pick(&["range", "raw_call", "keccak256", "convert", "max_value", "empty"]).to_string();
                self.name_of(&w)
            }
            _ => {
                let v = self.expr(d);
                self.attr(v)
            }
        };
        let hi = if self.o.hostile && self.s.chance(1, 12) { 12 } else { 4 };
        let args = self.exprs(d, 0, hi);
        let mut kws = vec![];
        if self.s.chance(1, 4) {
            for _ in 0..self.s.range(1, 2) {
                let v = self.expr(d);
                let a = self.s.pick(&["value", "gas", "max_outsize", "default_return_value"]).to_string();
                kws.push(self.n("keyword", json!({"arg": a, "value": v})));
            }
        }
        self.n("Call", json!({"func": f, "args": args, "keywords": kws}))
    }
    pub fn expr(&mut self, d: usize) -> Value {
        if d == 0 {
            if self.deep_expr > 0 {
                self.deep_expr -= 1;
                if self.s.chance(1, 5) {
                    let v = self.expr(0);
                    let o = self.op(&["Not", "USub", "Invert"]);
                    return self.n("UnaryOp", json!({"op": o, "operand": v}));
                }
                let (l, r) = if self.s.flag() {
                    let a = self.name();
                    (a, self.expr(0))
                } else {
                    let b = self.expr(0);
                    (b, self.name())
                };
                let o = self.op(&["Add", "Sub", "Mult", "Div", "Mod", "Pow", "BitAnd", "BitOr", "BitXor", "LShift", "RShift"]);
                return self.n("BinOp", json!({"left": l, "op": o, "right": r}));
            }
            return if self.s.flag() { self.literal() } else { self.name() };
        }
        let d = d - 1;
        match self.s.weighted(&[3, 3, 4, 3, 3, 3, 3, 4, 2, 1, 1, 1]) {
            0 => self.name(),
            1 => self.literal(),
            2 => {
                let (l, r) = (self.expr(d), self.expr(d));
                let o = self.op(&["Add", "Sub", "Mult", "Div", "Mod", "Pow", "BitAnd", "BitOr", "BitXor", "LShift", "RShift"]);
                self.n("BinOp", json!({"left": l, "op": o, "right": r}))
            }
            3 => {
                let (l, r) = (self.expr(d), self.expr(d));
                let o = self.op(&["Eq", "NotEq", "Lt", "LtE", "Gt", "GtE", "In", "NotIn"]);
                self.n("Compare", json!({"left": l, "op": o, "right": r}))
            }
            4 => {
                let v = self.exprs(d, 2, 4);
                let o = self.op(&["And", "Or"]);
                self.n("BoolOp", json!({"op": o, "values": v}))
            }
            5 => {
                let v = self.expr(d);
                let o = self.op(&["Not", "USub", "Invert"]);
                self.n("UnaryOp", json!({"op": o, "operand": v}))
            }
            6 => {
                let v = if self.s.chance(2, 3) { self.name_of("self") } else { self.expr(d) };
                self.attr(v)
            }
            7 => self.call(d),
            8 => {
                let v = self.expr(d);
                self.subscript(v, d)
            }
            9 => {
                let e = self.exprs(d, 0, 4);
                self.n("List", json!({ "elements": e }))
            }
            10 => {
                if self.s.flag() {
                    let e = self.exprs(d, 2, 3);
                    self.n("Tuple", json!({ "elements": e }))
                } else {
                    let k = self.s.range(0, 3);
                    let keys: Vec<Value> = (0..k).map(|_| self.name()).collect();
                    let vals = self.exprs(d, k, k);
                    self.n("Dict", json!({"keys": keys, "values": vals}))
                }
            }
            _ => {
                let (a, b, c) = (self.expr(d), self.expr(d), self.expr(d));
                self.n("IfExp", json!({"test": a, "body": b, "orelse": c}))
            }
        }
    }
    fn top_expr(&mut self) -> Value {
        let d = self.s.below(self.o.depth as u64 + 1) as usize;
        self.no_tuple(d)
    }
    /// Not every place takes a tuple.
    fn no_tuple(&mut self, d: usize) -> Value {
        let e = self.expr(d);
        if at(&e) == "Tuple" {
            return self.n("List", json!({"elements": e["elements"].clone()}));
        }
        e
    }

    fn ty(&mut self, d: usize) -> Value {
        match self.s.below(if d == 0 { 3 } else { 8 }) {
            0..=2 => {
                let w = self.s.pick(TYPES).to_string();
                self.name_of(&w)
            }
            3 | 4 => {
                let v = self.ty(d - 1);
                let i = self.int_pos();
                self.index_of(v, i)
            }
            5 => {
                let w = self.s.pick(&["String", "Bytes"]).to_string();
                let v = self.name_of(&w);
                let i = self.int_pos();
                self.index_of(v, i)
            }
            6 => {
                let w = self.s.pick(&["HashMap", "DynArray"]).to_string();
                let v = self.name_of(&w);
                let a = self.ty(d - 1);
                let b = if w == "HashMap" { self.ty(d - 1) } else { self.int_pos() };
                let t = self.n("Tuple", json!({"elements": [a, b]}));
                self.index_of(v, t)
            }
            _ => {
                let k = self.s.range(2, 3);
                let e: Vec<Value> = (0..k).map(|_| self.ty(0)).collect();
                self.n("Tuple", json!({ "elements": e }))
            }
        }
    }
    fn int_pos(&mut self) -> Value {
        let v = 1 + self.s.below(100);
        self.n("Int", json!({ "value": v }))
    }
    fn index_of(&mut self, v: Value, i: Value) -> Value {
        let i = self.n("Index", json!({ "value": i }));
        self.n("Subscript", json!({"value": v, "slice": i}))
    }

    fn target(&mut self) -> Value {
        match self.s.below(6) {
            0 | 1 => self.name(),
            2 | 3 => {
                let v = self.name_of("self");
                self.attr(v)
            }
            4 => {
                let v = self.name_of("self");
                let v = self.attr(v);
                self.subscript(v, 1)
            }
            _ => {
                let e: Vec<Value> = (0..self.s.range(2, 3)).map(|_| self.name()).collect();
                self.n("Tuple", json!({ "elements": e }))
            }
        }
    }
    fn value(&mut self) -> Value {
        if self.s.chance(1, 8) {
            let e = self.exprs(1, 2, 3);
            self.n("Tuple", json!({ "elements": e }))
        } else {
            self.top_expr()
        }
    }
    fn block(&mut self, d: usize) -> Vec<Value> {
        let few = if self.deep > 0 { 1 } else { 1 + self.s.small(self.o.stmts) };
        let k = self.many(few);
        let d = if k > few { d.min(1) } else { d };
        (0..k).map(|_| self.stmt(d)).collect()
    }
    fn stmt(&mut self, d: usize) -> Value {
        let w: &[u32] = if d == 0 { &[6, 3, 3, 3, 2, 2, 2, 2, 2, 1, 1, 1] } else { &[6, 3, 3, 3, 2, 2, 2, 2, 2, 1, 1, 1, 6, 4] };
        if self.deep > 0 {
            self.deep -= 1;
            let b = self.block(0);
            let e = if self.s.chance(1, 3) { self.block(0) } else { vec![] };
            if self.s.flag() {
                let t = self.top_expr();
                return self.n("If", json!({"test": t, "body": b, "orelse": e}));
            }
            let (t, i) = (self.name(), self.name());
            return self.n("For", json!({"target": t, "iter": i, "body": b}));
        }
        match self.s.weighted(w) {
            0 => {
                let (t, v) = (self.target(), self.value());
                self.n("Assign", json!({"target": t, "value": v}))
            }
            1 => {
                let t = self.name();
                let a = self.ty(1);
                let v = self.top_expr();
                self.n("AnnAssign", json!({"target": t, "annotation": a, "value": v}))
            }
            2 => {
                let t = self.name();
                let o = self.op(&["Add", "Sub", "Mult", "Div", "Mod", "BitAnd", "BitOr", "BitXor", "LShift", "RShift", "Pow"]);
                let v = self.top_expr();
                self.n("AugAssign", json!({"target": t, "op": o, "value": v}))
            }
            3 => {
                let d = self.o.depth.min(2);
                let v = self.call(d);
                self.n("Expr", json!({ "value": v }))
            }
            4 => {
                let t = self.top_expr();
                let m = match self.s.below(3) {
                    0 => Value::Null,
                    1 => {
                        let t = self.string();
                        self.n("Str", json!({ "value": t }))
                    }
                    _ => self.name_of("UNREACHABLE"),
                };
                self.n("Assert", json!({"test": t, "msg": m}))
            }
            5 => {
                let v = if self.s.chance(1, 4) { Value::Null } else { self.value() };
                self.n("Return", json!({ "value": v }))
            }
            6 => {
                let mut v = self.call(1);
                v["func"] = self.name();
                self.n("Log", json!({ "value": v }))
            }
            7 => {
                let v = if self.s.chance(1, 3) {
                    Value::Null
                } else {
                    let t = self.string();
                    self.n("Str", json!({ "value": t }))
                };
                self.n("Raise", json!({ "exc": v }))
            }
            8 => self.n("Pass", json!({})),
            9 => self.n("Break", json!({})),
            10 => self.n("Continue", json!({})),
            11 => {
                let t = self.name();
                let a = self.ty(1);
                self.n("AnnAssign", json!({"target": t, "annotation": a, "value": null}))
            }
            12 => {
                let t = self.top_expr();
                let b = self.block(d - 1);
                let e = match self.s.below(3) {
                    0 => vec![],
                    1 => self.block(d - 1),
                    _ => {
                        let t = self.top_expr();
                        let b = self.block(d - 1);
                        let e = if self.s.flag() { self.block(d - 1) } else { vec![] };
                        vec![self.n("If", json!({"test": t, "body": b, "orelse": e}))]
                    }
                };
                self.n("If", json!({"test": t, "body": b, "orelse": e}))
            }
            _ => {
                let t = self.name();
                let i = if self.s.flag() { self.call(1) } else { self.no_tuple(1) };
                let b = self.block(d - 1);
                self.n("For", json!({"target": t, "iter": i, "body": b}))
            }
        }
    }
    fn args(&mut self, d: usize) -> Value {
        let k = self.s.small(4);
        let k = self.many(k);
        let a: Vec<Value> = (0..k)
            .map(|_| {
                let t = self.ty(1);
                let w = self.word();
                self.n("arg", json!({"arg": w, "annotation": t}))
            })
            .collect();
        let df = if self.s.chance(1, 3) { self.s.below(k as u64 + 1) as usize } else { 0 };
        let defs = self.exprs(d, df, df);
        self.n("arguments", json!({"args": a, "defaults": defs, "default": null}))
    }
    fn fn_name(&mut self) -> String {
        let w = loop {
            if !self.fns.is_empty() && self.s.chance(1, 5) {
                let k = self.s.below(self.fns.len() as u64) as usize;
                let b = self.fns[k].clone();
                break crate::src::near(self.s, &b);
            }
            let b = self.s.pick(&["transfer", "mint", "f", "get_it", "__init__", "burn"]).to_string();
            if !self.fns.contains(&b) || self.s.chance(1, 6) {
                break b;
            }
            let b2 = format!("{}_{}", b, self.fns.len());
            break b2;
        };
        self.fns.push(w.clone());
        w
    }
    fn decl_name(&mut self) -> String {
        if self.o.clash && !self.fns.is_empty() && self.s.flag() {
            let i = self.s.below(self.fns.len() as u64) as usize;
            return self.fns[i].clone();
        }
        self.word()
    }
    fn function(&mut self) -> Value {
        let mut deco = vec![];
        for _ in 0..self.s.small(3) {
            let w = self.s.pick(&["external", "view", "internal", "payable"]).to_string();
            deco.push(self.name_of(&w));
        }
        if self.s.chance(1, 5) {
            let f = self.name_of("nonreentrant");
            let t = self.string();
            let a = self.n("Str", json!({ "value": t }));
            deco.push(self.n("Call", json!({"func": f, "args": [a], "keywords": []})));
        }
        let args = self.args(1);
        let ret = if self.s.flag() { self.ty(1) } else { Value::Null };
        let doc = self.doc(1, 4);
        let d = if self.o.hostile && self.s.chance(1, 40) { 4 } else { self.s.range(0, 2) };
        let body = self.block(d);
        let name = self.fn_name();
        self.n("FunctionDef", json!({"name": name, "args": args, "returns": ret, "decorator_list": deco, "doc_string": doc, "body": body, "pos": null}))
    }
    fn fields(&mut self, indexed: bool) -> Vec<Value> {
        (0..self.s.range(1, 3))
            .map(|_| {
                let t = self.name();
                let mut a = self.ty(1);
                if indexed && self.s.flag() {
                    let f = self.name_of("indexed");
                    a = self.n("Call", json!({"func": f, "args": [a], "keywords": []}));
                }
                self.n("AnnAssign", json!({"target": t, "annotation": a, "value": null}))
            })
            .collect()
    }
    fn module_body(&mut self) -> Vec<Value> {
        let k = self.s.range(1, self.o.items.max(1));
        (0..k).map(|_| self.item()).collect()
    }
    fn item(&mut self) -> Value {
        match self.s.weighted(&[8, 4, 2, 2, 2, 1, 1, 1, 1]) {
            0 => self.function(),
            1 => {
                let w = self.decl_name();
                let t = self.name_of(&w);
                let a = self.ty(2);
                let kind = self.s.below(4);
                let v = if kind == 1 { self.top_expr() } else { Value::Null };
                let public = self.s.flag();
                self.n("VariableDecl", json!({"target": t, "annotation": a, "value": v, "is_public": public, "is_constant": kind == 1, "is_immutable": kind == 2, "is_transient": false}))
            }
            2 => {
                let b = if self.s.chance(1, 4) { vec![self.n("Pass", json!({}))] } else { self.fields(true) };
                let w = self.decl_name();
                self.n("EventDef", json!({"name": w, "body": b}))
            }
            3 => {
                let b = self.fields(false);
                let w = self.decl_name();
                self.n("StructDef", json!({"name": w, "body": b}))
            }
            4 => {
                let k = self.s.range(1, 3);
                let b: Vec<Value> = (0..k)
                    .map(|_| {
                        let args = self.args(1);
                        let ret = if self.s.flag() { self.ty(1) } else { Value::Null };
                        let w = self.s.pick(&["view", "pure", "payable", "nonpayable"]).to_string();
                        let x = self.name_of(&w);
                        let e = self.n("Expr", json!({ "value": x }));
                        let name = if self.o.clash { self.decl_name() } else { self.word() };
                        self.n(
                            "FunctionDef",
                            json!({"name": name, "args": args, "returns": ret, "decorator_list": [], "doc_string": null, "body": [e], "pos": null}),
                        )
                    })
                    .collect();
                let w = self.decl_name();
                self.n("InterfaceDef", json!({"name": w, "body": b}))
            }
            5 => {
                let k = self.s.range(1, 3);
                let b: Vec<Value> = (0..k)
                    .map(|_| {
                        let x = self.name();
                        self.n("Expr", json!({ "value": x }))
                    })
                    .collect();
                let w = self.decl_name();
                self.n("EnumDef", json!({"name": w, "body": b}))
            }
            6 => {
                let al = if self.s.flag() { json!("Alias") } else { Value::Null };
                let w = self.s.pick(&["interfaces.Foo", "foo", "a.b.c"]).to_string();
                self.n("Import", json!({"name": w, "alias": al}))
            }
            7 => {
                let al = if self.s.chance(1, 3) { json!("Alias") } else { Value::Null };
                let level = self.s.below(4);
                let module = if level > 0 && self.s.flag() { Value::Null } else { json!(*self.s.pick(&["vyper.interfaces", "foo", "a.b"])) };
                self.n("ImportFrom", json!({"level": level, "module": module, "name": "ERC20", "alias": al}))
            }
            _ => {
                let t = self.name_of("implements");
                let a = self.name();
                self.n("ImplementsDecl", json!({"target": t, "annotation": a, "value": null}))
            }
        }
    }
}

// ------------------------------------------------------------------ trees

/// A program tree, or a pattern of program trees.
#[derive(Clone, Debug, PartialEq)]
pub enum T {
    L(&'static str, String),
    N(String, Vec<T>),
    Or(Vec<T>),
    Int(BigInt, BigInt),
    Dec(f64, f64),
    Comment,
}

pub type Key = *const Value;
pub fn key(v: &Value) -> Key {
    v as *const Value
}

pub fn l(kind: &'static str, s: impl Into<String>) -> T {
    T::L(kind, s.into())
}
pub fn n(kind: &str, c: Vec<T>) -> T {
    T::N(kind.to_string(), c)
}
fn none() -> T {
    l("none", "")
}

pub fn st<'a>(v: &'a Value, k: &str) -> &'a str {
    v.get(k).and_then(|x| x.as_str()).unwrap_or("")
}
pub fn at(v: &Value) -> &str {
    st(v, "ast_type")
}
pub fn arr<'a>(v: &'a Value, k: &str) -> &'a [Value] {
    v.get(k).and_then(|x| x.as_array()).map(|x| x.as_slice()).unwrap_or(&[])
}

fn doc_words(s: &str) -> T {
    l("doc", s.split_whitespace().collect::<Vec<_>>().join(" "))
}

#[derive(Default)]
pub struct Ref {
    pub over: HashMap<Key, T>,
    /// replaces the body list of a block statement
    pub body: HashMap<Key, T>,
    pub before: HashSet<Key>,
}

impl Ref {
    pub fn module(&self, ast: &Value) -> T {
        let m = &ast["ast"];
        n("Module", vec![self.doc(m), self.body_of(m)])
    }
    fn doc(&self, v: &Value) -> T {
        match v.get("doc_string") {
            Some(d) if d.is_object() => doc_words(st(d, "value")),
            _ => none(),
        }
    }
    pub fn list(&self, a: &[Value]) -> T {
        let mut out = vec![];
        for s in a {
            if self.before.contains(&key(s)) {
                out.push(T::Comment);
            }
            out.push(self.t(s));
        }
        n("Body", out)
    }
    fn body_of(&self, v: &Value) -> T {
        if let Some(b) = self.body.get(&key(v)) {
            return b.clone();
        }
        self.list(arr(v, "body"))
    }
    fn opt(&self, v: &Value, k: &str) -> T {
        match v.get(k) {
            Some(x) if !x.is_null() => self.t(x),
            _ => none(),
        }
    }
    fn ts(&self, kind: &str, a: &[Value]) -> T {
        n(kind, a.iter().map(|x| self.t(x)).collect())
    }
    pub fn t(&self, v: &Value) -> T {
        if let Some(p) = self.over.get(&key(v)) {
            return p.clone();
        }
        let f = |k: &str| self.t(&v[k]);
        match at(v) {
            "Name" => l("name", st(v, "id")),
            "Int" => l("int", v["value"].to_string()),
            "Decimal" => l("dec", st(v, "value")),
            "Hex" => l("hex", st(v, "value")),
            "Str" => l("str", st(v, "value")),
            "Bytes" => l("bytes", st(v, "value").trim_start_matches("0x").to_lowercase()),
            "NameConstant" => l(
                "const",
                match v["value"].as_bool() {
                    Some(true) => "True",
                    Some(false) => "False",
                    None => "None",
                },
            ),
            "BinOp" => n(&format!("Bin {}", sym(at(&v["op"]))), vec![f("left"), f("right")]),
            "Compare" => n(&format!("Cmp {}", sym(at(&v["op"]))), vec![f("left"), f("right")]),
            "BoolOp" => self.ts(&format!("Bool {}", sym(at(&v["op"]))), arr(v, "values")),
            "UnaryOp" => n(&format!("Un {}", usym(at(&v["op"]))), vec![f("operand")]),
            "Attribute" => n("Attr", vec![f("value"), l("name", st(v, "attr"))]),
            "Subscript" => n("Sub", vec![f("value"), f("slice")]),
            "Index" => f("value"),
            "Call" => n("Call", vec![f("func"), self.ts("Args", arr(v, "args")), self.ts("Kws", arr(v, "keywords"))]),
            "keyword" => n("Kw", vec![l("name", st(v, "arg")), f("value")]),
            "List" => self.ts("List", arr(v, "elements")),
            "Tuple" => self.ts("Tuple", arr(v, "elements")),
            "Dict" => n("Dict", arr(v, "keys").iter().zip(arr(v, "values")).map(|(k, x)| n("Item", vec![self.t(k), self.t(x)])).collect()),
            "IfExp" => n("IfExp", vec![f("test"), f("body"), f("orelse")]),
            "Assign" => n("Assign", vec![f("target"), f("value")]),
            "AugAssign" => n(&format!("Aug {}", sym(at(&v["op"]))), vec![f("target"), f("value")]),
            "AnnAssign" => n("Ann", vec![f("target"), f("annotation"), self.opt(v, "value")]),
            "ImplementsDecl" => n("Ann", vec![l("name", "implements"), f("annotation"), none()]),
            "VariableDecl" => {
                let mut a = f("annotation");
                for (k, w) in [("is_immutable", "immutable"), ("is_constant", "constant"), ("is_public", "public")] {
                    if v[k] == true {
                        a = n("Call", vec![l("name", w), n("Args", vec![a]), n("Kws", vec![])]);
                    }
                }
                n("Ann", vec![f("target"), a, self.opt(v, "value")])
            }
            "Expr" => n("Expr", vec![f("value")]),
            "Assert" => n("Assert", vec![f("test"), self.opt(v, "msg")]),
            "Return" => n("Return", vec![self.opt(v, "value")]),
            "Log" => n("Log", vec![f("value")]),
            "Raise" => n("Raise", vec![self.opt(v, "exc")]),
            "Pass" => n("Pass", vec![]),
            "Break" => n("Break", vec![]),
            "Continue" => n("Continue", vec![]),
            "If" => n("If", vec![f("test"), self.body_of(v), self.list(arr(v, "orelse"))]),
            "For" => n("For", vec![f("target"), f("iter"), self.body_of(v)]),
            "FunctionDef" => {
                let args = arr(&v["args"], "args");
                let defs = arr(&v["args"], "defaults");
                let first = args.len() - defs.len();
                let a: Vec<T> = args
                    .iter()
                    .enumerate()
                    .map(|(i, x)| {
                        n("Param", vec![l("name", st(x, "arg")), self.opt(x, "annotation"), if i >= first { self.t(&defs[i - first]) } else { none() }])
                    })
                    .collect();
                n(
                    "Def",
                    vec![
                        l("name", st(v, "name")),
                        n("Params", a),
                        self.opt(v, "returns"),
                        self.ts("Deco", arr(v, "decorator_list")),
                        self.doc(v),
                        self.body_of(v),
                    ],
                )
            }
            "EventDef" => n("event", vec![l("name", st(v, "name")), self.list(arr(v, "body"))]),
            "StructDef" => n("struct", vec![l("name", st(v, "name")), self.list(arr(v, "body"))]),
            "EnumDef" => n("enum", vec![l("name", st(v, "name")), self.list(arr(v, "body"))]),
            "InterfaceDef" => n("interface", vec![l("name", st(v, "name")), self.list(arr(v, "body"))]),
            "Import" => n("Import", vec![l("name", st(v, "name")), l("name", st(v, "alias"))]),
            "ImportFrom" => n(
                "From",
                vec![
                    l("name", format!("{}{}", ".".repeat(v["level"].as_u64().unwrap_or(0) as usize), st(v, "module"))),
                    l("name", st(v, "name")),
                    l("name", st(v, "alias")),
                ],
            ),
            x => panic!("reference: unknown node {}", x),
        }
    }
}

pub fn sym(op: &str) -> &'static str {
    match op {
        "Add" => "+",
        "Sub" => "-",
        "Mult" => "*",
        "Div" => "/",
        "Mod" => "%",
        "Pow" => "**",
        "And" => "and",
        "Or" => "or",
        "BitAnd" => "&",
        "BitOr" => "|",
        "BitXor" => "^",
        "LShift" => "<<",
        "RShift" => ">>",
        "Eq" => "==",
        "NotEq" => "!=",
        "Gt" => ">",
        "GtE" => ">=",
        "Lt" => "<",
        "LtE" => "<=",
        "In" => "in",
        "NotIn" => "not in",
        _ => "?",
    }
}
fn usym(op: &str) -> &'static str {
    match op {
        "Not" => "not",
        "USub" => "-",
        "Invert" => "~",
        _ => "?",
    }
}

fn as_int(c: &T) -> Option<BigInt> {
    match c {
        T::L("int", s) => s.parse().ok(),
        _ => None,
    }
}

/// Does the concrete tree `c` fit the pattern `p`? Literals chosen by a range are captured.
pub fn fits(p: &T, c: &T, caps: &mut Vec<String>) -> Result<(), String> {
    match p {
        T::Or(alts) => {
            let mut err = String::new();
            for a in alts {
                let len = caps.len();
                match fits(a, c, caps) {
                    Ok(()) => return Ok(()),
                    Err(e) => {
                        caps.truncate(len);
                        err = e;
                    }
                }
            }
            Err(err)
        }
        T::Int(lo, hi) => match as_int(c) {
            Some(v) if v >= *lo && v <= *hi => {
                caps.push(v.to_string());
                Ok(())
            }
            _ => Err(format!("{} is not an integer from {} to {}", show(c), lo, hi)),
        },
        T::Dec(lo, hi) => match c {
            T::L("dec", s) if s.parse::<f64>().map(|x| x >= *lo && x <= *hi).unwrap_or(false) => {
                caps.push(s.clone());
                Ok(())
            }
            _ => Err(format!("{} is not a decimal in range", show(c))),
        },
        T::Comment => match c {
            T::N(k, _) if k == "Comment" => Ok(()),
            _ => Err(format!("no comment before {}", show(c))),
        },
        T::L(k, s) => match c {
            T::L(k2, s2) if k == k2 => {
                let same = if *k == "int" { as_int(p) == as_int(c) } else { s == s2 };
                if same {
                    Ok(())
                } else {
                    Err(format!("expected {} {:?}, got {:?}", k, s, s2))
                }
            }
            _ => Err(format!("expected {} {:?}, got {}", k, s, show(c))),
        },
        T::N(k, ps) => match c {
            T::N(k2, cs) if k == k2 => {
                for (i, (a, b)) in ps.iter().zip(cs).enumerate() {
                    fits(a, b, caps).map_err(|e| if k == "Body" || k == "Def" { format!("{}#{}: {}", k, i, e) } else { e })?;
                }
                if ps.len() != cs.len() {
                    let extra = cs.get(ps.len()).map(|x| show(x)).unwrap_or_else(|| format!("nothing instead of {}", show(&ps[cs.len()])));
                    return Err(format!("{} has {} parts, expected {}; first difference: {}", k, cs.len(), ps.len(), extra));
                }
                Ok(())
            }
            // a minus before a number literal
            T::L("int", s) if k == "Un -" && (s.starts_with('-') || s == "0") => {
                let v = -as_int(c).unwrap();
                fits(&ps[0], &l("int", v.to_string()), caps)
            }
            T::L("dec", s) if k == "Un -" && s.starts_with('-') => fits(&ps[0], &l("dec", &s[1..]), caps),
            _ => Err(format!("expected {}, got {}", show(p), show(c))),
        },
    }
}

pub fn show(t: &T) -> String {
    let s = match t {
        T::L(k, s) => format!("{}:{}", k, s),
        T::N(k, c) => format!("{}({})", k, c.iter().map(show).collect::<Vec<_>>().join(", ")),
        x => format!("{:?}", x),
    };
    if s.chars().count() > 160 {
        format!("{}...", s.chars().take(160).collect::<String>())
    } else {
        s
    }
}

// ------------------------------------------------------------------ reader

#[derive(Clone, Debug, PartialEq)]
enum Tk {
    Name(String),
    Int(String),
    Dec(String),
    Hex(String),
    Str(String),
    Doc(String),
    Bytes(String),
    Op(String),
    Comment(String),
    Newline,
    Indent,
    Dedent,
    End,
}

const OPS: &[&str] = &[
    "**=", "<<=", ">>=", "//=", "->", "**", "<<", ">>", "//", "==", "!=", ">=", "<=", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "+", "-", "*", "/", "%",
    "&", "|", "^", "~", "<", ">", "=", "(", ")", "[", "]", "{", "}", ",", ":", ".", "@",
];

fn tokens(text: &str, keep: bool) -> Result<Vec<Tk>, String> {
    let c: Vec<char> = text.chars().collect();
    let mut i = 0;
    let mut out: Vec<Tk> = vec![];
    let mut stack = vec![0usize];
    let mut depth = 0i32;
    let mut fresh = true;
    while i < c.len() {
        if fresh && depth == 0 {
            // indentation of a new logical line
            let s = i;
            while i < c.len() && c[i] == ' ' {
                i += 1;
            }
            let ind = i - s;
            if i >= c.len() {
                break;
            }
            if c[i] == '\n' {
                i += 1;
                continue;
            }
            if c[i] == '#' && !keep {
                while i < c.len() && c[i] != '\n' {
                    i += 1;
                }
                continue;
            }
            if ind > *stack.last().unwrap() {
                stack.push(ind);
                out.push(Tk::Indent);
            }
            while ind < *stack.last().unwrap() {
                stack.pop();
                out.push(Tk::Dedent);
            }
            if ind != *stack.last().unwrap() {
                return Err(format!("indentation of {} matches no block", ind));
            }
            fresh = false;
            continue;
        }
        let ch = c[i];
        if ch == '\n' {
            i += 1;
            if depth == 0 {
                out.push(Tk::Newline);
                fresh = true;
            }
            continue;
        }
        if ch == ' ' {
            i += 1;
            continue;
        }
        if ch == '#' {
            let s = i;
            while i < c.len() && c[i] != '\n' {
                i += 1;
            }
            if keep {
                let own_line = matches!(out.last(), None | Some(Tk::Newline) | Some(Tk::Indent) | Some(Tk::Dedent));
                if depth > 0 || !own_line {
                    return Err("comment after code on the same line".into());
                }
                out.push(Tk::Comment(c[s + 1..i].iter().collect()));
            }
            continue;
        }
        if ch == '"' || ch == '\'' || (ch == 'b' && i + 1 < c.len() && (c[i + 1] == '"' || c[i + 1] == '\'')) {
            let bytes = ch == 'b';
            if bytes {
                i += 1;
            }
            let q = c[i];
            let triple = i + 2 < c.len() && c[i + 1] == q && c[i + 2] == q;
            i += if triple { 3 } else { 1 };
            let mut s = String::new();
            loop {
                if i >= c.len() {
                    return Err("unterminated string".into());
                }
                if triple {
                    if c[i] == q && i + 2 < c.len() && c[i + 1] == q && c[i + 2] == q {
                        i += 3;
                        break;
                    }
                } else if c[i] == q {
                    i += 1;
                    break;
                }
                if c[i] == '\r' {
                    return Err("carriage return in a string".into());
                }
                if c[i] == '\n' && !triple {
                    return Err("line end in a string".into());
                }
                if c[i] == '\\' {
                    let e = *c.get(i + 1).ok_or("backslash at the end")?;
                    i += 2;
                    match e {
                        'n' => s.push('\n'),
                        'r' => s.push('\r'),
                        't' => s.push('\t'),
                        '\\' => s.push('\\'),
                        '\'' => s.push('\''),
                        '"' => s.push('"'),
                        '0' => s.push('\0'),
                        'a' => s.push('\u{7}'),
                        'b' => s.push('\u{8}'),
                        'f' => s.push('\u{c}'),
                        'v' => s.push('\u{b}'),
                        '\n' => {}
                        'x' | 'u' | 'U' => {
                            let k = match e {
                                'x' => 2,
                                'u' => 4,
                                _ => 8,
                            };
                            let h: String = c.get(i..i + k).ok_or("short escape")?.iter().collect();
                            let v = u32::from_str_radix(&h, 16).map_err(|_| "bad escape".to_string())?;
                            s.push(char::from_u32(v).ok_or("bad escape")?);
                            i += k;
                        }
                        e => {
                            s.push('\\');
                            s.push(e);
                        }
                    }
                    continue;
                }
                s.push(c[i]);
                i += 1;
            }
            if bytes {
                out.push(Tk::Bytes(s.chars().map(|x| format!("{:02x}", x as u32)).collect()));
            } else if triple {
                out.push(Tk::Doc(s));
            } else {
                out.push(Tk::Str(s));
            }
            continue;
        }
        if ch.is_ascii_digit() {
            let s = i;
            if ch == '0' && i + 1 < c.len() && (c[i + 1] == 'x' || c[i + 1] == 'X') {
                i += 2;
                while i < c.len() && c[i].is_ascii_hexdigit() {
                    i += 1;
                }
                out.push(Tk::Hex(c[s..i].iter().collect()));
            } else {
                while i < c.len() && c[i].is_ascii_digit() {
                    i += 1;
                }
                let mut dec = false;
                if i + 1 < c.len() && c[i] == '.' && c[i + 1].is_ascii_digit() {
                    dec = true;
                    i += 1;
                    while i < c.len() && c[i].is_ascii_digit() {
                        i += 1;
                    }
                }
                let t: String = c[s..i].iter().collect();
                out.push(if dec { Tk::Dec(t) } else { Tk::Int(t) });
            }
            if i < c.len() && (c[i].is_alphanumeric() || c[i] == '_') {
                return Err(format!("number runs into {:?}", c[i]));
            }
            continue;
        }
        if ch.is_alphabetic() || ch == '_' {
            let s = i;
            while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_') {
                i += 1;
            }
            out.push(Tk::Name(c[s..i].iter().collect()));
            continue;
        }
        let mut found = false;
        for o in OPS {
            let oc: Vec<char> = o.chars().collect();
            if c[i..].starts_with(&oc) {
                match *o {
                    "(" | "[" | "{" => depth += 1,
                    ")" | "]" | "}" => depth -= 1,
                    _ => {}
                }
                if depth < 0 {
                    return Err("unbalanced bracket".into());
                }
                out.push(Tk::Op(o.to_string()));
                i += oc.len();
                found = true;
                break;
            }
        }
        if !found {
            return Err(format!("unexpected character {:?}", ch));
        }
    }
    if depth != 0 {
        return Err("bracket left open".into());
    }
    if !matches!(out.last(), None | Some(Tk::Newline)) {
        out.push(Tk::Newline);
    }
    while stack.len() > 1 {
        stack.pop();
        out.push(Tk::Dedent);
    }
    out.push(Tk::End);
    Ok(out)
}

const KEYWORDS: &[&str] = &[
    "if", "else", "elif", "for", "in", "not", "and", "or", "return", "pass", "def", "True", "False", "None", "assert", "raise", "break", "continue", "import",
    "from", "as",
];

struct P {
    t: Vec<Tk>,
    i: usize,
}

/// Read Vyper text. With `keep`, comments on their own lines are statements.
pub fn read(text: &str, keep: bool) -> Result<T, String> {
    let mut p = P { t: tokens(text, keep)?, i: 0 };
    let mut doc = none();
    if let Tk::Doc(s) = p.peek().clone() {
        p.i += 1;
        p.newline()?;
        doc = doc_words(&s);
    }
    let mut out = vec![];
    while *p.peek() != Tk::End {
        p.stmt(&mut out, true).map_err(|e| p.where_(e))?;
    }
    Ok(n("Module", vec![doc, n("Body", out)]))
}

type R = Result<T, String>;

impl P {
    fn where_(&self, e: String) -> String {
        let a = self.i.saturating_sub(6);
        let b = (self.i + 3).min(self.t.len());
        format!("{} near {:?}", e, &self.t[a..b])
    }
    fn peek(&self) -> &Tk {
        &self.t[self.i.min(self.t.len() - 1)]
    }
    fn is_op(&self, o: &str) -> bool {
        matches!(self.peek(), Tk::Op(x) if x == o)
    }
    fn is_kw(&self, k: &str) -> bool {
        matches!(self.peek(), Tk::Name(x) if x == k)
    }
    fn eat_op(&mut self, o: &str) -> bool {
        let r = self.is_op(o);
        if r {
            self.i += 1;
        }
        r
    }
    fn eat_kw(&mut self, k: &str) -> bool {
        let r = self.is_kw(k);
        if r {
            self.i += 1;
        }
        r
    }
    fn op(&mut self, o: &str) -> Result<(), String> {
        if self.eat_op(o) {
            Ok(())
        } else {
            Err(format!("expected {:?}", o))
        }
    }
    fn newline(&mut self) -> Result<(), String> {
        if *self.peek() == Tk::Newline {
            self.i += 1;
            Ok(())
        } else {
            Err("expected the end of the line".into())
        }
    }
    fn ident(&mut self) -> Result<String, String> {
        match self.peek().clone() {
            Tk::Name(x) if !KEYWORDS.contains(&x.as_str()) => {
                self.i += 1;
                Ok(x)
            }
            x => Err(format!("expected a name, got {:?}", x)),
        }
    }
    fn dotted(&mut self) -> Result<String, String> {
        let mut s = String::new();
        while self.eat_op(".") {
            s.push('.');
        }
        if let Ok(x) = self.ident() {
            s.push_str(&x);
            while self.eat_op(".") {
                s.push('.');
                s.push_str(&self.ident()?);
            }
        }
        Ok(s)
    }
    /// ':' and a block; with `doc`, a leading doc string is split off.
    fn suite(&mut self, doc: bool) -> Result<(T, T), String> {
        self.op(":")?;
        let mut out = vec![];
        let mut d = none();
        if *self.peek() != Tk::Newline {
            self.stmt(&mut out, false)?;
            return Ok((d, n("Body", out)));
        }
        self.i += 1;
        if *self.peek() != Tk::Indent {
            return Err("expected an indented block".into());
        }
        self.i += 1;
        if doc {
            if let Tk::Doc(s) = self.peek().clone() {
                self.i += 1;
                self.newline()?;
                d = doc_words(&s);
            }
        }
        while *self.peek() != Tk::Dedent {
            if *self.peek() == Tk::End {
                return Err("block without end".into());
            }
            self.stmt(&mut out, true)?;
        }
        self.i += 1;
        if out.is_empty() {
            return Err("empty block".into());
        }
        Ok((d, n("Body", out)))
    }
    fn stmt(&mut self, out: &mut Vec<T>, compound: bool) -> Result<(), String> {
        if let Tk::Comment(c) = self.peek().clone() {
            self.i += 1;
            self.newline()?;
            if let Some(T::N(k, p)) = out.last_mut() {
                if k == "Comment" {
                    if let T::L(_, s) = &mut p[0] {
                        s.push('\n');
                        s.push_str(&c);
                        return Ok(());
                    }
                }
            }
            out.push(n("Comment", vec![l("text", c)]));
            return Ok(());
        }
        let compound_start = self.is_op("@") || ["def", "if", "for"].iter().any(|k| self.is_kw(k)) || self.is_decl();
        if compound_start {
            if !compound {
                return Err("block statement on the line of another".into());
            }
            let t = self.compound()?;
            out.push(t);
            return Ok(());
        }
        let t = self.simple()?;
        self.newline()?;
        out.push(t);
        Ok(())
    }
    /// event / struct / enum / interface NAME :
    fn is_decl(&self) -> bool {
        ["event", "struct", "enum", "interface"].iter().any(|k| self.is_kw(k)) && matches!(self.t.get(self.i + 1), Some(Tk::Name(_)))
    }
    fn compound(&mut self) -> R {
        if self.is_decl() {
            let k = self.ident()?;
            let name = self.ident()?;
            let (_, b) = self.suite(false)?;
            return Ok(n(&k, vec![l("name", name), b]));
        }
        if self.eat_kw("if") {
            return self.if_rest();
        }
        if self.eat_kw("for") {
            let t = self.postfix()?;
            if !self.eat_kw("in") {
                return Err("expected in".into());
            }
            let i = self.expr_list()?;
            let (_, b) = self.suite(false)?;
            return Ok(n("For", vec![t, i, b]));
        }
        let mut deco = vec![];
        while self.eat_op("@") {
            deco.push(self.postfix()?);
            self.newline()?;
        }
        if !self.eat_kw("def") {
            return Err("expected def".into());
        }
        let name = self.ident()?;
        self.op("(")?;
        let mut ps = vec![];
        while !self.is_op(")") {
            let a = self.ident()?;
            let an = if self.eat_op(":") { self.ternary()? } else { none() };
            let d = if self.eat_op("=") { self.ternary()? } else { none() };
            ps.push(n("Param", vec![l("name", a), an, d]));
            if !self.eat_op(",") {
                break;
            }
            if self.is_op(")") {
                return Err("comma at the end of the parameters".into());
            }
        }
        self.op(")")?;
        let r = if self.eat_op("->") { self.ternary()? } else { none() };
        let (doc, b) = self.suite(true)?;
        Ok(n("Def", vec![l("name", name), n("Params", ps), r, n("Deco", deco), doc, b]))
    }
    fn if_rest(&mut self) -> R {
        let t = self.ternary()?;
        let (_, b) = self.suite(false)?;
        let e = if self.eat_kw("elif") {
            n("Body", vec![self.if_rest()?])
        } else if self.eat_kw("else") {
            self.suite(false)?.1
        } else {
            n("Body", vec![])
        };
        Ok(n("If", vec![t, b, e]))
    }
    fn opt_value(&mut self) -> R {
        if *self.peek() == Tk::Newline {
            Ok(none())
        } else {
            self.expr_list()
        }
    }
    fn simple(&mut self) -> R {
        if self.eat_kw("pass") {
            return Ok(n("Pass", vec![]));
        }
        if self.eat_kw("break") {
            return Ok(n("Break", vec![]));
        }
        if self.eat_kw("continue") {
            return Ok(n("Continue", vec![]));
        }
        if self.eat_kw("return") {
            return Ok(n("Return", vec![self.opt_value()?]));
        }
        if self.eat_kw("raise") {
            return Ok(n("Raise", vec![self.opt_value()?]));
        }
        if self.is_kw("log") {
            self.i += 1;
            return Ok(n("Log", vec![self.opt_value()?]));
        }
        if self.eat_kw("assert") {
            let t = self.ternary()?;
            let m = if self.eat_op(",") { self.ternary()? } else { none() };
            return Ok(n("Assert", vec![t, m]));
        }
        if self.eat_kw("import") {
            let x = self.dotted()?;
            let a = if self.eat_kw("as") { self.ident()? } else { String::new() };
            return Ok(n("Import", vec![l("name", x), l("name", a)]));
        }
        if self.eat_kw("from") {
            let m = self.dotted()?;
            if !self.eat_kw("import") {
                return Err("expected import".into());
            }
            let x = self.ident()?;
            let a = if self.eat_kw("as") { self.ident()? } else { String::new() };
            return Ok(n("From", vec![l("name", m), l("name", x), l("name", a)]));
        }
        let t = self.expr_list()?;
        if self.eat_op("=") {
            let v = self.expr_list()?;
            return Ok(n("Assign", vec![t, v]));
        }
        if self.eat_op(":") {
            let a = self.ternary()?;
            let v = if self.eat_op("=") { self.expr_list()? } else { none() };
            return Ok(n("Ann", vec![t, a, v]));
        }
        if let Tk::Op(o) = self.peek().clone() {
            if o.len() > 1 && o.ends_with('=') && !["==", "!=", ">=", "<="].contains(&o.as_str()) {
                self.i += 1;
                let v = self.expr_list()?;
                return Ok(n(&format!("Aug {}", &o[..o.len() - 1]), vec![t, v]));
            }
        }
        Ok(n("Expr", vec![t]))
    }
    /// expression, or a tuple without parentheses
    fn expr_list(&mut self) -> R {
        let e = self.ternary()?;
        if !self.is_op(",") {
            return Ok(e);
        }
        let mut v = vec![e];
        while self.eat_op(",") {
            v.push(self.ternary()?);
        }
        Ok(n("Tuple", v))
    }
    fn ternary(&mut self) -> R {
        let b = self.or_()?;
        if self.eat_kw("if") {
            let t = self.or_()?;
            if !self.eat_kw("else") {
                return Err("expected else".into());
            }
            let e = self.ternary()?;
            return Ok(n("IfExp", vec![t, b, e]));
        }
        Ok(b)
    }
    fn or_(&mut self) -> R {
        let mut v = vec![self.and_()?];
        while self.eat_kw("or") {
            v.push(self.and_()?);
        }
        Ok(if v.len() == 1 { v.pop().unwrap() } else { n("Bool or", v) })
    }
    fn and_(&mut self) -> R {
        let mut v = vec![self.not_()?];
        while self.eat_kw("and") {
            v.push(self.not_()?);
        }
        Ok(if v.len() == 1 { v.pop().unwrap() } else { n("Bool and", v) })
    }
    fn not_(&mut self) -> R {
        if self.eat_kw("not") {
            return Ok(n("Un not", vec![self.not_()?]));
        }
        self.cmp()
    }
    fn cmp_op(&mut self) -> Option<String> {
        if let Tk::Op(o) = self.peek().clone() {
            if ["==", "!=", "<", "<=", ">", ">="].contains(&o.as_str()) {
                self.i += 1;
                return Some(o);
            }
        }
        if self.eat_kw("in") {
            return Some("in".into());
        }
        if self.is_kw("not") && matches!(self.t.get(self.i + 1), Some(Tk::Name(x)) if x == "in") {
            self.i += 2;
            return Some("not in".into());
        }
        None
    }
    fn cmp(&mut self) -> R {
        let a = self.bin(0)?;
        if let Some(o) = self.cmp_op() {
            let b = self.bin(0)?;
            if self.cmp_op().is_some() {
                return Err("chained comparison".into());
            }
            return Ok(n(&format!("Cmp {}", o), vec![a, b]));
        }
        Ok(a)
    }
    fn bin(&mut self, level: usize) -> R {
        const LEVELS: &[&[&str]] = &[&["|"], &["^"], &["&"], &["<<", ">>"], &["+", "-"], &["*", "/", "%", "//"]];
        if level == LEVELS.len() {
            return self.unary();
        }
        let mut a = self.bin(level + 1)?;
        loop {
            let o = match self.peek() {
                Tk::Op(o) if LEVELS[level].contains(&o.as_str()) => o.clone(),
                _ => return Ok(a),
            };
            self.i += 1;
            let b = self.bin(level + 1)?;
            a = n(&format!("Bin {}", o), vec![a, b]);
        }
    }
    fn unary(&mut self) -> R {
        if self.eat_op("-") {
            let e = self.unary()?;
            return Ok(match &e {
                T::L("int", s) if !s.starts_with('-') => l("int", format!("-{}", s).parse::<BigInt>().unwrap().to_string()),
                T::L("dec", s) if !s.starts_with('-') => l("dec", format!("-{}", s)),
                _ => n("Un -", vec![e]),
            });
        }
        if self.eat_op("~") {
            return Ok(n("Un ~", vec![self.unary()?]));
        }
        self.power()
    }
    fn power(&mut self) -> R {
        let a = self.postfix()?;
        if self.eat_op("**") {
            let b = self.unary()?;
            return Ok(n("Bin **", vec![a, b]));
        }
        Ok(a)
    }
    fn postfix(&mut self) -> R {
        let mut e = self.atom()?;
        loop {
            if self.eat_op(".") {
                // attributes of self may have any name
                let a = match self.peek().clone() {
                    Tk::Name(x) => {
                        self.i += 1;
                        x
                    }
                    x => return Err(format!("expected a member name, got {:?}", x)),
                };
                e = n("Attr", vec![e, l("name", a)]);
            } else if self.eat_op("[") {
                let i = self.expr_list()?;
                self.op("]")?;
                e = n("Sub", vec![e, i]);
            } else if self.eat_op("(") {
                let mut args = vec![];
                let mut kws = vec![];
                while !self.is_op(")") {
                    let kw = matches!(self.peek(), Tk::Name(_)) && matches!(self.t.get(self.i + 1), Some(Tk::Op(o)) if o == "=");
                    if kw {
                        let a = self.ident()?;
                        self.op("=")?;
                        kws.push(n("Kw", vec![l("name", a), self.ternary()?]));
                    } else {
                        if !kws.is_empty() {
                            return Err("argument after a keyword argument".into());
                        }
                        args.push(self.ternary()?);
                    }
                    if !self.eat_op(",") {
                        break;
                    }
                    if self.is_op(")") {
                        return Err("comma at the end of the arguments".into());
                    }
                }
                self.op(")")?;
                e = n("Call", vec![e, n("Args", args), n("Kws", kws)]);
            } else {
                return Ok(e);
            }
        }
    }
    fn atom(&mut self) -> R {
        match self.peek().clone() {
            Tk::Int(s) => {
                self.i += 1;
                Ok(l("int", s))
            }
            Tk::Dec(s) => {
                self.i += 1;
                Ok(l("dec", s))
            }
            Tk::Hex(s) => {
                self.i += 1;
                Ok(l("hex", s))
            }
            Tk::Str(s) => {
                self.i += 1;
                if matches!(self.peek(), Tk::Str(_)) {
                    return Err("two strings side by side".into());
                }
                Ok(l("str", s))
            }
            Tk::Bytes(s) => {
                self.i += 1;
                Ok(l("bytes", s))
            }
            Tk::Name(x) if ["True", "False", "None"].contains(&x.as_str()) => {
                self.i += 1;
                Ok(l("const", x))
            }
            Tk::Name(_) => Ok(l("name", self.ident()?)),
            Tk::Op(o) if o == "(" => {
                self.i += 1;
                let e = self.expr_list()?;
                self.op(")")?;
                Ok(e)
            }
            Tk::Op(o) if o == "[" => {
                self.i += 1;
                let mut v = vec![];
                while !self.is_op("]") {
                    v.push(self.ternary()?);
                    if !self.eat_op(",") {
                        break;
                    }
                }
                self.op("]")?;
                Ok(n("List", v))
            }
            Tk::Op(o) if o == "{" => {
                self.i += 1;
                let mut v = vec![];
                while !self.is_op("}") {
                    let k = self.ternary()?;
                    self.op(":")?;
                    let x = self.ternary()?;
                    v.push(n("Item", vec![k, x]));
                    if !self.eat_op(",") {
                        break;
                    }
                }
                self.op("}")?;
                Ok(n("Dict", v))
            }
            x => Err(format!("expected an expression, got {:?}", x)),
        }
    }
}
