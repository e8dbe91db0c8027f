//! Generator of compiler-shaped Solidity ASTs.
use crate::src::Src;
use serde_json::{json, Map, Value};

#[derive(Clone, Debug)]
pub struct Opts {
    /// every identifier and literal is different (edits are distinguishable)
    pub unique: bool,
    /// literals in unusual but legal notations, odd strings, exotic types
    pub hostile: bool,
    /// statement budget per function
    pub stmts: usize,
    /// expression depth
    pub depth: usize,
    /// number of contract members
    pub members: usize,
    /// reuse function names for variables, callees, fields, members
    pub clash: bool,
    /// very long names and strings (line wrapping)
    pub long: bool,
    pub docs: bool,
    pub yul: bool,
}

impl Opts {
    pub fn default_with(src: &mut Src) -> Opts {
        Opts {
            unique: false,
            hostile: src.flag(),
            stmts: src.range(1, 6),
            depth: src.range(1, 4),
            members: src.range(1, 5),
            clash: src.chance(1, 4),
            long: src.chance(1, 5),
            docs: src.chance(1, 2),
            yul: src.chance(1, 3),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Uint(u32),
    Int(u32),
    Bool,
    Address,
    AddressPayable,
    FixedBytes(u32),
    Str,
    Bytes,
    Struct,
    Enum,
    Udvt,
    Contract,
    Array(Box<Ty>, Option<u32>),
    Mapping,
    Func,
}

impl Ty {
    pub fn value_type(&self) -> bool {
        !matches!(self, Ty::Str | Ty::Bytes | Ty::Struct | Ty::Array(_, _) | Ty::Mapping)
    }
    pub fn type_string(&self, loc: &str) -> String {
        match self {
            Ty::Uint(n) => format!("uint{}", n),
            Ty::Int(n) => format!("int{}", n),
            Ty::Bool => "bool".into(),
            Ty::Address => "address".into(),
            Ty::AddressPayable => "address payable".into(),
            Ty::FixedBytes(n) => format!("bytes{}", n),
            Ty::Str => format!("string {}", loc),
            Ty::Bytes => format!("bytes {}", loc),
            Ty::Struct => format!("struct Pool.Position {}", loc),
            Ty::Enum => "enum Pool.Phase".into(),
            Ty::Udvt => "intPrice".into(),
            Ty::Contract => "contract Token".into(),
            Ty::Array(b, n) => {
                let base = b.type_string("");
                let base = base.trim_end();
                match n {
                    Some(n) => format!("{}[{}] {}", base, n, loc),
                    None => format!("{}[] {}", base, loc),
                }
            }
            Ty::Mapping => "mapping(address => uint256)".into(),
            Ty::Func => "function (uint256) external returns (bool)".into(),
        }
    }
}

pub struct Gen<'a> {
    pub s: &'a mut Src,
    pub o: Opts,
    id: u64,
    ctr: u64,
    pos: u64,
    pub fn_names: Vec<String>,
    in_loop: bool,
    in_unchecked: bool,
    in_modifier: bool,
    /// how many more lists may be unusually long
    wide: usize,
    /// levels of statements and of expressions still to be nested
    deep: usize,
    deep_expr: usize,
}

pub type E = (Value, u8);

const VAR_NAMES: &[&str] = &["a", "b", "c", "x", "y", "amount", "total", "owner", "balances", "i", "value", "_to", "$tmp", "fee"];
const FN_NAMES: &[&str] = &["foo", "bar", "baz", "transfer", "f", "update", "_get", "initialize", "add", "quux", "require", "call"];
const TYPE_NAMES: &[&str] = &["Token", "Position", "Pool", "Phase", "Price", "IERC20", "Lib"];

impl<'a> Gen<'a> {
    pub fn new(s: &'a mut Src, o: Opts) -> Gen<'a> {
        let wide = if s.chance(1, 8) { s.range(1, 3) } else { 0 };
        // a file that is part of a large project has large ids
        let id = if s.chance(1, 8) { *s.pick(&[99_999u64, 9_999_999, 9_999_999]) - s.below(120) } else { 10 };
        let (deep, deep_expr) = match s.below(40) {
            38 => (s.range(4, 20), 0),
            39 => (0, s.range(4, 30)),
            _ => (0, 0),
        };
        Gen { wide, deep, deep_expr, s, o, id, ctr: 0, pos: 0, fn_names: vec![], in_loop: false, in_unchecked: false, in_modifier: false }
    }

    fn id(&mut self) -> u64 {
        self.id += 1;
        self.id
    }

    pub fn node(&mut self, ty: &str, fields: Vec<(&str, Value)>) -> Value {
        let mut m = Map::new();
        m.insert("id".into(), json!(self.id()));
        m.insert("nodeType".into(), json!(ty));
        self.pos += 7;
        m.insert("src".into(), json!(format!("{}:{}:0", self.pos, 5)));
        for (k, v) in fields {
            m.insert(k.into(), v);
        }
        Value::Object(m)
    }

    fn yul(&mut self, ty: &str, fields: Vec<(&str, Value)>) -> Value {
        let mut m = Map::new();
        m.insert("nodeType".into(), json!(ty));
        self.pos += 7;
        m.insert("src".into(), json!(format!("{}:{}:0", self.pos, 5)));
        for (k, v) in fields {
            m.insert(k.into(), v);
        }
        Value::Object(m)
    }

    fn expr(&mut self, ty: &str, ts: &str, fields: Vec<(&str, Value)>) -> Value {
        let mut v = self.node(ty, fields);
        let m = v.as_object_mut().unwrap();
        m.insert("isConstant".into(), json!(false));
        m.insert("isLValue".into(), json!(false));
        if !m.contains_key("isPure") {
            m.insert("isPure".into(), json!(false));
        }
        m.insert("lValueRequested".into(), json!(false));
        m.insert("typeDescriptions".into(), td(ts));
        v
    }

    fn suffix(&mut self, base: &str) -> String {
        let mut n = base.to_string();
        if self.o.long && self.s.chance(1, 3) {
            let reps = self.s.range(2, 12);
            for _ in 0..reps {
                n.push_str("_veryLongSegment");
            }
        }
        if self.o.unique {
            self.ctr += 1;
            n.push_str(&format!("_{}", self.ctr));
        }
        n
    }

    pub fn var_name(&mut self) -> String {
        if self.o.clash && !self.fn_names.is_empty() && self.s.chance(1, 3) {
            let k = self.s.below(self.fn_names.len() as u64) as usize;
            return self.fn_names[k].clone();
        }
        let b = *self.s.pick(VAR_NAMES);
        self.suffix(b)
    }

    fn callee_name(&mut self) -> String {
        if (self.o.clash || self.s.chance(1, 4)) && !self.fn_names.is_empty() && self.s.chance(1, 2) {
            let k = self.s.below(self.fn_names.len() as u64) as usize;
            return self.fn_names[k].clone();
        }
        let b = *self.s.pick(&["g", "min", "max", "_msgSender", "hash", "helper", "keccak256", "compute"]);
        self.suffix(b)
    }

    fn type_name_str(&mut self) -> String {
        let b = *self.s.pick(TYPE_NAMES);
        self.suffix(b)
    }

    pub fn ty(&mut self) -> Ty {
        match self.s.weighted(&[10, 5, 5, 3, 2, 3, 2, 2, 2, 2, 2, 2, 3]) {
            0 => Ty::Uint(*self.s.pick(&[256, 8, 16, 64, 96, 112, 120, 128, 136, 160, 248])),
            1 => Ty::Int(*self.s.pick(&[256, 8, 24, 64, 120, 128, 136, 192])),
            2 => Ty::Bool,
            3 => Ty::Address,
            4 => Ty::AddressPayable,
            5 => Ty::FixedBytes(*self.s.pick(&[32, 1, 4, 20])),
            6 => Ty::Str,
            7 => Ty::Bytes,
            8 => Ty::Struct,
            9 => Ty::Enum,
            10 => Ty::Udvt,
            11 => Ty::Contract,
            _ => {
                let b = self.value_ty();
                let n = if self.s.flag() { Some(self.s.range(1, 9) as u32) } else { None };
                Ty::Array(Box::new(b), n)
            }
        }
    }

    pub fn value_ty(&mut self) -> Ty {
        loop {
            let t = self.ty();
            if t.value_type() {
                return t;
            }
        }
    }

    fn num_ty(&mut self) -> Ty {
        if self.s.chance(1, 3) {
            Ty::Int(*self.s.pick(&[256, 8, 64, 128, 136]))
        } else {
            Ty::Uint(*self.s.pick(&[256, 8, 64, 128, 160]))
        }
    }

    // ------------------------------------------------------------ types

    pub fn type_node(&mut self, t: &Ty) -> Value {
        let ts = t.type_string("storage pointer");
        match t {
            Ty::Uint(_) | Ty::Int(_) | Ty::Bool | Ty::FixedBytes(_) | Ty::Str | Ty::Bytes => {
                let mut name = t.type_string("").trim_end().to_string();
                if name == "uint256" && self.s.chance(1, 6) {
                    name = "uint".into();
                }
                self.node("ElementaryTypeName", vec![("name", json!(name)), ("typeDescriptions", td(&ts))])
            }
            Ty::Address => {
                self.node("ElementaryTypeName", vec![("name", json!("address")), ("stateMutability", json!("nonpayable")), ("typeDescriptions", td(&ts))])
            }
            Ty::AddressPayable => {
                self.node("ElementaryTypeName", vec![("name", json!("address")), ("stateMutability", json!("payable")), ("typeDescriptions", td(&ts))])
            }
            Ty::Struct | Ty::Enum | Ty::Udvt | Ty::Contract => {
                let mut n = self.type_name_str();
                if self.s.chance(1, 4) {
                    n = format!("Lib.{}", n);
                }
                self.user_type(&n, &ts)
            }
            Ty::Array(b, n) => {
                let bt = self.type_node(b);
                let mut f = vec![("baseType", bt), ("typeDescriptions", td(&ts))];
                if let Some(n) = n {
                    let l = if self.s.chance(1, 6) {
                        let nm = self.var_name();
                        self.ident(&nm, "uint256")
                    } else {
                        self.lit_num(&n.to_string(), None)
                    };
                    f.push(("length", l));
                }
                self.node("ArrayTypeName", f)
            }
            Ty::Mapping => self.mapping(2),
            Ty::Func => self.func_type(),
        }
    }

    fn user_type(&mut self, n: &str, ts: &str) -> Value {
        if self.s.chance(1, 5) {
            self.node("UserDefinedTypeName", vec![("name", json!(n)), ("referencedDeclaration", json!(3)), ("typeDescriptions", td(ts))])
        } else {
            let p = self.node("IdentifierPath", vec![("name", json!(n)), ("referencedDeclaration", json!(3))]);
            self.node("UserDefinedTypeName", vec![("pathNode", p), ("referencedDeclaration", json!(3)), ("typeDescriptions", td(ts))])
        }
    }

    fn mapping(&mut self, depth: usize) -> Value {
        let kt = self.s.pick(&[Ty::Address, Ty::Uint(256), Ty::FixedBytes(32), Ty::Contract]).clone();
        let mut k = self.type_node(&kt);
        if kt == Ty::Address {
            // mapping keys print without "payable"
            k["stateMutability"] = json!("nonpayable");
        }
        let v = if depth > 0 && self.s.chance(1, 3) {
            self.mapping(depth - 1)
        } else {
            let t = self.ty();
            self.type_node(&t)
        };
        let mut f = vec![("keyType", k), ("valueType", v), ("typeDescriptions", td("mapping(address => uint256)"))];
        if self.s.chance(1, 4) {
            let kn = if self.s.flag() { self.var_name() } else { String::new() };
            let vn = if self.s.flag() { self.var_name() } else { String::new() };
            f.push(("keyName", json!(kn)));
            f.push(("keyNameLocation", json!("-1:-1:-1")));
            f.push(("valueName", json!(vn)));
            f.push(("valueNameLocation", json!("-1:-1:-1")));
        }
        self.node("Mapping", f)
    }

    fn func_type(&mut self) -> Value {
        let n = self.count(3);
        let p = self.params(n, "memory", false, false);
        let n = self.count(2);
        let r = self.params(n, "memory", false, false);
        let v = *self.s.pick(&["internal", "external"]);
        let m = *self.s.pick(&["nonpayable", "view", "pure", "payable"]);
        self.node(
            "FunctionTypeName",
            vec![
                ("parameterTypes", p),
                ("returnParameterTypes", r),
                ("visibility", json!(v)),
                ("stateMutability", json!(m)),
                ("typeDescriptions", td("function (uint256) external returns (bool)")),
            ],
        )
    }

    // ------------------------------------------------------ declarations

    fn var_decl(&mut self, t: &Ty, name: &str, loc: &str) -> Value {
        let tn = self.type_node(t);
        let loc = if t.value_type() { "default" } else { loc };
        self.node(
            "VariableDeclaration",
            vec![
                ("constant", json!(false)),
                ("mutability", json!("mutable")),
                ("name", json!(name)),
                ("nameLocation", json!("1:1:0")),
                ("scope", json!(9)),
                ("stateVariable", json!(false)),
                ("storageLocation", json!(loc)),
                ("typeDescriptions", td(&t.type_string(loc))),
                ("typeName", tn),
                ("visibility", json!("internal")),
            ],
        )
    }

    fn params(&mut self, n: usize, loc: &str, named: bool, indexed: bool) -> Value {
        let mut v = vec![];
        for _ in 0..n {
            let t = if self.s.chance(1, 12) { Ty::Func } else { self.ty() };
            let t = if named || t != Ty::Func { t } else { Ty::Bool };
            let nm = if named || self.s.chance(1, 3) { self.var_name() } else { String::new() };
            let loc = if self.s.chance(1, 4) && loc == "memory" { "calldata" } else { loc };
            let mut d = self.var_decl(&t, &nm, loc);
            if indexed {
                let ix = self.s.chance(1, 3);
                d["indexed"] = json!(ix);
                d["storageLocation"] = json!("default");
            }
            v.push(d);
        }
        self.node("ParameterList", vec![("parameters", Value::Array(v))])
    }

    fn doc(&mut self) -> Value {
        let mut text = String::new();
        let lines = self.s.range(1, 3);
        for l in 0..lines {
            if l > 0 {
                text.push('\n');
            }
            let n = if self.s.chance(1, 4) { self.s.range(10, 60) } else { self.s.range(0, 8) };
            for k in 0..n {
                if k > 0 || self.s.flag() {
                    text.push(' ');
                }
                let mut w: String = (*self.s.pick(&[
                    "@notice",
                    "@dev",
                    "Transfers",
                    "the",
                    "amount",
                    "(see",
                    "{IERC20})",
                    "\"quoted\"",
                    "it's",
                    "//",
                    "100%",
                    "*",
                    "/",
                    "@param",
                ]))
                .to_string();
                if self.o.hostile && self.s.chance(1, 10) {
                    w = (*self.s.pick(&["café", "→", "日本語", "naïve", "üßé", "*/", "a*/b", "/*"])).to_string();
                }
                if self.o.long && self.s.chance(1, 12) {
                    let reps = self.s.range(20, 170);
                    w = "w".repeat(reps);
                }
                text.push_str(&w);
            }
        }
        self.node("StructuredDocumentation", vec![("text", json!(text))])
    }

    fn maybe_doc(&mut self, v: &mut Value) {
        if self.o.docs && self.s.chance(1, 3) {
            let d = self.doc();
            v["documentation"] = d;
        }
    }

    fn overrides(&mut self) -> Value {
        let n = if self.s.flag() { 0 } else { self.s.range(1, 3) };
        let mut l = vec![];
        for _ in 0..n {
            let nm = self.type_name_str();
            let x = if self.s.chance(1, 3) {
                self.user_type(&nm, "contract Token")
            } else {
                self.node("IdentifierPath", vec![("name", json!(nm)), ("referencedDeclaration", json!(3))])
            };
            l.push(x);
        }
        self.node("OverrideSpecifier", vec![("overrides", Value::Array(l))])
    }

    pub fn state_var(&mut self, file_level: bool) -> Value {
        let t = if file_level {
            self.value_ty()
        } else {
            match self.s.weighted(&[8, 2, 1]) {
                0 => self.ty(),
                1 => Ty::Mapping,
                _ => Ty::Func,
            }
        };
        let name = self.var_name();
        let mut d = self.var_decl(&t, &name, "default");
        d["stateVariable"] = json!(!file_level);
        d["storageLocation"] = json!("default");
        let constant = file_level || (t.value_type() && self.s.chance(1, 4));
        if constant {
            d["constant"] = json!(true);
            d["mutability"] = json!("constant");
        } else if t.value_type() && self.s.chance(1, 5) {
            d["mutability"] = json!("immutable");
        }
        if !file_level {
            d["visibility"] = json!(*self.s.pick(&["internal", "public", "private"]));
            if d["visibility"] == "public" && self.s.chance(1, 3) {
                let o = self.overrides();
                d["overrides"] = o;
            }
            self.maybe_doc(&mut d);
        }
        if constant || (t != Ty::Mapping && self.s.chance(1, 3)) {
            let dep = self.o.depth;
            let e = self.expr_of(&t, dep);
            d["value"] = self.at(e, 1);
        }
        d
    }

    // ------------------------------------------------------- expressions

    /// Expression with at least the given precedence, parenthesised when needed.
    fn at(&mut self, e: E, min: u8) -> Value {
        if e.1 >= min {
            e.0
        } else {
            self.paren(e.0)
        }
    }

    fn paren(&mut self, v: Value) -> Value {
        let ts = ts_of(&v);
        self.expr("TupleExpression", &ts, vec![("components", json!([v])), ("isInlineArray", json!(false))])
    }

    pub fn ident(&mut self, name: &str, ts: &str) -> Value {
        let id = self.s.below(50) + 1;
        self.node(
            "Identifier",
            vec![("name", json!(name)), ("overloadedDeclarations", json!([])), ("referencedDeclaration", json!(id)), ("typeDescriptions", td(ts))],
        )
    }

    fn lit_num(&mut self, text: &str, sub: Option<&str>) -> Value {
        let mut f = vec![("hexValue", json!(hex(text.as_bytes()))), ("kind", json!("number")), ("value", json!(text)), ("isPure", json!(true))];
        if let Some(s) = sub {
            f.push(("subdenomination", json!(s)));
        }
        self.expr("Literal", &format!("int_const {}", text), f)
    }

    fn number(&mut self) -> Value {
        if self.o.unique {
            self.ctr += 1;
            let n = 1000 + self.ctr * 37;
            return self.lit_num(&n.to_string(), None);
        }
        if !self.o.hostile || self.s.chance(1, 2) {
            let n = match self.s.weighted(&[4, 4, 2, 1]) {
                0 => self.s.below(4),
                1 => self.s.below(1000),
                2 => self.s.below(u32::MAX as u64),
                _ => self.s.any_u64() >> 2,
            };
            let sub = if self.s.chance(1, 8) { Some(*self.s.pick(&["wei", "gwei", "ether", "seconds", "minutes", "hours", "days", "weeks"])) } else { None };
            return self.lit_num(&n.to_string(), sub);
        }
        let (t, sub): (String, Option<&str>) = match self.s.below(11) {
            0 => (format!("0x{:x}", self.s.any_u64()), None),
            1 => (format!("0X{:X}", self.s.below(1 << 20)).replace("0X", "0x"), None),
            2 => (format!("{}_{:03}_{:03}", self.s.below(99) + 1, self.s.below(1000), self.s.below(1000)), None),
            3 => (format!("{}e{}", self.s.below(30), self.s.below(40)), None),
            4 => ("115792089237316195423570985008687907853269984665640564039457584007913129639935".into(), None),
            5 => (format!("{}.{}", self.s.below(30), self.s.below(99)), Some("ether")),
            6 => (format!(".{}e{}", self.s.below(9) + 1, self.s.below(9) + 2), None),
            7 => ("9223372036854775807".into(), None),
            8 => ("18446744073709551616".into(), None),
            9 => ("0x52908400098527886E0F7030069857D2E4169EE7".into(), None),
            _ => (format!("{}E{}", self.s.below(30), self.s.below(9)), None),
        };
        self.lit_num(&t, sub)
    }

    fn raw_text(&mut self) -> String {
        let mut t = String::new();
        let n = if self.o.long && self.s.chance(1, 4) { self.s.range(30, 200) } else { self.s.small(14) };
        for _ in 0..n {
            let c = if !self.o.hostile || self.s.chance(2, 3) {
                *self.s.pick(&['a', 'b', 'Z', '0', '9', ' ', '_', '-', ':', '!', '/', '*', ',', ';', '{', '(', ')', '}', '.', '\''])
            } else {
                *self.s.pick(&[
                    '"',
                    '\\',
                    '\n',
                    '\t',
                    '\r',
                    '\u{8}',
                    '\u{b}',
                    '\u{c}',
                    '\0',
                    '\u{1}',
                    '\u{1f}',
                    '\u{7f}',
                    'é',
                    '日',
                    '\u{85}',
                    '\u{2028}',
                    '\u{202e}',
                    '\u{ffff}',
                    '😀',
                    '\u{10ffff}',
                    '\u{a0}',
                ])
            };
            t.push(c);
        }
        if self.o.unique {
            self.ctr += 1;
            t.push_str(&format!("s{}", self.ctr));
        }
        t
    }

    fn string_lit(&mut self) -> Value {
        let r = self.s.below(if self.o.hostile { 8 } else { 4 });
        if r == 6 {
            // bytes that are not UTF-8: no "value"
            let n = self.s.range(1, 5);
            let mut b: Vec<u8> = (0..n).map(|_| self.s.below(256) as u8).collect();
            b.push(0xff);
            let k = *self.s.pick(&["string", "hexString"]);
            let pre = if k == "string" { "literal_string" } else { "literal_string hex" };
            return self.expr("Literal", &format!("{}\"{}\"", pre, hex(&b)), vec![("hexValue", json!(hex(&b))), ("kind", json!(k)), ("isPure", json!(true))]);
        }
        let t = self.raw_text();
        let kind = match r {
            0..=3 => "string",
            4 | 5 => "unicodeString",
            _ => "hexString",
        };
        let ts = if t.is_ascii() { format!("literal_string \"{}\"", t) } else { format!("literal_string (contains invalid UTF-8 or unicode) {}", t.len()) };
        self.expr("Literal", &ts, vec![("hexValue", json!(hex(t.as_bytes()))), ("kind", json!(kind)), ("value", json!(t)), ("isPure", json!(true))])
    }

    fn bool_lit(&mut self) -> Value {
        let b = self.s.flag();
        self.expr(
            "Literal",
            "bool",
            vec![("hexValue", json!(hex(b.to_string().as_bytes()))), ("kind", json!("bool")), ("value", json!(b.to_string())), ("isPure", json!(true))],
        )
    }

    fn var_of(&mut self, t: &Ty, depth: usize) -> E {
        let ts = t.type_string("storage ref");
        match if depth == 0 { 0 } else { self.s.weighted(&[10, 3, 3]) } {
            0 => {
                let n = self.var_name();
                (self.ident(&n, &ts), 15)
            }
            1 => self.index(&ts, depth),
            _ => self.member(&ts, depth),
        }
    }

    fn index(&mut self, ts: &str, depth: usize) -> E {
        let b = {
            let n = self.var_name();
            let base = if depth > 0 && self.s.chance(1, 3) {
                self.index("mapping(address => uint256)", depth - 1).0
            } else {
                self.ident(&n, "mapping(address => uint256)")
            };
            base
        };
        let t = self.s.pick(&[Ty::Uint(256), Ty::Address]).clone();
        let e = if depth == 0 { self.atom(&t) } else { self.expr_of(&t, depth - 1) };
        let i = self.at(e, 1);
        (self.expr("IndexAccess", ts, vec![("baseExpression", b), ("indexExpression", i)]), 15)
    }

    fn member(&mut self, ts: &str, depth: usize) -> E {
        let b = match self.s.weighted(&[6, 2, 2]) {
            0 => {
                let n = *self.s.pick(&["msg", "block", "pos", "this", "super", "tx"]);
                self.ident(n, "msg")
            }
            1 => {
                let e = self.call("struct Pool.Position memory", depth.saturating_sub(1));
                self.at(e, 15)
            }
            _ => {
                let n = self.var_name();
                let i = self.ident(&n, "struct Pool.Position storage ref");
                i
            }
        };
        let b0 = *self.s.pick(&["sender", "value", "length", "timestamp", "owner", "amount"]);
        let mn = if self.o.clash { self.var_name() } else { self.suffix(b0) };
        (self.expr("MemberAccess", ts, vec![("expression", b), ("memberName", json!(mn)), ("memberLocation", json!("1:1:0"))]), 15)
    }

    fn atom(&mut self, t: &Ty) -> E {
        let lit = self.s.chance(1, 3);
        match t {
            Ty::Uint(_) | Ty::Int(_) if lit => (self.number(), 15),
            Ty::Bool if lit => (self.bool_lit(), 15),
            Ty::Str | Ty::Bytes if lit => (self.string_lit(), 15),
            Ty::FixedBytes(_) if lit => (self.string_lit(), 15),
            _ => self.var_of(t, 0),
        }
    }

    fn args(&mut self, n: usize, depth: usize) -> Vec<Value> {
        let mut out = vec![];
        // bias to repeated types so that same-typed arguments occur
        let t0 = self.ty();
        for _ in 0..n {
            let t = if self.s.chance(1, 2) { t0.clone() } else { self.ty() };
            let e = self.expr_of(&t, depth);
            out.push(self.at(e, 1));
        }
        out
    }

    pub fn call(&mut self, ts: &str, depth: usize) -> E {
        let d = depth.saturating_sub(1);
        let n = if depth == 0 { self.count(2) } else { self.count(4) };
        let callee = match self.s.weighted(&[8, 4, 2, 1, 1, 1]) {
            0 => {
                let nm = self.callee_name();
                self.ident(&nm, "function (uint256) returns (bool)")
            }
            1 => self.member("function (uint256) external returns (bool)", d).0,
            2 => {
                // options: x.f{value: 1}(…)
                let f = self.member("function (uint256) payable external", d).0;
                let k = self.s.range(1, 2);
                let mut names = vec![];
                let mut opts = vec![];
                for i in 0..k {
                    names.push(json!(["value", "gas", "salt"][i]));
                    let e = self.expr_of(&Ty::Uint(256), d);
                    opts.push(self.at(e, 1));
                }
                self.expr(
                    "FunctionCallOptions",
                    "function (uint256) payable external",
                    vec![("expression", f), ("names", Value::Array(names)), ("options", Value::Array(opts))],
                )
            }
            3 => {
                // new C(…) / new uint[](…)
                let tt = self.s.pick(&[Ty::Contract, Ty::Array(Box::new(Ty::Uint(256)), None), Ty::Bytes]).clone();
                let tn = self.type_node(&tt);
                self.expr("NewExpression", "function () returns (contract Token)", vec![("typeName", tn)])
            }
            4 => {
                // low level calls
                let b = {
                    let nm = self.var_name();
                    self.ident(&nm, "address")
                };
                let m = *self.s.pick(&["delegatecall", "call", "staticcall"]);
                self.expr(
                    "MemberAccess",
                    "function (bytes memory) payable returns (bool,bytes memory)",
                    vec![("expression", b), ("memberName", json!(m)), ("memberLocation", json!("1:1:0"))],
                )
            }
            _ => {
                // immediate call of a parenthesised conditional
                let c = self.cond(d);
                self.at(c, 15)
            }
        };
        let mut names = vec![];
        if n > 0 && self.s.chance(1, 10) {
            for _ in 0..n {
                let nm = self.var_name();
                names.push(json!(nm));
            }
        }
        let a = self.args(n, d);
        (self.call_node(callee, a, names, ts, "functionCall"), 15)
    }

    fn call_node(&mut self, callee: Value, args: Vec<Value>, names: Vec<Value>, ts: &str, kind: &str) -> Value {
        self.expr(
            "FunctionCall",
            ts,
            vec![
                ("arguments", Value::Array(args)),
                ("expression", callee),
                ("kind", json!(kind)),
                ("names", Value::Array(names)),
                ("nameLocations", json!([])),
                ("tryCall", json!(false)),
            ],
        )
    }

    fn conversion(&mut self, t: &Ty, depth: usize) -> E {
        let ts = t.type_string("memory");
        let e = {
            let it = self.value_ty();
            let x = self.expr_of(&it, depth);
            self.at(x, 1)
        };
        let callee = match t {
            Ty::Contract | Ty::Enum | Ty::Udvt | Ty::Struct => {
                let n = self.type_name_str();
                self.ident(&n, &format!("type({})", ts))
            }
            Ty::AddressPayable => {
                let tn =
                    self.node("ElementaryTypeName", vec![("name", json!("address")), ("stateMutability", json!("payable")), ("typeDescriptions", json!({}))]);
                self.expr(
                    "ElementaryTypeNameExpression",
                    "type(address payable)",
                    vec![("typeName", tn), ("isPure", json!(true)), ("argumentTypes", json!([{"typeIdentifier":"t_address","typeString":"address"}]))],
                )
            }
            _ => {
                let nm = ts.split(' ').next().unwrap().to_string();
                let nm = if nm.contains('[') || nm.contains('(') { "bytes32".to_string() } else { nm };
                let tn = self.node("ElementaryTypeName", vec![("name", json!(nm)), ("typeDescriptions", json!({}))]);
                self.expr(
                    "ElementaryTypeNameExpression",
                    &format!("type({})", nm),
                    vec![("typeName", tn), ("isPure", json!(true)), ("argumentTypes", json!([{"typeIdentifier":"t_address","typeString":"address"}]))],
                )
            }
        };
        (self.call_node(callee, vec![e], vec![], &ts, "typeConversion"), 15)
    }

    fn binary(&mut self, op: &str, ts: &str, lt: &Ty, rt: &Ty, depth: usize) -> E {
        let p = prec(op);
        let l = self.expr_of(lt, depth);
        let r = self.expr_of(rt, depth);
        // left associative except **
        let (lp, rp) = if op == "**" { (p + 1, p) } else { (p, p + 1) };
        let l = self.at(l, lp);
        let r = self.at(r, rp);
        (
            self.expr(
                "BinaryOperation",
                ts,
                vec![("commonType", td(&lt.type_string("memory"))), ("leftExpression", l), ("operator", json!(op)), ("rightExpression", r)],
            ),
            p,
        )
    }

    fn unary(&mut self, op: &str, prefix: bool, t: &Ty, depth: usize) -> E {
        let ts = t.type_string("storage ref");
        let sub = if op == "++" || op == "--" || op == "delete" { self.var_of(t, depth) } else { self.expr_of(t, depth) };
        let sub = self.at(sub, if prefix { 14 } else { 15 });
        (self.expr("UnaryOperation", &ts, vec![("operator", json!(op)), ("prefix", json!(prefix)), ("subExpression", sub)]), if prefix { 14 } else { 15 })
    }

    fn cond(&mut self, depth: usize) -> E {
        let t = self.value_ty();
        self.cond_of(&t, depth)
    }

    fn cond_of(&mut self, t: &Ty, depth: usize) -> E {
        let c = self.expr_of(&Ty::Bool, depth);
        let a = self.expr_of(t, depth);
        let b = self.expr_of(t, depth);
        let c = self.at(c, 3);
        let a = self.at(a, 1);
        let b = self.at(b, 2);
        (self.expr("Conditional", &t.type_string("memory"), vec![("condition", c), ("trueExpression", a), ("falseExpression", b)]), 2)
    }

    /// One level of a deeply nested expression.
    fn nested(&mut self, t: &Ty) -> E {
        self.deep_expr -= 1;
        let ts = t.type_string("");
        let how = self.s.below(6);
        if how == 5 || (how == 4 && *t == Ty::Bool) {
            let e = self.expr_of(t, 0);
            return (self.paren(e.0), 15);
        }
        if how == 4 {
            let op = *self.s.pick(&["-", "~"]);
            return self.unary(op, true, t, 0);
        }
        let op = if *t == Ty::Bool { *self.s.pick(&["&&", "||"]) } else { *self.s.pick(&["+", "-", "*", "/", "%", "**", "<<", ">>", "&", "|", "^"]) };
        let p = prec(op);
        let (lp, rp) = if op == "**" { (p + 1, p) } else { (p, p + 1) };
        let (l, r) = if self.s.flag() {
            let a = self.atom(t);
            (a, self.expr_of(t, 0))
        } else {
            let b = self.expr_of(t, 0);
            (b, self.atom(t))
        };
        let (l, r) = (self.at(l, lp), self.at(r, rp));
        let fields = vec![("commonType", td(&t.type_string("memory"))), ("leftExpression", l), ("operator", json!(op)), ("rightExpression", r)];
        (self.expr("BinaryOperation", &ts, fields), p)
    }

    pub fn expr_of(&mut self, t: &Ty, depth: usize) -> E {
        if depth == 0 {
            if self.deep_expr > 0 && matches!(t, Ty::Uint(_) | Ty::Int(_) | Ty::Bool) {
                return self.nested(t);
            }
            return self.atom(t);
        }
        let d = depth - 1;
        if self.s.chance(1, 10) {
            let e = self.expr_of(t, d);
            let v = self.paren(e.0);
            return (v, 15);
        }
        match t {
            Ty::Uint(_) | Ty::Int(_) => match self.s.weighted(&[3, 8, 3, 2, 2, 2, 1, 1, 1]) {
                0 => self.atom(t),
                1 => {
                    let op = *self.s.pick(&["+", "-", "*", "/", "%", "**"]);
                    self.binary(op, &t.type_string(""), t, t, d)
                }
                2 => {
                    let op = *self.s.pick(&["&", "|", "^", "<<", ">>"]);
                    self.binary(op, &t.type_string(""), t, t, d)
                }
                3 => self.call(&t.type_string(""), d),
                4 => self.var_of(t, d),
                5 => {
                    if self.s.flag() {
                        let op = *self.s.pick(&["-", "~"]);
                        self.unary(op, true, t, d)
                    } else {
                        let op = *self.s.pick(&["++", "--"]);
                        let p = self.s.flag();
                        self.unary(op, p, t, d)
                    }
                }
                6 => self.cond_of(t, d),
                7 => self.conversion(t, d),
                _ => {
                    let e = self.assignment(t, d);
                    let v = self.at(e, 15);
                    (v, 15)
                }
            },
            Ty::Bool => match self.s.weighted(&[3, 6, 4, 2, 2, 1]) {
                0 => self.atom(t),
                1 => {
                    let op = *self.s.pick(&["==", "!=", "<", ">", "<=", ">="]);
                    let nt = self.num_ty();
                    self.binary(op, "bool", &nt, &nt, d)
                }
                2 => {
                    let op = *self.s.pick(&["&&", "||"]);
                    self.binary(op, "bool", &Ty::Bool, &Ty::Bool, d)
                }
                3 => self.unary("!", true, &Ty::Bool, d),
                4 => self.call("bool", d),
                _ => self.cond_of(t, d),
            },
            Ty::Array(b, Some(_)) if self.s.chance(1, 2) => {
                let n = self.s.range(1, 4);
                let mut c = vec![];
                for _ in 0..n {
                    let e = self.expr_of(b, d);
                    c.push(self.at(e, 1));
                }
                (self.expr("TupleExpression", &t.type_string("memory"), vec![("components", Value::Array(c)), ("isInlineArray", json!(true))]), 15)
            }
            Ty::Bytes if self.s.chance(1, 2) => {
                if self.s.flag() {
                    // abi.encode…(…) or msg.data[a:b]
                    let abi = self.ident("abi", "abi");
                    let m0 = *self.s.pick(&["encode", "encodePacked", "encodeWithSelector"]);
                    let m = self.expr(
                        "MemberAccess",
                        "function () pure returns (bytes memory)",
                        vec![("expression", abi), ("memberName", json!(m0)), ("memberLocation", json!("1:1:0"))],
                    );
                    let n = self.count(4);
                    let a = self.args(n, d);
                    (self.call_node(m, a, vec![], "bytes memory", "functionCall"), 15)
                } else {
                    let b = self.member("bytes calldata", 0).0;
                    let mut f = vec![("baseExpression", b)];
                    if self.s.chance(2, 3) {
                        let e = self.expr_of(&Ty::Uint(256), d);
                        let e = self.at(e, 1);
                        f.push(("startExpression", e));
                    }
                    if self.s.chance(2, 3) {
                        let e = self.expr_of(&Ty::Uint(256), d);
                        let e = self.at(e, 1);
                        f.push(("endExpression", e));
                    }
                    (self.expr("IndexRangeAccess", "bytes calldata slice", f), 15)
                }
            }
            Ty::Contract | Ty::Enum | Ty::Udvt | Ty::Address | Ty::AddressPayable | Ty::FixedBytes(_) if self.s.chance(1, 2) => {
                if *t == Ty::Contract && self.s.chance(1, 3) {
                    // type(T).member
                    let ty = self.ident("type", "function (type) pure");
                    let n = self.type_name_str();
                    let a = self.ident(&n, "type(contract Token)");
                    let c = self.call_node(ty, vec![a], vec![], "type(contract Token)", "functionCall");
                    let mn = *self.s.pick(&["max", "min", "interfaceId"]);
                    return (self.expr("MemberAccess", "uint256", vec![("expression", c), ("memberName", json!(mn)), ("memberLocation", json!("1:1:0"))]), 15);
                }
                self.conversion(t, d)
            }
            Ty::Struct if self.s.chance(1, 2) => {
                let n = self.type_name_str();
                let c = self.ident(&n, "type(struct Pool.Position storage pointer)");
                let k = self.count(4);
                let a = self.args(k, d);
                let mut names = vec![];
                if self.s.chance(1, 3) {
                    for _ in 0..k {
                        let nm = self.var_name();
                        names.push(json!(nm));
                    }
                }
                (self.call_node(c, a, names, "struct Pool.Position memory", "structConstructorCall"), 15)
            }
            _ => match self.s.weighted(&[3, 2, 2]) {
                0 => self.atom(t),
                1 => self.var_of(t, d),
                _ => self.call(&t.type_string("memory"), d),
            },
        }
    }

    fn assignment(&mut self, t: &Ty, depth: usize) -> E {
        let lt = self.var_of(t, depth);
        let l = self.at(lt, 2);
        let op = match t {
            Ty::Uint(_) | Ty::Int(_) => *self.s.pick(&["=", "=", "+=", "-=", "*=", "/=", "%=", "|=", "&=", "^=", "<<=", ">>="]),
            _ => "=",
        };
        let r = self.expr_of(t, depth);
        let r = self.at(r, 1);
        let ts = match t {
            Ty::Array(_, _) | Ty::Struct | Ty::Str | Ty::Bytes => {
                let loc = *self.s.pick(&["storage ref", "memory", "storage pointer", "calldata"]);
                t.type_string(loc)
            }
            _ => t.type_string(""),
        };
        (self.expr("Assignment", &ts, vec![("leftHandSide", l), ("operator", json!(op)), ("rightHandSide", r)]), 1)
    }

    // -------------------------------------------------------- statements

    fn expr_stmt(&mut self) -> Value {
        let d = self.o.depth;
        let e = match self.s.weighted(&[8, 5, 3, 2, 2, 1, 1, 1]) {
            0 => {
                let t = self.ty();
                self.assignment(&t, d)
            }
            1 => self.call("tuple()", d),
            2 => {
                let op = *self.s.pick(&["++", "--"]);
                let p = self.s.flag();
                let t = self.num_ty();
                self.unary(op, p, &t, d.min(1))
            }
            3 => self.require(d),
            4 => {
                let t = self.ty();
                self.unary("delete", true, &t, d.min(1))
            }
            5 => {
                // tuple assignment with holes
                let n = self.s.range(2, 4);
                let mut c = vec![];
                for _ in 0..n {
                    if self.s.chance(1, 3) {
                        c.push(Value::Null);
                    } else {
                        let t = self.value_ty();
                        c.push(self.var_of(&t, 1).0);
                    }
                }
                let l = self.expr("TupleExpression", "tuple(uint256,uint256)", vec![("components", Value::Array(c)), ("isInlineArray", json!(false))]);
                let r = if self.s.flag() {
                    self.call("tuple(uint256,uint256)", d).0
                } else {
                    let a = self.args(n, d.saturating_sub(1));
                    self.expr("TupleExpression", "tuple(uint256,uint256)", vec![("components", Value::Array(a)), ("isInlineArray", json!(false))])
                };
                (self.expr("Assignment", "tuple()", vec![("leftHandSide", l), ("operator", json!("=")), ("rightHandSide", r)]), 1)
            }
            6 => {
                // abi.decode(x, (uint[], T))
                let abi = self.ident("abi", "abi");
                let m = self.expr(
                    "MemberAccess",
                    "function () pure",
                    vec![("expression", abi), ("memberName", json!("decode")), ("memberLocation", json!("1:1:0"))],
                );
                let nm = self.var_name();
                let data = self.ident(&nm, "bytes memory");
                let tn = self.node("ElementaryTypeName", vec![("name", json!("uint256")), ("typeDescriptions", json!({}))]);
                let te = self.expr("ElementaryTypeNameExpression", "type(uint256)", vec![("typeName", tn), ("isPure", json!(true))]);
                let ix = self.expr("IndexAccess", "type(uint256[] memory)", vec![("baseExpression", te)]);
                let tt = self.expr("TupleExpression", "type(uint256[] memory)", vec![("components", json!([ix])), ("isInlineArray", json!(false))]);
                (self.call_node(m, vec![data, tt], vec![], "uint256[] memory", "functionCall"), 15)
            }
            _ => {
                let t = self.ty();
                self.expr_of(&t, d)
            }
        };
        self.node("ExpressionStatement", vec![("expression", e.0)])
    }

    fn require(&mut self, d: usize) -> E {
        let nm = *self.s.pick(&["require", "require", "assert"]);
        let c = self.ident(nm, "function (bool,string memory) pure");
        let e = self.expr_of(&Ty::Bool, d);
        let mut a = vec![self.at(e, 1)];
        if nm == "require" && self.s.chance(2, 3) {
            let s = self.string_lit();
            a.push(s);
        }
        (self.call_node(c, a, vec![], "tuple()", "functionCall"), 15)
    }

    /// Length of a list.
    fn count(&mut self, max: usize) -> usize {
        let n = self.s.small(max);
        self.many(n)
    }
    fn many(&mut self, n: usize) -> usize {
        if self.wide > 0 && self.s.chance(1, 4) {
            self.wide -= 1;
            n + self.s.range(2, 9)
        } else {
            n
        }
    }

    pub fn block(&mut self, budget: usize, depth: usize) -> Value {
        let few = if self.deep == 0 && self.s.chance(1, 8) { 0 } else { self.s.range(1, budget.max(1)) };
        let n = self.many(few);
        let depth = if n > few { depth.min(1) } else { depth };
        let mut v = vec![];
        for _ in 0..n {
            v.push(self.stmt(budget, depth));
        }
        if self.s.chance(1, 4) && !self.in_modifier {
            v.push(self.ret());
        }
        self.node("Block", vec![("statements", Value::Array(v))])
    }

    fn ret(&mut self) -> Value {
        let mut f = vec![("functionReturnParameters", json!(5))];
        if self.s.chance(2, 3) {
            let d = self.o.depth;
            let v = if self.s.chance(1, 4) {
                let n = if self.s.chance(1, 5) { 0 } else { self.s.range(2, 3) };
                let a = self.args(n, d.saturating_sub(1));
                self.expr("TupleExpression", "tuple(uint256,bool)", vec![("components", Value::Array(a)), ("isInlineArray", json!(false))])
            } else {
                let t = self.ty();
                let e = self.expr_of(&t, d);
                self.at(e, 1)
            };
            f.push(("expression", v));
        }
        self.node("Return", f)
    }

    fn local_decl(&mut self) -> Value {
        let d = self.o.depth;
        if self.s.chance(1, 5) {
            let n = self.s.range(2, 4);
            let mut decls = vec![];
            let mut ids = vec![];
            for i in 0..n {
                if self.s.chance(1, 3) && !(i == n - 1 && decls.iter().all(|x: &Value| x.is_null())) {
                    decls.push(Value::Null);
                    ids.push(Value::Null);
                } else {
                    let t = self.ty();
                    let nm = self.var_name();
                    let x = self.var_decl(&t, &nm, "memory");
                    ids.push(x["id"].clone());
                    decls.push(x);
                }
            }
            let r = if self.s.flag() {
                self.call("tuple(uint256,uint256)", d).0
            } else {
                let a = self.args(n, d.saturating_sub(1));
                self.expr("TupleExpression", "tuple(uint256,uint256)", vec![("components", Value::Array(a)), ("isInlineArray", json!(false))])
            };
            return self
                .node("VariableDeclarationStatement", vec![("assignments", Value::Array(ids)), ("declarations", Value::Array(decls)), ("initialValue", r)]);
        }
        let t = if self.s.chance(1, 15) { Ty::Func } else { self.ty() };
        let nm = self.var_name();
        let loc = *self.s.pick(&["memory", "storage", "calldata"]);
        let decl = self.var_decl(&t, &nm, loc);
        let mut f = vec![("assignments", json!([decl["id"]])), ("declarations", json!([decl]))];
        if self.s.chance(3, 4) {
            let e = self.expr_of(&t, d);
            let e = self.at(e, 1);
            f.push(("initialValue", e));
        }
        self.node("VariableDeclarationStatement", f)
    }

    /// Body of if/for/while: a block or (not followed by else) a single statement
    fn body(&mut self, budget: usize, depth: usize, else_follows: bool) -> Value {
        if self.deep > 0 && !else_follows && self.s.chance(1, 4) {
            self.deep -= 1;
            return self.compound(budget, depth);
        }
        if self.deep == 0 && self.s.chance(1, 3) {
            let x = match self.s.weighted(&[6, 2, 2]) {
                0 => self.expr_stmt(),
                1 if !self.in_modifier => self.ret(),
                _ => {
                    if else_follows || depth == 0 {
                        self.expr_stmt()
                    } else {
                        self.compound(budget, depth - 1)
                    }
                }
            };
            x
        } else {
            self.block(budget, depth.saturating_sub(1))
        }
    }

    fn event_call(&mut self) -> Value {
        let n = self.type_name_str();
        let c = self.ident(&n, "function (uint256)");
        let k = self.count(3);
        let d = self.o.depth.saturating_sub(1);
        let a = self.args(k, d);
        self.call_node(c, a, vec![], "tuple()", "functionCall")
    }

    fn if_stmt(&mut self, budget: usize, depth: usize) -> Value {
        let d = self.o.depth;
        let c = self.expr_of(&Ty::Bool, d);
        let c = self.at(c, 1);
        let has_else = self.s.chance(1, 2);
        let tb = self.body(budget, depth, has_else);
        let mut f = vec![("condition", c), ("trueBody", tb)];
        if has_else {
            let fb = if depth > 0 && self.s.chance(1, 3) { self.if_stmt(budget, depth - 1) } else { self.body(budget, depth, false) };
            f.push(("falseBody", fb));
        }
        self.node("IfStatement", f)
    }

    fn looped<R>(&mut self, f: impl FnOnce(&mut Self) -> R) -> R {
        let old = self.in_loop;
        self.in_loop = true;
        let r = f(self);
        self.in_loop = old;
        r
    }

    fn compound(&mut self, budget: usize, depth: usize) -> Value {
        let d = self.o.depth;
        match self.s.weighted(&[6, 3, 2, 2]) {
            0 => self.if_stmt(budget, depth),
            1 => {
                let mut f = vec![];
                if self.s.chance(3, 4) {
                    let x = if self.s.flag() { self.local_decl() } else { self.expr_stmt() };
                    f.push(("initializationExpression", x));
                }
                if self.s.chance(3, 4) {
                    let c = self.expr_of(&Ty::Bool, d);
                    let c = self.at(c, 1);
                    f.push(("condition", c));
                }
                if self.s.chance(3, 4) {
                    let x = self.expr_stmt();
                    f.push(("loopExpression", x));
                }
                let b = self.looped(|g| g.body(budget, depth, false));
                f.push(("body", b));
                f.push(("isSimpleCounterLoop", json!(false)));
                self.node("ForStatement", f)
            }
            2 => {
                let c = self.expr_of(&Ty::Bool, d);
                let c = self.at(c, 1);
                let b = self.looped(|g| g.body(budget, depth, false));
                self.node("WhileStatement", vec![("condition", c), ("body", b)])
            }
            _ => {
                let c = self.expr_of(&Ty::Bool, d);
                let c = self.at(c, 1);
                let b = self.looped(|g| g.block(budget, depth));
                self.node("DoWhileStatement", vec![("condition", c), ("body", b)])
            }
        }
    }

    pub fn stmt(&mut self, budget: usize, depth: usize) -> Value {
        let b2 = (budget / 2).max(1);
        if self.deep > 0 {
            self.deep -= 1;
            return if self.s.chance(1, 5) { self.block(1, 0) } else { self.compound(1, 0) };
        }
        if depth > 0 && self.s.chance(1, 3) {
            return match self.s.weighted(&[8, 2, 2, 2, if self.o.yul { 3 } else { 0 }]) {
                0 => self.compound(b2, depth - 1),
                1 => self.block(b2, depth - 1),
                2 => {
                    if self.in_unchecked {
                        return self.compound(b2, depth - 1);
                    }
                    self.in_unchecked = true;
                    let mut x = self.block(b2, depth - 1);
                    self.in_unchecked = false;
                    x["nodeType"] = json!("UncheckedBlock");
                    x
                }
                3 => self.try_stmt(b2, depth - 1),
                _ => self.assembly(depth - 1),
            };
        }
        match self.s.weighted(&[10, 6, 2, 2, 1, if self.in_modifier { 4 } else { 0 }]) {
            0 => self.expr_stmt(),
            1 => self.local_decl(),
            2 => {
                let c = self.event_call();
                self.node("EmitStatement", vec![("eventCall", c)])
            }
            3 => {
                let c = self.event_call();
                self.node("RevertStatement", vec![("errorCall", c)])
            }
            4 => {
                if self.in_loop {
                    let t = *self.s.pick(&["Break", "Continue"]);
                    self.node(t, vec![])
                } else {
                    self.expr_stmt()
                }
            }
            _ => self.node("PlaceholderStatement", vec![]),
        }
    }

    fn try_stmt(&mut self, budget: usize, depth: usize) -> Value {
        let d = self.o.depth;
        let f = self.member("function (uint256) external returns (bool)", d.min(1)).0;
        let k = self.count(3);
        let a = self.args(k, d.saturating_sub(1));
        let mut call = self.call_node(f, a, vec![], "bool", "functionCall");
        call["tryCall"] = json!(true);
        let mut clauses = vec![];
        let n = self.s.range(1, 3);
        let b = self.block(budget, depth);
        let mut fl = vec![("block", b), ("errorName", json!(""))];
        if self.s.flag() {
            let k = self.s.range(1, 2);
            let p = self.params(k, "memory", true, false);
            fl.push(("parameters", p));
        }
        clauses.push(self.node("TryCatchClause", fl));
        for i in 0..n {
            let b = self.block(budget, depth);
            let (en, par) = match i {
                0 if n > 1 => ("Error", 1),
                1 if n > 2 => ("Panic", 1),
                _ => ("", if self.s.flag() { 1 } else { 0 }),
            };
            let mut fl = vec![("block", b), ("errorName", json!(en))];
            if par > 0 {
                let p = self.params(1, "memory", true, false);
                fl.push(("parameters", p));
            }
            clauses.push(self.node("TryCatchClause", fl));
        }
        self.node("TryStatement", vec![("clauses", Value::Array(clauses)), ("externalCall", call)])
    }

    // ---------------------------------------------------------------- Yul

    fn assembly(&mut self, depth: usize) -> Value {
        let b = self.yul_block(3, depth + 1, false, false);
        let mut f = vec![
            ("AST", b),
            ("evmVersion", json!("paris")),
            ("externalReferences", json!([{"declaration": 4, "isOffset": false, "isSlot": false, "src": "1:1:0", "valueSize": 1}])),
        ];
        if self.s.chance(1, 4) {
            f.push(("flags", json!(["memory-safe"])));
        }
        if self.o.docs && self.s.chance(1, 4) {
            f.push(("documentation", json!("@solidity memory-safe-assembly")));
        }
        self.node("InlineAssembly", f)
    }

    fn yul_block(&mut self, budget: usize, depth: usize, in_loop: bool, in_fn: bool) -> Value {
        let n = self.s.range(0, budget);
        let mut v = vec![];
        for _ in 0..n {
            v.push(self.yul_stmt(depth, in_loop, in_fn));
        }
        self.yul("YulBlock", vec![("statements", Value::Array(v))])
    }

    fn yul_name(&mut self) -> String {
        let b = *self.s.pick(&["ptr", "size", "x", "y", "result", "m.slot", "off_1", "$z"]);
        if b.contains('.') {
            return b.to_string();
        }
        self.suffix(b)
    }
    fn yul_decl_name(&mut self) -> String {
        let b = *self.s.pick(&["ptr", "size", "x", "y", "result"]);
        self.suffix(b)
    }

    fn yul_ident(&mut self) -> Value {
        let n = self.yul_name();
        self.yul("YulIdentifier", vec![("name", json!(n))])
    }

    fn yul_lit(&mut self) -> Value {
        match self.s.weighted(&[5, 3, 1, 2]) {
            0 => {
                let n = self.s.below(300).to_string();
                self.yul("YulLiteral", vec![("kind", json!("number")), ("type", json!("")), ("value", json!(n))])
            }
            1 => {
                let n = format!("0x{:x}", self.s.any_u64());
                self.yul("YulLiteral", vec![("kind", json!("number")), ("type", json!("")), ("value", json!(n))])
            }
            2 => {
                let b = self.s.flag();
                self.yul("YulLiteral", vec![("kind", json!("bool")), ("type", json!("")), ("value", json!(b.to_string()))])
            }
            _ => {
                let t = self.raw_text();
                self.yul("YulLiteral", vec![("kind", json!("string")), ("type", json!("")), ("hexValue", json!(hex(t.as_bytes()))), ("value", json!(t))])
            }
        }
    }

    fn yul_expr(&mut self, depth: usize) -> Value {
        match if depth == 0 { self.s.weighted(&[2, 2]) } else { self.s.weighted(&[2, 2, 4]) } {
            0 => self.yul_lit(),
            1 => self.yul_ident(),
            _ => self.yul_call(depth - 1),
        }
    }

    fn yul_call(&mut self, depth: usize) -> Value {
        let f = *self.s.pick(&["add", "mload", "mstore", "sload", "iszero", "call", "helper", "and"]);
        let f = self.yul("YulIdentifier", vec![("name", json!(f))]);
        let n = self.count(4);
        let a: Vec<Value> = (0..n).map(|_| self.yul_expr(depth)).collect();
        self.yul("YulFunctionCall", vec![("functionName", f), ("arguments", Value::Array(a))])
    }

    fn yul_typed(&mut self) -> Value {
        let n = self.yul_decl_name();
        self.yul("YulTypedName", vec![("name", json!(n)), ("type", json!(""))])
    }

    fn yul_stmt(&mut self, depth: usize, in_loop: bool, in_fn: bool) -> Value {
        if depth > 0 && self.s.chance(1, 2) {
            let d = depth - 1;
            return match self.s.weighted(&[4, 3, 3, 2, 2]) {
                0 => {
                    let c = self.yul_expr(1);
                    let b = self.yul_block(2, d, in_loop, in_fn);
                    self.yul("YulIf", vec![("condition", c), ("body", b)])
                }
                1 => {
                    let pre = self.yul_block(2, 0, false, in_fn);
                    let c = self.yul_expr(1);
                    let post = self.yul_block(2, 0, false, in_fn);
                    let b = self.yul_block(2, d, true, in_fn);
                    self.yul("YulForLoop", vec![("pre", pre), ("condition", c), ("post", post), ("body", b)])
                }
                2 => {
                    let e = self.yul_expr(1);
                    let n = self.s.range(0, 2);
                    let mut cases = vec![];
                    for _ in 0..n {
                        let v = self.yul_lit();
                        let b = self.yul_block(2, d, in_loop, in_fn);
                        cases.push(self.yul("YulCase", vec![("value", v), ("body", b)]));
                    }
                    if n == 0 || self.s.flag() {
                        let b = self.yul_block(2, d, in_loop, in_fn);
                        cases.push(self.yul("YulCase", vec![("value", json!("default")), ("body", b)]));
                    }
                    self.yul("YulSwitch", vec![("expression", e), ("cases", Value::Array(cases))])
                }
                3 => {
                    let nm = self.yul_decl_name();
                    let b = self.yul_block(2, d, false, true);
                    let mut f = vec![("name", json!(nm)), ("body", b)];
                    let n = self.count(3);
                    if n > 0 {
                        let p: Vec<Value> = (0..n).map(|_| self.yul_typed()).collect();
                        f.push(("parameters", Value::Array(p)));
                    }
                    let n = self.count(3);
                    if n > 0 {
                        let p: Vec<Value> = (0..n).map(|_| self.yul_typed()).collect();
                        f.push(("returnVariables", Value::Array(p)));
                    }
                    self.yul("YulFunctionDefinition", f)
                }
                _ => self.yul_block(2, d, in_loop, in_fn),
            };
        }
        match self.s.weighted(&[4, 4, 4, if in_loop { 2 } else { 0 }, if in_fn { 2 } else { 0 }]) {
            0 => {
                let c = self.yul_call(1);
                self.yul("YulExpressionStatement", vec![("expression", c)])
            }
            1 => {
                let n = if self.s.chance(1, 4) { 2 } else { 1 };
                let v: Vec<Value> = (0..n).map(|_| self.yul_typed()).collect();
                let mut f = vec![("variables", Value::Array(v))];
                if self.s.chance(3, 4) {
                    let e = if n > 1 { self.yul_call(1) } else { self.yul_expr(2) };
                    f.push(("value", e));
                }
                self.yul("YulVariableDeclaration", f)
            }
            2 => {
                let n = if self.s.chance(1, 4) { 2 } else { 1 };
                let v: Vec<Value> = (0..n).map(|_| self.yul_ident()).collect();
                let e = if n > 1 { self.yul_call(1) } else { self.yul_expr(2) };
                self.yul("YulAssignment", vec![("variableNames", Value::Array(v)), ("value", e)])
            }
            3 => {
                let t = *self.s.pick(&["YulBreak", "YulContinue"]);
                self.yul(t, vec![])
            }
            _ => self.yul("YulLeave", vec![]),
        }
    }

    // --------------------------------------------------------- definitions

    pub fn function(&mut self, kind: &str, name: &str, iface: bool) -> Value {
        let np = if kind == "receive" || kind == "fallback" { 0 } else { self.count(3) };
        let p = self.params(np, "memory", true, false);
        let nr = if kind == "function" || kind == "freeFunction" { self.count(2) } else { 0 };
        let named = self.s.flag();
        let r = self.params(nr, "memory", named, false);
        let vis = match kind {
            "constructor" => "public",
            "freeFunction" => "internal",
            "receive" | "fallback" => "external",
            _ if iface => "external",
            _ => *self.s.pick(&["public", "external", "internal", "private"]),
        };
        let mu = match kind {
            "receive" => "payable",
            "constructor" | "fallback" => *self.s.pick(&["nonpayable", "payable"]),
            "freeFunction" => *self.s.pick(&["nonpayable", "view", "pure"]),
            _ => *self.s.pick(&["nonpayable", "view", "pure", "payable"]),
        };
        let virt = kind != "constructor" && kind != "freeFunction" && vis != "private" && self.s.chance(1, 4);
        let implemented = !iface && !(virt && self.s.chance(1, 4));
        let mut f = vec![
            ("kind", json!(kind)),
            ("name", json!(name)),
            ("nameLocation", json!("1:1:0")),
            ("implemented", json!(implemented)),
            ("parameters", p),
            ("returnParameters", r),
            ("scope", json!(7)),
            ("stateMutability", json!(mu)),
            ("virtual", json!(virt)),
            ("visibility", json!(vis)),
        ];
        let mut mods = vec![];
        if kind != "freeFunction" && !iface {
            let n = self.count(3);
            for _ in 0..n {
                let b = *self.s.pick(&["onlyOwner", "nonReentrant", "initializer", "Token"]);
                let nm = self.suffix(b);
                let mn = if self.s.flag() {
                    self.ident(&nm, "modifier ()")
                } else {
                    self.node("IdentifierPath", vec![("name", json!(nm)), ("referencedDeclaration", json!(2))])
                };
                let mut mf = vec![("modifierName", mn)];
                if self.s.flag() {
                    let k = self.count(2);
                    let d = self.o.depth.saturating_sub(1);
                    let a = self.args(k, d);
                    mf.push(("arguments", Value::Array(a)));
                }
                mods.push(self.node("ModifierInvocation", mf));
            }
        }
        f.push(("modifiers", Value::Array(mods)));
        if kind != "constructor" && kind != "freeFunction" && self.s.chance(1, 5) {
            let o = self.overrides();
            f.push(("overrides", o));
        }
        if implemented {
            let (b, d) = (self.o.stmts, 3);
            let body = self.block(b, d);
            f.push(("body", body));
        }
        let mut v = self.node("FunctionDefinition", f);
        self.maybe_doc(&mut v);
        v
    }

    fn modifier(&mut self) -> Value {
        let b = *self.s.pick(&["onlyOwner", "nonReentrant", "initializer", "foo"]);
        let nm = self.suffix(b);
        let n = self.count(2);
        let p = self.params(n, "memory", true, false);
        let virt = self.s.chance(1, 4);
        let mut f = vec![("name", json!(nm)), ("nameLocation", json!("1:1:0")), ("parameters", p), ("virtual", json!(virt)), ("visibility", json!("internal"))];
        if self.s.chance(1, 5) {
            let o = self.overrides();
            f.push(("overrides", o));
        }
        if !(virt && self.s.chance(1, 4)) {
            self.in_modifier = true;
            let b = self.o.stmts;
            let body = self.block(b, 2);
            self.in_modifier = false;
            f.push(("body", body));
        }
        let mut v = self.node("ModifierDefinition", f);
        self.maybe_doc(&mut v);
        v
    }

    fn struct_def(&mut self) -> Value {
        let nm = self.type_name_str();
        let n = self.s.range(1, 4);
        let mut m = vec![];
        for _ in 0..n {
            let t = if self.s.chance(1, 6) { Ty::Mapping } else { self.ty() };
            let vn = self.var_name();
            let mut d = self.var_decl(&t, &vn, "default");
            d["storageLocation"] = json!("default");
            m.push(d);
        }
        self.node(
            "StructDefinition",
            vec![("canonicalName", json!(format!("Pool.{}", nm))), ("members", Value::Array(m)), ("name", json!(nm)), ("visibility", json!("public"))],
        )
    }

    fn enum_def(&mut self) -> Value {
        let nm = self.type_name_str();
        let n = self.s.range(1, 4);
        let m: Vec<Value> = (0..n)
            .map(|i| {
                let b = ["Open", "Closed", "Paused", "Done"][i];
                let nm = self.suffix(b);
                self.node("EnumValue", vec![("name", json!(nm)), ("nameLocation", json!("1:1:0"))])
            })
            .collect();
        self.node("EnumDefinition", vec![("canonicalName", json!(nm)), ("members", Value::Array(m)), ("name", json!(nm))])
    }

    fn event_def(&mut self) -> Value {
        let nm = self.type_name_str();
        let n = self.count(4);
        let named = self.s.flag();
        let p = self.params(n, "default", named, true);
        let an = self.s.chance(1, 4);
        let mut v = self.node("EventDefinition", vec![("anonymous", json!(an)), ("name", json!(nm)), ("parameters", p)]);
        self.maybe_doc(&mut v);
        v
    }

    fn error_def(&mut self) -> Value {
        let nm = self.type_name_str();
        let n = self.count(3);
        let named = self.s.flag();
        let mut p = self.params(n, "default", named, false);
        for x in p["parameters"].as_array_mut().unwrap() {
            x["storageLocation"] = json!("default");
        }
        let mut v = self.node("ErrorDefinition", vec![("name", json!(nm)), ("parameters", p)]);
        self.maybe_doc(&mut v);
        v
    }

    fn udvt_def(&mut self) -> Value {
        let nm = self.type_name_str();
        let t = self.num_ty();
        let tn = self.type_node(&t);
        self.node("UserDefinedValueTypeDefinition", vec![("canonicalName", json!(nm)), ("name", json!(nm)), ("underlyingType", tn)])
    }

    fn using(&mut self, file_level: bool) -> Value {
        let mut f = vec![];
        let lib = !file_level && self.s.flag();
        let path = |g: &mut Self| {
            let n = g.type_name_str();
            let n = if g.s.chance(1, 3) { format!("Lib.{}", n) } else { n };
            g.node("IdentifierPath", vec![("name", json!(n)), ("referencedDeclaration", json!(2))])
        };
        if lib {
            let p = if self.s.flag() {
                path(self)
            } else {
                let n = self.type_name_str();
                self.user_type(&n, "library Lib")
            };
            f.push(("libraryName", p));
        } else {
            let n = self.s.range(1, 3);
            let mut l = vec![];
            for _ in 0..n {
                let p = path(self);
                if self.s.chance(1, 3) {
                    let op = *self.s.pick(&["+", "-", "==", "~", "&"]);
                    l.push(json!({"definition": p, "operator": op}));
                } else {
                    l.push(json!({ "function": p }));
                }
            }
            f.push(("functionList", Value::Array(l)));
        }
        if !lib || self.s.chance(2, 3) {
            let t = self.value_ty();
            let tn = self.type_node(&t);
            f.push(("typeName", tn));
        }
        let global = file_level;
        f.push(("global", json!(global)));
        self.node("UsingForDirective", f)
    }

    pub fn contract(&mut self) -> Value {
        let kind = *self.s.pick(&["contract", "contract", "contract", "library", "interface"]);
        let nm = self.type_name_str();
        let iface = kind == "interface";
        let mut nodes = vec![];
        let n = self.s.range(if self.o.members > 0 { 1 } else { 0 }, self.o.members);
        for _ in 0..n {
            let m = if iface {
                match self.s.weighted(&[6, 2, 1, 1]) {
                    0 => {
                        let f = self.fn_name();
                        self.function("function", &f, true)
                    }
                    1 => self.event_def(),
                    2 => self.error_def(),
                    _ => self.struct_def(),
                }
            } else {
                match self.s.weighted(&[12, 5, 2, 2, 2, 1, 1, 1, 1, 1, 1, 1]) {
                    0 => {
                        let f = self.fn_name();
                        self.function("function", &f, false)
                    }
                    1 => self.state_var(false),
                    2 => self.modifier(),
                    3 => self.event_def(),
                    4 => self.struct_def(),
                    5 => self.error_def(),
                    6 => self.enum_def(),
                    7 => self.using(false),
                    8 => self.udvt_def(),
                    9 => self.function("constructor", "", false),
                    10 => self.function("receive", "", false),
                    _ => self.function("fallback", "", false),
                }
            };
            nodes.push(m);
        }
        let mut bases = vec![];
        if kind != "library" {
            let n = self.count(3);
            for _ in 0..n {
                let bn = self.type_name_str();
                let b = if self.s.chance(1, 3) {
                    self.user_type(&bn, "contract Token")
                } else {
                    self.node("IdentifierPath", vec![("name", json!(bn)), ("referencedDeclaration", json!(2))])
                };
                let mut f = vec![("baseName", b)];
                if kind == "contract" && self.s.chance(1, 3) {
                    let k = self.count(2);
                    let d = self.o.depth.saturating_sub(1);
                    let a = self.args(k, d);
                    f.push(("arguments", Value::Array(a)));
                }
                bases.push(self.node("InheritanceSpecifier", f));
            }
        }
        let abs = kind == "contract" && self.s.chance(1, 4);
        let mut v = self.node(
            "ContractDefinition",
            vec![
                ("abstract", json!(abs)),
                ("baseContracts", Value::Array(bases)),
                ("contractDependencies", json!([])),
                ("contractKind", json!(kind)),
                ("fullyImplemented", json!(!abs)),
                ("linearizedBaseContracts", json!([5])),
                ("name", json!(nm)),
                ("nodes", Value::Array(nodes)),
                ("scope", json!(1)),
                ("usedErrors", json!([])),
            ],
        );
        self.maybe_doc(&mut v);
        v
    }

    fn fn_name(&mut self) -> String {
        // sometimes overloads
        if !self.fn_names.is_empty() && self.s.chance(1, 6) {
            let k = self.s.below(self.fn_names.len() as u64) as usize;
            return self.fn_names[k].clone();
        }
        let n = if !self.fn_names.is_empty() && self.s.chance(1, 5) {
            let k = self.s.below(self.fn_names.len() as u64) as usize;
            let b = self.fn_names[k].clone();
            crate::src::near(self.s, &b)
        } else {
            let b = *self.s.pick(&FN_NAMES[..10]);
            self.suffix(b)
        };
        self.fn_names.push(n.clone());
        n
    }

    fn pragma(&mut self) -> Value {
        let l: Vec<&str> = match self.s.below(7) {
            0 => vec!["solidity", "^", "0.8", ".13"],
            1 => vec!["solidity", ">=", "0.7", ".0", "<", "0.9", ".0"],
            2 => vec!["solidity", "0.8", ".17"],
            3 => vec!["abicoder", "v2"],
            4 => vec!["experimental", "ABIEncoderV2"],
            5 => vec!["experimental", "SMTChecker"],
            _ => vec!["solidity", "=", "0.8", ".4"],
        };
        self.node("PragmaDirective", vec![("literals", json!(l))])
    }

    fn import(&mut self) -> Value {
        let file = if self.o.hostile && self.s.chance(1, 4) {
            (*self.s.pick(&["./a\"b.sol", "./a\\b.sol", "./é.sol", "./a'b.sol"])).to_string()
        } else {
            (*self.s.pick(&["./IERC20.sol", "../lib/Math.sol", "@openzeppelin/contracts/token/ERC20/ERC20.sol"])).to_string()
        };
        let mut al = vec![];
        let mut ua = String::new();
        match self.s.below(3) {
            0 => {}
            1 => {
                let n = self.s.range(1, 3);
                for _ in 0..n {
                    let nm = self.type_name_str();
                    let i = self.ident(&nm, "");
                    let mut o = json!({"foreign": i, "nameLocation": "1:1:0"});
                    if self.s.flag() {
                        let l = self.type_name_str();
                        o["local"] = json!(l);
                    }
                    al.push(o);
                }
            }
            _ => ua = self.type_name_str(),
        }
        self.node(
            "ImportDirective",
            vec![
                ("absolutePath", json!("x.sol")),
                ("file", json!(file)),
                ("scope", json!(1)),
                ("sourceUnit", json!(2)),
                ("symbolAliases", Value::Array(al)),
                ("unitAlias", json!(ua)),
            ],
        )
    }

    pub fn source_unit(&mut self) -> Value {
        let mut nodes = vec![];
        if self.s.chance(2, 3) {
            nodes.push(self.pragma());
        }
        let n = self.count(2);
        for _ in 0..n {
            nodes.push(self.import());
        }
        let n = self.count(2);
        for _ in 0..n {
            let x = match self.s.weighted(&[3, 3, 1, 1, 1, 1, 1]) {
                0 => {
                    let f = self.fn_name();
                    self.function("freeFunction", &f, false)
                }
                1 => self.state_var(true),
                2 => self.struct_def(),
                3 => self.enum_def(),
                4 => self.error_def(),
                5 => self.udvt_def(),
                _ => self.using(true),
            };
            nodes.push(x);
        }
        let n = 1 + self.count(1);
        for _ in 0..n {
            nodes.push(self.contract());
        }
        let lic = if self.s.chance(2, 3) {
            Some(*self.s.pick(&["MIT", "UNLICENSED", "GPL-2.0-or-later", "Apache-2.0 OR MIT", "(MIT AND BSD-3-Clause) OR (GPL-2.0-or-later WITH Classpath-exception-2.0) OR (LGPL-3.0-only AND Apache-2.0) OR LicenseRef-Some-Other-Long-License-1.0.0"]))
        } else {
            None
        };
        let mut v = self.node(
            "SourceUnit",
            vec![("absolutePath", json!("pool.sol")), ("exportedSymbols", json!({"Pool": [5], "foo": [7]})), ("nodes", Value::Array(nodes))],
        );
        if let Some(l) = lic {
            v["license"] = json!(l);
        }
        v
    }
}

pub fn prec(op: &str) -> u8 {
    match op {
        "**" => 13,
        "*" | "/" | "%" => 12,
        "+" | "-" => 11,
        "<<" | ">>" => 10,
        "&" => 9,
        "^" => 8,
        "|" => 7,
        "<" | ">" | "<=" | ">=" => 6,
        "==" | "!=" => 5,
        "&&" => 4,
        "||" => 3,
        _ => 1,
    }
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

pub fn td(ts: &str) -> Value {
    json!({"typeIdentifier": format!("t_{}", ts.replace(' ', "_")), "typeString": ts.trim_end()})
}

pub fn ts_of(v: &Value) -> String {
    v["typeDescriptions"]["typeString"].as_str().unwrap_or("").to_string()
}

pub fn generate(s: &mut Src, o: Opts) -> Value {
    let mut g = Gen::new(s, o);
    g.source_unit()
}
