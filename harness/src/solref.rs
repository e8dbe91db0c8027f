//! Reference reading of a Solidity AST: the token pattern of the program it describes.
//! Written from the Solidity grammar and the compiler's AST format.
use crate::lex::*;
use serde_json::Value;
use std::collections::{HashMap, HashSet};

pub type Key = *const Value;
pub fn key(v: &Value) -> Key {
    v as *const Value
}

#[derive(Default)]
pub struct Render {
    /// replaces the rendering of a node
    pub over: HashMap<Key, Pat>,
    /// emitted directly before a node (documentation of the node comes after it)
    pub before: HashMap<Key, Pat>,
    /// emitted as the first item of a block
    pub at_start: HashMap<Key, Pat>,
    /// single-statement bodies that may be printed in braces
    pub braces: HashSet<Key>,
}

fn s<'a>(v: &'a Value, k: &str) -> &'a str {
    v.get(k).and_then(|x| x.as_str()).unwrap_or("")
}
fn b(v: &Value, k: &str) -> bool {
    v.get(k).and_then(|x| x.as_bool()).unwrap_or(false)
}
fn arr<'a>(v: &'a Value, k: &str) -> &'a [Value] {
    v.get(k).and_then(|x| x.as_array()).map(|x| x.as_slice()).unwrap_or(&[])
}

pub fn dotted(n: &str) -> Pat {
    let mut v = vec![];
    for (i, p) in n.split('.').enumerate() {
        if i > 0 {
            v.push(t("."));
        }
        v.push(t(p));
    }
    seq(v)
}

fn unhex(h: &str) -> Option<Vec<u8>> {
    if h.len() % 2 != 0 {
        return None;
    }
    (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).ok()).collect()
}

impl Render {
    pub fn new() -> Render {
        Render::default()
    }

    pub fn kids(&self, v: &Value, k: &str) -> Vec<Pat> {
        arr(v, k).iter().map(|x| self.p(x)).collect()
    }

    fn sub(&self, v: &Value, k: &str) -> Pat {
        match v.get(k) {
            Some(x) => self.p(x),
            None => nil(),
        }
    }

    pub fn p(&self, v: &Value) -> Pat {
        if v.is_null() {
            return nil();
        }
        let core = match self.over.get(&key(v)) {
            Some(p) => p.clone(),
            None => self.raw(v),
        };
        match self.before.get(&key(v)) {
            Some(p) => seq(vec![p.clone(), core]),
            None => core,
        }
    }

    /// body of if/else/for/while
    fn body(&self, v: &Value) -> Pat {
        let p = self.p(v);
        if self.braces.contains(&key(v)) {
            Pat::OneOf(vec![seq(vec![t("{"), p.clone(), t("}")]), p])
        } else {
            p
        }
    }

    pub fn block_of(&self, v: &Value, parts: Vec<Pat>) -> Pat {
        let mut o = vec![];
        if s(v, "nodeType") == "UncheckedBlock" {
            o.push(t("unchecked"));
        }
        o.push(t("{"));
        if let Some(p) = self.at_start.get(&key(v)) {
            o.push(p.clone());
        }
        o.extend(parts);
        o.push(t("}"));
        seq(o)
    }

    fn call_args(&self, v: &Value) -> Pat {
        let names = arr(v, "names");
        let args = self.kids(v, "arguments");
        if names.is_empty() {
            seq(vec![t("("), comma(args), t(")")])
        } else {
            let items = names.iter().zip(args).map(|(n, a)| seq(vec![t(n.as_str().unwrap_or("?")), t(":"), a])).collect();
            seq(vec![t("( {"), comma(items), t("} )")])
        }
    }

    pub fn string_lit(&self, v: &Value) -> Pat {
        let bytes = v.get("hexValue").and_then(|h| h.as_str()).and_then(unhex).unwrap_or_else(|| s(v, "value").as_bytes().to_vec());
        Pat::Str { hex: s(v, "kind") == "hexString", bytes }
    }

    fn number(&self, text: &str) -> Pat {
        if let Some(r) = text.strip_prefix('-') {
            seq(vec![t("-"), Pat::Tok(Tok::Num(r.to_string()))])
        } else {
            Pat::Tok(Tok::Num(text.to_string()))
        }
    }

    fn returns(&self, v: &Value, k: &str) -> Pat {
        match v.get(k) {
            Some(r) if !arr(r, "parameters").is_empty() => seq(vec![t("returns"), self.p(r)]),
            _ => nil(),
        }
    }

    pub fn raw(&self, v: &Value) -> Pat {
        let nt = s(v, "nodeType");
        match nt {
            "Comment" => nil(),
            "SourceUnit" => {
                seq(arr(v, "nodes").iter().map(|x| if s(x, "nodeType") == "VariableDeclaration" { seq(vec![self.p(x), t(";")]) } else { self.p(x) }).collect())
            }
            "PragmaDirective" => {
                let mut txt = String::from("pragma ");
                let mut prev = "";
                for l in arr(v, "literals") {
                    let l = l.as_str().unwrap_or("");
                    if !(prev.chars().all(|c| c.is_ascii_digit() || c == '.') && l.starts_with('.')) || prev.is_empty() {
                        txt.push(' ');
                    }
                    txt.push_str(l);
                    prev = l;
                }
                // a version is one lexical unit for the compiler's pragma matcher
                seq(vec![text(&txt), t(";")])
            }
            "ImportDirective" => {
                let file = Pat::Str { hex: false, bytes: s(v, "file").as_bytes().to_vec() };
                let al = arr(v, "symbolAliases");
                let mut o = vec![t("import")];
                if !al.is_empty() {
                    let items = al
                        .iter()
                        .map(|a| {
                            let mut x = vec![self.sub(a, "foreign")];
                            if let Some(l) = a.get("local").and_then(|l| l.as_str()) {
                                x.push(t("as"));
                                x.push(t(l));
                            }
                            seq(x)
                        })
                        .collect();
                    o.extend(vec![t("{"), comma(items), t("} from")]);
                }
                o.push(file);
                if !s(v, "unitAlias").is_empty() {
                    o.push(t("as"));
                    o.push(t(s(v, "unitAlias")));
                }
                o.push(t(";"));
                seq(o)
            }
            "ContractDefinition" => {
                let mut o = vec![];
                if b(v, "abstract") {
                    o.push(t("abstract"));
                }
                o.push(t(s(v, "contractKind")));
                o.push(t(s(v, "name")));
                let bases = self.kids(v, "baseContracts");
                if !bases.is_empty() {
                    o.push(t("is"));
                    o.push(comma(bases));
                }
                o.push(t("{"));
                for n in arr(v, "nodes") {
                    o.push(self.p(n));
                    if s(n, "nodeType") == "VariableDeclaration" {
                        o.push(t(";"));
                    }
                }
                o.push(t("}"));
                seq(o)
            }
            "InheritanceSpecifier" | "ModifierInvocation" => {
                let n = if nt == "ModifierInvocation" { self.sub(v, "modifierName") } else { self.sub(v, "baseName") };
                if v.get("arguments").is_some() {
                    seq(vec![n, t("("), comma(self.kids(v, "arguments")), t(")")])
                } else {
                    n
                }
            }
            "IdentifierPath" => dotted(s(v, "name")),
            "UserDefinedTypeName" => match v.get("pathNode") {
                Some(p) => self.p(p),
                None => dotted(s(v, "name")),
            },
            "ElementaryTypeName" => {
                if s(v, "stateMutability") == "payable" {
                    t("address payable")
                } else {
                    t(s(v, "name"))
                }
            }
            "ArrayTypeName" => seq(vec![self.sub(v, "baseType"), t("["), self.sub(v, "length"), t("]")]),
            "Mapping" => {
                let nm = |k: &str| {
                    if s(v, k).is_empty() {
                        nil()
                    } else {
                        t(s(v, k))
                    }
                };
                seq(vec![t("mapping ("), self.sub(v, "keyType"), nm("keyName"), t("=>"), self.sub(v, "valueType"), nm("valueName"), t(")")])
            }
            "FunctionTypeName" => {
                let vis = s(v, "visibility");
                let vis = if vis == "internal" { opt(t(vis)) } else { t(vis) };
                let m = s(v, "stateMutability");
                let m = if m == "nonpayable" || m.is_empty() { nil() } else { t(m) };
                seq(vec![t("function"), self.sub(v, "parameterTypes"), Pat::AnyOrder(vec![vis, m]), self.returns(v, "returnParameterTypes")])
            }
            "VariableDeclaration" => {
                let mut attrs = vec![];
                let vis = s(v, "visibility");
                if b(v, "stateVariable") {
                    attrs.push(if vis == "internal" { opt(t(vis)) } else { t(vis) });
                }
                if b(v, "constant") {
                    attrs.push(t("constant"));
                }
                if s(v, "mutability") == "immutable" {
                    attrs.push(t("immutable"));
                }
                if b(v, "indexed") {
                    attrs.push(t("indexed"));
                }
                if let Some(o) = v.get("overrides") {
                    attrs.push(self.p(o));
                }
                let loc = s(v, "storageLocation");
                if matches!(loc, "memory" | "storage" | "calldata") {
                    attrs.push(t(loc));
                }
                let mut o = vec![self.sub(v, "typeName"), Pat::AnyOrder(attrs)];
                if !s(v, "name").is_empty() {
                    o.push(t(s(v, "name")));
                }
                if let Some(x) = v.get("value") {
                    o.push(t("="));
                    o.push(self.p(x));
                }
                seq(o)
            }
            "OverrideSpecifier" => {
                let l = self.kids(v, "overrides");
                if l.is_empty() {
                    t("override")
                } else {
                    seq(vec![t("override ("), comma(l), t(")")])
                }
            }
            "ParameterList" => seq(vec![t("("), comma(self.kids(v, "parameters")), t(")")]),
            "FunctionDefinition" => {
                let kind = s(v, "kind");
                let mut o = match kind {
                    "function" | "freeFunction" => vec![t("function"), t(s(v, "name"))],
                    k => vec![t(k)],
                };
                o.push(self.sub(v, "parameters"));
                let mut attrs = vec![];
                match kind {
                    "freeFunction" => {}
                    "constructor" => attrs.push(opt(t(s(v, "visibility")))),
                    _ => attrs.push(t(s(v, "visibility"))),
                }
                let m = s(v, "stateMutability");
                if m != "nonpayable" {
                    attrs.push(t(m));
                }
                if b(v, "virtual") {
                    attrs.push(t("virtual"));
                }
                if let Some(x) = v.get("overrides") {
                    attrs.push(self.p(x));
                }
                let mods = self.kids(v, "modifiers");
                if !mods.is_empty() {
                    attrs.push(seq(mods));
                }
                o.push(Pat::AnyOrder(attrs));
                o.push(self.returns(v, "returnParameters"));
                o.push(match v.get("body") {
                    Some(x) => self.p(x),
                    None => t(";"),
                });
                seq(o)
            }
            "ModifierDefinition" => {
                let mut attrs = vec![];
                if b(v, "virtual") {
                    attrs.push(t("virtual"));
                }
                if let Some(x) = v.get("overrides") {
                    attrs.push(self.p(x));
                }
                let params = self.sub(v, "parameters");
                let params = match v.get("parameters") {
                    Some(p) if arr(p, "parameters").is_empty() => opt(params),
                    _ => params,
                };
                seq(vec![
                    t("modifier"),
                    t(s(v, "name")),
                    params,
                    Pat::AnyOrder(attrs),
                    match v.get("body") {
                        Some(x) => self.p(x),
                        None => t(";"),
                    },
                ])
            }
            "EventDefinition" => {
                seq(vec![t("event"), t(s(v, "name")), self.sub(v, "parameters"), if b(v, "anonymous") { t("anonymous") } else { nil() }, t(";")])
            }
            "ErrorDefinition" => seq(vec![t("error"), t(s(v, "name")), self.sub(v, "parameters"), t(";")]),
            "StructDefinition" => {
                let mut o = vec![t("struct"), t(s(v, "name")), t("{")];
                for m in arr(v, "members") {
                    o.push(self.p(m));
                    o.push(t(";"));
                }
                o.push(t("}"));
                seq(o)
            }
            "EnumDefinition" => seq(vec![t("enum"), t(s(v, "name")), t("{"), comma(self.kids(v, "members")), t("}")]),
            "EnumValue" => t(s(v, "name")),
            "UserDefinedValueTypeDefinition" => seq(vec![t("type"), t(s(v, "name")), t("is"), self.sub(v, "underlyingType"), t(";")]),
            "UsingForDirective" => {
                let mut o = vec![t("using")];
                if let Some(l) = v.get("libraryName") {
                    o.push(self.p(l));
                } else {
                    let items = arr(v, "functionList")
                        .iter()
                        .map(|f| if let Some(d) = f.get("definition") { seq(vec![self.p(d), t("as"), t(s(f, "operator"))]) } else { self.sub(f, "function") })
                        .collect();
                    o.extend(vec![t("{"), comma(items), t("}")]);
                }
                o.push(t("for"));
                o.push(match v.get("typeName") {
                    Some(x) => self.p(x),
                    None => t("*"),
                });
                if b(v, "global") {
                    o.push(t("global"));
                }
                o.push(t(";"));
                seq(o)
            }
            // ------------------------------------------------ statements
            "Block" | "UncheckedBlock" => self.block_of(v, self.kids(v, "statements")),
            "VariableDeclarationStatement" => {
                let d = self.kids(v, "declarations");
                let mut o = if arr(v, "declarations").len() > 1 { vec![t("("), comma(d), t(")")] } else { d };
                if let Some(x) = v.get("initialValue") {
                    o.push(t("="));
                    o.push(self.p(x));
                }
                o.push(t(";"));
                seq(o)
            }
            "ExpressionStatement" => seq(vec![self.sub(v, "expression"), t(";")]),
            "IfStatement" => {
                let mut o = vec![t("if ("), self.sub(v, "condition"), t(")")];
                if let Some(x) = v.get("trueBody") {
                    o.push(self.body(x));
                }
                if let Some(x) = v.get("falseBody") {
                    o.push(t("else"));
                    o.push(self.body(x));
                }
                seq(o)
            }
            "ForStatement" => {
                let mut o = vec![t("for (")];
                match v.get("initializationExpression") {
                    Some(x) => o.push(self.p(x)),
                    None => o.push(t(";")),
                }
                o.push(self.sub(v, "condition"));
                o.push(t(";"));
                if let Some(x) = v.get("loopExpression") {
                    // no semicolon after the loop expression
                    let core = match self.over.get(&key(x)) {
                        Some(p) => p.clone(),
                        None => self.sub(x, "expression"),
                    };
                    o.push(core);
                }
                o.push(t(")"));
                if let Some(x) = v.get("body") {
                    o.push(self.body(x));
                }
                seq(o)
            }
            "WhileStatement" => seq(vec![t("while ("), self.sub(v, "condition"), t(")"), v.get("body").map(|x| self.body(x)).unwrap_or(nil())]),
            "DoWhileStatement" => seq(vec![t("do"), v.get("body").map(|x| self.body(x)).unwrap_or(nil()), t("while ("), self.sub(v, "condition"), t(") ;")]),
            "Return" => seq(vec![t("return"), self.sub(v, "expression"), t(";")]),
            "EmitStatement" => seq(vec![t("emit"), self.sub(v, "eventCall"), t(";")]),
            "RevertStatement" => seq(vec![t("revert"), self.sub(v, "errorCall"), t(";")]),
            "PlaceholderStatement" => t("_ ;"),
            "Break" => t("break ;"),
            "Continue" => t("continue ;"),
            "TryStatement" => {
                let mut o = vec![t("try"), self.sub(v, "externalCall")];
                for (i, c) in arr(v, "clauses").iter().enumerate() {
                    if i == 0 {
                        if let Some(p) = c.get("parameters") {
                            o.push(t("returns"));
                            o.push(self.p(p));
                        }
                    } else {
                        o.push(t("catch"));
                        if !s(c, "errorName").is_empty() {
                            o.push(t(s(c, "errorName")));
                        }
                        o.push(self.sub(c, "parameters"));
                    }
                    o.push(self.sub(c, "block"));
                }
                seq(o)
            }
            "InlineAssembly" => {
                let mut o = vec![t("assembly")];
                let fl = arr(v, "flags");
                if !fl.is_empty() {
                    o.push(t("("));
                    o.push(comma(fl.iter().map(|f| Pat::Str { hex: false, bytes: f.as_str().unwrap_or("").as_bytes().to_vec() }).collect()));
                    o.push(t(")"));
                }
                o.push(self.sub(v, "AST"));
                seq(o)
            }
            // ----------------------------------------------- expressions
            "Identifier" => dotted(s(v, "name")),
            "Literal" => {
                let mut o = vec![match s(v, "kind") {
                    "string" | "unicodeString" | "hexString" => self.string_lit(v),
                    "number" => self.number(s(v, "value")),
                    _ => t(s(v, "value")),
                }];
                if !s(v, "subdenomination").is_empty() {
                    o.push(t(s(v, "subdenomination")));
                }
                seq(o)
            }
            "BinaryOperation" => seq(vec![self.sub(v, "leftExpression"), t(s(v, "operator")), self.sub(v, "rightExpression")]),
            "Assignment" => seq(vec![self.sub(v, "leftHandSide"), t(s(v, "operator")), self.sub(v, "rightHandSide")]),
            "UnaryOperation" => {
                let op = t(s(v, "operator"));
                let e = self.sub(v, "subExpression");
                if b(v, "prefix") {
                    seq(vec![op, e])
                } else {
                    seq(vec![e, op])
                }
            }
            "Conditional" => seq(vec![self.sub(v, "condition"), t("?"), self.sub(v, "trueExpression"), t(":"), self.sub(v, "falseExpression")]),
            "TupleExpression" => {
                let (l, r) = if b(v, "isInlineArray") { ("[", "]") } else { ("(", ")") };
                seq(vec![t(l), comma(self.kids(v, "components")), t(r)])
            }
            "FunctionCall" => seq(vec![self.sub(v, "expression"), self.call_args(v)]),
            "FunctionCallOptions" => {
                let items = arr(v, "names").iter().zip(self.kids(v, "options")).map(|(n, a)| seq(vec![t(n.as_str().unwrap_or("?")), t(":"), a])).collect();
                seq(vec![self.sub(v, "expression"), t("{"), comma(items), t("}")])
            }
            "NewExpression" => seq(vec![t("new"), self.sub(v, "typeName")]),
            "MemberAccess" => seq(vec![self.sub(v, "expression"), t("."), t(s(v, "memberName"))]),
            "IndexAccess" => seq(vec![self.sub(v, "baseExpression"), t("["), self.sub(v, "indexExpression"), t("]")]),
            "IndexRangeAccess" => {
                seq(vec![self.sub(v, "baseExpression"), t("["), self.sub(v, "startExpression"), t(":"), self.sub(v, "endExpression"), t("]")])
            }
            "ElementaryTypeNameExpression" => {
                let tn = v.get("typeName").cloned().unwrap_or(Value::Null);
                if s(&tn, "stateMutability") == "payable" {
                    t("payable")
                } else {
                    t(s(&tn, "name"))
                }
            }
            // -------------------------------------------------------- Yul
            "YulBlock" => seq(vec![t("{"), seq(self.kids(v, "statements")), t("}")]),
            "YulVariableDeclaration" => {
                let mut o = vec![t("let"), comma(self.kids(v, "variables"))];
                if let Some(x) = v.get("value") {
                    o.push(t(":="));
                    o.push(self.p(x));
                }
                seq(o)
            }
            "YulAssignment" => seq(vec![comma(self.kids(v, "variableNames")), t(":="), self.sub(v, "value")]),
            "YulExpressionStatement" => self.sub(v, "expression"),
            "YulFunctionCall" => seq(vec![self.sub(v, "functionName"), t("("), comma(self.kids(v, "arguments")), t(")")]),
            "YulIdentifier" | "YulTypedName" => dotted(s(v, "name")),
            "YulLiteral" => match s(v, "kind") {
                "string" => self.string_lit(v),
                "number" => self.number(s(v, "value")),
                _ => t(s(v, "value")),
            },
            "YulIf" => seq(vec![t("if"), self.sub(v, "condition"), self.sub(v, "body")]),
            "YulForLoop" => seq(vec![t("for"), self.sub(v, "pre"), self.sub(v, "condition"), self.sub(v, "post"), self.sub(v, "body")]),
            "YulSwitch" => seq(vec![t("switch"), self.sub(v, "expression"), seq(self.kids(v, "cases"))]),
            "YulCase" => {
                if v.get("value").and_then(|x| x.as_str()) == Some("default") {
                    seq(vec![t("default"), self.sub(v, "body")])
                } else {
                    seq(vec![t("case"), self.sub(v, "value"), self.sub(v, "body")])
                }
            }
            "YulFunctionDefinition" => {
                let mut o = vec![t("function"), t(s(v, "name")), t("("), comma(self.kids(v, "parameters")), t(")")];
                let r = self.kids(v, "returnVariables");
                if !r.is_empty() {
                    o.push(t("->"));
                    o.push(comma(r));
                }
                o.push(self.sub(v, "body"));
                seq(o)
            }
            "YulBreak" => t("break"),
            "YulContinue" => t("continue"),
            "YulLeave" => t("leave"),
            other => panic!("reference renderer: unknown node type {:?}", other),
        }
    }
}
