//! Independent Solidity lexer (tokens and comments) and the expected-token patterns.
use num_bigint::BigInt;

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Tok {
    Word(String),
    Num(String),
    Op(String),
    /// prefix ("", "hex", "unicode"), decoded bytes
    Str(String, Vec<u8>),
    /// a mutation comment (only when the caller asks for comments in the stream)
    Comment(String),
}

impl std::fmt::Display for Tok {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Tok::Word(s) | Tok::Num(s) | Tok::Op(s) => write!(f, "{}", s),
            Tok::Comment(c) => write!(f, "/*{}*/", c),
            Tok::Str(p, b) => write!(f, "{}\"{}\"", p, String::from_utf8_lossy(b).escape_debug()),
        }
    }
}

#[derive(Debug, Clone)]
pub struct Lexed {
    pub toks: Vec<Tok>,
    /// line number of each token (0 based)
    pub lines: Vec<usize>,
    /// raw comments with start line
    pub comments: Vec<(usize, String)>,
    /// number of tokens before each comment
    pub comment_pos: Vec<usize>,
}

const OPS: &[&str] = &[
    ">>>=", "<<=", ">>=", ">>>", "**", "++", "--", "+=", "-=", "*=", "/=", "%=", "|=", "&=", "^=", "==", "!=", "<=", ">=", "&&", "||", "<<", ">>", "=>", "->",
    ":=", "+", "-", "*", "/", "%", "!", "~", "<", ">", "=", "&", "|", "^", "?", ":", ";", ",", ".", "(", ")", "[", "]", "{", "}",
];

fn is_id_start(c: char) -> bool {
    c.is_ascii_alphabetic() || c == '_' || c == '$'
}
fn is_id(c: char) -> bool {
    c.is_ascii_alphanumeric() || c == '_' || c == '$'
}

pub fn lex(text: &str) -> Result<Lexed, String> {
    let cs: Vec<char> = text.chars().collect();
    let mut i = 0;
    let mut line = 0;
    let mut out = Lexed { toks: vec![], lines: vec![], comments: vec![], comment_pos: vec![] };
    while i < cs.len() {
        let c = cs[i];
        if c == '\n' {
            line += 1;
            i += 1;
            continue;
        }
        if c == ' ' || c == '\t' || c == '\r' {
            i += 1;
            continue;
        }
        if c == '/' && i + 1 < cs.len() && cs[i + 1] == '/' {
            let st = i;
            // solc ends a line comment at LF, VT, FF, CR, NEL, LS, PS
            while i < cs.len() && !matches!(cs[i], '\n' | '\r' | '\u{0b}' | '\u{0c}' | '\u{85}' | '\u{2028}' | '\u{2029}') {
                i += 1;
            }
            out.comments.push((line, cs[st..i].iter().collect()));
            out.comment_pos.push(out.toks.len());
            continue;
        }
        if c == '/' && i + 1 < cs.len() && cs[i + 1] == '*' {
            let st = i;
            let sl = line;
            i += 2;
            loop {
                if i + 1 >= cs.len() {
                    return Err(format!("line {}: unterminated block comment", sl + 1));
                }
                if cs[i] == '*' && cs[i + 1] == '/' {
                    i += 2;
                    break;
                }
                if cs[i] == '\n' {
                    line += 1;
                }
                i += 1;
            }
            out.comments.push((sl, cs[st..i].iter().collect()));
            out.comment_pos.push(out.toks.len());
            continue;
        }
        let sl = line;
        if is_id_start(c) {
            let st = i;
            while i < cs.len() && is_id(cs[i]) {
                i += 1;
            }
            let w: String = cs[st..i].iter().collect();
            if i < cs.len() && (cs[i] == '"' || cs[i] == '\'') && (w == "hex" || w == "unicode") {
                let (raw, ni) = read_string(&cs, i, line)?;
                i = ni;
                let bytes = if w == "hex" { decode_hex(&raw, line)? } else { decode_str(&raw, true, line)? };
                out.toks.push(Tok::Str(w, bytes));
            } else {
                out.toks.push(Tok::Word(w));
            }
            out.lines.push(sl);
            continue;
        }
        if c.is_ascii_digit() || (c == '.' && i + 1 < cs.len() && cs[i + 1].is_ascii_digit()) {
            let st = i;
            if c == '0' && i + 1 < cs.len() && (cs[i + 1] == 'x' || cs[i + 1] == 'X') {
                i += 2;
                while i < cs.len() && (cs[i].is_ascii_hexdigit() || cs[i] == '_') {
                    i += 1;
                }
            } else {
                let mut seen_dot = false;
                while i < cs.len() {
                    if cs[i].is_ascii_digit() || cs[i] == '_' {
                        i += 1;
                    } else if cs[i] == '.' && !seen_dot && i + 1 < cs.len() && cs[i + 1].is_ascii_digit() {
                        seen_dot = true;
                        i += 1;
                    } else {
                        break;
                    }
                }
                if i < cs.len() && (cs[i] == 'e' || cs[i] == 'E') {
                    let mut j = i + 1;
                    if j < cs.len() && cs[j] == '-' {
                        j += 1;
                    }
                    if j < cs.len() && cs[j].is_ascii_digit() {
                        while j < cs.len() && (cs[j].is_ascii_digit() || cs[j] == '_') {
                            j += 1;
                        }
                        i = j;
                    }
                }
            }
            if i < cs.len() && is_id_start(cs[i]) {
                return Err(format!("line {}: identifier directly after number", line + 1));
            }
            out.toks.push(Tok::Num(cs[st..i].iter().collect()));
            out.lines.push(sl);
            continue;
        }
        if c == '"' || c == '\'' {
            let (raw, ni) = read_string(&cs, i, line)?;
            i = ni;
            out.toks.push(Tok::Str(String::new(), decode_str(&raw, false, line)?));
            out.lines.push(sl);
            continue;
        }
        let mut found = false;
        for op in OPS {
            let oc: Vec<char> = op.chars().collect();
            if cs.len() - i >= oc.len() && cs[i..i + oc.len()] == oc[..] {
                out.toks.push(Tok::Op(op.to_string()));
                out.lines.push(sl);
                i += oc.len();
                found = true;
                break;
            }
        }
        if !found {
            return Err(format!("line {}: illegal character {:?}", line + 1, c));
        }
    }
    Ok(out)
}

fn read_string(cs: &[char], start: usize, line: usize) -> Result<(Vec<char>, usize), String> {
    let q = cs[start];
    let mut i = start + 1;
    let mut raw = vec![];
    loop {
        if i >= cs.len() || matches!(cs[i], '\n' | '\r' | '\u{0b}' | '\u{0c}' | '\u{85}' | '\u{2028}' | '\u{2029}') {
            return Err(format!("line {}: unterminated string literal", line + 1));
        }
        if cs[i] == q {
            return Ok((raw, i + 1));
        }
        if cs[i] == '\\' {
            raw.push(cs[i]);
            i += 1;
            if i >= cs.len() {
                return Err(format!("line {}: unterminated string literal", line + 1));
            }
        }
        raw.push(cs[i]);
        i += 1;
    }
}

fn decode_hex(raw: &[char], line: usize) -> Result<Vec<u8>, String> {
    let s: String = raw.iter().filter(|c| **c != '_').collect();
    if s.len() % 2 != 0 || !s.chars().all(|c| c.is_ascii_hexdigit()) {
        return Err(format!("line {}: malformed hex string {:?}", line + 1, s));
    }
    Ok((0..s.len() / 2).map(|k| u8::from_str_radix(&s[2 * k..2 * k + 2], 16).unwrap()).collect())
}

fn decode_str(raw: &[char], unicode: bool, line: usize) -> Result<Vec<u8>, String> {
    let mut out = vec![];
    let mut i = 0;
    let err = |m: String| Err(format!("line {}: {}", line + 1, m));
    while i < raw.len() {
        let c = raw[i];
        if c != '\\' {
            if !unicode && !(' '..='~').contains(&c) {
                return err(format!("character {:?} not allowed in a plain string literal", c));
            }
            if unicode && (c as u32) < 32 {
                return err(format!("control character {:?} in a string literal", c));
            }
            let mut b = [0; 4];
            out.extend_from_slice(c.encode_utf8(&mut b).as_bytes());
            i += 1;
            continue;
        }
        i += 1;
        let e = raw[i];
        i += 1;
        match e {
            'n' => out.push(10),
            'r' => out.push(13),
            't' => out.push(9),
            '\\' => out.push(b'\\'),
            '\'' => out.push(b'\''),
            '"' => out.push(b'"'),
            'x' | 'u' => {
                let n = if e == 'x' { 2 } else { 4 };
                if i + n > raw.len() {
                    return err("truncated escape".into());
                }
                let h: String = raw[i..i + n].iter().collect();
                if !h.chars().all(|c| c.is_ascii_hexdigit()) {
                    return err(format!("malformed escape \\{}{}", e, h));
                }
                i += n;
                let v = u32::from_str_radix(&h, 16).unwrap();
                if e == 'x' {
                    out.push(v as u8);
                } else {
                    match char::from_u32(v) {
                        Some(ch) => {
                            let mut b = [0; 4];
                            out.extend_from_slice(ch.encode_utf8(&mut b).as_bytes());
                        }
                        None => return err("surrogate escape".into()),
                    }
                }
            }
            _ => return err(format!("invalid escape \\{}", e)),
        }
    }
    Ok(out)
}

// ---------------------------------------------------------------- patterns

#[derive(Debug, Clone)]
pub enum Pat {
    Tok(Tok),
    Seq(Vec<Pat>),
    /// every element, in any order
    AnyOrder(Vec<Pat>),
    Opt(Box<Pat>),
    OneOf(Vec<Pat>),
    /// a string literal with these bytes; hex literals only match hex
    Str {
        hex: bool,
        bytes: Vec<u8>,
    },
    /// an (optionally negated) integer literal with lo <= value <= hi
    IntRange(BigInt, BigInt),
    /// an integer literal with one of these values
    IntIn(Vec<BigInt>),
    /// the mutation comment
    Comment,
    Shared(std::rc::Rc<Pat>),
}

/// Exact value of a number token if it is an integer.
pub fn int_value(s: &str) -> Option<BigInt> {
    let s: String = s.chars().filter(|c| *c != '_').collect();
    if let Some(h) = s.strip_prefix("0x").or_else(|| s.strip_prefix("0X")) {
        return BigInt::parse_bytes(h.as_bytes(), 16);
    }
    let (m, e) = match s.find(|c| c == 'e' || c == 'E') {
        Some(k) => (s[..k].to_string(), s[k + 1..].parse::<i64>().ok()?),
        None => (s.clone(), 0),
    };
    let (ip, fp) = match m.find('.') {
        Some(k) => (m[..k].to_string(), m[k + 1..].to_string()),
        None => (m.clone(), String::new()),
    };
    let digits = format!("{}{}", ip, fp);
    let v = BigInt::parse_bytes(if digits.is_empty() { b"0" } else { digits.as_bytes() }, 10)?;
    let e = e - fp.len() as i64;
    if e.abs() > 5000 {
        return None;
    }
    let p = num_bigint::BigInt::from(10).pow(e.unsigned_abs() as u32);
    if e >= 0 {
        Some(v * p)
    } else if (&v % &p) == BigInt::from(0) {
        Some(v / p)
    } else {
        None
    }
}

/// Whitespace separated words and operators.
pub fn t(s: &str) -> Pat {
    let mut v: Vec<Pat> = s
        .split_whitespace()
        .map(|w| {
            let c = w.chars().next().unwrap();
            Pat::Tok(if c.is_ascii_digit() {
                Tok::Num(w.to_string())
            } else if is_id_start(c) {
                Tok::Word(w.to_string())
            } else {
                Tok::Op(w.to_string())
            })
        })
        .collect();
    if v.len() == 1 {
        v.pop().unwrap()
    } else {
        Pat::Seq(v)
    }
}
/// Arbitrary source text, lexed.
pub fn text(s: &str) -> Pat {
    match lex(s) {
        Ok(l) => Pat::Seq(l.toks.into_iter().map(Pat::Tok).collect()),
        Err(_) => t(s),
    }
}
pub fn seq(v: Vec<Pat>) -> Pat {
    Pat::Seq(v)
}
pub fn opt(p: Pat) -> Pat {
    Pat::Opt(Box::new(p))
}
pub fn nil() -> Pat {
    Pat::Seq(vec![])
}
pub fn comma(v: Vec<Pat>) -> Pat {
    let mut out = vec![];
    for (i, p) in v.into_iter().enumerate() {
        if i > 0 {
            out.push(t(","));
        }
        out.push(p);
    }
    Pat::Seq(out)
}

pub struct Matcher<'a> {
    toks: &'a [Tok],
    pub furthest: usize,
    pub expected: Vec<String>,
    /// text of the last integer pattern that matched
    pub number: Option<String>,
}

impl<'a> Matcher<'a> {
    pub fn new(toks: &'a [Tok]) -> Matcher<'a> {
        Matcher { toks, furthest: 0, expected: vec![], number: None }
    }
    fn miss(&mut self, i: usize, what: String) {
        if i > self.furthest {
            self.furthest = i;
            self.expected.clear();
        }
        if i == self.furthest && self.expected.len() < 6 {
            self.expected.push(what);
        }
    }
    fn m(&mut self, p: &Pat, i: usize) -> Vec<usize> {
        match p {
            Pat::Tok(tk) => {
                if i < self.toks.len() && self.toks[i] == *tk {
                    vec![i + 1]
                } else {
                    self.miss(i, tk.to_string());
                    vec![]
                }
            }
            Pat::Seq(v) => {
                let mut cur = vec![i];
                for q in v {
                    let mut nx: Vec<usize> = vec![];
                    for c in cur {
                        for e in self.m(q, c) {
                            if !nx.contains(&e) {
                                nx.push(e);
                            }
                        }
                    }
                    if nx.is_empty() {
                        return nx;
                    }
                    cur = nx;
                }
                cur
            }
            Pat::Opt(q) => {
                let mut r = self.m(q, i);
                if !r.contains(&i) {
                    r.push(i);
                }
                r
            }
            Pat::OneOf(v) => {
                let mut r = vec![];
                for q in v {
                    for e in self.m(q, i) {
                        if !r.contains(&e) {
                            r.push(e);
                        }
                    }
                }
                r
            }
            Pat::Shared(p) => self.m(p, i),
            Pat::Str { hex, bytes } => {
                if let Some(Tok::Str(p, b)) = self.toks.get(i) {
                    if (p == "hex") == *hex && b == bytes {
                        return vec![i + 1];
                    }
                }
                self.miss(i, format!("{}string {:?}", if *hex { "hex " } else { "" }, String::from_utf8_lossy(bytes)));
                vec![]
            }
            Pat::Comment => {
                if let Some(Tok::Comment(_)) = self.toks.get(i) {
                    return vec![i + 1];
                }
                self.miss(i, "<mutation comment>".into());
                vec![]
            }
            Pat::IntRange(_, _) | Pat::IntIn(_) => {
                let neg = self.toks.get(i) == Some(&Tok::Op("-".into()));
                let k = if neg { i + 1 } else { i };
                if let Some(Tok::Num(n)) = self.toks.get(k) {
                    if let Some(v) = int_value(n) {
                        let v = if neg { -v } else { v };
                        let ok = match p {
                            Pat::IntRange(lo, hi) => v >= *lo && v <= *hi,
                            Pat::IntIn(l) => l.contains(&v),
                            _ => false,
                        };
                        if ok {
                            self.number = Some(format!("{}{}", if neg { "-" } else { "" }, n));
                            return vec![k + 1];
                        }
                    }
                }
                self.miss(i, format!("{:?}", p).chars().take(200).collect());
                vec![]
            }
            Pat::AnyOrder(v) => {
                if v.is_empty() {
                    return vec![i];
                }
                let mut r: Vec<usize> = vec![];
                for k in 0..v.len() {
                    let starts = self.m(&v[k], i);
                    let mut rest = v.clone();
                    rest.remove(k);
                    for s in starts {
                        // an optional element matched empty may still match later
                        for e in self.m(&Pat::AnyOrder(rest.clone()), s) {
                            if !r.contains(&e) {
                                r.push(e);
                            }
                        }
                    }
                }
                r
            }
        }
    }
    pub fn matches(mut self, p: &Pat) -> Result<(), String> {
        self.check(p)
    }
    pub fn check(&mut self, p: &Pat) -> Result<(), String> {
        let ends = self.m(p, 0);
        if ends.contains(&self.toks.len()) {
            return Ok(());
        }
        let (at, exp) = if let Some(e) = ends.iter().max() {
            if *e >= self.furthest {
                (*e, vec!["<end of program>".to_string()])
            } else {
                (self.furthest, self.expected.clone())
            }
        } else {
            (self.furthest, self.expected.clone())
        };
        let lo = at.saturating_sub(6);
        let hi = (at + 4).min(self.toks.len());
        let ctx: Vec<String> = self.toks[lo..hi].iter().enumerate().map(|(k, x)| if lo + k == at { format!(">>>{}<<<", x) } else { x.to_string() }).collect();
        Err(format!("token {}: expected {:?}, printed: … {} …", at, exp, ctx.join(" ")))
    }
}
