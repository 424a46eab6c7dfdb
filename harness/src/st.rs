//! Parser of the structured text library (/repo/iec61131-st): declarations and function bodies.
//! Covers the language subset the library uses and a bit more; anything else is a harness error, never a verdict.

use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Type {
    Named(String),
    Str { wide: bool, len: Option<Box<Expr>> },
    Ref(Box<Type>),
    Array(Box<Expr>, Box<Expr>, Box<Type>),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Block {
    Input,
    Output,
    InOut,
    Local,
    Temp,
}
#[derive(Clone, Debug)]
pub struct Var {
    pub name: String,
    pub block: Block,
    pub byref: bool,
    pub constant: bool,
    /// Some(sized) for a variadic parameter
    pub variadic: Option<bool>,
    pub ty: Type,
    pub init: Option<Expr>,
}
#[derive(Clone, Debug)]
pub struct Pou {
    pub name: String,
    pub is_fb: bool,
    pub external: bool,
    pub generics: Vec<(String, String)>,
    pub ret: Option<Type>,
    pub vars: Vec<Var>,
    pub body: Vec<Stmt>,
    pub file: String,
}
#[derive(Clone, Debug)]
pub struct Global {
    pub name: String,
    pub external: bool,
    pub ty: Type,
    pub init: Option<Expr>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Expr {
    Int(i128),
    Real(f64),
    Bool(bool),
    Str(String),
    /// TYPE#literal
    Typed(String, Box<Expr>),
    Var(String),
    Bit(Box<Expr>, u32),
    Deref(Box<Expr>),
    Index(Box<Expr>, Box<Expr>),
    AddrOf(Box<Expr>),
    Un(&'static str, Box<Expr>),
    Bin(String, Box<Expr>, Box<Expr>),
    Call(String, Vec<Arg>),
}
#[derive(Clone, Debug, PartialEq)]
pub struct Arg {
    pub name: Option<String>,
    pub out: bool,
    pub value: Expr,
}
#[derive(Clone, Debug)]
pub enum Stmt {
    Assign(Expr, Expr),
    Expr(Expr),
    If(Vec<(Expr, Vec<Stmt>)>, Vec<Stmt>),
    While(Expr, Vec<Stmt>),
    Repeat(Vec<Stmt>, Expr),
    For(String, Expr, Expr, Option<Expr>, Vec<Stmt>),
    Case(Expr, Vec<(Vec<(Expr, Option<Expr>)>, Vec<Stmt>)>, Vec<Stmt>),
    Return,
    Exit,
    Continue,
    Empty,
}

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Id(String),
    Int(i128),
    Real(f64),
    Str(String),
    P(&'static str),
    Pragma(String),
    End,
}

/// nanoseconds of a TIME literal like 1d2h3.5s
fn duration(t: &str) -> i128 {
    let t = t.replace('_', "").to_lowercase();
    let (neg, mut t) = match t.strip_prefix('-') {
        Some(r) => (true, r),
        None => (false, &t[..]),
    };
    let mut ns = 0f64;
    while !t.is_empty() {
        let n = t.find(|c: char| c.is_ascii_alphabetic()).unwrap_or_else(|| panic!("duration without unit: {t}"));
        let x: f64 = t[..n].parse().expect("duration");
        t = &t[n..];
        let u = t.find(|c: char| !c.is_ascii_alphabetic()).unwrap_or(t.len());
        let f = match &t[..u] {
            "d" => 86400e9,
            "h" => 3600e9,
            "m" => 60e9,
            "s" => 1e9,
            "ms" => 1e6,
            "us" => 1e3,
            "ns" => 1.0,
            u => panic!("unknown unit {u}"),
        };
        ns += x * f;
        t = &t[u..];
    }
    let ns = ns.round() as i128;
    if neg {
        -ns
    } else {
        ns
    }
}

fn lex(text: &str, file: &str) -> Vec<(Tok, usize)> {
    let c: Vec<char> = text.chars().collect();
    let mut i = 0;
    let mut line = 1;
    let mut out = vec![];
    let at = |i: usize| c.get(i).copied().unwrap_or('\0');
    while i < c.len() {
        let ch = c[i];
        if ch == '\n' {
            line += 1;
            i += 1;
        } else if ch.is_whitespace() || ch == '\u{feff}' {
            i += 1;
        } else if (ch == '(' || ch == '/') && at(i + 1) == '*' {
            let (open, close) = if ch == '(' { ('(', ')') } else { ('/', '/') };
            let mut depth = 1;
            i += 2;
            while depth > 0 {
                assert!(i < c.len(), "{file}: unterminated comment");
                if c[i] == '*' && at(i + 1) == close {
                    depth -= 1;
                    i += 2;
                } else if c[i] == open && at(i + 1) == '*' && at(i + 2) != close {
                    depth += 1;
                    i += 2;
                } else {
                    if c[i] == '\n' {
                        line += 1;
                    }
                    i += 1;
                }
            }
        } else if ch == '/' && at(i + 1) == '/' {
            while i < c.len() && c[i] != '\n' {
                i += 1;
            }
        } else if ch == '{' {
            let mut s = String::new();
            i += 1;
            while at(i) != '}' {
                assert!(i < c.len(), "{file}: unterminated pragma");
                s.push(c[i]);
                i += 1;
            }
            i += 1;
            out.push((Tok::Pragma(s.trim().to_lowercase()), line));
        } else if ch.is_ascii_digit() {
            let s0 = i;
            while at(i).is_ascii_digit() || at(i) == '_' {
                i += 1;
            }
            if at(i) == '#' {
                let radix: u32 = c[s0..i].iter().collect::<String>().parse().expect("radix");
                i += 1;
                let s1 = i;
                while at(i).is_ascii_alphanumeric() || at(i) == '_' {
                    i += 1;
                }
                let d: String = c[s1..i].iter().filter(|c| **c != '_').collect();
                out.push((Tok::Int(i128::from_str_radix(&d, radix).expect("based literal")), line));
            } else if at(i) == '.' && at(i + 1).is_ascii_digit() || matches!(at(i), 'e' | 'E') && (at(i + 1).is_ascii_digit() || matches!(at(i + 1), '+' | '-')) {
                if at(i) == '.' {
                    i += 1;
                    while at(i).is_ascii_digit() || at(i) == '_' {
                        i += 1;
                    }
                }
                if matches!(at(i), 'e' | 'E') {
                    i += 1;
                    if matches!(at(i), '+' | '-') {
                        i += 1;
                    }
                    while at(i).is_ascii_digit() {
                        i += 1;
                    }
                }
                let d: String = c[s0..i].iter().filter(|c| **c != '_').collect();
                out.push((Tok::Real(d.parse().expect("real literal")), line));
            } else {
                let d: String = c[s0..i].iter().filter(|c| **c != '_').collect();
                out.push((Tok::Int(d.parse().expect("int literal")), line));
            }
        } else if ch.is_alphabetic() || ch == '_' {
            let s0 = i;
            while at(i).is_alphanumeric() || at(i) == '_' {
                i += 1;
            }
            let id: String = c[s0..i].iter().collect();
            if at(i) == '#' && matches!(id.to_uppercase().as_str(), "T" | "TIME" | "LT" | "LTIME") {
                let s1 = i + 1;
                i += 1;
                while at(i).is_ascii_alphanumeric() || matches!(at(i), '_' | '.' | '-') {
                    i += 1;
                }
                let ns = duration(&c[s1..i].iter().collect::<String>());
                out.push((Tok::Id("TIME".into()), line));
                out.push((Tok::P("#"), line));
                out.push((Tok::Int(ns), line));
            } else {
                out.push((Tok::Id(id), line));
            }
        } else if ch == '\'' || ch == '"' {
            let mut s = String::new();
            i += 1;
            while at(i) != ch {
                assert!(i < c.len(), "{file}: unterminated string");
                s.push(c[i]);
                i += 1;
            }
            i += 1;
            out.push((Tok::Str(s), line));
        } else {
            const P: [&str; 32] = [
                "...", ":=", "=>", "<>", "<=", ">=", "..", "**", ":", ";", ",", ".", "(", ")", "[", "]", "<", ">", "=", "+",
                "-", "*", "/", "^", "&", "#", "%", "|", "!", "?", "@", "$",
            ];
            let p = P.iter().find(|p| p.chars().enumerate().all(|(k, x)| at(i + k) == x));
            let p = p.unwrap_or_else(|| panic!("{file}:{line}: unexpected character {ch:?}"));
            out.push((Tok::P(p), line));
            i += p.len();
        }
    }
    out.push((Tok::End, line));
    out
}

struct Parser<'a> {
    t: Vec<(Tok, usize)>,
    i: usize,
    file: &'a str,
}

impl Parser<'_> {
    fn peek(&self) -> &Tok {
        &self.t[self.i].0
    }
    fn next(&mut self) -> Tok {
        let t = self.t[self.i].0.clone();
        if self.i + 1 < self.t.len() {
            self.i += 1;
        }
        t
    }
    fn bad(&self, what: &str) -> ! {
        panic!("{}:{}: expected {what}, found {:?}", self.file, self.t[self.i].1, self.peek())
    }
    fn is_kw(&self, k: &str) -> bool {
        matches!(self.peek(), Tok::Id(s) if s.eq_ignore_ascii_case(k))
    }
    fn kw(&mut self, k: &str) -> bool {
        let y = self.is_kw(k);
        if y {
            self.next();
        }
        y
    }
    fn want_kw(&mut self, k: &str) {
        if !self.kw(k) {
            self.bad(k)
        }
    }
    fn p(&mut self, p: &str) -> bool {
        let y = matches!(self.peek(), Tok::P(s) if *s == p);
        if y {
            self.next();
        }
        y
    }
    fn want(&mut self, p: &str) {
        if !self.p(p) {
            self.bad(p)
        }
    }
    fn id(&mut self) -> String {
        match self.next() {
            Tok::Id(s) => s,
            _ => {
                self.i -= 1;
                self.bad("identifier")
            }
        }
    }

    fn ty(&mut self) -> Type {
        if self.kw("REF_TO") || self.kw("POINTER") {
            self.kw("TO");
            return Type::Ref(Box::new(self.ty()));
        }
        if self.kw("ARRAY") {
            self.want("[");
            let lo = self.expr();
            self.want("..");
            let hi = self.expr();
            self.want("]");
            self.want_kw("OF");
            return Type::Array(Box::new(lo), Box::new(hi), Box::new(self.ty()));
        }
        let n = self.id();
        let up = n.to_uppercase();
        if up == "STRING" || up == "WSTRING" {
            let len = if self.p("[") {
                let e = self.expr();
                self.want("]");
                Some(Box::new(e))
            } else if self.p("(") {
                let e = self.expr();
                self.want(")");
                Some(Box::new(e))
            } else {
                None
            };
            return Type::Str { wide: up == "WSTRING", len };
        }
        Type::Named(up)
    }

    /// after VAR..: up to END_VAR
    fn vars(&mut self, block: Block, out: &mut Vec<Var>) {
        let mut byref = block == Block::InOut;
        let mut constant = false;
        loop {
            if let Tok::Pragma(p) = self.peek() {
                byref |= p == "ref";
                self.next();
            } else if self.is_kw("CONSTANT") || self.is_kw("RETAIN") || self.is_kw("NON_RETAIN") {
                constant |= self.is_kw("CONSTANT");
                self.next();
            } else {
                break;
            }
        }
        while !self.kw("END_VAR") {
            let mut names = vec![self.id()];
            while self.p(",") {
                names.push(self.id());
            }
            self.want(":");
            let mut variadic = None;
            while let Tok::Pragma(p) = self.peek() {
                if p == "sized" {
                    variadic = Some(true);
                }
                self.next();
            }
            let ty = self.ty();
            if self.p("...") {
                variadic = Some(variadic.unwrap_or(false));
            }
            let init = if self.p(":=") { Some(self.expr()) } else { None };
            self.want(";");
            for name in names {
                out.push(Var { name: name.to_uppercase(), block, byref, constant, variadic, ty: ty.clone(), init: init.clone() });
            }
        }
    }

    fn pou(&mut self, is_fb: bool, external: bool) -> Pou {
        let name = self.id();
        let mut generics = vec![];
        if self.p("<") {
            loop {
                let g = self.id().to_uppercase();
                self.want(":");
                generics.push((g, self.id().to_uppercase()));
                if !self.p(",") {
                    break;
                }
            }
            self.want(">");
        }
        let ret = if self.p(":") { Some(self.ty()) } else { None };
        self.p(";");
        let mut vars = vec![];
        loop {
            while matches!(self.peek(), Tok::Pragma(_)) {
                self.next();
            }
            if self.kw("VAR_INPUT") {
                self.vars(Block::Input, &mut vars)
            } else if self.kw("VAR_OUTPUT") {
                self.vars(Block::Output, &mut vars)
            } else if self.kw("VAR_IN_OUT") {
                self.vars(Block::InOut, &mut vars)
            } else if self.kw("VAR_TEMP") {
                self.vars(Block::Temp, &mut vars)
            } else if self.kw("VAR") {
                self.vars(Block::Local, &mut vars)
            } else {
                break;
            }
        }
        let end = if is_fb { "END_FUNCTION_BLOCK" } else { "END_FUNCTION" };
        let body = self.stmts(&[end]);
        self.want_kw(end);
        Pou { name, is_fb, external, generics, ret, vars, body, file: self.file.to_string() }
    }

    fn stmts(&mut self, ends: &[&str]) -> Vec<Stmt> {
        let mut v = vec![];
        while !ends.iter().any(|e| self.is_kw(e)) {
            if *self.peek() == Tok::End {
                self.bad(ends[0])
            }
            v.push(self.stmt());
        }
        v
    }

    fn stmt(&mut self) -> Stmt {
        while matches!(self.peek(), Tok::Pragma(_)) {
            self.next();
        }
        if self.p(";") {
            return Stmt::Empty;
        }
        if self.kw("IF") {
            let mut arms = vec![];
            let c = self.expr();
            self.want_kw("THEN");
            arms.push((c, self.stmts(&["ELSIF", "ELSE", "END_IF"])));
            let mut other = vec![];
            loop {
                if self.kw("ELSIF") {
                    let c = self.expr();
                    self.want_kw("THEN");
                    arms.push((c, self.stmts(&["ELSIF", "ELSE", "END_IF"])));
                } else if self.kw("ELSE") {
                    other = self.stmts(&["END_IF"]);
                } else {
                    self.want_kw("END_IF");
                    break;
                }
            }
            self.p(";");
            return Stmt::If(arms, other);
        }
        if self.kw("WHILE") {
            let c = self.expr();
            self.want_kw("DO");
            let b = self.stmts(&["END_WHILE"]);
            self.want_kw("END_WHILE");
            self.p(";");
            return Stmt::While(c, b);
        }
        if self.kw("REPEAT") {
            let b = self.stmts(&["UNTIL"]);
            self.want_kw("UNTIL");
            let c = self.expr();
            self.p(";");
            self.want_kw("END_REPEAT");
            self.p(";");
            return Stmt::Repeat(b, c);
        }
        if self.kw("FOR") {
            let v = self.id().to_uppercase();
            self.want(":=");
            let a = self.expr();
            self.want_kw("TO");
            let b = self.expr();
            let s = if self.kw("BY") { Some(self.expr()) } else { None };
            self.want_kw("DO");
            let body = self.stmts(&["END_FOR"]);
            self.want_kw("END_FOR");
            self.p(";");
            return Stmt::For(v, a, b, s, body);
        }
        if self.kw("CASE") {
            let e = self.expr();
            self.want_kw("OF");
            let mut arms: Vec<(Vec<(Expr, Option<Expr>)>, Vec<Stmt>)> = vec![];
            let mut other = vec![];
            loop {
                if self.kw("END_CASE") {
                    break;
                }
                if self.kw("ELSE") {
                    other = self.stmts(&["END_CASE"]);
                    continue;
                }
                // labels: a list of constants or ranges followed by ':'
                let save = self.i;
                let mut labels = vec![];
                loop {
                    let a = self.expr();
                    let b = if self.p("..") { Some(self.expr()) } else { None };
                    labels.push((a, b));
                    if !self.p(",") {
                        break;
                    }
                }
                if matches!(self.peek(), Tok::P(":")) {
                    self.next();
                    arms.push((labels, vec![]));
                } else {
                    self.i = save;
                    let s = self.stmt();
                    match arms.last_mut() {
                        Some(a) => a.1.push(s),
                        None => self.bad("case label"),
                    }
                }
            }
            self.p(";");
            return Stmt::Case(e, arms, other);
        }
        if self.kw("RETURN") {
            self.p(";");
            return Stmt::Return;
        }
        if self.kw("EXIT") {
            self.p(";");
            return Stmt::Exit;
        }
        if self.kw("CONTINUE") {
            self.p(";");
            return Stmt::Continue;
        }
        let e = self.expr();
        let s = if self.p(":=") {
            let r = self.expr();
            Stmt::Assign(e, r)
        } else {
            Stmt::Expr(e)
        };
        if !self.p(";") {
            self.bad(";")
        }
        s
    }

    fn expr(&mut self) -> Expr {
        self.bin(0)
    }
    fn bin(&mut self, lvl: usize) -> Expr {
        const L: [&[&str]; 7] =
            [&["OR", "OR_ELSE"], &["XOR"], &["AND", "&", "AND_THEN"], &["=", "<>"], &["<", ">", "<=", ">="], &["+", "-"], &["*", "/", "MOD"]];
        if lvl == L.len() {
            return self.unary();
        }
        let mut a = self.bin(lvl + 1);
        loop {
            let op = match self.peek() {
                Tok::P(p) if L[lvl].contains(p) => p.to_string(),
                Tok::Id(s) if L[lvl].contains(&s.to_uppercase().as_str()) => s.to_uppercase(),
                _ => return a,
            };
            self.next();
            let b = self.bin(lvl + 1);
            a = Expr::Bin(if op == "&" { "AND".into() } else { op }, Box::new(a), Box::new(b));
        }
    }
    fn unary(&mut self) -> Expr {
        if self.p("-") {
            return Expr::Un("-", Box::new(self.unary()));
        }
        if self.p("+") {
            return self.unary();
        }
        if self.kw("NOT") {
            return Expr::Un("NOT", Box::new(self.unary()));
        }
        if self.p("&") {
            return Expr::AddrOf(Box::new(self.unary()));
        }
        let mut e = self.power();
        if self.p("**") {
            let b = self.unary();
            e = Expr::Bin("**".into(), Box::new(e), Box::new(b));
        }
        e
    }
    fn power(&mut self) -> Expr {
        let mut e = match self.next() {
            Tok::Int(i) => Expr::Int(i),
            Tok::Real(r) => Expr::Real(r),
            Tok::Str(s) => Expr::Str(s),
            Tok::P("(") => {
                let e = self.expr();
                self.want(")");
                e
            }
            Tok::Id(s) if s.eq_ignore_ascii_case("TRUE") => Expr::Bool(true),
            Tok::Id(s) if s.eq_ignore_ascii_case("FALSE") => Expr::Bool(false),
            Tok::Id(s) => {
                if self.p("#") {
                    let v = self.unary();
                    Expr::Typed(s.to_uppercase(), Box::new(v))
                } else if self.p("(") {
                    let mut args = vec![];
                    while !self.p(")") {
                        let mut a = Arg { name: None, out: false, value: self.expr() };
                        if matches!(self.peek(), Tok::P(":=") | Tok::P("=>")) {
                            a.out = self.next() == Tok::P("=>");
                            a.name = match a.value {
                                Expr::Var(n) => Some(n),
                                _ => self.bad("parameter name"),
                            };
                            a.value = self.expr();
                        }
                        args.push(a);
                        if !self.p(",") {
                            self.want(")");
                            break;
                        }
                    }
                    Expr::Call(s.to_uppercase(), args)
                } else {
                    Expr::Var(s.to_uppercase())
                }
            }
            _ => {
                self.i -= 1;
                self.bad("expression")
            }
        };
        loop {
            if self.p("^") {
                e = Expr::Deref(Box::new(e));
            } else if self.p("[") {
                let i = self.expr();
                self.want("]");
                e = Expr::Index(Box::new(e), Box::new(i));
            } else if self.p(".") {
                self.p("%");
                match self.next() {
                    Tok::Int(n) => e = Expr::Bit(Box::new(e), n as u32),
                    Tok::Id(x) if x.len() > 1 && x[1..].chars().all(|c| c.is_ascii_digit()) && x[..1].eq_ignore_ascii_case("x") => {
                        e = Expr::Bit(Box::new(e), x[1..].parse().unwrap())
                    }
                    _ => {
                        self.i -= 1;
                        self.bad("bit number")
                    }
                }
            } else {
                return e;
            }
        }
    }
}

pub struct Lib {
    pub pous: Vec<Pou>,
    pub globals: Vec<Global>,
    index: HashMap<String, usize>,
}

impl Lib {
    pub fn pou(&self, name: &str) -> Option<&Pou> {
        self.index.get(&name.to_uppercase()).map(|i| &self.pous[*i])
    }
    pub fn global(&self, name: &str) -> Option<&Global> {
        self.globals.iter().find(|g| g.name.eq_ignore_ascii_case(name))
    }
    /// integer constant expression
    pub fn const_int(&self, e: &Expr) -> i128 {
        match e {
            Expr::Int(i) => *i,
            Expr::Typed(_, e) => self.const_int(e),
            Expr::Un("-", e) => -self.const_int(e),
            Expr::Var(n) => match self.global(n).and_then(|g| g.init.as_ref()) {
                Some(e) => self.const_int(e),
                None => panic!("not a constant: {n}"),
            },
            Expr::Bin(op, a, b) => {
                let (a, b) = (self.const_int(a), self.const_int(b));
                match op.as_str() {
                    "+" => a + b,
                    "-" => a - b,
                    "*" => a * b,
                    "/" => a / b,
                    _ => panic!("constant operator {op}"),
                }
            }
            _ => panic!("not a constant expression: {e:?}"),
        }
    }
    /// (size, alignment) of a type as the ST compiler lays it out on a 64-bit target
    pub fn layout(&self, t: &Type) -> (usize, usize) {
        match t {
            Type::Named(n) => {
                let s = scalar(n).unwrap_or_else(|| panic!("type {n} has no known layout")).size;
                (s, s)
            }
            Type::Ref(_) => (8, 8),
            Type::Array(lo, hi, t) => {
                let (s, a) = self.layout(t);
                let n = self.const_int(hi) - self.const_int(lo) + 1;
                (s * n as usize, a)
            }
            Type::Str { wide, len } => {
                let n = len.as_ref().map(|e| self.const_int(e) as usize).unwrap_or(80) + 1;
                if *wide {
                    (2 * n, 2)
                } else {
                    (n, 1)
                }
            }
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    Bool,
    Signed,
    Unsigned,
    Float,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Scalar {
    pub size: usize,
    pub kind: Kind,
}
pub fn scalar(n: &str) -> Option<Scalar> {
    use Kind::*;
    let (size, kind) = match n {
        "BOOL" => (1, Bool),
        "BYTE" | "USINT" | "CHAR" => (1, Unsigned),
        "WORD" | "UINT" | "WCHAR" => (2, Unsigned),
        "DWORD" | "UDINT" => (4, Unsigned),
        "LWORD" | "ULINT" => (8, Unsigned),
        "SINT" => (1, Signed),
        "INT" => (2, Signed),
        "DINT" => (4, Signed),
        "LINT" | "TIME" | "LTIME" | "DATE" | "LDATE" | "DT" | "LDT" | "TOD" | "LTOD" | "DATE_AND_TIME"
        | "LDATE_AND_TIME" | "TIME_OF_DAY" | "LTIME_OF_DAY" => (8, Signed),
        "REAL" => (4, Float),
        "LREAL" => (8, Float),
        _ => return None,
    };
    Some(Scalar { size, kind })
}

pub fn parse_text(text: &str, file: &str, lib: &mut Lib) {
    let mut p = Parser { t: lex(text, file), i: 0, file };
    let mut external = false;
    loop {
        match p.peek().clone() {
            Tok::End => break,
            Tok::Pragma(s) => {
                external |= s == "external";
                p.next();
            }
            _ => {
                let mut skip = external;
                if p.kw("FUNCTION") {
                    let f = p.pou(false, external);
                    lib.pous.push(f);
                } else if p.kw("FUNCTION_BLOCK") {
                    let f = p.pou(true, external);
                    lib.pous.push(f);
                } else if p.kw("VAR_GLOBAL") {
                    let mut v = vec![];
                    p.vars(Block::Local, &mut v);
                    for v in v {
                        lib.globals.push(Global { name: v.name, external, ty: v.ty, init: v.init });
                    }
                } else if p.p(";") {
                    skip = false;
                } else {
                    p.bad("a declaration")
                }
                if skip || external {
                    external = false;
                }
            }
        }
    }
}

/// The library of /repo's working tree.
pub fn lib() -> &'static Lib {
    static mut L: Option<Lib> = None;
    #[allow(static_mut_refs)]
    unsafe {
        if L.is_none() {
            let dir = format!("{}/iec61131-st", std::env::var("REPO").unwrap_or("/repo".into()));
            let mut files: Vec<_> = std::fs::read_dir(&dir)
                .unwrap_or_else(|e| panic!("{dir}: {e}"))
                .map(|e| e.unwrap().path())
                .filter(|p| p.extension().is_some_and(|x| x.eq_ignore_ascii_case("st")))
                .collect();
            files.sort();
            let mut l = Lib { pous: vec![], globals: vec![], index: HashMap::new() };
            for f in files {
                let t = std::fs::read(&f).unwrap();
                let n = f.file_name().unwrap().to_string_lossy().to_string();
                parse_text(&String::from_utf8_lossy(&t), &n, &mut l);
            }
            for (i, p) in l.pous.iter().enumerate() {
                l.index.insert(p.name.to_uppercase(), i);
            }
            L = Some(l);
        }
        L.as_ref().unwrap()
    }
}
