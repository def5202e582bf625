//! A symbolic interpreter for the Solidity subset in which the verifier contract is generated: libraries, contracts,
//! structs, memory by reference in a flat word-addressed memory, fixed and dynamic arrays, loops, inline assembly with
//! `staticcall` to the bn256 precompiles.  Words are constants or named symbolic words with an interval; comparisons
//! fork the execution through the engine.  The precompiles work on discrete logarithms: a named point has a symbolic
//! exponent modulo a small prime and a symbolic validity.
use num::bigint::BigUint;
use num::{One, Zero};
use std::collections::HashMap;
use std::rc::Rc;
use symcore::engine::*;

pub const Q: &str = "21888242871839275222246405745257275088696311157297823662689037894645226208583";
pub const R: &str = "21888242871839275222246405745257275088548364400416034343698204186575808495617";
pub fn dec(s: &str) -> BigUint {
    s.parse().unwrap()
}
fn two256() -> BigUint {
    BigUint::one() << 256
}

// ------------------------------------------------------------------------------------------ lexer
#[derive(Clone, PartialEq, Debug)]
pub enum T {
    Id(String),
    Num(BigUint),
    Str(String),
    P(String),
    End,
}
/// not valid Solidity: the generated text does not compile
fn ill(m: impl Into<String>) -> ! {
    panic!("the generated contract does not compile: {}", m.into())
}
fn bad(m: impl Into<String>) -> ! {
    abort_unknown(format!("the generated contract is outside the interpreted language: {}", m.into()))
}
fn lex(s: &str) -> Vec<T> {
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    let mut out = vec![];
    while i < c.len() {
        let x = c[i];
        if x.is_whitespace() {
            i += 1;
        } else if x == '/' && c.get(i + 1) == Some(&'/') {
            while i < c.len() && c[i] != '\n' {
                i += 1;
            }
        } else if x == '/' && c.get(i + 1) == Some(&'*') {
            i += 2;
            while i + 1 < c.len() && !(c[i] == '*' && c[i + 1] == '/') {
                i += 1;
            }
            i += 2;
        } else if x.is_ascii_digit() {
            let st = i;
            if x == '0' && c.get(i + 1) == Some(&'x') {
                i += 2;
                while i < c.len() && (c[i].is_ascii_hexdigit() || c[i] == '_') {
                    i += 1;
                }
                let h: String = c[st + 2..i].iter().filter(|x| **x != '_').collect();
                out.push(T::Num(BigUint::parse_bytes(h.as_bytes(), 16).unwrap_or_else(|| bad("number"))));
            } else {
                while i < c.len() && (c[i].is_ascii_digit() || c[i] == '_') {
                    i += 1;
                }
                let h: String = c[st..i].iter().filter(|x| **x != '_').collect();
                out.push(T::Num(h.parse().unwrap_or_else(|_| bad("number"))));
            }
        } else if x.is_alphabetic() || x == '_' || x == '$' {
            let st = i;
            while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_' || c[i] == '$') {
                i += 1;
            }
            out.push(T::Id(c[st..i].iter().collect()));
        } else if x == '"' || x == '\'' {
            let st = i + 1;
            i += 1;
            while i < c.len() && c[i] != x {
                i += 1;
            }
            out.push(T::Str(c[st..i.min(c.len())].iter().collect()));
            i += 1;
        } else {
            let ops = [">>>=", "<<=", ">>=", "**", "==", "!=", "<=", ">=", "&&", "||", "++", "--", "+=", "-=", "*=", "/=", "%=", "|=", "&=", "^=", "<<", ">>", "=>", ":=", "->"];
            let rest: String = c[i..(i + 4).min(c.len())].iter().collect();
            let op = ops.iter().find(|o| rest.starts_with(**o)).map(|o| o.to_string()).unwrap_or(x.to_string());
            i += op.len();
            out.push(T::P(op));
        }
    }
    out.push(T::End);
    out
}

// ----------------------------------------------------------------------------------------- syntax
#[derive(Clone, Debug)]
enum TyX {
    Name(Vec<String>),
    Arr(Box<TyX>, Option<Box<E>>),
}
#[derive(Clone, Debug)]
enum E {
    Num(BigUint),
    Bool(bool),
    Str(String),
    Id(String),
    Mem(Box<E>, String),
    Idx(Box<E>, Box<E>),
    Call(Box<E>, Vec<E>, Vec<String>),
    New(TyX),
    Un(String, Box<E>),
    Post(String, Box<E>),
    Bin(String, Box<E>, Box<E>),
    Asg(String, Box<E>, Box<E>),
    Tern(Box<E>, Box<E>, Box<E>),
    Tup(Vec<E>),
    Arr(Vec<E>),
}
#[derive(Clone, Debug)]
enum S {
    Var(TyX, String, Option<E>),
    Ex(E),
    If(E, Box<S>, Option<Box<S>>),
    Loop(Option<Box<S>>, Option<E>, Option<E>, Box<S>, bool),
    Ret(Option<E>),
    Block(Vec<S>),
    Asm(Vec<Y>),
    Break,
    Continue,
}
#[derive(Clone, Debug)]
enum Y {
    Let(Vec<String>, Option<YE>),
    Asg(Vec<String>, YE),
    Ex(YE),
    If(YE, Vec<Y>),
    Switch(YE, Vec<(YE, Vec<Y>)>, Option<Vec<Y>>),
    For(Vec<Y>, YE, Vec<Y>, Vec<Y>),
    Block(Vec<Y>),
}
#[derive(Clone, Debug)]
enum YE {
    Num(BigUint),
    Id(String),
    Call(String, Vec<YE>),
}
#[derive(Clone, Debug)]
pub struct Fun {
    name: String,
    params: Vec<(TyX, String)>,
    rets: Vec<(TyX, String)>,
    body: Option<Vec<S>>,
    exported: bool,
}
#[derive(Default, Clone, Debug)]
pub struct Unit {
    name: String,
    library: bool,
    structs: HashMap<String, Vec<(TyX, String)>>,
    consts: Vec<(TyX, String, E)>,
    funs: Vec<Fun>,
}

struct Ps {
    t: Vec<T>,
    i: usize,
}
impl Ps {
    fn pk(&self) -> &T {
        &self.t[self.i]
    }
    fn at(&self, k: usize) -> &T {
        self.t.get(self.i + k).unwrap_or(&T::End)
    }
    fn is(&self, s: &str) -> bool {
        match self.pk() {
            T::P(x) => x == s,
            T::Id(x) => x == s,
            _ => false,
        }
    }
    fn eat(&mut self, s: &str) -> bool {
        if self.is(s) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn need(&mut self, s: &str) {
        if !self.eat(s) {
            let around: Vec<String> = self.t[self.i.saturating_sub(6)..(self.i + 4).min(self.t.len())].iter().map(|t| format!("{:?}", t)).collect();
            bad(format!("expected {} at {}", s, around.join(" ")))
        }
    }
    fn id(&mut self) -> String {
        match self.pk().clone() {
            T::Id(s) => {
                self.i += 1;
                s
            }
            t => bad(format!("expected a name, found {:?}", t)),
        }
    }
    fn skip_to(&mut self, s: &str) {
        while !self.is(s) && *self.pk() != T::End {
            self.i += 1;
        }
        self.need(s);
    }
    fn file(&mut self) -> Vec<Unit> {
        let mut out = vec![];
        while *self.pk() != T::End {
            if self.is("pragma") || self.is("import") {
                self.skip_to(";");
            } else if self.is("library") || self.is("contract") || self.is("abstract") || self.is("interface") {
                if self.eat("interface") {
                    self.skip_to("}");
                    continue;
                }
                self.eat("abstract");
                let mut u = Unit { library: self.is("library"), ..Default::default() };
                self.i += 1;
                u.name = self.id();
                if self.is("is") {
                    bad("inheritance");
                }
                self.need("{");
                while !self.eat("}") {
                    self.part(&mut u);
                }
                out.push(u);
            } else {
                bad(format!("top level {:?}", self.pk()));
            }
        }
        out
    }
    fn part(&mut self, u: &mut Unit) {
        if self.eat("using") || self.eat("event") {
            self.skip_to(";");
        } else if self.eat("struct") {
            let n = self.id();
            self.need("{");
            let mut f = vec![];
            while !self.eat("}") {
                let t = self.ty();
                let n = self.id();
                self.need(";");
                f.push((t, n));
            }
            u.structs.insert(n, f);
        } else if self.eat("function") {
            let name = self.id();
            let params = self.params();
            let mut rets = vec![];
            let mut exported = false;
            loop {
                if self.eat("returns") {
                    rets = self.params();
                } else if self.eat("public") || self.eat("external") {
                    exported = true;
                } else if self.eat("internal") || self.eat("private") || self.eat("pure") || self.eat("view") || self.eat("virtual") || self.eat("override") {
                } else {
                    break;
                }
            }
            let body = if self.eat(";") { None } else { Some(self.block()) };
            u.funs.push(Fun { name, params, rets, body, exported });
        } else {
            let t = self.ty();
            let mut konst = false;
            loop {
                if self.eat("constant") || self.eat("immutable") {
                    konst = true;
                } else if self.eat("public") || self.eat("internal") || self.eat("private") {
                } else {
                    break;
                }
            }
            let n = self.id();
            if !konst {
                bad("a state variable");
            }
            self.need("=");
            let e = self.expr();
            self.need(";");
            u.consts.push((t, n, e));
        }
    }
    fn params(&mut self) -> Vec<(TyX, String)> {
        self.need("(");
        let mut v = vec![];
        while !self.eat(")") {
            let t = self.ty();
            self.loc();
            let n = if let T::Id(_) = self.pk() { self.id() } else { String::new() };
            v.push((t, n));
            self.eat(",");
        }
        v
    }
    fn loc(&mut self) {
        if self.is("storage") {
            bad("storage");
        }
        let _ = self.eat("memory") || self.eat("calldata");
    }
    fn ty(&mut self) -> TyX {
        let mut p = vec![self.id()];
        while self.is(".") {
            self.i += 1;
            p.push(self.id());
        }
        let mut t = TyX::Name(p);
        while self.eat("[") {
            if self.eat("]") {
                t = TyX::Arr(Box::new(t), None);
            } else {
                let e = self.expr();
                self.need("]");
                t = TyX::Arr(Box::new(t), Some(Box::new(e)));
            }
        }
        t
    }
    fn block(&mut self) -> Vec<S> {
        self.need("{");
        let mut v = vec![];
        while !self.eat("}") {
            v.push(self.stmt());
        }
        v
    }
    /// a declaration starts here: a type followed by a name
    fn decl(&mut self) -> bool {
        let save = self.i;
        let ok = (|| {
            if !matches!(self.pk(), T::Id(_)) || self.is("return") || self.is("new") || self.is("delete") {
                return false;
            }
            self.i += 1;
            while self.is(".") {
                self.i += 1;
                if !matches!(self.pk(), T::Id(_)) {
                    return false;
                }
                self.i += 1;
            }
            while self.is("[") {
                let mut d = 0;
                loop {
                    if self.is("[") {
                        d += 1;
                    }
                    if self.is("]") {
                        d -= 1;
                    }
                    if *self.pk() == T::End {
                        return false;
                    }
                    self.i += 1;
                    if d == 0 {
                        break;
                    }
                }
            }
            matches!(self.pk(), T::Id(_))
        })();
        self.i = save;
        ok
    }
    fn stmt(&mut self) -> S {
        if self.is("{") {
            return S::Block(self.block());
        }
        if self.eat("unchecked") {
            return S::Block(self.block());
        }
        if self.eat(";") {
            return S::Block(vec![]);
        }
        if self.eat("if") {
            self.need("(");
            let c = self.expr();
            self.need(")");
            let a = self.stmt();
            let b = if self.eat("else") { Some(Box::new(self.stmt())) } else { None };
            return S::If(c, Box::new(a), b);
        }
        if self.eat("for") {
            self.need("(");
            let init = if self.eat(";") { None } else { Some(Box::new(self.stmt())) };
            let c = if self.is(";") { None } else { Some(self.expr()) };
            self.need(";");
            let st = if self.is(")") { None } else { Some(self.expr()) };
            self.need(")");
            return S::Loop(init, c, st, Box::new(self.stmt()), false);
        }
        if self.eat("while") {
            self.need("(");
            let c = self.expr();
            self.need(")");
            return S::Loop(None, Some(c), None, Box::new(self.stmt()), false);
        }
        if self.eat("do") {
            let b = self.stmt();
            self.need("while");
            self.need("(");
            let c = self.expr();
            self.need(")");
            self.need(";");
            return S::Loop(None, Some(c), None, Box::new(b), true);
        }
        if self.eat("return") {
            let e = if self.is(";") { None } else { Some(self.expr()) };
            self.need(";");
            return S::Ret(e);
        }
        if self.eat("break") {
            self.need(";");
            return S::Break;
        }
        if self.eat("continue") {
            self.need(";");
            return S::Continue;
        }
        if self.is("assembly") {
            self.i += 1;
            if let T::Str(_) = self.pk() {
                self.i += 1;
            }
            return S::Asm(self.yblock());
        }
        if self.decl() {
            let t = self.ty();
            self.loc();
            let n = self.id();
            let e = if self.eat("=") { Some(self.expr()) } else { None };
            self.need(";");
            return S::Var(t, n, e);
        }
        let e = self.expr();
        self.need(";");
        S::Ex(e)
    }
    fn expr(&mut self) -> E {
        let l = self.tern();
        for op in ["=", "+=", "-=", "*=", "/=", "%=", "|=", "&=", "^="] {
            if self.eat(op) {
                let r = self.expr();
                return E::Asg(op.to_string(), Box::new(l), Box::new(r));
            }
        }
        l
    }
    fn tern(&mut self) -> E {
        let c = self.bin(0);
        if self.eat("?") {
            let a = self.expr();
            self.need(":");
            let b = self.expr();
            return E::Tern(Box::new(c), Box::new(a), Box::new(b));
        }
        c
    }
    fn bin(&mut self, lv: usize) -> E {
        let levels: [&[&str]; 10] = [&["||"], &["&&"], &["==", "!="], &["<", ">", "<=", ">="], &["|"], &["^"], &["&"], &["<<", ">>"], &["+", "-"], &["*", "/", "%"]];
        if lv == levels.len() {
            return self.unary();
        }
        let mut l = self.bin(lv + 1);
        'o: loop {
            for op in levels[lv] {
                if let T::P(x) = self.pk() {
                    if x == op {
                        self.i += 1;
                        let r = self.bin(lv + 1);
                        l = E::Bin(op.to_string(), Box::new(l), Box::new(r));
                        continue 'o;
                    }
                }
            }
            return l;
        }
    }
    fn unary(&mut self) -> E {
        for op in ["!", "-", "~", "++", "--"] {
            if let T::P(x) = self.pk() {
                if x == op {
                    self.i += 1;
                    return E::Un(op.to_string(), Box::new(self.unary()));
                }
            }
        }
        let mut b = self.postfix();
        if self.eat("**") {
            let r = self.unary();
            b = E::Bin("**".into(), Box::new(b), Box::new(r));
        }
        b
    }
    fn postfix(&mut self) -> E {
        let mut e = match self.pk().clone() {
            T::Num(n) => {
                self.i += 1;
                E::Num(n)
            }
            T::Str(s) => {
                self.i += 1;
                E::Str(s)
            }
            T::Id(s) if s == "true" || s == "false" => {
                self.i += 1;
                E::Bool(s == "true")
            }
            T::Id(s) if s == "new" => {
                self.i += 1;
                E::New(self.ty())
            }
            T::Id(s) => {
                self.i += 1;
                E::Id(s)
            }
            T::P(s) if s == "(" => {
                self.i += 1;
                let mut v = vec![];
                while !self.eat(")") {
                    v.push(self.expr());
                    self.eat(",");
                }
                if v.len() == 1 {
                    v.pop().unwrap()
                } else {
                    E::Tup(v)
                }
            }
            T::P(s) if s == "[" => {
                self.i += 1;
                let mut v = vec![];
                while !self.eat("]") {
                    v.push(self.expr());
                    self.eat(",");
                }
                E::Arr(v)
            }
            t => bad(format!("expression {:?}", t)),
        };
        loop {
            if self.eat(".") {
                e = E::Mem(Box::new(e), self.id());
            } else if self.eat("[") {
                let i = self.expr();
                self.need("]");
                e = E::Idx(Box::new(e), Box::new(i));
            } else if self.eat("(") {
                let mut v = vec![];
                let mut names = vec![];
                if self.eat("{") {
                    while !self.eat("}") {
                        names.push(self.id());
                        self.need(":");
                        v.push(self.expr());
                        self.eat(",");
                    }
                    self.need(")");
                } else {
                    while !self.eat(")") {
                        v.push(self.expr());
                        self.eat(",");
                    }
                }
                e = E::Call(Box::new(e), v, names);
            } else if self.is("++") || self.is("--") {
                let o = if self.is("++") { "++" } else { "--" };
                self.i += 1;
                e = E::Post(o.into(), Box::new(e));
            } else {
                return e;
            }
        }
    }
    // ---- assembly
    fn yblock(&mut self) -> Vec<Y> {
        self.need("{");
        let mut v = vec![];
        while !self.eat("}") {
            v.push(self.ystmt());
        }
        v
    }
    fn ystmt(&mut self) -> Y {
        if self.is("{") {
            return Y::Block(self.yblock());
        }
        if self.eat("let") {
            let mut n = vec![self.id()];
            while self.eat(",") {
                n.push(self.id());
            }
            let e = if self.eat(":=") { Some(self.yexpr()) } else { None };
            return Y::Let(n, e);
        }
        if self.eat("if") {
            let c = self.yexpr();
            return Y::If(c, self.yblock());
        }
        if self.eat("for") {
            let a = self.yblock();
            let c = self.yexpr();
            let st = self.yblock();
            let b = self.yblock();
            return Y::For(a, c, st, b);
        }
        if self.eat("switch") {
            let c = self.yexpr();
            let mut cs = vec![];
            let mut d = None;
            loop {
                if self.eat("case") {
                    let k = self.yexpr();
                    cs.push((k, self.yblock()));
                } else if self.eat("default") {
                    d = Some(self.yblock());
                } else {
                    break;
                }
            }
            return Y::Switch(c, cs, d);
        }
        if let (T::Id(_), T::P(p)) = (self.pk().clone(), self.at(1).clone()) {
            if p == ":=" {
                let n = self.id();
                self.need(":=");
                return Y::Asg(vec![n], self.yexpr());
            }
        }
        Y::Ex(self.yexpr())
    }
    fn yexpr(&mut self) -> YE {
        match self.pk().clone() {
            T::Num(n) => {
                self.i += 1;
                YE::Num(n)
            }
            T::Id(s) => {
                self.i += 1;
                if s == "true" || s == "false" {
                    return YE::Num(BigUint::from((s == "true") as u8));
                }
                if self.eat("(") {
                    let mut v = vec![];
                    while !self.eat(")") {
                        v.push(self.yexpr());
                        self.eat(",");
                    }
                    YE::Call(s, v)
                } else {
                    YE::Id(s)
                }
            }
            t => bad(format!("assembly {:?}", t)),
        }
    }
}
pub fn parse(src: &str) -> Vec<Unit> {
    Ps { t: lex(src), i: 0 }.file()
}

// ----------------------------------------------------------------------------------------- values
#[derive(Clone, PartialEq, Debug)]
pub enum W {
    K(BigUint),
    /// symbolic word number k
    Sym(usize),
    /// constant minus symbolic word
    Sub(BigUint, usize),
    /// coordinate of the result of a group operation
    Out(usize, u8),
}
fn k(n: u64) -> W {
    W::K(BigUint::from(n))
}
#[derive(Clone, PartialEq, Debug)]
enum Ty {
    Uint(u32),
    Lit,
    Bool,
    Word,
    Struct(String),
    SArr(Rc<Ty>, usize),
    DArr(Rc<Ty>),
    Unit(String),
    Fun(String, String),
    Bound(Rc<Ty>, W, String),
    Type(Rc<Ty>),
    Str,
    Void,
}
type V = (Ty, W);

pub struct SymWord {
    pub name: String,
    pub lo: BigUint,
    /// exclusive
    pub hi: BigUint,
    /// zero exactly when the word is
    pub zero: Option<Id>,
    /// the word as a scalar
    pub scalar: Option<Id>,
    less: HashMap<BigUint, bool>,
    rem: Option<usize>,
}
/// a known point: its words, exponent and validity (None: valid)
pub struct Pnt {
    pub words: Vec<W>,
    pub exp: Id,
    pub valid: Option<Id>,
}
pub struct World {
    pub n: u64,
    pub syms: Vec<SymWord>,
    pub literals: HashMap<BigUint, usize>,
    pub g1: Vec<Pnt>,
    pub g2: Vec<Pnt>,
    /// exponents of results
    outs: Vec<Id>,
    pub calls: [usize; 9],
}
impl World {
    pub fn new(n: u64) -> World {
        World { n, syms: vec![], literals: HashMap::new(), g1: vec![], g2: vec![], outs: vec![], calls: [0; 9] }
    }
    pub fn sym(&mut self, name: &str, lo: BigUint, hi: BigUint, zero: Option<Id>, scalar: Option<Id>) -> usize {
        self.syms.push(SymWord { name: name.into(), lo, hi, zero, scalar, less: HashMap::new(), rem: None });
        self.syms.len() - 1
    }
    fn konst(&self, v: u64) -> Id {
        with(|c| c.konst(v, self.n))
    }
    /// word < constant
    fn lt(&mut self, s: usize, b: &BigUint) -> bool {
        let w = &self.syms[s];
        if w.hi <= *b {
            return true;
        }
        if w.lo >= *b {
            return false;
        }
        if let Some(r) = w.less.get(b) {
            return *r;
        }
        let nm = format!("{}<{:x}", w.name, b);
        let r = if *b == BigUint::one() && w.zero.is_some() { decide(Cond::Zero(w.zero.unwrap())) } else { decide(Cond::Zero(with(|c| c.var(&nm, 2)))) };
        let w = &mut self.syms[s];
        w.less.insert(b.clone(), r);
        if r {
            w.hi = b.clone();
        } else {
            w.lo = b.clone();
        }
        r
    }
    fn is_zero(&mut self, w: &W) -> bool {
        match w {
            W::K(x) => x.is_zero(),
            W::Sym(s) => self.lt(*s, &BigUint::one()),
            W::Sub(c, s) => self.eq(&W::Sym(*s), &W::K(c.clone())),
            W::Out(t, i) => {
                // a coordinate of a result is zero exactly at infinity (no point of the curve has a zero coordinate)
                let _ = i;
                decide(Cond::Zero(self.outs[*t]))
            }
        }
    }
    fn eq(&mut self, a: &W, b: &W) -> bool {
        if a == b {
            return true;
        }
        match (a, b) {
            (W::K(x), W::K(y)) => x == y,
            (W::Sym(s), W::K(y)) | (W::K(y), W::Sym(s)) => !self.lt(*s, y) && self.lt(*s, &(y + 1u32)),
            (W::K(x), o) | (o, W::K(x)) if x.is_zero() => self.is_zero(&o.clone()),
            (W::K(_), _) | (_, W::K(_)) => {
                let nm = format!("{:?}=={:?}", a, b);
                decide(Cond::Zero(with(|c| c.var(&nm, 2))))
            }
            _ => {
                let (x, y) = if format!("{:?}", a) < format!("{:?}", b) { (a, b) } else { (b, a) };
                let nm = format!("{:?}=={:?}", x, y);
                decide(Cond::Zero(with(|c| c.var(&nm, 2))))
            }
        }
    }
    fn less(&mut self, a: &W, b: &W) -> bool {
        match (a, b) {
            (W::K(x), W::K(y)) => x < y,
            (W::Sym(s), W::K(y)) => self.lt(*s, y),
            (W::K(x), W::Sym(s)) => !self.lt(*s, &(x + 1u32)),
            _ if a == b => false,
            _ => {
                let nm = format!("{:?}<{:?}", a, b);
                decide(Cond::Zero(with(|c| c.var(&nm, 2))))
            }
        }
    }
    fn rem(&mut self, a: &W, m: &BigUint) -> W {
        match a {
            W::K(x) => W::K(if m.is_zero() { BigUint::zero() } else { x % m }),
            W::Sym(s) => {
                if self.lt(*s, m) {
                    return a.clone();
                }
                if self.syms[*s].rem.is_none() {
                    let nm = format!("{} mod", self.syms[*s].name);
                    let z = with(|c| c.var(&nm, 2));
                    let sc = self.syms[*s].scalar;
                    let r = self.sym(&nm, BigUint::zero(), m.clone(), Some(z), sc);
                    self.syms[*s].rem = Some(r);
                }
                W::Sym(self.syms[*s].rem.unwrap())
            }
            W::Sub(c, s) if c == m => {
                // (m - x) mod m
                if self.is_zero(&W::Sym(*s)) {
                    k(0)
                } else if self.lt(*s, m) {
                    a.clone()
                } else {
                    bad("a reduction of a difference")
                }
            }
            W::Sub(c, s) if c <= m && self.lt(*s, &(c + 1u32)) => a.clone(),
            W::Out(..) if *m >= dec(Q) => a.clone(),
            _ => bad("a remainder"),
        }
    }
    fn known_zero(&self, w: &W) -> bool {
        match w {
            W::K(x) => x.is_zero(),
            W::Sym(s) => self.syms[*s].hi <= BigUint::one(),
            _ => false,
        }
    }
    /// the exponent of a G1 point; None: the precompile refuses it
    fn point1(&mut self, x: &W, y: &W) -> Option<Id> {
        let q = dec(Q);
        // no point of the curve has exactly one zero coordinate
        for (a, b) in [(x, y), (y, x)] {
            if self.known_zero(a) {
                return if self.is_zero(b) { Some(self.konst(0)) } else { None };
            }
        }
        if let (W::Out(a, 0), W::Out(b, 1)) = (x, y) {
            if a == b {
                return Some(self.outs[*a]);
            }
        }
        for w in [x, y] {
            match w {
                W::Sym(s) if !self.lt(*s, &q) => return None,
                W::K(v) if *v >= q => return None,
                W::Sub(c, s) if *c == q && self.is_zero(&W::Sym(*s)) => return None,
                _ => {}
            }
        }
        if let W::Sub(c, s) = y {
            if *c == q {
                let e = self.point1(x, &W::Sym(*s))?;
                return Some(with(|c| {
                    let z = c.konst(0, self.n);
                    c.sub(z, e)
                }));
            }
        }
        let words = vec![x.clone(), y.clone()];
        self.named(true, words)
    }
    fn point2(&mut self, w: &[W]) -> Option<Id> {
        let q = dec(Q);
        if w.iter().all(|x| self.known_zero(x)) {
            return Some(self.konst(0));
        }
        for x in w {
            match x {
                W::Sym(s) if !self.lt(*s, &q) => return None,
                W::K(v) if *v >= q => return None,
                _ => {}
            }
        }
        self.named(false, w.to_vec())
    }
    fn named(&mut self, first: bool, words: Vec<W>) -> Option<Id> {
        let n = self.n;
        let l = if first { &mut self.g1 } else { &mut self.g2 };
        let i = match l.iter().position(|p| p.words == words) {
            Some(i) => i,
            None => {
                // words that are no point of the key or the proof: possibly some other point
                let nm = format!("other{}.{}", if first { 1 } else { 2 }, l.len());
                let (exp, v) = with(|c| (c.var(&nm, n), c.var(&format!("{} valid", nm), 2)));
                l.push(Pnt { words, exp, valid: Some(v) });
                l.len() - 1
            }
        };
        let p = &l[i];
        match p.valid {
            Some(v) if decide(Cond::Zero(v)) => None,
            _ => Some(p.exp),
        }
    }
}

// ------------------------------------------------------------------------------------ interpreter
enum Flow {
    Next,
    Break,
    Continue,
    Ret(Option<V>),
    Revert(String),
}
pub struct Vm<'a> {
    units: &'a [Unit],
    pub w: World,
    mem: HashMap<u64, W>,
    free: u64,
    steps: usize,
    depth: usize,
}
type Rv<X> = Result<X, String>;
struct Fr {
    unit: String,
    vars: Vec<(String, Ty, W)>,
}
enum Lv {
    Var(usize),
    Mem(u64),
}
fn num(w: &W) -> u64 {
    match w {
        W::K(x) => {
            let d = x.to_bytes_le();
            if d.len() > 7 {
                return u64::MAX;
            }
            d.iter().rev().fold(0, |a, b| a << 8 | *b as u64)
        }
        _ => bad("a symbolic address, index or size"),
    }
}
impl<'a> Vm<'a> {
    pub fn new(units: &'a [Unit], w: World) -> Vm<'a> {
        Vm { units, w, mem: HashMap::new(), free: 0x80, steps: 0, depth: 0 }
    }
    fn unit(&self, n: &str) -> Option<&'a Unit> {
        self.units.iter().find(|u| u.name == n)
    }
    fn alloc(&mut self, words: u64) -> u64 {
        let a = self.free;
        self.free += 32 * words;
        a
    }
    fn ld(&self, a: u64) -> W {
        if a % 32 != 0 {
            bad("an unaligned memory access");
        }
        self.mem.get(&a).cloned().unwrap_or(k(0))
    }
    fn st(&mut self, a: u64, v: W) {
        if a % 32 != 0 {
            bad("an unaligned memory access");
        }
        self.mem.insert(a, v);
    }
    fn find_struct(&self, n: &str, here: &str) -> Option<String> {
        let (u, s) = match n.find('.') {
            Some(i) => (&n[..i], &n[i + 1..]),
            None => (here, n),
        };
        if self.unit(u)?.structs.contains_key(s) {
            Some(format!("{}.{}", u, s))
        } else {
            None
        }
    }
    fn elem(&self, n: &str) -> Option<Ty> {
        Some(match n {
            "uint" => Ty::Uint(256),
            "bool" => Ty::Bool,
            "bytes32" | "address" => Ty::Word,
            "string" => Ty::Str,
            _ if n.starts_with("uint") => Ty::Uint(n[4..].parse().ok()?),
            _ => return None,
        })
    }
    fn ty(&mut self, t: &TyX, f: &mut Fr) -> Rv<Ty> {
        Ok(match t {
            TyX::Name(p) => {
                let n = p.join(".");
                if let Some(t) = self.elem(&n) {
                    t
                } else {
                    Ty::Struct(self.find_struct(&n, &f.unit).unwrap_or_else(|| ill(format!("type {}", n))))
                }
            }
            TyX::Arr(t, None) => Ty::DArr(Rc::new(self.ty(t, f)?)),
            TyX::Arr(t, Some(e)) => {
                let t = self.ty(t, f)?;
                let n = self.ev(e, f)?;
                Ty::SArr(Rc::new(t), num(&n.1) as usize)
            }
        })
    }
    fn fields(&mut self, s: &str) -> Rv<Vec<(Ty, String)>> {
        let i = s.find('.').unwrap();
        let u = self.unit(&s[..i]).unwrap();
        let fs = u.structs[&s[i + 1..]].clone();
        let mut f = Fr { unit: u.name.clone(), vars: vec![] };
        fs.iter().map(|(t, n)| Ok((self.ty(t, &mut f)?, n.clone()))).collect()
    }
    /// a zero value of the type
    fn zero(&mut self, t: &Ty) -> Rv<W> {
        Ok(match t {
            Ty::Struct(s) => {
                let fs = self.fields(s)?;
                let a = self.alloc(fs.len() as u64);
                for (i, (t, _)) in fs.iter().enumerate() {
                    let z = self.zero(t)?;
                    self.st(a + 32 * i as u64, z);
                }
                k(a)
            }
            Ty::SArr(t, n) => {
                let a = self.alloc(*n as u64);
                for i in 0..*n {
                    let z = self.zero(t)?;
                    self.st(a + 32 * i as u64, z);
                }
                k(a)
            }
            // the zero slot: an empty dynamic array
            Ty::DArr(_) => k(0x60),
            _ => k(0),
        })
    }
    fn conv(&mut self, v: V, t: &Ty) -> W {
        match (&v.0, t) {
            (Ty::Uint(_) | Ty::Lit | Ty::Word | Ty::Bool, Ty::Uint(b)) if *b < 256 => {
                let m = BigUint::one() << (*b as usize);
                self.w.rem(&v.1, &m)
            }
            (Ty::SArr(a, n), Ty::SArr(b, m)) if n != m || matches!((&**a, &**b), (Ty::Struct(x), Ty::Struct(y)) if x != y) => ill("an array of another type"),
            (Ty::Struct(a), Ty::Struct(b)) if a != b => ill(format!("{} for {}", a, b)),
            (Ty::Struct(_) | Ty::SArr(..), Ty::Uint(_) | Ty::Bool) | (Ty::Uint(_) | Ty::Lit | Ty::Bool, Ty::Struct(_) | Ty::SArr(..)) => ill("a value of another type"),
            _ => v.1,
        }
    }
    pub fn call(&mut self, unit: &str, fun: &Fun, args: Vec<V>) -> Rv<Option<V>> {
        self.depth += 1;
        if self.depth > 60 {
            return Err("recursion".into());
        }
        let mut f = Fr { unit: unit.into(), vars: vec![] };
        if args.len() != fun.params.len() {
            ill("number of arguments");
        }
        for ((t, n), v) in fun.params.iter().zip(args) {
            let t = self.ty(t, &mut f)?;
            let w = self.conv(v, &t);
            f.vars.push((n.clone(), t, w));
        }
        let mut rt = vec![];
        for (t, n) in &fun.rets {
            let t = self.ty(t, &mut f)?;
            rt.push(t.clone());
            let z = if n.is_empty() { k(0) } else { self.zero(&t)? };
            f.vars.push((n.clone(), t, z));
        }
        if rt.len() > 1 {
            bad("several results");
        }
        let first = fun.params.len();
        let body = fun.body.as_ref().unwrap_or_else(|| bad("a function without a body"));
        let r = match self.stmts(body, &mut f)? {
            Flow::Ret(Some(v)) => {
                let t = rt.get(0).cloned().unwrap_or(Ty::Void);
                let w = self.conv(v, &t);
                Some((t, w))
            }
            Flow::Revert(m) => return Err(m),
            _ => rt.get(0).map(|t| (t.clone(), f.vars[first].2.clone())),
        };
        self.depth -= 1;
        Ok(r)
    }
    fn stmts(&mut self, b: &[S], f: &mut Fr) -> Rv<Flow> {
        let n = f.vars.len();
        for s in b {
            let r = self.stmt(s, f)?;
            if !matches!(r, Flow::Next) {
                f.vars.truncate(n);
                return Ok(r);
            }
        }
        f.vars.truncate(n);
        Ok(Flow::Next)
    }
    fn tick(&mut self) -> Rv<()> {
        self.steps += 1;
        if self.steps > 200_000 {
            return Err("out of gas".into());
        }
        Ok(())
    }
    fn truth(&mut self, e: &E, f: &mut Fr) -> Rv<bool> {
        let v = self.ev(e, f)?;
        Ok(!self.w.is_zero(&v.1))
    }
    fn stmt(&mut self, s: &S, f: &mut Fr) -> Rv<Flow> {
        self.tick()?;
        match s {
            S::Var(t, n, e) => {
                let t = self.ty(t, f)?;
                let w = match e {
                    Some(e) => {
                        let v = self.ev(e, f)?;
                        self.conv(v, &t)
                    }
                    None => self.zero(&t)?,
                };
                f.vars.push((n.clone(), t, w));
            }
            S::Ex(e) => {
                self.ev(e, f)?;
            }
            S::If(c, a, b) => {
                if self.truth(c, f)? {
                    return self.scoped(a, f);
                } else if let Some(b) = b {
                    return self.scoped(b, f);
                }
            }
            S::Loop(i, c, st, b, post) => {
                let n = f.vars.len();
                if let Some(i) = i {
                    self.stmt(i, f)?;
                }
                let mut first = *post;
                loop {
                    self.tick()?;
                    if !first {
                        if let Some(c) = c {
                            if !self.truth(c, f)? {
                                break;
                            }
                        }
                    }
                    first = false;
                    match self.scoped(b, f)? {
                        Flow::Next | Flow::Continue => {}
                        Flow::Break => break,
                        r => {
                            f.vars.truncate(n);
                            return Ok(r);
                        }
                    }
                    if let Some(st) = st {
                        self.ev(st, f)?;
                    }
                }
                f.vars.truncate(n);
            }
            S::Ret(e) => {
                let v = match e {
                    Some(e) => Some(self.ev(e, f)?),
                    None => None,
                };
                return Ok(Flow::Ret(v));
            }
            S::Block(b) => return self.stmts(b, f),
            S::Break => return Ok(Flow::Break),
            S::Continue => return Ok(Flow::Continue),
            S::Asm(b) => {
                let n = f.vars.len();
                let r = self.yul(b, f)?;
                f.vars.truncate(n);
                return Ok(r);
            }
        }
        Ok(Flow::Next)
    }
    fn scoped(&mut self, s: &S, f: &mut Fr) -> Rv<Flow> {
        let n = f.vars.len();
        let r = self.stmt(s, f)?;
        f.vars.truncate(n);
        Ok(r)
    }
    fn lval(&mut self, e: &E, f: &mut Fr) -> Rv<(Ty, Lv)> {
        match e {
            E::Id(n) => match f.vars.iter().rposition(|v| v.0 == *n) {
                Some(i) => Ok((f.vars[i].1.clone(), Lv::Var(i))),
                None => ill(format!("assignment to {}", n)),
            },
            E::Mem(b, m) => {
                let (t, w) = self.ev(b, f)?;
                match t {
                    Ty::Struct(s) => {
                        let fs = self.fields(&s)?;
                        let i = fs.iter().position(|x| x.1 == *m).unwrap_or_else(|| ill(format!("field {}", m)));
                        Ok((fs[i].0.clone(), Lv::Mem(num(&w) + 32 * i as u64)))
                    }
                    _ => bad(format!("member {}", m)),
                }
            }
            E::Idx(b, i) => {
                let (t, w) = self.ev(b, f)?;
                let i = self.ev(i, f)?.1;
                let i = num(&i);
                match t {
                    Ty::SArr(t, n) => {
                        if i >= n as u64 {
                            return Err("index out of range".into());
                        }
                        Ok(((*t).clone(), Lv::Mem(num(&w) + 32 * i)))
                    }
                    Ty::DArr(t) => {
                        let a = num(&w);
                        let l = self.ld(a);
                        if i >= num(&l) {
                            return Err("index out of range".into());
                        }
                        Ok(((*t).clone(), Lv::Mem(a + 32 + 32 * i)))
                    }
                    _ => bad("index"),
                }
            }
            _ => bad("assignment target"),
        }
    }
    fn get(&mut self, l: &Lv, f: &Fr) -> W {
        match l {
            Lv::Var(i) => f.vars[*i].2.clone(),
            Lv::Mem(a) => self.ld(*a),
        }
    }
    fn put(&mut self, l: &Lv, w: W, f: &mut Fr) {
        match l {
            Lv::Var(i) => f.vars[*i].2 = w,
            Lv::Mem(a) => self.st(*a, w),
        }
    }
    fn b(&self, x: bool) -> V {
        (Ty::Bool, k(x as u64))
    }
    fn arith(&mut self, op: &str, a: V, b: V) -> Rv<V> {
        let t = match (&a.0, &b.0) {
            (Ty::Lit, x) | (x, Ty::Lit) => x.clone(),
            (Ty::Uint(x), Ty::Uint(y)) => Ty::Uint(*x.max(y)),
            (x, _) => x.clone(),
        };
        let m = two256();
        let w = match (op, &a.1, &b.1) {
            (_, W::K(x), W::K(y)) => W::K(match op {
                "+" => (x + y) % &m,
                "-" => (x + &m - y) % &m,
                "*" => x * y % &m,
                "/" | "%" if y.is_zero() => return Err("division by zero".into()),
                "/" => x / y,
                "%" => x % y,
                "&" => x & y,
                "|" => x | y,
                "^" => x ^ y,
                "<<" => (x << num(&b.1).min(256) as usize) % &m,
                ">>" => x >> num(&b.1).min(256) as usize,
                "**" => x.modpow(y, &m),
                _ => bad(op),
            }),
            ("%", x, W::K(y)) => {
                if y.is_zero() {
                    return Err("division by zero".into());
                }
                self.w.rem(&x.clone(), y)
            }
            ("-", W::K(c), W::Sym(s)) => W::Sub(c.clone(), *s),
            ("-", W::K(c), W::Sub(d, s)) if c == d => W::Sym(*s),
            ("+" | "-", x, W::K(y)) if y.is_zero() => x.clone(),
            ("+", W::K(y), x) if y.is_zero() => x.clone(),
            ("*", x, W::K(y)) | ("*", W::K(y), x) if y.is_one() => x.clone(),
            (_, x, y) => bad(format!("{:?} {} {:?}", x, op, y)),
        };
        let w = match (&t, &w) {
            (Ty::Uint(bits), W::K(x)) if *bits < 256 => W::K(x % (BigUint::one() << *bits as usize)),
            _ => w,
        };
        Ok((t, w))
    }
    fn ev(&mut self, e: &E, f: &mut Fr) -> Rv<V> {
        self.tick()?;
        Ok(match e {
            E::Num(n) => match self.w.literals.get(n) {
                Some(s) => (Ty::Uint(256), W::Sym(*s)),
                None => (Ty::Lit, W::K(n.clone())),
            },
            E::Bool(x) => self.b(*x),
            E::Str(_) => (Ty::Str, k(0)),
            E::Id(n) => {
                if let Some(v) = f.vars.iter().rev().find(|v| v.0 == *n) {
                    return Ok((v.1.clone(), v.2.clone()));
                }
                let u = self.unit(&f.unit).unwrap();
                if let Some((t, _, e)) = u.consts.iter().find(|c| c.1 == *n) {
                    let mut g = Fr { unit: f.unit.clone(), vars: vec![] };
                    let t = self.ty(t, &mut g)?;
                    let v = self.ev(e, &mut g)?;
                    let w = self.conv(v, &t);
                    return Ok((t, w));
                }
                if u.funs.iter().any(|x| x.name == *n) {
                    return Ok((Ty::Fun(f.unit.clone(), n.clone()), k(0)));
                }
                if let Some(t) = self.elem(n) {
                    return Ok((Ty::Type(Rc::new(t)), k(0)));
                }
                if let Some(s) = self.find_struct(n, &f.unit) {
                    return Ok((Ty::Type(Rc::new(Ty::Struct(s))), k(0)));
                }
                if self.unit(n).is_some() {
                    return Ok((Ty::Unit(n.clone()), k(0)));
                }
                if ["msg", "block", "tx", "abi", "this", "type", "now", "keccak256", "sha256", "gasleft", "address", "bytes", "int", "mulmod", "addmod"].contains(&n.as_str()) {
                    bad(format!("name {}", n))
                }
                ill(format!("name {}", n))
            }
            E::Mem(b, m) => {
                let (t, w) = self.ev(b, f)?;
                match &t {
                    Ty::Unit(u) => {
                        if let Some(s) = self.find_struct(&format!("{}.{}", u, m), &f.unit) {
                            return Ok((Ty::Type(Rc::new(Ty::Struct(s))), k(0)));
                        }
                        let un = self.unit(u).unwrap();
                        if un.funs.iter().any(|x| x.name == *m) {
                            return Ok((Ty::Fun(u.clone(), m.clone()), k(0)));
                        }
                        let mut g = Fr { unit: u.clone(), vars: vec![] };
                        return self.ev(&E::Id(m.clone()), &mut g);
                    }
                    Ty::SArr(_, n) if m == "length" => (Ty::Uint(256), k(*n as u64)),
                    Ty::DArr(_) if m == "length" => (Ty::Uint(256), self.ld(num(&w))),
                    Ty::Struct(s) => {
                        let fs = self.fields(s)?;
                        match fs.iter().position(|x| x.1 == *m) {
                            Some(i) => (fs[i].0.clone(), self.ld(num(&w) + 32 * i as u64)),
                            None => (Ty::Bound(Rc::new(t.clone()), w, m.clone()), k(0)),
                        }
                    }
                    _ => (Ty::Bound(Rc::new(t.clone()), w, m.clone()), k(0)),
                }
            }
            E::Idx(..) => {
                let (t, l) = self.lval(e, f)?;
                let w = self.get(&l, f);
                (t, w)
            }
            E::New(t) => (Ty::Type(Rc::new(self.ty(t, f)?)), k(0)),
            E::Un(op, x) => match op.as_str() {
                "!" => {
                    let t = self.truth(x, f)?;
                    self.b(!t)
                }
                "++" | "--" => {
                    let (t, l) = self.lval(x, f)?;
                    let v = self.get(&l, f);
                    let r = self.arith(if op == "++" { "+" } else { "-" }, (t, v), (Ty::Lit, k(1)))?;
                    self.put(&l, r.1.clone(), f);
                    r
                }
                "-" => {
                    let v = self.ev(x, f)?;
                    self.arith("-", (Ty::Lit, k(0)), v)?
                }
                _ => bad(op.clone()),
            },
            E::Post(op, x) => {
                let (t, l) = self.lval(x, f)?;
                let v = self.get(&l, f);
                let r = self.arith(if op == "++" { "+" } else { "-" }, (t.clone(), v.clone()), (Ty::Lit, k(1)))?;
                self.put(&l, r.1, f);
                (t, v)
            }
            E::Bin(op, a, b) => match op.as_str() {
                "&&" => {
                    let r = self.truth(a, f)? && self.truth(b, f)?;
                    self.b(r)
                }
                "||" => {
                    let r = self.truth(a, f)? || self.truth(b, f)?;
                    self.b(r)
                }
                _ => {
                    let x = self.ev(a, f)?;
                    let y = self.ev(b, f)?;
                    match op.as_str() {
                        "==" => {
                            let r = self.w.eq(&x.1, &y.1);
                            self.b(r)
                        }
                        "!=" => {
                            let r = !self.w.eq(&x.1, &y.1);
                            self.b(r)
                        }
                        "<" => {
                            let r = self.w.less(&x.1, &y.1);
                            self.b(r)
                        }
                        ">" => {
                            let r = self.w.less(&y.1, &x.1);
                            self.b(r)
                        }
                        "<=" => {
                            let r = !self.w.less(&y.1, &x.1);
                            self.b(r)
                        }
                        ">=" => {
                            let r = !self.w.less(&x.1, &y.1);
                            self.b(r)
                        }
                        o => self.arith(o, x, y)?,
                    }
                }
            },
            E::Asg(op, l, r) => {
                let v = self.ev(r, f)?;
                let (t, lv) = self.lval(l, f)?;
                let v = if op == "=" {
                    v
                } else {
                    let old = self.get(&lv, f);
                    self.arith(&op[..op.len() - 1], (t.clone(), old), v)?
                };
                let w = self.conv(v, &t);
                self.put(&lv, w.clone(), f);
                (t, w)
            }
            E::Tern(c, a, b) => {
                if self.truth(c, f)? {
                    self.ev(a, f)?
                } else {
                    self.ev(b, f)?
                }
            }
            E::Arr(v) => {
                let mut ws = vec![];
                let mut t = Ty::Uint(256);
                for e in v {
                    let x = self.ev(e, f)?;
                    if !matches!(x.0, Ty::Lit) {
                        t = x.0;
                    }
                    ws.push(x.1);
                }
                let n = ws.len();
                let a = self.alloc(n as u64);
                for (i, w) in ws.into_iter().enumerate() {
                    self.st(a + 32 * i as u64, w);
                }
                (Ty::SArr(Rc::new(t), n), k(a))
            }
            E::Tup(_) => bad("a tuple"),
            E::Call(g, args, names) => {
                // built-in functions
                if let E::Id(n) = &**g {
                    let known = self.unit(&f.unit).unwrap().funs.iter().any(|x| x.name == *n);
                    match n.as_str() {
                        "require" | "assert" if !known => {
                            return if self.truth(&args[0], f)? { Ok((Ty::Void, k(0))) } else { Err("require".into()) };
                        }
                        "revert" if !known => return Err("revert".into()),
                        "gasleft" if !known => return Ok((Ty::Uint(256), k(1 << 40))),
                        "addmod" | "mulmod" if !known => {
                            let a = self.ev(&args[0], f)?;
                            let b = self.ev(&args[1], f)?;
                            let m = self.ev(&args[2], f)?;
                            if n == "addmod" {
                                if let (W::K(x), W::K(y)) = (&a.1, &b.1) {
                                    return self.arith("%", (Ty::Uint(256), W::K(x + y)), m);
                                }
                            } else if let (W::K(x), W::K(y)) = (&a.1, &b.1) {
                                return self.arith("%", (Ty::Uint(256), W::K(x * y)), m);
                            }
                            bad(n.clone())
                        }
                        _ => {}
                    }
                }
                let (t, _) = self.ev(g, f)?;
                let mut vs = vec![];
                for a in args {
                    vs.push(self.ev(a, f)?);
                }
                match t {
                    Ty::Type(t) => match &*t {
                        Ty::Struct(s) => {
                            let fs = self.fields(s)?;
                            if fs.len() != vs.len() {
                                ill("fields of a struct");
                            }
                            let a = self.alloc(fs.len() as u64);
                            for (i, v) in vs.into_iter().enumerate() {
                                let j = if names.is_empty() { i } else { fs.iter().position(|x| x.1 == names[i]).unwrap_or_else(|| ill("field")) };
                                let w = self.conv(v, &fs[j].0);
                                self.st(a + 32 * j as u64, w);
                            }
                            ((*t).clone(), k(a))
                        }
                        Ty::DArr(_) => {
                            let n = num(&vs[0].1);
                            let a = self.alloc(n + 1);
                            self.st(a, k(n));
                            ((*t).clone(), k(a))
                        }
                        _ => {
                            let v = vs.pop().unwrap_or_else(|| bad("conversion"));
                            let w = self.conv(v, &t);
                            ((*t).clone(), w)
                        }
                    },
                    Ty::Fun(u, n) => {
                        let un = self.unit(&u).unwrap();
                        let fun = un.funs.iter().find(|x| x.name == n && x.params.len() == vs.len()).unwrap_or_else(|| ill("overload"));
                        self.call(&u, fun, vs)?.unwrap_or((Ty::Void, k(0)))
                    }
                    Ty::Bound(t, w, n) => {
                        // `using L for *`
                        vs.insert(0, ((*t).clone(), w));
                        let un = self.units.iter().find(|u| u.library && u.funs.iter().any(|x| x.name == n && x.params.len() == vs.len())).unwrap_or_else(|| ill(format!("method {}", n)));
                        let fun = un.funs.iter().find(|x| x.name == n && x.params.len() == vs.len()).unwrap();
                        self.call(&un.name, fun, vs)?.unwrap_or((Ty::Void, k(0)))
                    }
                    _ => bad("call"),
                }
            }
        })
    }
    // ---- assembly
    fn yul(&mut self, b: &[Y], f: &mut Fr) -> Rv<Flow> {
        let n = f.vars.len();
        for s in b {
            self.tick()?;
            match s {
                Y::Let(ns, e) => {
                    let w = match e {
                        Some(e) => self.ye(e, f)?,
                        None => k(0),
                    };
                    for x in ns {
                        f.vars.push((x.clone(), Ty::Uint(256), w.clone()));
                    }
                }
                Y::Asg(ns, e) => {
                    let w = self.ye(e, f)?;
                    let i = f.vars.iter().rposition(|v| v.0 == ns[0]).unwrap_or_else(|| ill("assembly variable"));
                    f.vars[i].2 = w;
                }
                Y::Ex(e) => {
                    self.ye(e, f)?;
                }
                Y::If(c, b) => {
                    let c = self.ye(c, f)?;
                    if !self.w.is_zero(&c) {
                        self.yul(b, f)?;
                    }
                }
                Y::Switch(c, cs, d) => {
                    let c = self.ye(c, f)?;
                    let mut done = false;
                    for (kv, b) in cs {
                        let kv = self.ye(kv, f)?;
                        if self.w.eq(&c, &kv) {
                            self.yul(b, f)?;
                            done = true;
                            break;
                        }
                    }
                    if let (false, Some(d)) = (done, d) {
                        self.yul(d, f)?;
                    }
                }
                Y::For(a, c, st, b) => {
                    // the scope of the initialiser spans the loop
                    let m = f.vars.len();
                    for s in a {
                        if let Y::Let(ns, e) = s {
                            let w = match e {
                                Some(e) => self.ye(e, f)?,
                                None => k(0),
                            };
                            for x in ns {
                                f.vars.push((x.clone(), Ty::Uint(256), w.clone()));
                            }
                        } else {
                            self.yul(std::slice::from_ref(s), f)?;
                        }
                    }
                    loop {
                        self.tick()?;
                        let t = self.ye(c, f)?;
                        if self.w.is_zero(&t) {
                            break;
                        }
                        self.yul(b, f)?;
                        self.yul(st, f)?;
                    }
                    f.vars.truncate(m);
                }
                Y::Block(b) => {
                    self.yul(b, f)?;
                }
            }
        }
        f.vars.truncate(n);
        Ok(Flow::Next)
    }
    fn ye(&mut self, e: &YE, f: &mut Fr) -> Rv<W> {
        self.tick()?;
        Ok(match e {
            YE::Num(n) => W::K(n.clone()),
            YE::Id(n) => f.vars.iter().rev().find(|v| v.0 == *n).map(|v| v.2.clone()).unwrap_or_else(|| ill(format!("assembly name {}", n))),
            YE::Call(n, a) => {
                let mut v = vec![];
                // arguments are evaluated right to left
                for x in a.iter().rev() {
                    v.push(self.ye(x, f)?);
                }
                v.reverse();
                let u = |w: W| (Ty::Uint(256), w);
                let bl = |x: bool| k(x as u64);
                match n.as_str() {
                    "gas" => k(1 << 40),
                    "add" => self.arith("+", u(v[0].clone()), u(v[1].clone()))?.1,
                    "sub" => self.arith("-", u(v[0].clone()), u(v[1].clone()))?.1,
                    "mul" => self.arith("*", u(v[0].clone()), u(v[1].clone()))?.1,
                    "and" => self.arith("&", u(v[0].clone()), u(v[1].clone()))?.1,
                    "or" => self.arith("|", u(v[0].clone()), u(v[1].clone()))?.1,
                    "div" | "mod" if v[1] == k(0) => k(0),
                    "div" => self.arith("/", u(v[0].clone()), u(v[1].clone()))?.1,
                    "mod" => self.arith("%", u(v[0].clone()), u(v[1].clone()))?.1,
                    "iszero" => bl(self.w.is_zero(&v[0])),
                    "eq" => bl(self.w.eq(&v[0], &v[1])),
                    "lt" => bl(self.w.less(&v[0], &v[1])),
                    "gt" => bl(self.w.less(&v[1], &v[0])),
                    "not" => match &v[0] {
                        W::K(x) => W::K(two256() - 1u32 - x),
                        _ => bad("not"),
                    },
                    "mload" => {
                        if num(&v[0]) == 0x40 {
                            k(self.free)
                        } else {
                            self.ld(num(&v[0]))
                        }
                    }
                    "mstore" => {
                        if num(&v[0]) == 0x40 {
                            self.free = num(&v[1]);
                        } else {
                            self.st(num(&v[0]), v[1].clone());
                        }
                        k(0)
                    }
                    "pop" => k(0),
                    "invalid" | "revert" => return Err(n.clone()),
                    "staticcall" => self.precompile(num(&v[1]), num(&v[2]), num(&v[3]), num(&v[4]), num(&v[5])),
                    "call" => self.precompile(num(&v[1]), num(&v[3]), num(&v[4]), num(&v[5]), num(&v[6])),
                    _ => bad(format!("assembly {}", n)),
                }
            }
        })
    }
    fn precompile(&mut self, which: u64, inp: u64, isz: u64, out: u64, osz: u64) -> W {
        if (isz % 32, osz % 32) != (0, 0) {
            bad("sizes of a call");
        }
        if which < 9 {
            self.w.calls[which as usize] += 1;
        }
        let word = |s: &Self, i: u64| if 32 * i < isz { s.ld(inp + 32 * i) } else { k(0) };
        let res: Option<Vec<W>> = match which {
            6 => {
                let w: Vec<W> = (0..4).map(|i| word(self, i)).collect();
                match (self.w.point1(&w[0], &w[1]), self.w.point1(&w[2], &w[3])) {
                    (Some(a), Some(b)) => {
                        let e = with(|c| c.add(a, b));
                        self.w.outs.push(e);
                        let t = self.w.outs.len() - 1;
                        Some(vec![W::Out(t, 0), W::Out(t, 1)])
                    }
                    _ => None,
                }
            }
            7 => {
                let w: Vec<W> = (0..3).map(|i| word(self, i)).collect();
                let n = self.w.n;
                match self.w.point1(&w[0], &w[1]) {
                    Some(a) => {
                        let s = match &w[2] {
                            W::Sym(s) => self.w.syms[*s].scalar.unwrap_or_else(|| {
                                let nm = format!("{} as a scalar", self.w.syms[*s].name);
                                with(|c| c.var(&nm, n))
                            }),
                            W::K(x) => {
                                // the scalar field order stands for the small group order
                                let r = dec(R);
                                let x = x % &r;
                                let x = if &x * 2u32 > r { n - num(&W::K((r - x) % n)) % n } else { num(&W::K(x % n)) };
                                with(|c| c.konst(x % n, n))
                            }
                            _ => bad("a scalar"),
                        };
                        let e = with(|c| c.mul(a, s));
                        self.w.outs.push(e);
                        let t = self.w.outs.len() - 1;
                        Some(vec![W::Out(t, 0), W::Out(t, 1)])
                    }
                    None => None,
                }
            }
            8 => {
                if isz % 192 != 0 {
                    None
                } else {
                    let mut sum = self.w.konst(0);
                    let mut ok = true;
                    for p in 0..isz / 192 {
                        let w: Vec<W> = (0..6).map(|i| word(self, 6 * p + i)).collect();
                        match (self.w.point1(&w[0], &w[1]), self.w.point2(&w[2..])) {
                            (Some(a), Some(b)) => {
                                sum = with(|c| {
                                    let m = c.mul(a, b);
                                    c.add(sum, m)
                                })
                            }
                            _ => {
                                ok = false;
                                break;
                            }
                        }
                    }
                    if ok {
                        Some(vec![k(decide(Cond::Zero(sum)) as u64)])
                    } else {
                        None
                    }
                }
            }
            // an address without code: the call succeeds and returns nothing
            n if n > 9 || n == 0 => Some(vec![]),
            _ => bad("another precompile"),
        };
        match res {
            None => k(0),
            Some(v) => {
                for (i, w) in v.into_iter().enumerate() {
                    if 32 * (i as u64) < osz {
                        self.st(out + 32 * i as u64, w);
                    }
                }
                k(1)
            }
        }
    }
    /// call an exported function whose parameters are fixed arrays of words
    pub fn entry(&mut self, name: &str, args: &[Vec<W>]) -> Result<Rv<W>, String> {
        let u = self.units.iter().find(|u| !u.library && u.funs.iter().any(|f| f.exported && f.name == name)).ok_or("no such exported function")?;
        let fun = u.funs.iter().find(|f| f.exported && f.name == name).unwrap();
        if fun.params.len() != args.len() {
            return Err("number of parameters".into());
        }
        let mut vs = vec![];
        let mut f = Fr { unit: u.name.clone(), vars: vec![] };
        for ((t, _), a) in fun.params.iter().zip(args) {
            let t = match self.ty(t, &mut f) {
                Ok(t) => t,
                Err(m) => return Err(m),
            };
            match &t {
                Ty::SArr(e, n) if **e == Ty::Uint(256) => {
                    if *n != a.len() {
                        return Err(format!("a parameter of {} words, {} expected", n, a.len()));
                    }
                    let p = self.alloc(*n as u64);
                    for (i, w) in a.iter().enumerate() {
                        self.st(p + 32 * i as u64, w.clone());
                    }
                    vs.push((t, k(p)));
                }
                _ => bad("parameter types"),
            }
        }
        Ok(self.call(&u.name, fun, vs).map(|r| r.map(|v| v.1).unwrap_or(k(0))))
    }
}
