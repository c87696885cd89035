//! A small Solidity interpreter with byte-addressed memory, gas and the
//! precompiled contracts of the alt_bn128 curve: enough of the language to
//! run the generated verifier however its text is arranged.
use crate::gen::*;
use num::bigint::BigUint;
use num::{One, ToPrimitive, Zero};
use std::collections::HashMap;
use std::rc::Rc;

/// How an execution ends without a result.
#[derive(Debug, Clone, PartialEq)]
pub enum Halt {
    Revert(String),
    OutOfGas,
    /// a Solidity compiler would refuse the source
    NoCompile(String),
    /// beyond this interpreter
    Unsupported(String),
}

type U = BigUint;
type Res<T> = Result<T, Halt>;

fn nc<T>(s: impl Into<String>) -> Res<T> {
    Err(Halt::NoCompile(s.into()))
}
fn un<T>(s: impl Into<String>) -> Res<T> {
    Err(Halt::Unsupported(s.into()))
}
fn rv<T>(s: impl Into<String>) -> Res<T> {
    Err(Halt::Revert(s.into()))
}

fn two256() -> U {
    U::one() << 256
}
fn wrap(v: U) -> U {
    if v.bits() > 256 {
        v % two256()
    } else {
        v
    }
}

// ---------------------------------------------------------------- lexer

#[derive(Clone, Debug, PartialEq)]
enum T {
    Id(String),
    Num(U),
    Str(String),
    P(&'static str),
    Eof,
}

const PUNCT: [&str; 49] = [
    ">>>=", "<<=", ">>=", ">>>", "**", "&&", "||", "==", "!=", "<=", ">=", "+=", "-=", "*=", "/=", "%=", "|=", "&=", "^=", "++", "--", "<<", ">>", ":=", "=>", "->", "{", "}", "(", ")", "[", "]", ";", ",", ".",
    "=", "<", ">", "+", "-", "*", "/", "%", "!", "~", "&", "|", "^", "?",
];

fn lex(s: &str) -> Res<Vec<T>> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = vec![];
    'top: while i < b.len() {
        let c = b[i];
        if c.is_ascii_whitespace() {
            i += 1;
            continue;
        }
        if s[i..].starts_with("//") {
            while i < b.len() && b[i] != b'\n' {
                i += 1;
            }
            continue;
        }
        if s[i..].starts_with("/*") {
            match s[i + 2..].find("*/") {
                Some(k) => i += k + 4,
                None => return nc("comment without end"),
            }
            continue;
        }
        if c.is_ascii_alphabetic() || c == b'_' || c == b'$' {
            let st = i;
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_' || b[i] == b'$') {
                i += 1;
            }
            out.push(T::Id(s[st..i].to_string()));
            continue;
        }
        if c.is_ascii_digit() {
            let st = i;
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
                i += 1;
            }
            let t: String = s[st..i].chars().filter(|c| *c != '_').collect();
            let v = if let Some(h) = t.strip_prefix("0x") {
                U::parse_bytes(h.as_bytes(), 16)
            } else if let Some((m, e)) = t.split_once(['e', 'E']) {
                match (U::parse_bytes(m.as_bytes(), 10), e.parse::<u32>()) {
                    (Some(m), Ok(e)) if e < 100 => Some(m * num::pow(U::from(10u32), e as usize)),
                    _ => None,
                }
            } else {
                if t.len() > 1 && t.starts_with('0') {
                    return nc(format!("octal literal {}", t));
                }
                U::parse_bytes(t.as_bytes(), 10)
            };
            match v {
                Some(v) if v.bits() <= 256 => out.push(T::Num(v)),
                _ => return nc(format!("number {}", t)),
            }
            continue;
        }
        if c == b'"' || c == b'\'' {
            let st = i + 1;
            i += 1;
            while i < b.len() && b[i] != c {
                if b[i] == b'\n' {
                    return nc("string without end");
                }
                i += if b[i] == b'\\' { 2 } else { 1 };
            }
            if i >= b.len() {
                return nc("string without end");
            }
            out.push(T::Str(s[st..i].to_string()));
            i += 1;
            continue;
        }
        if c == b':' && !s[i..].starts_with(":=") {
            out.push(T::P(":"));
            i += 1;
            continue;
        }
        for p in PUNCT.iter() {
            if s[i..].starts_with(p) {
                out.push(T::P(p));
                i += p.len();
                continue 'top;
            }
        }
        return nc(format!("stray character {:?}", c as char));
    }
    out.push(T::Eof);
    Ok(out)
}

// ---------------------------------------------------------------- syntax

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Uint(usize),
    Bool,
    Bytes32,
    Address,
    Str,
    /// a number literal
    Lit,
    Struct(String, String),
    Fix(Box<Ty>, usize),
    Dyn(Box<Ty>),
    Void,
}

#[derive(Clone, Debug)]
enum TyE {
    Base(Ty),
    Named(Option<String>, String),
    Arr(Box<TyE>, Option<Box<E>>),
}

#[derive(Clone, Debug)]
enum E {
    Num(U),
    Str(String),
    Bool(bool),
    Id(String),
    Ty(TyE),
    New(TyE),
    Un(&'static str, Box<E>),
    Post(&'static str, Box<E>),
    Bin(&'static str, Box<E>, Box<E>),
    Assign(&'static str, Box<E>, Box<E>),
    Cond(Box<E>, Box<E>, Box<E>),
    Call(Box<E>, Vec<E>, Option<Vec<String>>),
    Mem(Box<E>, String),
    Idx(Box<E>, Box<E>),
    Arr(Vec<E>),
    Tup(Vec<Option<E>>),
}

#[derive(Clone, Debug)]
enum S {
    Block(Vec<S>),
    Unchecked(Vec<S>),
    Decl(Vec<Option<(TyE, String)>>, Option<E>),
    Ex(E),
    If(E, Box<S>, Option<Box<S>>),
    For(Box<S>, Option<E>, Option<E>, Box<S>),
    While(E, Box<S>),
    Do(Box<S>, E),
    Ret(Option<E>),
    Break,
    Cont,
    Asm(Vec<Y>),
    Nop,
}

/// inline assembly
#[derive(Clone, Debug)]
enum YE {
    Num(U),
    Id(String),
    Call(String, Vec<YE>),
}
#[derive(Clone, Debug)]
enum Y {
    Block(Vec<Y>),
    Let(Vec<String>, Option<YE>),
    Set(Vec<String>, YE),
    Ex(YE),
    If(YE, Vec<Y>),
    Switch(YE, Vec<(U, Vec<Y>)>, Option<Vec<Y>>),
    For(Vec<Y>, YE, Vec<Y>, Vec<Y>),
    Break,
    Cont,
}

#[derive(Clone, Debug)]
struct Fun {
    home: String,
    name: String,
    params: Vec<(TyE, String)>,
    rets: Vec<(TyE, String)>,
    body: Vec<S>,
    open: bool,
    modifiers: bool,
}

#[derive(Default, Debug)]
struct Unit {
    is_lib: bool,
    bases: Vec<String>,
    structs: HashMap<String, Vec<(TyE, String)>>,
    consts: HashMap<String, (TyE, E)>,
    funs: Vec<Rc<Fun>>,
    using: Vec<String>,
}

#[derive(Debug)]
pub struct Source {
    units: HashMap<String, Unit>,
    checked: bool,
}

struct Parser {
    t: Vec<T>,
    i: usize,
}

fn base_ty(s: &str) -> Option<Ty> {
    if s == "uint" {
        return Some(Ty::Uint(256));
    }
    if let Some(n) = s.strip_prefix("uint") {
        if let Ok(n) = n.parse::<usize>() {
            if n % 8 == 0 && (8..=256).contains(&n) {
                return Some(Ty::Uint(n));
            }
        }
    }
    match s {
        "bool" => Some(Ty::Bool),
        "bytes32" => Some(Ty::Bytes32),
        "address" => Some(Ty::Address),
        "string" => Some(Ty::Str),
        _ => None,
    }
}

const LOCS: [&str; 3] = ["memory", "calldata", "storage"];
const QUAL: [&str; 10] = ["public", "private", "internal", "external", "view", "pure", "payable", "virtual", "constant", "immutable"];

impl Parser {
    fn peek(&self) -> &T {
        &self.t[self.i]
    }
    fn at(&self, k: usize) -> &T {
        self.t.get(self.i + k).unwrap_or(&T::Eof)
    }
    fn next(&mut self) -> T {
        let t = self.t[self.i].clone();
        if self.i + 1 < self.t.len() {
            self.i += 1;
        }
        t
    }
    fn is(&self, p: &str) -> bool {
        matches!(self.peek(), T::P(q) if *q == p)
    }
    fn isk(&self, k: &str) -> bool {
        matches!(self.peek(), T::Id(q) if q == k)
    }
    fn eat(&mut self, p: &str) -> bool {
        let y = self.is(p);
        if y {
            self.i += 1;
        }
        y
    }
    fn eatk(&mut self, k: &str) -> bool {
        let y = self.isk(k);
        if y {
            self.i += 1;
        }
        y
    }
    fn want(&mut self, p: &str) -> Res<()> {
        if self.eat(p) {
            Ok(())
        } else {
            nc(format!("expected {} and found {:?}", p, self.peek()))
        }
    }
    fn ident(&mut self) -> Res<String> {
        match self.next() {
            T::Id(s) => Ok(s),
            t => nc(format!("expected a name and found {:?}", t)),
        }
    }

    fn source(&mut self) -> Res<Source> {
        let mut src = Source { units: HashMap::new(), checked: false };
        loop {
            match self.next() {
                T::Eof => return Ok(src),
                T::Id(k) if k == "pragma" => {
                    let mut words = vec![];
                    while !self.is(";") {
                        if *self.peek() == T::Eof {
                            return nc("pragma without end");
                        }
                        words.push(self.next());
                    }
                    self.want(";")?;
                    // ^0.6.0 reads as numbers separated by dots
                    if words.first() == Some(&T::Id("solidity".into())) {
                        let nums: Vec<u64> = words.iter().filter_map(|t| if let T::Num(n) = t { n.to_u64() } else { None }).collect();
                        src.checked = nums.get(1).map(|m| *m >= 8).unwrap_or(false);
                    }
                }
                T::Id(k) if k == "library" || k == "contract" || k == "interface" || k == "abstract" => {
                    if k == "abstract" {
                        self.ident()?;
                    }
                    let name = self.ident()?;
                    let mut u = Unit { is_lib: k == "library", ..Default::default() };
                    if self.eatk("is") {
                        loop {
                            u.bases.push(self.ident()?);
                            if !self.eat(",") {
                                break;
                            }
                        }
                    }
                    self.want("{")?;
                    while !self.eat("}") {
                        self.member(&name, &mut u)?;
                    }
                    if src.units.insert(name.clone(), u).is_some() {
                        return nc(format!("{} is defined twice", name));
                    }
                }
                T::Id(k) if k == "import" => return un("import"),
                t => return nc(format!("unexpected {:?} at the top", t)),
            }
        }
    }

    fn member(&mut self, home: &str, u: &mut Unit) -> Res<()> {
        if self.eatk("using") {
            let l = self.ident()?;
            while !self.eat(";") {
                if *self.peek() == T::Eof {
                    return nc("using without end");
                }
                self.next();
            }
            u.using.push(l);
            return Ok(());
        }
        if self.eatk("struct") {
            let n = self.ident()?;
            self.want("{")?;
            let mut f = vec![];
            while !self.eat("}") {
                let t = self.ty()?;
                f.push((t, self.ident()?));
                self.want(";")?;
            }
            if u.structs.insert(n.clone(), f).is_some() {
                return nc(format!("struct {} is defined twice", n));
            }
            return Ok(());
        }
        if self.isk("event") || self.isk("error") {
            while !self.eat(";") {
                self.next();
            }
            return Ok(());
        }
        if self.isk("modifier") || self.isk("enum") || self.isk("mapping") || self.isk("receive") || self.isk("fallback") || self.isk("constructor") {
            return un(format!("{:?}", self.peek()));
        }
        if self.eatk("function") {
            let name = self.ident()?;
            let params = self.params()?;
            let mut rets = vec![];
            let (mut open, mut modifiers) = (false, false);
            loop {
                if self.eatk("returns") {
                    rets = self.params()?;
                } else if self.eatk("override") {
                } else if let T::Id(q) = self.peek().clone() {
                    if QUAL.contains(&q.as_str()) {
                        open |= q == "public" || q == "external";
                    } else {
                        modifiers = true;
                    }
                    self.next();
                    if modifiers && self.is("(") {
                        return un("modifier with arguments");
                    }
                } else {
                    break;
                }
            }
            let body = if self.eat(";") { vec![] } else { self.block()? };
            u.funs.push(Rc::new(Fun { home: home.into(), name, params, rets, body, open, modifiers }));
            return Ok(());
        }
        // constant
        let t = self.ty()?;
        let mut is_const = false;
        let mut name = self.ident()?;
        while QUAL.contains(&name.as_str()) {
            is_const |= name == "constant" || name == "immutable";
            name = self.ident()?;
        }
        if !self.eat("=") {
            return un(format!("state variable {}", name));
        }
        let e = self.expr()?;
        self.want(";")?;
        if !is_const {
            return un(format!("state variable {}", name));
        }
        if u.consts.insert(name.clone(), (t, e)).is_some() {
            return nc(format!("{} is defined twice", name));
        }
        Ok(())
    }

    fn params(&mut self) -> Res<Vec<(TyE, String)>> {
        self.want("(")?;
        let mut v = vec![];
        if self.eat(")") {
            return Ok(v);
        }
        loop {
            let t = self.ty()?;
            if let T::Id(l) = self.peek().clone() {
                if LOCS.contains(&l.as_str()) {
                    if l == "storage" {
                        return un("storage");
                    }
                    self.next();
                }
            }
            let n = if let T::Id(_) = self.peek() { self.ident()? } else { String::new() };
            v.push((t, n));
            if self.eat(")") {
                return Ok(v);
            }
            self.want(",")?;
        }
    }

    fn ty(&mut self) -> Res<TyE> {
        let n = self.ident()?;
        let mut t = match base_ty(&n) {
            Some(b) => TyE::Base(b),
            None => {
                if ["mapping", "function", "int", "int256", "bytes"].contains(&n.as_str()) {
                    return un(n);
                }
                if self.is(".") {
                    self.next();
                    TyE::Named(Some(n), self.ident()?)
                } else {
                    TyE::Named(None, n)
                }
            }
        };
        while self.eat("[") {
            if self.eat("]") {
                t = TyE::Arr(Box::new(t), None);
            } else {
                let e = self.expr()?;
                self.want("]")?;
                t = TyE::Arr(Box::new(t), Some(Box::new(e)));
            }
        }
        Ok(t)
    }

    fn block(&mut self) -> Res<Vec<S>> {
        self.want("{")?;
        let mut v = vec![];
        while !self.eat("}") {
            v.push(self.stmt()?);
        }
        Ok(v)
    }

    /// Is a declaration ahead: a type, then a name or a location?
    fn decl_ahead(&mut self) -> bool {
        let save = self.i;
        let y = self.ty().is_ok() && matches!(self.peek(), T::Id(_));
        self.i = save;
        y
    }

    fn decl(&mut self) -> Res<(TyE, String)> {
        let t = self.ty()?;
        if let T::Id(l) = self.peek().clone() {
            if l == "storage" {
                return un("storage");
            }
            if LOCS.contains(&l.as_str()) {
                self.next();
            }
        }
        Ok((t, self.ident()?))
    }

    fn simple(&mut self) -> Res<S> {
        // tuple declaration
        if self.is("(") {
            let save = self.i;
            self.next();
            let mut v = vec![];
            let mut ok = true;
            loop {
                if self.is(",") {
                    v.push(None);
                } else if self.is(")") {
                    v.push(None);
                } else if self.decl_ahead() {
                    v.push(Some(self.decl()?));
                } else {
                    ok = false;
                    break;
                }
                if self.eat(",") {
                    continue;
                }
                ok = self.eat(")") && self.eat("=");
                break;
            }
            if ok && v.iter().any(|x| x.is_some()) {
                let e = self.expr()?;
                return Ok(S::Decl(v, Some(e)));
            }
            self.i = save;
        }
        if matches!(self.peek(), T::Id(_)) && self.decl_ahead() {
            let d = self.decl()?;
            let e = if self.eat("=") { Some(self.expr()?) } else { None };
            return Ok(S::Decl(vec![Some(d)], e));
        }
        Ok(S::Ex(self.expr()?))
    }

    fn stmt(&mut self) -> Res<S> {
        if self.is("{") {
            return Ok(S::Block(self.block()?));
        }
        if self.eat(";") {
            return Ok(S::Nop);
        }
        if let T::Id(k) = self.peek().clone() {
            match k.as_str() {
                "unchecked" => {
                    self.next();
                    return Ok(S::Unchecked(self.block()?));
                }
                "if" => {
                    self.next();
                    self.want("(")?;
                    let c = self.expr()?;
                    self.want(")")?;
                    let a = self.stmt()?;
                    let b = if self.eatk("else") { Some(Box::new(self.stmt()?)) } else { None };
                    return Ok(S::If(c, Box::new(a), b));
                }
                "for" => {
                    self.next();
                    self.want("(")?;
                    let init = if self.eat(";") {
                        S::Nop
                    } else {
                        let s = self.simple()?;
                        self.want(";")?;
                        s
                    };
                    let c = if self.is(";") { None } else { Some(self.expr()?) };
                    self.want(";")?;
                    let st = if self.is(")") { None } else { Some(self.expr()?) };
                    self.want(")")?;
                    return Ok(S::For(Box::new(init), c, st, Box::new(self.stmt()?)));
                }
                "while" => {
                    self.next();
                    self.want("(")?;
                    let c = self.expr()?;
                    self.want(")")?;
                    return Ok(S::While(c, Box::new(self.stmt()?)));
                }
                "do" => {
                    self.next();
                    let b = self.stmt()?;
                    if !self.eatk("while") {
                        return nc("do without while");
                    }
                    self.want("(")?;
                    let c = self.expr()?;
                    self.want(")")?;
                    self.want(";")?;
                    return Ok(S::Do(Box::new(b), c));
                }
                "return" => {
                    self.next();
                    let e = if self.is(";") { None } else { Some(self.expr()?) };
                    self.want(";")?;
                    return Ok(S::Ret(e));
                }
                "break" | "continue" => {
                    self.next();
                    self.want(";")?;
                    return Ok(if k == "break" { S::Break } else { S::Cont });
                }
                "assembly" => {
                    self.next();
                    if let T::Str(_) = self.peek() {
                        self.next();
                    }
                    if self.is("(") {
                        while !self.eat(")") {
                            self.next();
                        }
                    }
                    return Ok(S::Asm(self.yblock()?));
                }
                "emit" | "try" | "throw" => return un(k),
                _ => {}
            }
        }
        let s = self.simple()?;
        self.want(";")?;
        Ok(s)
    }

    fn expr(&mut self) -> Res<E> {
        let l = self.cond()?;
        for op in ["=", "+=", "-=", "*=", "/=", "%=", "|=", "&=", "^=", "<<=", ">>="] {
            if self.eat(op) {
                let r = self.expr()?;
                return Ok(E::Assign(op, Box::new(l), Box::new(r)));
            }
        }
        Ok(l)
    }
    fn cond(&mut self) -> Res<E> {
        let c = self.bin(0)?;
        if self.eat("?") {
            let a = self.expr()?;
            self.want(":")?;
            let b = self.expr()?;
            return Ok(E::Cond(Box::new(c), Box::new(a), Box::new(b)));
        }
        Ok(c)
    }
    fn bin(&mut self, level: usize) -> Res<E> {
        const L: [&[&str]; 10] = [&["||"], &["&&"], &["==", "!="], &["<", ">", "<=", ">="], &["|"], &["^"], &["&"], &["<<", ">>"], &["+", "-"], &["*", "/", "%"]];
        if level == L.len() {
            let b = self.unary()?;
            if self.eat("**") {
                let e = self.bin(level)?;
                return Ok(E::Bin("**", Box::new(b), Box::new(e)));
            }
            return Ok(b);
        }
        let mut l = self.bin(level + 1)?;
        'more: loop {
            for op in L[level] {
                if self.is(op) {
                    self.next();
                    let r = self.bin(level + 1)?;
                    l = E::Bin(op, Box::new(l), Box::new(r));
                    continue 'more;
                }
            }
            return Ok(l);
        }
    }
    fn unary(&mut self) -> Res<E> {
        for op in ["!", "~", "-", "++", "--"] {
            if self.is(op) {
                self.next();
                return Ok(E::Un(op, Box::new(self.unary()?)));
            }
        }
        if self.eatk("delete") {
            return un("delete");
        }
        self.postfix()
    }
    fn postfix(&mut self) -> Res<E> {
        let mut e = self.primary()?;
        loop {
            if self.eat(".") {
                e = E::Mem(Box::new(e), self.ident()?);
            } else if self.eat("[") {
                let i = self.expr()?;
                self.want("]")?;
                e = E::Idx(Box::new(e), Box::new(i));
            } else if self.eat("(") {
                let mut a = vec![];
                let mut names = None;
                if self.eat("{") {
                    let mut ns = vec![];
                    while !self.eat("}") {
                        ns.push(self.ident()?);
                        self.want(":")?;
                        a.push(self.expr()?);
                        if !self.is("}") {
                            self.want(",")?;
                        }
                    }
                    self.want(")")?;
                    names = Some(ns);
                } else if !self.eat(")") {
                    loop {
                        a.push(self.expr()?);
                        if self.eat(")") {
                            break;
                        }
                        self.want(",")?;
                    }
                }
                e = E::Call(Box::new(e), a, names);
            } else if self.is("++") || self.is("--") {
                let op = if self.is("++") { "++" } else { "--" };
                self.next();
                e = E::Post(op, Box::new(e));
            } else {
                return Ok(e);
            }
        }
    }
    fn primary(&mut self) -> Res<E> {
        match self.next() {
            T::Num(n) => {
                // units change the value
                if let T::Id(u) = self.peek() {
                    if ["wei", "gwei", "ether", "seconds", "minutes", "hours", "days", "weeks"].contains(&u.as_str()) {
                        return un("units");
                    }
                }
                Ok(E::Num(n))
            }
            T::Str(s) => Ok(E::Str(s)),
            T::P("(") => {
                let mut v = vec![];
                loop {
                    if self.is(",") || self.is(")") {
                        v.push(None);
                    } else {
                        v.push(Some(self.expr()?));
                    }
                    if self.eat(")") {
                        break;
                    }
                    self.want(",")?;
                }
                if v.len() == 1 {
                    return match v.pop().unwrap() {
                        Some(e) => Ok(e),
                        None => Ok(E::Tup(vec![])),
                    };
                }
                Ok(E::Tup(v))
            }
            T::P("[") => {
                let mut v = vec![];
                loop {
                    v.push(self.expr()?);
                    if self.eat("]") {
                        break;
                    }
                    self.want(",")?;
                }
                Ok(E::Arr(v))
            }
            T::Id(s) => match s.as_str() {
                "true" => Ok(E::Bool(true)),
                "false" => Ok(E::Bool(false)),
                "new" => Ok(E::New(self.ty()?)),
                _ => match base_ty(&s) {
                    Some(t) => Ok(E::Ty(TyE::Base(t))),
                    None => Ok(E::Id(s)),
                },
            },
            t => nc(format!("unexpected {:?}", t)),
        }
    }

    fn yblock(&mut self) -> Res<Vec<Y>> {
        self.want("{")?;
        let mut v = vec![];
        while !self.eat("}") {
            v.push(self.ystmt()?);
        }
        Ok(v)
    }
    fn ystmt(&mut self) -> Res<Y> {
        if self.is("{") {
            return Ok(Y::Block(self.yblock()?));
        }
        if let T::Id(k) = self.peek().clone() {
            match k.as_str() {
                "let" => {
                    self.next();
                    let mut ns = vec![self.ident()?];
                    while self.eat(",") {
                        ns.push(self.ident()?);
                    }
                    let e = if self.eat(":=") { Some(self.yexpr()?) } else { None };
                    return Ok(Y::Let(ns, e));
                }
                "if" => {
                    self.next();
                    let c = self.yexpr()?;
                    return Ok(Y::If(c, self.yblock()?));
                }
                "switch" => {
                    self.next();
                    let c = self.yexpr()?;
                    let mut cs = vec![];
                    let mut d = None;
                    loop {
                        if self.eatk("case") {
                            let v = match self.yexpr()? {
                                YE::Num(n) => n,
                                _ => return nc("case is no literal"),
                            };
                            cs.push((v, self.yblock()?));
                        } else if self.eatk("default") {
                            d = Some(self.yblock()?);
                        } else {
                            break;
                        }
                    }
                    return Ok(Y::Switch(c, cs, d));
                }
                "for" => {
                    self.next();
                    let i = self.yblock()?;
                    let c = self.yexpr()?;
                    let p = self.yblock()?;
                    let b = self.yblock()?;
                    return Ok(Y::For(i, c, p, b));
                }
                "break" => {
                    self.next();
                    return Ok(Y::Break);
                }
                "continue" => {
                    self.next();
                    return Ok(Y::Cont);
                }
                "function" | "leave" => return un(k),
                _ => {}
            }
            if matches!(self.at(1), T::P(":=") | T::P(",")) {
                let mut ns = vec![self.ident()?];
                while self.eat(",") {
                    ns.push(self.ident()?);
                }
                self.want(":=")?;
                return Ok(Y::Set(ns, self.yexpr()?));
            }
        }
        Ok(Y::Ex(self.yexpr()?))
    }
    fn yexpr(&mut self) -> Res<YE> {
        match self.next() {
            T::Num(n) => Ok(YE::Num(n)),
            T::Id(s) if s == "true" => Ok(YE::Num(U::one())),
            T::Id(s) if s == "false" => Ok(YE::Num(U::zero())),
            T::Id(s) => {
                if self.eat("(") {
                    let mut a = vec![];
                    if !self.eat(")") {
                        loop {
                            a.push(self.yexpr()?);
                            if self.eat(")") {
                                break;
                            }
                            self.want(",")?;
                        }
                    }
                    Ok(YE::Call(s, a))
                } else if self.is(".") {
                    un("member in assembly")
                } else {
                    Ok(YE::Id(s))
                }
            }
            t => nc(format!("unexpected {:?} in assembly", t)),
        }
    }
}

pub fn parse(text: &str) -> Res<Source> {
    let mut p = Parser { t: lex(text)?, i: 0 };
    p.source()
}

// ---------------------------------------------------------------- machine

/// The chain the contract runs on.
pub trait Chain {
    /// A call to another address with this much gas: `None` fails.
    /// Returns output and gas used.
    fn call(&mut self, addr: &U, input: &[u8], gas: u64) -> Option<(Vec<u8>, u64)>;
}

pub struct Machine<'s, C: Chain> {
    src: &'s Source,
    chain: C,
    mem: Vec<u8>,
    ret: Vec<u8>,
    pub gas: u64,
    depth: u32,
    unchecked: u32,
}

#[derive(Clone, Debug)]
struct V {
    ty: Ty,
    v: U,
}

#[derive(Clone, Debug)]
enum Val {
    One(V),
    Many(Vec<V>),
}

impl Val {
    fn one(self) -> Res<V> {
        match self {
            Val::One(v) => Ok(v),
            Val::Many(mut v) if v.len() == 1 => Ok(v.pop().unwrap()),
            _ => nc("a value is expected"),
        }
    }
}

enum Flow {
    Next,
    Break,
    Cont,
    Ret(Option<Val>),
}

enum Place {
    Var(String),
    Mem(U, Ty),
}

struct Frame {
    unit: String,
    scopes: Vec<Vec<(String, V)>>,
}

impl Frame {
    fn find(&mut self, n: &str) -> Option<&mut V> {
        self.scopes.iter_mut().rev().find_map(|s| s.iter_mut().rev().find(|x| x.0 == n).map(|x| &mut x.1))
    }
}

fn mask(ty: &Ty, v: U) -> U {
    match ty {
        Ty::Uint(n) if *n < 256 => v % (U::one() << *n),
        Ty::Bool => {
            if v.is_zero() {
                U::zero()
            } else {
                U::one()
            }
        }
        _ => v,
    }
}

fn is_ref(t: &Ty) -> bool {
    matches!(t, Ty::Struct(..) | Ty::Fix(..) | Ty::Dyn(..) | Ty::Str)
}

impl<'s, C: Chain> Machine<'s, C> {
    pub fn new(src: &'s Source, chain: C, gas: u64) -> Self {
        let mut m = Machine { src, chain, mem: vec![0; 0x80], ret: vec![], gas, depth: 0, unchecked: 0 };
        m.put(0x40, &U::from(0x80u32));
        m
    }

    fn burn(&mut self, n: u64) -> Res<()> {
        if self.gas < n {
            self.gas = 0;
            return Err(Halt::OutOfGas);
        }
        self.gas -= n;
        Ok(())
    }

    fn touch(&mut self, end: usize) {
        if self.mem.len() < end {
            self.mem.resize((end + 31) / 32 * 32, 0);
        }
    }
    fn off(&mut self, p: &U, len: usize) -> Res<usize> {
        match p.to_u64() {
            Some(o) if o < 1 << 24 && len < 1 << 24 => {
                self.touch(o as usize + len);
                Ok(o as usize)
            }
            _ => Err(Halt::OutOfGas),
        }
    }
    fn put(&mut self, o: usize, v: &U) {
        let b = v.to_bytes_be();
        self.touch(o + 32);
        self.mem[o..o + 32].iter_mut().for_each(|x| *x = 0);
        self.mem[o + 32 - b.len()..o + 32].copy_from_slice(&b);
    }
    fn store(&mut self, p: &U, v: &U) -> Res<()> {
        let o = self.off(p, 32)?;
        self.put(o, v);
        Ok(())
    }
    fn load(&mut self, p: &U) -> Res<U> {
        let o = self.off(p, 32)?;
        Ok(U::from_bytes_be(&self.mem[o..o + 32]))
    }
    fn reserve(&mut self, words: usize) -> Res<U> {
        let p = U::from_bytes_be(&self.mem[0x40..0x60].to_vec());
        let o = self.off(&p, words * 32)?;
        self.mem[o..o + words * 32].iter_mut().for_each(|x| *x = 0);
        self.put(0x40, &(&p + U::from(words as u64 * 32)));
        Ok(p)
    }

    fn resolve(&mut self, f: &mut Frame, t: &TyE) -> Res<Ty> {
        match t {
            TyE::Base(t) => Ok(t.clone()),
            TyE::Named(q, n) => match self.find_struct(&f.unit.clone(), q.as_deref(), n) {
                Some(h) => Ok(Ty::Struct(h, n.clone())),
                None => nc(format!("no type {}", n)),
            },
            TyE::Arr(t, n) => {
                let e = self.resolve(f, t)?;
                match n {
                    None => Ok(Ty::Dyn(Box::new(e))),
                    Some(n) => {
                        let k = self.eval(f, n)?.one()?.v;
                        match k.to_usize() {
                            Some(0) => nc("array of length zero"),
                            Some(k) if k < 1 << 20 => Ok(Ty::Fix(Box::new(e), k)),
                            _ => nc("array too long"),
                        }
                    }
                }
            }
        }
    }

    fn lineage(&self, unit: &str) -> Vec<String> {
        let mut out = vec![unit.to_string()];
        let mut i = 0;
        while i < out.len() {
            if let Some(u) = self.src.units.get(&out[i]) {
                for b in &u.bases {
                    if !out.contains(b) {
                        out.push(b.clone());
                    }
                }
            }
            i += 1;
        }
        out
    }

    fn find_struct(&self, unit: &str, q: Option<&str>, n: &str) -> Option<String> {
        let homes = match q {
            Some(q) => vec![q.to_string()],
            None => self.lineage(unit),
        };
        homes.into_iter().find(|h| self.src.units.get(h).map(|u| u.structs.contains_key(n)).unwrap_or(false))
    }

    fn fields(&mut self, h: &str, n: &str) -> Res<Vec<(Ty, String)>> {
        let fs = self.src.units[h].structs[n].clone();
        let mut f = Frame { unit: h.to_string(), scopes: vec![] };
        fs.iter().map(|(t, n)| Ok((self.resolve(&mut f, t)?, n.clone()))).collect()
    }

    /// The zero value of a type: memory types are allocated.
    fn zero(&mut self, t: &Ty) -> Res<U> {
        self.burn(3)?;
        match t {
            Ty::Struct(h, n) => {
                let fs = self.fields(h, n)?;
                let p = self.reserve(fs.len())?;
                for (i, (t, _)) in fs.iter().enumerate() {
                    if is_ref(t) {
                        let z = self.zero(t)?;
                        self.store(&(&p + U::from(i as u64 * 32)), &z)?;
                    }
                }
                Ok(p)
            }
            Ty::Fix(e, k) => {
                let p = self.reserve(*k)?;
                if is_ref(e) {
                    for i in 0..*k {
                        let z = self.zero(e)?;
                        self.store(&(&p + U::from(i as u64 * 32)), &z)?;
                    }
                }
                Ok(p)
            }
            // all empty dynamic arrays are the zero slot
            Ty::Dyn(_) | Ty::Str => Ok(U::from(0x60u32)),
            _ => Ok(U::zero()),
        }
    }

    fn coerce(&self, v: V, t: &Ty) -> Res<V> {
        let ok = match (&v.ty, t) {
            (a, b) if a == b => true,
            (Ty::Lit, Ty::Uint(n)) => {
                if v.v.bits() > *n {
                    return nc(format!("{} does not fit {} bits", v.v, n));
                }
                true
            }
            (Ty::Uint(a), Ty::Uint(b)) => a <= b,
            _ => false,
        };
        if !ok {
            return nc(format!("a value of type {:?} where {:?} is expected", v.ty, t));
        }
        Ok(V { ty: t.clone(), v: v.v })
    }

    fn common(&self, a: &V, b: &V) -> Res<Ty> {
        match (&a.ty, &b.ty) {
            (x, y) if x == y => Ok(x.clone()),
            (Ty::Lit, Ty::Uint(n)) => Ok(Ty::Uint((*n).max((a.v.bits() + 7) / 8 * 8))),
            (Ty::Uint(n), Ty::Lit) => Ok(Ty::Uint((*n).max((b.v.bits() + 7) / 8 * 8))),
            (Ty::Uint(a), Ty::Uint(b)) => Ok(Ty::Uint(*a.max(b))),
            (x, y) => nc(format!("no operator between {:?} and {:?}", x, y)),
        }
    }

    fn arith(&mut self, op: &str, a: V, b: V) -> Res<V> {
        let boolean = |x: bool| V { ty: Ty::Bool, v: if x { U::one() } else { U::zero() } };
        if op == "<<" || op == ">>" || op == "**" {
            let ty = if a.ty == Ty::Lit && b.ty != Ty::Lit { Ty::Uint(256) } else { a.ty.clone() };
            let n = b.v.to_u64().unwrap_or(u64::MAX);
            let bits = if let Ty::Uint(n) = ty { n } else { 256 };
            let v = match op {
                "<<" if n >= 256 => U::zero(),
                "<<" => mask(&Ty::Uint(bits), wrap(a.v << n as usize)),
                ">>" if n >= 256 => U::zero(),
                ">>" => a.v >> n as usize,
                _ => {
                    let r = a.v.modpow(&b.v, &(U::one() << bits));
                    if self.src.checked && self.unchecked == 0 && n < 4096 && num::pow(a.v.clone(), n as usize) != r {
                        return rv("overflow");
                    }
                    r
                }
            };
            return Ok(V { ty, v });
        }
        let ty = self.common(&a, &b)?;
        match op {
            "==" => return Ok(boolean(a.v == b.v)),
            "!=" => return Ok(boolean(a.v != b.v)),
            "<" => return Ok(boolean(a.v < b.v)),
            ">" => return Ok(boolean(a.v > b.v)),
            "<=" => return Ok(boolean(a.v <= b.v)),
            ">=" => return Ok(boolean(a.v >= b.v)),
            _ => {}
        }
        let bits = match ty {
            Ty::Uint(n) => n,
            Ty::Lit => 256,
            Ty::Bytes32 if ["&", "|", "^"].contains(&op) => 256,
            _ => return nc(format!("{} on {:?}", op, ty)),
        };
        let full = match op {
            "+" => &a.v + &b.v,
            "*" => &a.v * &b.v,
            "-" => {
                if a.v >= b.v {
                    &a.v - &b.v
                } else {
                    if ty == Ty::Lit {
                        return un("negative literal");
                    }
                    if self.src.checked && self.unchecked == 0 {
                        return rv("underflow");
                    }
                    (U::one() << bits) + &a.v - &b.v
                }
            }
            "/" | "%" => {
                if b.v.is_zero() {
                    return rv("division by zero");
                }
                if op == "/" {
                    &a.v / &b.v
                } else {
                    &a.v % &b.v
                }
            }
            "&" => bitop(&a.v, &b.v, |x, y| x & y),
            "|" => bitop(&a.v, &b.v, |x, y| x | y),
            "^" => bitop(&a.v, &b.v, |x, y| x ^ y),
            _ => return un(format!("operator {}", op)),
        };
        if full.bits() > bits {
            if ty == Ty::Lit {
                return un("big literal arithmetic");
            }
            if self.src.checked && self.unchecked == 0 {
                return rv("overflow");
            }
        }
        Ok(V { ty, v: full % (U::one() << bits) })
    }

    fn constant(&mut self, unit: &str, n: &str) -> Res<Option<V>> {
        for h in self.lineage(unit) {
            if let Some(u) = self.src.units.get(&h) {
                if let Some((t, e)) = u.consts.get(n).cloned() {
                    let mut f = Frame { unit: h.clone(), scopes: vec![vec![]] };
                    let t = self.resolve(&mut f, &t)?;
                    let v = self.eval(&mut f, &e)?.one()?;
                    return Ok(Some(self.coerce(v, &t)?));
                }
            }
        }
        Ok(None)
    }

    fn find_fun(&self, homes: &[String], n: &str, argc: usize) -> Option<Rc<Fun>> {
        homes.iter().find_map(|h| self.src.units.get(h)?.funs.iter().find(|f| f.name == n && f.params.len() == argc).cloned())
    }

    fn place(&mut self, f: &mut Frame, e: &E) -> Res<Place> {
        match e {
            E::Id(n) => Ok(Place::Var(n.clone())),
            E::Mem(b, m) => {
                let b = self.eval(f, b)?.one()?;
                match &b.ty {
                    Ty::Struct(h, n) => {
                        let fs = self.fields(h, n)?;
                        match fs.iter().position(|x| x.1 == *m) {
                            Some(i) => Ok(Place::Mem(&b.v + U::from(i as u64 * 32), fs[i].0.clone())),
                            None => nc(format!("{} has no {}", n, m)),
                        }
                    }
                    t => nc(format!("{:?} has no {}", t, m)),
                }
            }
            E::Idx(b, i) => {
                let b = self.eval(f, b)?.one()?;
                let i = self.eval(f, i)?.one()?;
                if !matches!(i.ty, Ty::Uint(_) | Ty::Lit) {
                    return nc("index is no number");
                }
                let (et, len, base) = match &b.ty {
                    Ty::Fix(t, k) => {
                        if i.ty == Ty::Lit && i.v >= U::from(*k) {
                            return nc(format!("index {} of an array of {}", i.v, k));
                        }
                        ((**t).clone(), U::from(*k), b.v.clone())
                    }
                    Ty::Dyn(t) => ((**t).clone(), self.load(&b.v)?, &b.v + U::from(32u32)),
                    t => return nc(format!("index into {:?}", t)),
                };
                if i.v >= len {
                    return rv("index out of range");
                }
                Ok(Place::Mem(base + i.v * U::from(32u32), et))
            }
            _ => nc("no place to store to"),
        }
    }
    fn read(&mut self, f: &mut Frame, p: &Place) -> Res<V> {
        match p {
            Place::Var(n) => match f.find(n) {
                Some(v) => Ok(v.clone()),
                None => nc(format!("no variable {}", n)),
            },
            Place::Mem(a, t) => {
                let v = self.load(a)?;
                Ok(V { ty: t.clone(), v: mask(t, v) })
            }
        }
    }
    fn write(&mut self, f: &mut Frame, p: &Place, v: V) -> Res<V> {
        match p {
            Place::Var(n) => {
                let t = match f.find(n) {
                    Some(x) => x.ty.clone(),
                    None => return nc(format!("no variable {}", n)),
                };
                let v = self.coerce(v, &t)?;
                *f.find(n).unwrap() = v.clone();
                Ok(v)
            }
            Place::Mem(a, t) => {
                let v = self.coerce(v, t)?;
                self.store(a, &v.v)?;
                Ok(v)
            }
        }
    }

    fn eval(&mut self, f: &mut Frame, e: &E) -> Res<Val> {
        self.burn(4)?;
        Ok(Val::One(match e {
            E::Num(n) => V { ty: Ty::Lit, v: n.clone() },
            E::Bool(b) => V { ty: Ty::Bool, v: if *b { U::one() } else { U::zero() } },
            E::Str(_) => V { ty: Ty::Str, v: U::from(0x60u32) },
            E::Id(n) => {
                if let Some(v) = f.find(n) {
                    return Ok(Val::One(v.clone()));
                }
                match self.constant(&f.unit.clone(), n)? {
                    Some(v) => v,
                    None => return nc(format!("no name {}", n)),
                }
            }
            E::Ty(_) | E::New(_) => return nc("a type is no value"),
            E::Un(op, x) => match *op {
                "++" | "--" => {
                    let p = self.place(f, x)?;
                    let v = self.read(f, &p)?;
                    let r = self.arith(if *op == "++" { "+" } else { "-" }, v, V { ty: Ty::Lit, v: U::one() })?;
                    self.write(f, &p, r)?
                }
                _ => {
                    let v = self.eval(f, x)?.one()?;
                    match (*op, &v.ty) {
                        ("!", Ty::Bool) => V { ty: Ty::Bool, v: U::one() - v.v },
                        ("~", Ty::Uint(n)) => V { ty: v.ty.clone(), v: (U::one() << *n) - U::one() - v.v },
                        (o, t) => return un(format!("{} on {:?}", o, t)),
                    }
                }
            },
            E::Post(op, x) => {
                let p = self.place(f, x)?;
                let v = self.read(f, &p)?;
                let r = self.arith(if *op == "++" { "+" } else { "-" }, v.clone(), V { ty: Ty::Lit, v: U::one() })?;
                self.write(f, &p, r)?;
                v
            }
            E::Bin(op, a, b) => {
                let x = self.eval(f, a)?.one()?;
                if *op == "&&" || *op == "||" {
                    if x.ty != Ty::Bool {
                        return nc(format!("{} on {:?}", op, x.ty));
                    }
                    if x.v.is_zero() == (*op == "&&") {
                        return Ok(Val::One(x));
                    }
                    let y = self.eval(f, b)?.one()?;
                    if y.ty != Ty::Bool {
                        return nc(format!("{} on {:?}", op, y.ty));
                    }
                    return Ok(Val::One(y));
                }
                let y = self.eval(f, b)?.one()?;
                self.arith(op, x, y)?
            }
            E::Assign(op, l, r) => {
                if let E::Tup(ps) = &**l {
                    if *op != "=" {
                        return nc("operator on a tuple");
                    }
                    let vs = match self.eval(f, r)? {
                        Val::Many(v) => v,
                        Val::One(v) => vec![v],
                    };
                    if vs.len() != ps.len() {
                        return nc("tuples of different lengths");
                    }
                    for (p, v) in ps.iter().zip(vs) {
                        if let Some(p) = p {
                            let p = self.place(f, p)?;
                            self.write(f, &p, v)?;
                        }
                    }
                    return Ok(Val::Many(vec![]));
                }
                // the right side is evaluated first
                let mut v = self.eval(f, r)?.one()?;
                let p = self.place(f, l)?;
                if *op != "=" {
                    let old = self.read(f, &p)?;
                    v = self.arith(&op[..op.len() - 1], old, v)?;
                }
                self.write(f, &p, v)?
            }
            E::Cond(c, a, b) => {
                let c = self.eval(f, c)?.one()?;
                if c.ty != Ty::Bool {
                    return nc("condition is no boolean");
                }
                return self.eval(f, if c.v.is_zero() { b } else { a });
            }
            E::Mem(b, m) => {
                // constants of a library, lengths, fields
                if let E::Id(n) = &**b {
                    if f.find(n).is_none() && self.src.units.contains_key(n) {
                        return match self.constant(n, m)? {
                            Some(v) => Ok(Val::One(v)),
                            None => nc(format!("{} has no {}", n, m)),
                        };
                    }
                }
                if m == "max" || m == "min" {
                    if let E::Call(c, a, _) = &**b {
                        if let (E::Id(t), [E::Ty(TyE::Base(Ty::Uint(n)))]) = (&**c, a.as_slice()) {
                            if t == "type" {
                                return Ok(Val::One(V { ty: Ty::Uint(*n), v: if m == "max" { (U::one() << *n) - U::one() } else { U::zero() } }));
                            }
                        }
                    }
                }
                if m == "length" {
                    let b = self.eval(f, b)?.one()?;
                    return match &b.ty {
                        Ty::Fix(_, k) => Ok(Val::One(V { ty: Ty::Uint(256), v: U::from(*k) })),
                        Ty::Dyn(_) => {
                            let v = self.load(&b.v)?;
                            Ok(Val::One(V { ty: Ty::Uint(256), v }))
                        }
                        t => nc(format!("length of {:?}", t)),
                    };
                }
                let p = self.place(f, e)?;
                self.read(f, &p)?
            }
            E::Idx(..) => {
                let p = self.place(f, e)?;
                self.read(f, &p)?
            }
            E::Arr(v) => {
                let mut vs = vec![];
                for x in v {
                    vs.push(self.eval(f, x)?.one()?);
                }
                let mut t = vs[0].ty.clone();
                for x in &vs[1..] {
                    let a = V { ty: t.clone(), v: U::zero() };
                    t = if t == Ty::Lit { x.ty.clone() } else { self.common(&a, x)? };
                }
                if t == Ty::Lit {
                    // the smallest type that fits them all
                    let n = vs.iter().map(|v| v.v.bits()).max().unwrap().max(1);
                    t = Ty::Uint((n + 7) / 8 * 8);
                    // hardcoded coordinates: all but astronomically few need 256 bits
                    if n > 240 {
                        t = Ty::Uint(256);
                    }
                }
                let p = self.reserve(vs.len())?;
                for (i, x) in vs.iter().enumerate() {
                    self.store(&(&p + U::from(i as u64 * 32)), &x.v)?;
                }
                V { ty: Ty::Fix(Box::new(t), vs.len()), v: p }
            }
            E::Tup(v) => {
                let mut o = vec![];
                for x in v {
                    match x {
                        Some(x) => o.push(self.eval(f, x)?.one()?),
                        None => return nc("empty tuple component"),
                    }
                }
                return Ok(Val::Many(o));
            }
            E::Call(c, a, names) => return self.call(f, c, a, names.as_deref()),
        }))
    }

    fn build(&mut self, f: &mut Frame, h: &str, n: &str, a: &[E], names: Option<&[String]>) -> Res<Val> {
        let fs = self.fields(h, n)?;
        if fs.len() != a.len() {
            return nc(format!("{} has {} fields, {} given", n, fs.len(), a.len()));
        }
        let mut vs = vec![];
        for (i, e) in a.iter().enumerate() {
            let k = match names {
                Some(ns) => match fs.iter().position(|x| x.1 == ns[i]) {
                    Some(k) => k,
                    None => return nc(format!("{} has no {}", n, ns[i])),
                },
                None => i,
            };
            let v = self.eval(f, e)?.one()?;
            let v = self.coerce(v, &fs[k].0)?;
            vs.push((k, v));
        }
        let p = self.reserve(fs.len())?;
        for (k, v) in vs {
            self.store(&(&p + U::from(k as u64 * 32)), &v.v)?;
        }
        Ok(Val::One(V { ty: Ty::Struct(h.into(), n.into()), v: p }))
    }

    fn call(&mut self, f: &mut Frame, c: &E, a: &[E], names: Option<&[String]>) -> Res<Val> {
        match c {
            E::Ty(t) => {
                let t = self.resolve(f, t)?;
                if a.len() != 1 {
                    return nc("conversion of other than one value");
                }
                let v = self.eval(f, &a[0])?.one()?;
                match (&v.ty, &t) {
                    (Ty::Lit, Ty::Uint(n)) if v.v.bits() > *n => return nc("literal too big"),
                    (Ty::Uint(_) | Ty::Lit | Ty::Address | Ty::Bytes32, Ty::Uint(_) | Ty::Address | Ty::Bytes32) => {}
                    (Ty::Bool, Ty::Bool) => {}
                    (x, y) => return nc(format!("conversion of {:?} to {:?}", x, y)),
                }
                Ok(Val::One(V { v: mask(&t, v.v), ty: t }))
            }
            E::New(t) => {
                let t = self.resolve(f, t)?;
                let e = match &t {
                    Ty::Dyn(e) => (**e).clone(),
                    _ => return un("new of other than an array"),
                };
                let n = self.eval(f, &a[0])?.one()?.v;
                let n = match n.to_usize() {
                    Some(n) if n < 1 << 16 => n,
                    _ => return Err(Halt::OutOfGas),
                };
                let p = self.reserve(n + 1)?;
                self.store(&p, &U::from(n))?;
                if is_ref(&e) {
                    for i in 0..n {
                        let z = self.zero(&e)?;
                        self.store(&(&p + U::from((i as u64 + 1) * 32)), &z)?;
                    }
                }
                Ok(Val::One(V { ty: t, v: p }))
            }
            E::Id(n) => {
                match n.as_str() {
                    "require" | "assert" => {
                        if a.is_empty() || a.len() > 2 {
                            return nc("require with no or too many arguments");
                        }
                        let v = self.eval(f, &a[0])?.one()?;
                        if v.ty != Ty::Bool {
                            return nc("require of no boolean");
                        }
                        if v.v.is_zero() {
                            return rv("require");
                        }
                        return Ok(Val::Many(vec![]));
                    }
                    "revert" => return rv("revert"),
                    "gasleft" => return Ok(Val::One(V { ty: Ty::Uint(256), v: U::from(self.gas) })),
                    "addmod" | "mulmod" if a.len() == 3 => {
                        let mut x = vec![];
                        for e in a {
                            x.push(self.eval(f, e)?.one()?.v);
                        }
                        if x[2].is_zero() {
                            return rv("division by zero");
                        }
                        let v = if n == "addmod" { (&x[0] + &x[1]) % &x[2] } else { (&x[0] * &x[1]) % &x[2] };
                        return Ok(Val::One(V { ty: Ty::Uint(256), v }));
                    }
                    "keccak256" | "sha256" | "ecrecover" | "ripemd160" | "blockhash" | "selfdestruct" => return un(n.clone()),
                    _ => {}
                }
                if let Some(h) = self.find_struct(&f.unit, None, n) {
                    return self.build(f, &h, n, a, names);
                }
                let homes = self.lineage(&f.unit);
                match self.find_fun(&homes, n, a.len()) {
                    Some(g) => self.invoke_with(f, &g, None, a, names),
                    None => nc(format!("no function {} of {} arguments", n, a.len())),
                }
            }
            E::Mem(b, m) => {
                if let E::Id(u) = &**b {
                    if f.find(u).is_none() {
                        if u == "this" {
                            return un("external call of itself");
                        }
                        if u == "abi" || u == "block" || u == "msg" || u == "tx" {
                            return un(format!("{}.{}", u, m));
                        }
                        if self.src.units.contains_key(u) {
                            if let Some(h) = self.find_struct(u, Some(u), m) {
                                return self.build(f, &h, m, a, names);
                            }
                            return match self.find_fun(&[u.clone()], m, a.len()) {
                                Some(g) => self.invoke_with(f, &g, None, a, names),
                                None => nc(format!("{} has no function {} of {} arguments", u, m, a.len())),
                            };
                        }
                    }
                }
                // attached functions
                let v = self.eval(f, b)?.one()?;
                if v.ty == Ty::Address {
                    return un(format!("address.{}", m));
                }
                let mut libs = vec![];
                for h in self.lineage(&f.unit) {
                    if let Some(u) = self.src.units.get(&h) {
                        libs.extend(u.using.iter().cloned());
                    }
                }
                match self.find_fun(&libs, m, a.len() + 1) {
                    Some(g) => self.invoke_with(f, &g, Some(v), a, None),
                    None => nc(format!("no member function {}", m)),
                }
            }
            _ => un("call of an expression"),
        }
    }

    fn invoke_with(&mut self, f: &mut Frame, g: &Rc<Fun>, first: Option<V>, a: &[E], names: Option<&[String]>) -> Res<Val> {
        let mut vs: Vec<Option<V>> = vec![None; g.params.len()];
        let mut k = 0;
        if let Some(v) = first {
            vs[0] = Some(v);
            k = 1;
        }
        for (i, e) in a.iter().enumerate() {
            let slot = match names {
                Some(ns) => match g.params.iter().position(|p| p.1 == ns[i]) {
                    Some(k) => k,
                    None => return nc(format!("{} has no parameter {}", g.name, ns[i])),
                },
                None => i + k,
            };
            vs[slot] = Some(self.eval(f, e)?.one()?);
        }
        let vs: Option<Vec<V>> = vs.into_iter().collect();
        match vs {
            Some(vs) => self.invoke(g, vs),
            None => nc("argument given twice"),
        }
    }

    fn invoke(&mut self, g: &Rc<Fun>, args: Vec<V>) -> Res<Val> {
        self.burn(20)?;
        if g.modifiers {
            return un("modifier");
        }
        self.depth += 1;
        if self.depth > 60 {
            return Err(Halt::OutOfGas);
        }
        let saved = std::mem::replace(&mut self.unchecked, 0);
        let mut f = Frame { unit: g.home.clone(), scopes: vec![vec![]] };
        for ((t, n), v) in g.params.iter().zip(args) {
            let t = self.resolve(&mut f, t)?;
            let v = self.coerce(v, &t)?;
            f.scopes[0].push((n.clone(), v));
        }
        let mut rets = vec![];
        for (i, (t, n)) in g.rets.iter().enumerate() {
            let t = self.resolve(&mut f, t)?;
            let name = if n.is_empty() { format!("<{}>", i) } else { n.clone() };
            let z = if n.is_empty() && is_ref(&t) { U::from(0x60u32) } else { self.zero(&t)? };
            f.scopes[0].push((name.clone(), V { ty: t.clone(), v: z }));
            rets.push((t, name));
        }
        let body = g.body.clone();
        let flow = self.block(&mut f, &body)?;
        self.depth -= 1;
        self.unchecked = saved;
        if let Flow::Ret(Some(v)) = flow {
            let vs = match v {
                Val::One(v) => vec![v],
                Val::Many(v) => v,
            };
            if vs.len() != rets.len() {
                return nc("return of another number of values");
            }
            let mut o = vec![];
            for (v, (t, _)) in vs.into_iter().zip(&rets) {
                o.push(self.coerce(v, t)?);
            }
            return Ok(if o.len() == 1 { Val::One(o.pop().unwrap()) } else { Val::Many(o) });
        }
        let mut o: Vec<V> = rets.iter().map(|(_, n)| f.find(n).unwrap().clone()).collect();
        Ok(if o.len() == 1 { Val::One(o.pop().unwrap()) } else { Val::Many(o) })
    }

    fn block(&mut self, f: &mut Frame, b: &[S]) -> Res<Flow> {
        f.scopes.push(vec![]);
        for s in b {
            let r = self.stmt(f, s)?;
            if !matches!(r, Flow::Next) {
                f.scopes.pop();
                return Ok(r);
            }
        }
        f.scopes.pop();
        Ok(Flow::Next)
    }

    fn truth(&mut self, f: &mut Frame, e: &E) -> Res<bool> {
        let v = self.eval(f, e)?.one()?;
        if v.ty != Ty::Bool {
            return nc("condition is no boolean");
        }
        Ok(!v.v.is_zero())
    }

    fn stmt(&mut self, f: &mut Frame, s: &S) -> Res<Flow> {
        self.burn(2)?;
        match s {
            S::Nop => Ok(Flow::Next),
            S::Block(b) => self.block(f, b),
            S::Unchecked(b) => {
                self.unchecked += 1;
                let r = self.block(f, b);
                self.unchecked -= 1;
                r
            }
            S::Decl(ds, e) => {
                let vals: Option<Vec<V>> = match e {
                    None => None,
                    Some(e) => Some(match self.eval(f, e)? {
                        Val::One(v) => vec![v],
                        Val::Many(v) => v,
                    }),
                };
                if let Some(v) = &vals {
                    if v.len() != ds.len() {
                        return nc("declaration of another number of values");
                    }
                }
                for (i, d) in ds.iter().enumerate() {
                    if let Some((t, n)) = d {
                        let t = self.resolve(f, t)?;
                        let v = match &vals {
                            Some(v) => self.coerce(v[i].clone(), &t)?,
                            None => V { v: self.zero(&t)?, ty: t },
                        };
                        if f.scopes.last().unwrap().iter().any(|x| x.0 == *n) {
                            return nc(format!("{} is declared twice", n));
                        }
                        f.scopes.last_mut().unwrap().push((n.clone(), v));
                    }
                }
                Ok(Flow::Next)
            }
            S::Ex(e) => {
                self.eval(f, e)?;
                Ok(Flow::Next)
            }
            S::If(c, a, b) => {
                if self.truth(f, c)? {
                    self.block(f, std::slice::from_ref(&**a))
                } else if let Some(b) = b {
                    self.block(f, std::slice::from_ref(&**b))
                } else {
                    Ok(Flow::Next)
                }
            }
            S::For(i, c, st, b) => {
                f.scopes.push(vec![]);
                self.stmt(f, i)?;
                loop {
                    if let Some(c) = c {
                        if !self.truth(f, c)? {
                            break;
                        }
                    }
                    match self.block(f, std::slice::from_ref(&**b))? {
                        Flow::Break => break,
                        Flow::Ret(v) => {
                            f.scopes.pop();
                            return Ok(Flow::Ret(v));
                        }
                        _ => {}
                    }
                    if let Some(st) = st {
                        self.eval(f, st)?;
                    }
                }
                f.scopes.pop();
                Ok(Flow::Next)
            }
            S::While(c, b) => {
                while self.truth(f, c)? {
                    match self.block(f, std::slice::from_ref(&**b))? {
                        Flow::Break => break,
                        Flow::Ret(v) => return Ok(Flow::Ret(v)),
                        _ => {}
                    }
                }
                Ok(Flow::Next)
            }
            S::Do(b, c) => {
                loop {
                    match self.block(f, std::slice::from_ref(&**b))? {
                        Flow::Break => break,
                        Flow::Ret(v) => return Ok(Flow::Ret(v)),
                        _ => {}
                    }
                    if !self.truth(f, c)? {
                        break;
                    }
                }
                Ok(Flow::Next)
            }
            S::Ret(e) => {
                let v = match e {
                    Some(e) => Some(self.eval(f, e)?),
                    None => None,
                };
                Ok(Flow::Ret(v))
            }
            S::Break => Ok(Flow::Break),
            S::Cont => Ok(Flow::Cont),
            S::Asm(b) => {
                let mut ys = vec![vec![]];
                self.yblock(f, &mut ys, b)?;
                Ok(Flow::Next)
            }
        }
    }

    // ------------------------------------------------------------ assembly

    fn yblock(&mut self, f: &mut Frame, ys: &mut Vec<Vec<(String, U)>>, b: &[Y]) -> Res<Flow> {
        ys.push(vec![]);
        for s in b {
            let r = self.ystmt(f, ys, s)?;
            if !matches!(r, Flow::Next) {
                ys.pop();
                return Ok(r);
            }
        }
        ys.pop();
        Ok(Flow::Next)
    }

    fn yset(&mut self, f: &mut Frame, ys: &mut [Vec<(String, U)>], n: &str, v: U) -> Res<()> {
        for s in ys.iter_mut().rev() {
            if let Some(x) = s.iter_mut().rev().find(|x| x.0 == n) {
                x.1 = v;
                return Ok(());
            }
        }
        match f.find(n) {
            Some(x) => {
                x.v = mask(&x.ty, v);
                Ok(())
            }
            None => nc(format!("no variable {} in assembly", n)),
        }
    }

    fn ystmt(&mut self, f: &mut Frame, ys: &mut Vec<Vec<(String, U)>>, s: &Y) -> Res<Flow> {
        self.burn(2)?;
        match s {
            Y::Block(b) => self.yblock(f, ys, b),
            Y::Let(ns, e) => {
                if ns.len() > 1 && e.is_some() {
                    return un("let of several");
                }
                let v = match e {
                    Some(e) => self.yeval(f, ys, e)?,
                    None => U::zero(),
                };
                for n in ns {
                    ys.last_mut().unwrap().push((n.clone(), v.clone()));
                }
                Ok(Flow::Next)
            }
            Y::Set(ns, e) => {
                if ns.len() != 1 {
                    return un("assignment of several");
                }
                let v = self.yeval(f, ys, e)?;
                self.yset(f, ys, &ns[0], v)?;
                Ok(Flow::Next)
            }
            Y::Ex(e) => {
                self.yeval(f, ys, e)?;
                Ok(Flow::Next)
            }
            Y::If(c, b) => {
                if self.yeval(f, ys, c)?.is_zero() {
                    Ok(Flow::Next)
                } else {
                    self.yblock(f, ys, b)
                }
            }
            Y::Switch(c, cs, d) => {
                let v = self.yeval(f, ys, c)?;
                for (k, b) in cs {
                    if *k == v {
                        return self.yblock(f, ys, b);
                    }
                }
                match d {
                    Some(b) => self.yblock(f, ys, b),
                    None => Ok(Flow::Next),
                }
            }
            Y::For(i, c, p, b) => {
                ys.push(vec![]);
                for s in i {
                    self.ystmt(f, ys, s)?;
                }
                while !self.yeval(f, ys, c)?.is_zero() {
                    if let Flow::Break = self.yblock(f, ys, b)? {
                        break;
                    }
                    self.yblock(f, ys, p)?;
                }
                ys.pop();
                Ok(Flow::Next)
            }
            Y::Break => Ok(Flow::Break),
            Y::Cont => Ok(Flow::Cont),
        }
    }

    fn yeval(&mut self, f: &mut Frame, ys: &mut Vec<Vec<(String, U)>>, e: &YE) -> Res<U> {
        self.burn(3)?;
        match e {
            YE::Num(n) => Ok(n.clone()),
            YE::Id(n) => {
                for s in ys.iter().rev() {
                    if let Some(x) = s.iter().rev().find(|x| x.0 == *n) {
                        return Ok(x.1.clone());
                    }
                }
                if let Some(v) = f.find(n) {
                    return Ok(v.v.clone());
                }
                match self.constant(&f.unit.clone(), n)? {
                    Some(v) => Ok(v.v),
                    None => nc(format!("no name {} in assembly", n)),
                }
            }
            YE::Call(n, a) => {
                // arguments are evaluated from the last to the first
                let mut v = vec![U::zero(); a.len()];
                for i in (0..a.len()).rev() {
                    v[i] = self.yeval(f, ys, &a[i])?;
                }
                self.builtin(n, v)
            }
        }
    }

    fn builtin(&mut self, n: &str, v: Vec<U>) -> Res<U> {
        let b = |x: bool| if x { U::one() } else { U::zero() };
        let argc = |k: usize| -> Res<()> {
            if v.len() == k {
                Ok(())
            } else {
                nc(format!("{} takes {} arguments", n, k))
            }
        };
        match n {
            "gas" => argc(0)?,
            "iszero" | "not" | "mload" | "pop" => argc(1)?,
            "add" | "sub" | "mul" | "div" | "mod" | "exp" | "lt" | "gt" | "eq" | "and" | "or" | "xor" | "shl" | "shr" | "mstore" | "mstore8" | "revert" => argc(2)?,
            "addmod" | "mulmod" => argc(3)?,
            "staticcall" => argc(6)?,
            "call" => argc(7)?,
            _ => {}
        }
        Ok(match n {
            "add" => wrap(&v[0] + &v[1]),
            "sub" => wrap(two256() + &v[0] - &v[1]),
            "mul" => wrap(&v[0] * &v[1]),
            "div" | "mod" => {
                if v[1].is_zero() {
                    U::zero()
                } else if n == "div" {
                    &v[0] / &v[1]
                } else {
                    &v[0] % &v[1]
                }
            }
            "exp" => v[0].modpow(&v[1], &two256()),
            "addmod" | "mulmod" => {
                if v[2].is_zero() {
                    U::zero()
                } else if n == "addmod" {
                    (&v[0] + &v[1]) % &v[2]
                } else {
                    (&v[0] * &v[1]) % &v[2]
                }
            }
            "lt" => b(v[0] < v[1]),
            "gt" => b(v[0] > v[1]),
            "eq" => b(v[0] == v[1]),
            "iszero" => b(v[0].is_zero()),
            "not" => two256() - U::one() - &v[0],
            "and" => bitop(&v[0], &v[1], |x, y| x & y),
            "or" => bitop(&v[0], &v[1], |x, y| x | y),
            "xor" => bitop(&v[0], &v[1], |x, y| x ^ y),
            "shl" | "shr" => match v[0].to_usize() {
                Some(k) if k < 256 => {
                    if n == "shl" {
                        wrap(&v[1] << k)
                    } else {
                        &v[1] >> k
                    }
                }
                _ => U::zero(),
            },
            "mload" => self.load(&v[0])?,
            "mstore" => {
                self.store(&v[0], &v[1])?;
                U::zero()
            }
            "mstore8" => {
                let o = self.off(&v[0], 1)?;
                self.mem[o] = (&v[1] % U::from(256u32)).to_u8().unwrap();
                U::zero()
            }
            "pop" => U::zero(),
            "gas" => U::from(self.gas),
            "returndatasize" => U::from(self.ret.len()),
            "invalid" => {
                self.gas = 0;
                return rv("invalid");
            }
            "revert" => return rv("revert"),
            "staticcall" | "call" => {
                let k = if n == "call" { 1 } else { 0 };
                if n == "call" && !v[2].is_zero() {
                    return un("call with value");
                }
                self.burn(40)?;
                let (ilen, olen) = match (v[3 + k].to_usize(), v[5 + k].to_usize()) {
                    (Some(i), Some(o)) if i < 1 << 20 && o < 1 << 20 => (i, o),
                    _ => return Err(Halt::OutOfGas),
                };
                let io = self.off(&v[2 + k], ilen)?;
                let oo = self.off(&v[4 + k], olen)?;
                let input = self.mem[io..io + ilen].to_vec();
                // all but one 64th may be passed on
                let most = self.gas - self.gas / 64;
                let give = v[0].to_u64().unwrap_or(u64::MAX).min(most);
                match self.chain.call(&v[1], &input, give) {
                    Some((out, used)) => {
                        self.gas -= used.min(give);
                        let c = out.len().min(olen);
                        self.mem[oo..oo + c].copy_from_slice(&out[..c]);
                        self.ret = out;
                        U::one()
                    }
                    None => {
                        // a failing precompiled contract takes all it was given
                        self.gas -= give;
                        self.ret = vec![];
                        U::zero()
                    }
                }
            }
            _ => return un(format!("{} in assembly", n)),
        })
    }

    /// Calls a public function with words laid out as the ABI says.
    /// Returns the words of the result.
    pub fn transact(&mut self, contract: &str, name: &str, args: &[Vec<U>]) -> Res<Vec<U>> {
        let g = match self.src.units.get(contract) {
            Some(u) if !u.is_lib => u.funs.iter().find(|f| f.name == name && f.open).cloned(),
            _ => return nc(format!("no contract {}", contract)),
        };
        let g = match g {
            Some(g) => g,
            None => {
                let homes = self.lineage(contract);
                match self.find_fun(&homes, name, args.len()) {
                    Some(g) if g.open => g,
                    _ => return nc(format!("no function {}", name)),
                }
            }
        };
        if g.params.len() != args.len() {
            return nc(format!("{} takes {} arguments", name, g.params.len()));
        }
        let mut f = Frame { unit: g.home.clone(), scopes: vec![vec![]] };
        let mut vs = vec![];
        for ((t, _), a) in g.params.iter().zip(args) {
            let t = self.resolve(&mut f, t)?;
            let p = match &t {
                Ty::Fix(e, k) if **e == Ty::Uint(256) => {
                    if a.len() < *k {
                        return rv("calldata too short");
                    }
                    let p = self.reserve(*k)?;
                    for (i, w) in a[..*k].iter().enumerate() {
                        self.store(&(&p + U::from(i as u64 * 32)), w)?;
                    }
                    p
                }
                Ty::Dyn(e) if **e == Ty::Uint(256) => {
                    let p = self.reserve(a.len() + 1)?;
                    self.store(&p, &U::from(a.len()))?;
                    for (i, w) in a.iter().enumerate() {
                        self.store(&(&p + U::from((i as u64 + 1) * 32)), w)?;
                    }
                    p
                }
                t => return un(format!("parameter of type {:?}", t)),
            };
            vs.push(V { ty: t, v: p });
        }
        let r = self.invoke(&g, vs)?;
        Ok(match r {
            Val::One(v) => vec![v.v],
            Val::Many(v) => v.into_iter().map(|x| x.v).collect(),
        })
    }

    /// The lengths of the fixed arrays a public function takes; `None`: dynamic.
    pub fn signature(&mut self, contract: &str, name: &str) -> Res<Vec<Option<usize>>> {
        let homes = self.lineage(contract);
        let g = homes.iter().find_map(|h| self.src.units.get(h)?.funs.iter().find(|f| f.name == name && f.open).cloned());
        let g = match g {
            Some(g) => g,
            None => return nc(format!("no function {}", name)),
        };
        let mut f = Frame { unit: g.home.clone(), scopes: vec![vec![]] };
        let mut o = vec![];
        for (t, _) in &g.params {
            o.push(match self.resolve(&mut f, t)? {
                Ty::Fix(_, k) => Some(k),
                Ty::Dyn(_) => None,
                t => return un(format!("parameter of type {:?}", t)),
            });
        }
        Ok(o)
    }
}

fn bitop(a: &U, b: &U, f: impl Fn(u8, u8) -> u8) -> U {
    let (mut x, mut y) = (a.to_bytes_le(), b.to_bytes_le());
    let n = x.len().max(y.len());
    x.resize(n, 0);
    y.resize(n, 0);
    U::from_bytes_le(&x.iter().zip(&y).map(|(p, q)| f(*p, *q)).collect::<Vec<_>>())
}

// ---------------------------------------------------------------- alt_bn128

use pairing::bn256::{Bn256, Fq, Fq2, G1Affine, G2Affine};
use pairing::{CurveAffine, CurveProjective, EncodedPoint, Engine};

fn word(b: &[u8], i: usize) -> [u8; 32] {
    let mut w = [0u8; 32];
    for k in 0..32 {
        w[k] = b.get(i * 32 + k).copied().unwrap_or(0);
    }
    w
}

/// (0, 0) is the identity; anything else must be on the curve.
pub fn g1_of(x: &[u8; 32], y: &[u8; 32]) -> Option<G1Affine> {
    let q = modulus::<Fq>();
    let (bx, by) = (U::from_bytes_be(x), U::from_bytes_be(y));
    if bx >= q || by >= q {
        return None;
    }
    if bx.is_zero() && by.is_zero() {
        return Some(G1Affine::zero());
    }
    let mut u = <G1Affine as CurveAffine>::Uncompressed::empty();
    u.as_mut()[..32].copy_from_slice(x);
    u.as_mut()[32..].copy_from_slice(y);
    let p = u.into_affine_unchecked().ok()?;
    // y^2 = x^3 + 3
    let (fx, fy): (Fq, Fq) = (from_big(&bx), from_big(&by));
    if sq(&fy) != add(&mul(&sq(&fx), &fx), &small(3)) {
        return None;
    }
    Some(p)
}

/// Coordinates with the imaginary part first; must be in the group.
pub fn g2_of(w: &[[u8; 32]; 4]) -> Option<G2Affine> {
    let q = modulus::<Fq>();
    let b: Vec<U> = w.iter().map(|x| U::from_bytes_be(x)).collect();
    if b.iter().any(|x| *x >= q) {
        return None;
    }
    if b.iter().all(|x| x.is_zero()) {
        return Some(G2Affine::zero());
    }
    let mut u = <G2Affine as CurveAffine>::Uncompressed::empty();
    for i in 0..4 {
        u.as_mut()[i * 32..(i + 1) * 32].copy_from_slice(&w[i]);
    }
    let p = u.into_affine_unchecked().ok()?;
    let f2 = |c1: &U, c0: &U| Fq2 { c0: from_big(c0), c1: from_big(c1) };
    let (x, y) = (f2(&b[0], &b[1]), f2(&b[2], &b[3]));
    // y^2 = x^3 + 3 / (9 + i)
    let xi = Fq2 { c0: small(9), c1: small(1) };
    let b2 = div(&Fq2 { c0: small(3), c1: small(0) }, &xi);
    if sq(&y) != add(&mul(&sq(&x), &x), &b2) {
        return None;
    }
    if !crate::engines::in_subgroup(&p) {
        return None;
    }
    Some(p)
}

pub fn g1_words(p: &G1Affine) -> [[u8; 32]; 2] {
    if p.is_zero() {
        return [[0; 32]; 2];
    }
    let u = p.into_uncompressed();
    [word(u.as_ref(), 0), word(u.as_ref(), 1)]
}
pub fn g2_words(p: &G2Affine) -> [[u8; 32]; 4] {
    if p.is_zero() {
        return [[0; 32]; 4];
    }
    let u = p.into_uncompressed();
    [word(u.as_ref(), 0), word(u.as_ref(), 1), word(u.as_ref(), 2), word(u.as_ref(), 3)]
}

/// The precompiled contracts at addresses 6, 7 and 8.
pub fn precompile(addr: u64, input: &[u8]) -> Option<Vec<u8>> {
    match addr {
        6 => {
            let p = g1_of(&word(input, 0), &word(input, 1))?;
            let q = g1_of(&word(input, 2), &word(input, 3))?;
            Some(g1_words(&crate::engines::add_pt(&p, &q)).concat())
        }
        7 => {
            let p = g1_of(&word(input, 0), &word(input, 1))?;
            let k = U::from_bytes_be(&word(input, 2)) % modulus::<pairing::bn256::Fr>();
            let f: pairing::bn256::Fr = from_big(&k);
            let r = p.mul(ff::PrimeField::into_repr(&f)).into_affine();
            Some(g1_words(&r).concat())
        }
        8 => {
            if input.len() % 192 != 0 {
                return None;
            }
            let mut ps = vec![];
            for k in 0..input.len() / 192 {
                let g = g1_of(&word(input, 6 * k), &word(input, 6 * k + 1))?;
                let h = g2_of(&[word(input, 6 * k + 2), word(input, 6 * k + 3), word(input, 6 * k + 4), word(input, 6 * k + 5)])?;
                ps.push((g.prepare(), h.prepare()));
            }
            let refs: Vec<_> = ps.iter().map(|(a, b)| (a, b)).collect();
            let r = Bn256::final_exponentiation(&Bn256::miller_loop(&refs))?;
            let one = r == <<Bn256 as Engine>::Fqk as ff::Field>::one();
            let mut o = vec![0u8; 32];
            o[31] = one as u8;
            Some(o)
        }
        _ => None,
    }
}
