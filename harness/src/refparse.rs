//! An independent reference reader: from a text (or a file and what it includes) to the model value
//! it denotes, or to the place where it has to be rejected.
//!
//! It works on an array of characters and an explicit position, with the grammar written as one
//! function per construct, and shares no code with the parser under test.

use crate::mval::*;
use num_bigint::BigInt;
use num_rational::BigRational;
use num_traits::{One, ToPrimitive, Zero};
use std::collections::{HashMap, HashSet};
use std::path::{Path, PathBuf};
use std::rc::Rc;

pub const LIMIT: usize = 64;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RErr {
    pub what: &'static str,
    /// The file the fault is in, as it is named in messages.
    pub file: Option<String>,
    pub line: usize,
    /// None if the text ended too early.
    pub col: Option<usize>,
    /// The fault is a newline character, which has two sides.
    pub newline: bool,
}

#[derive(Clone, Debug)]
pub enum Outcome {
    Ok(Rc<MObj>),
    Err(RErr),
    /// The documentation does not say.
    Unspec(&'static str),
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Kind {
    Obj,
    Str,
    Arr,
    Tup,
}

enum Stop {
    Err(RErr),
    Unspec(&'static str),
}
type R<T> = Result<T, Stop>;

#[derive(Default)]
struct Loader {
    cache: HashMap<(PathBuf, Kind), MV>,
    active: Vec<PathBuf>,
    /// Total characters read, to keep runaway include trees away.
    read: usize,
}

type Fields = Vec<(String, MV)>;

/// What is known where a value stands.
#[derive(Clone, Copy)]
struct At<'a> {
    scope: &'a [(String, MV)],
    depth: usize,
    close: Option<char>,
}

struct P<'a> {
    cs: Vec<char>,
    i: usize,
    pos: Vec<(usize, usize)>,
    file: Option<String>,
    globals: HashMap<String, MV>,
    ld: &'a mut Loader,
}

/// An operand: a value, or a keyword which names a kind of include.
enum Opd {
    V(MV),
    Key(Kind),
}

fn is_ws(c: char) -> bool {
    c.is_whitespace()
}
fn is_close(c: char) -> bool {
    ")]}>".contains(c)
}
fn is_op(c: char) -> bool {
    "+-*/%".contains(c)
}
fn ends_value(c: char) -> bool {
    is_ws(c) || c == '#' || is_close(c) || is_op(c)
}
fn name_start(c: char) -> bool {
    c.is_alphabetic() || c == '_'
}
fn name_char(c: char) -> bool {
    name_start(c) || c.is_ascii_digit()
}
fn num_start(c: char) -> bool {
    c.is_ascii_digit() || c == '.' || c == ','
}

impl<'a> P<'a> {
    fn new(text: &str, file: Option<String>, ld: &'a mut Loader) -> P<'a> {
        let cs: Vec<char> = text.chars().collect();
        let mut pos = Vec::with_capacity(cs.len() + 1);
        let (mut l, mut c) = (1, 1);
        for ch in &cs {
            pos.push((l, c));
            if *ch == '\n' {
                l += 1;
                c = 1;
            } else {
                c += 1;
            }
        }
        pos.push((l, c));
        ld.read += cs.len();
        P { cs, i: 0, pos, file, globals: HashMap::new(), ld }
    }
    fn cur(&self) -> Option<char> {
        self.cs.get(self.i).copied()
    }
    fn err<T>(&self, at: usize, what: &'static str) -> R<T> {
        let (line, col) = self.pos[at];
        Err(Stop::Err(RErr {
            what,
            file: self.file.clone(),
            line,
            col: Some(col),
            newline: self.cs.get(at) == Some(&'\n') && (what == "bad field char" || what == "bad escape"),
        }))
    }
    fn end<T>(&self) -> R<T> {
        Err(Stop::Err(RErr {
            what: "text ends too early",
            file: self.file.clone(),
            line: self.pos[self.cs.len()].0,
            col: None,
            newline: false,
        }))
    }
    fn blank(&mut self) {
        while let Some(c) = self.cur() {
            if c == '#' {
                while let Some(c) = self.cur() {
                    self.i += 1;
                    if c == '\n' {
                        break;
                    }
                }
            } else if is_ws(c) {
                self.i += 1;
            } else {
                break;
            }
        }
    }

    fn document(&mut self, depth: usize) -> R<Rc<MObj>> {
        self.blank();
        if self.cur().is_none() {
            return Ok(Rc::new(MObj { pairs: vec![], parent: None }));
        }
        self.pairs(depth, None)
    }

    /// Pairs up to the closing brace, or up to the end of the text. Stands at the first one.
    fn pairs(&mut self, depth: usize, close: Option<char>) -> R<Rc<MObj>> {
        let mut fields: Fields = vec![];
        let mut parent: Option<Rc<MObj>> = None;
        loop {
            let c = match self.cur() {
                None if close.is_none() => break,
                None => return self.end(),
                Some(c) => c,
            };
            if is_close(c) {
                if close == Some(c) {
                    self.i += 1;
                    break;
                }
                return self.err(self.i, "wrong bracket");
            }
            let start = self.i;
            let name = self.field_name()?;
            let global = name.starts_with('@');
            let taken = if global {
                self.globals.contains_key(&name)
            } else if name == "^" {
                parent.is_some()
            } else {
                fields.iter().any(|(n, _)| *n == name)
            };
            if taken {
                return self.err(start, "duplicate");
            }
            self.blank();
            if self.cur().is_none() {
                return self.end();
            }
            let vstart = self.i;
            let v = self.value(At { scope: &fields, depth, close })?;
            if global {
                // Its value may have defined it.
                if self.globals.contains_key(&name) {
                    return self.err(start, "duplicate");
                }
                self.globals.insert(name, v);
            } else if name == "^" {
                match v {
                    MV::Obj(o) => parent = Some(o),
                    _ => return self.err(vstart, "parent is not an object"),
                }
            } else {
                fields.push((name, v));
            }
            self.blank();
        }
        Ok(Rc::new(MObj { pairs: fields, parent }))
    }

    /// A field name and its colon: a plain name, `@name` or `^`.
    fn field_name(&mut self) -> R<String> {
        let start = self.i;
        let mut name = String::new();
        if self.cur() == Some('@') {
            name.push('@');
            self.i += 1;
        }
        let mut n = 0;
        while let Some(c) = self.cur() {
            let ok = if n == 0 { name_start(c) || c == '^' } else { name_char(c) };
            if ok {
                name.push(c);
            } else if c == ':' && n > 0 {
                self.i += 1;
                break;
            } else {
                return self.err(self.i, "bad field char");
            }
            self.i += 1;
            n += 1;
        }
        let bad = match name.as_str() {
            "@" | "null" | "true" | "false" | "Obj" | "Str" | "Arr" | "Tup" => true,
            "^" => false,
            _ => name.contains('^'),
        };
        if bad {
            return self.err(start, "bad field name");
        }
        Ok(name)
    }

    /// A complete value where one is stored (as a field, element or parent).
    fn value(&mut self, at: At) -> R<MV> {
        match self.expression(at)? {
            Opd::V(v) => Ok(v),
            Opd::Key(_) => Err(Stop::Unspec("an include keyword used as a value")),
        }
    }

    fn expression(&mut self, at: At) -> R<Opd> {
        let first = self.operand(at)?;
        // Operands of additions, with where each begins; products are reduced at once.
        let mut sums: Vec<(MV, usize, char)> = vec![];
        let mut last = first;
        let mut last_at = 0;
        let mut last_op = '+';
        while let Some(op) = self.cur().filter(|c| is_op(*c)) {
            self.i += 1;
            if self.cur().is_none() {
                return self.end();
            }
            let p = self.i;
            let rhs = self.operand(at)?;
            let rhs = self.plain(rhs)?;
            if op == '+' || op == '-' {
                let l = self.plain(last)?;
                sums.push((l, last_at, last_op));
                last = Opd::V(rhs);
                last_at = p;
                last_op = op;
            } else {
                let l = self.plain(last)?;
                last = Opd::V(self.apply(l, op, rhs, p)?);
            }
        }
        if let Some(c) = self.cur() {
            if !ends_value(c) {
                return self.err(self.i, "junk after value");
            }
            if is_close(c) && at.close != Some(c) {
                return self.err(self.i, "wrong bracket");
            }
        }
        if sums.is_empty() {
            return Ok(last);
        }
        let l = self.plain(last)?;
        sums.push((l, last_at, last_op));
        let mut it = sums.into_iter();
        let mut acc = it.next().unwrap().0;
        for (v, p, op) in it {
            acc = self.apply(acc, op, v, p)?;
        }
        Ok(Opd::V(acc))
    }

    /// Keywords inside expressions behave like empty objects.
    fn plain(&self, o: Opd) -> R<MV> {
        match o {
            Opd::V(v) => Ok(v),
            Opd::Key(_) => Ok(MV::obj(vec![], None)),
        }
    }

    fn operand(&mut self, at: At) -> R<Opd> {
        let start = self.i;
        let c = self.cur().unwrap();
        let v = match c {
            '"' => Opd::V(self.string()?),
            '{' => Opd::V(self.object(at.depth + 1)?),
            '[' => Opd::V(self.array(At { depth: at.depth + 1, ..at })?),
            '(' => Opd::V(self.tuple(At { depth: at.depth + 1, ..at })?),
            '<' => Opd::V(self.include(At { depth: at.depth + 1, ..at })?),
            '+' | '-' => {
                let mut neg = false;
                while let Some(c) = self.cur().filter(|c| *c == '+' || *c == '-') {
                    if c == '-' {
                        neg = !neg;
                    }
                    self.i += 1;
                }
                if self.cur().is_none() {
                    return self.end();
                }
                let p = self.i;
                let v = self.operand(at)?;
                let v = self.plain(v)?;
                Opd::V(match v {
                    MV::Int(i) => MV::Int(if neg { -i } else { i }),
                    MV::Frac(f) => MV::Frac(if neg { -f } else { f }),
                    _ => return self.err(p, "sign on a non-number"),
                })
            }
            c if num_start(c) => Opd::V(self.number()?),
            c if name_start(c) || c == '@' || c == '^' => self.variable(at, start)?,
            _ => return self.err(start, "bad value char"),
        };
        if let Opd::V(ref v) = v {
            let n = v.nesting();
            if n > 0 && at.depth + n > LIMIT && at.close != Some('>') {
                return self.err(start, "too deep");
            }
        }
        Ok(v)
    }

    fn string(&mut self) -> R<MV> {
        self.i += 1;
        let mut s = String::new();
        loop {
            match self.cur() {
                None => return self.end(),
                Some('"') => {
                    self.i += 1;
                    return Ok(MV::str(&s));
                }
                Some('\\') => {
                    self.i += 1;
                    match self.cur() {
                        None => return self.end(),
                        Some('n') => s.push('\n'),
                        Some('r') => s.push('\r'),
                        Some('t') => s.push('\t'),
                        Some(c) if "\\\"'$".contains(c) => s.push(c),
                        Some(_) => return self.err(self.i, "bad escape"),
                    }
                    self.i += 1;
                }
                Some(c) => {
                    s.push(c);
                    self.i += 1;
                }
            }
        }
    }

    fn object(&mut self, depth: usize) -> R<MV> {
        if depth > LIMIT {
            return self.err(self.i, "too deep");
        }
        self.i += 1;
        self.blank();
        Ok(MV::Obj(self.pairs(depth, Some('}'))?))
    }

    fn elements(&mut self, at: At, close: char, arr: bool) -> R<(Vec<MV>, MT)> {
        let mut vals = vec![];
        let mut t = MT::Any;
        loop {
            self.blank();
            match self.cur() {
                None => return self.end(),
                Some(c) if c == close => {
                    self.i += 1;
                    return Ok((vals, t));
                }
                Some(c) if is_close(c) => return self.err(self.i, "wrong bracket"),
                _ => {}
            }
            let p = self.i;
            let v = self.value(At { close: Some(close), ..at })?;
            if arr {
                t = match MT::join(&t, &v.ty()) {
                    Some(t) => t,
                    None => return self.err(p, "element type"),
                };
            }
            vals.push(v);
        }
    }
    fn array(&mut self, at: At) -> R<MV> {
        if at.depth > LIMIT {
            return self.err(self.i, "too deep");
        }
        self.i += 1;
        let (vals, t) = self.elements(at, ']', true)?;
        Ok(MV::Arr(Rc::new(MArr { vals, t })))
    }
    fn tuple(&mut self, at: At) -> R<MV> {
        if at.depth > LIMIT {
            return self.err(self.i, "too deep");
        }
        self.i += 1;
        let (vals, _) = self.elements(at, ')', false)?;
        Ok(MV::tup(vals))
    }

    /// All values of a file of values.
    fn file_values(&mut self, depth: usize, arr: bool) -> R<MV> {
        let mut vals = vec![];
        let mut t = MT::Any;
        loop {
            self.blank();
            if self.cur().is_none() {
                break;
            }
            let p = self.i;
            let v = self.value(At { scope: &[], depth, close: None })?;
            if arr {
                t = match MT::join(&t, &v.ty()) {
                    Some(t) => t,
                    None => return self.err(p, "element type"),
                };
            }
            vals.push(v);
        }
        Ok(if arr { MV::Arr(Rc::new(MArr { vals, t })) } else { MV::tup(vals) })
    }

    fn number(&mut self) -> R<MV> {
        let start = self.i;
        let mut whole = String::new();
        let mut dec: Option<String> = None;
        let mut prev_under = false;
        while let Some(c) = self.cur() {
            if ends_value(c) {
                break;
            }
            match c {
                '0'..='9' => {
                    match dec.as_mut() {
                        Some(d) => d.push(c),
                        None => whole.push(c),
                    }
                    prev_under = false;
                }
                '.' | ',' if dec.is_none() => {
                    dec = Some(String::new());
                    prev_under = false;
                }
                '_' if !prev_under => prev_under = true,
                _ => return self.err(self.i, "bad number char"),
            }
            self.i += 1;
        }
        if whole.is_empty() && dec.as_ref().map_or(true, |d| d.is_empty()) {
            return self.err(start, "number without digits");
        }
        let num = |s: &str| -> BigInt { crate::gen::digits_value(s) };
        Ok(match dec {
            None => MV::Int(num(&whole)),
            Some(d) => {
                MV::Frac(BigRational::new(num(&format!("{}{}", whole, d)), crate::gen::pow10(d.len())))
            }
        })
    }

    /// One name, up to a dot or the end of the value. Returns whether a dot follows.
    fn name(&mut self) -> R<(String, bool)> {
        let mut name = String::new();
        if self.cur() == Some('@') {
            name.push('@');
            self.i += 1;
        }
        while let Some(c) = self.cur() {
            if c == '.' {
                self.i += 1;
                match self.cur() {
                    None => return self.end(),
                    Some(c) if c == '@' || c == '^' || name_start(c) || num_start(c) => return Ok((name, true)),
                    _ => return self.err(self.i, "bad char after dot"),
                }
            }
            if ends_value(c) {
                break;
            }
            if !name_char(c) {
                return self.err(self.i, "bad name char");
            }
            name.push(c);
            self.i += 1;
        }
        Ok((name, false))
    }

    fn variable(&mut self, at: At, start: usize) -> R<Opd> {
        let (name, dot) = self.name()?;
        let key = match name.as_str() {
            "Obj" => Some(Kind::Obj),
            "Str" => Some(Kind::Str),
            "Arr" => Some(Kind::Arr),
            "Tup" => Some(Kind::Tup),
            _ => None,
        };
        if let (Some(k), false) = (key, dot) {
            return Ok(Opd::Key(k));
        }
        let mut cur = match name.as_str() {
            "null" => MV::Null,
            "true" => MV::Bool(true),
            "false" => MV::Bool(false),
            "@" => return self.err(start, "empty name"),
            _ if key.is_some() => MV::obj(vec![], None),
            n if n.starts_with('@') => match self.globals.get(n) {
                Some(v) => v.clone(),
                None => return self.err(start, "unknown global"),
            },
            n => match at.scope.iter().find(|(m, _)| m == n) {
                Some((_, v)) => v.clone(),
                None => return self.err(start, "unknown variable"),
            },
        };
        // The path after it. Errors about a value that cannot be dotted name the path's last name.
        let mut dot = dot;
        let mut name_at = start;
        let mut direct = true;
        while dot {
            match cur {
                MV::Obj(o) => {
                    if self.cur() == Some('@') {
                        return self.err(self.i, "global after object");
                    }
                    name_at = self.i;
                    let (n, d) = self.name()?;
                    cur = match o.lookup(&n) {
                        Some((v, _)) => v.clone(),
                        None => return self.err(name_at, "unknown field"),
                    };
                    dot = d;
                    direct = false;
                }
                MV::Arr(ref a) => {
                    cur = self.index(at, &a.vals, direct)?;
                    break;
                }
                MV::Tup(ref a) => {
                    cur = self.index(at, a, direct)?;
                    break;
                }
                _ => return self.err(name_at, "dot on a plain value"),
            }
        }
        Ok(Opd::V(cur))
    }

    fn index(&mut self, at: At, vals: &[MV], direct: bool) -> R<MV> {
        let p = self.i;
        if at.depth > LIMIT {
            return self.err(p, "too deep");
        }
        let c = self.cur().unwrap();
        let v = if num_start(c) {
            self.number()?
        } else {
            if c != '@' && !direct {
                return Err(Stop::Unspec("a plain name as index at the end of an object path"));
            }
            if self.cs[self.i..].iter().take_while(|c| **c == '@' || name_char(**c) || **c == '^' || **c == '.').any(|c| *c == '.') {
                return Err(Stop::Unspec("an index with a dot"));
            }
            match self.operand(At { depth: at.depth + 1, ..at })? {
                Opd::V(v) => v,
                Opd::Key(_) => return self.err(p, "index is not an Int"),
            }
        };
        match v {
            MV::Int(k) => match k.to_usize() {
                Some(k) if k < vals.len() => Ok(vals[k].clone()),
                _ => self.err(p, "index out of range"),
            },
            _ => self.err(p, "index is not an Int"),
        }
    }

    fn apply(&self, l: MV, op: char, r: MV, p: usize) -> R<MV> {
        use crate::gen::{as_frac, trunc_rem};
        let num = |v: &MV| matches!(v, MV::Int(_) | MV::Frac(_));
        Ok(match (op, &l, &r) {
            ('+', MV::Int(a), MV::Int(b)) => MV::Int(a + b),
            ('-', MV::Int(a), MV::Int(b)) => MV::Int(a - b),
            ('*', MV::Int(a), MV::Int(b)) => MV::Int(a * b),
            ('%', MV::Int(a), MV::Int(b)) if !b.is_zero() => MV::Int(trunc_rem(a, b)),
            ('%', MV::Int(_), MV::Int(_)) => return self.err(p, "division by zero"),
            ('+', MV::Str(a), MV::Str(b)) => MV::str(&format!("{}{}", a, b)),
            ('+', MV::Arr(a), MV::Arr(b)) => match MT::join(&a.t, &b.t) {
                Some(t) => {
                    let vals = a.vals.iter().chain(b.vals.iter()).cloned().collect();
                    MV::Arr(Rc::new(MArr { vals, t }))
                }
                None => return self.err(p, "operand types"),
            },
            ('%', _, _) => return self.err(p, "operand types"),
            _ if num(&l) && num(&r) => {
                let (a, b) = (as_frac(&l), as_frac(&r));
                MV::Frac(match op {
                    '+' => a + b,
                    '-' => a - b,
                    '*' => a * b,
                    _ => {
                        if b.is_zero() {
                            return self.err(p, "division by zero");
                        }
                        BigRational::new(a.numer() * b.denom(), a.denom() * b.numer())
                    }
                })
            }
            _ => return self.err(p, "operand types"),
        })
    }

    fn include(&mut self, at: At) -> R<MV> {
        if at.depth > LIMIT {
            return self.err(self.i, "too deep");
        }
        self.i += 1;
        self.blank();
        if self.cur().is_none() {
            return self.end();
        }
        let at = At { close: Some('>'), ..at };
        let mut p = self.i;
        let mut kind = Kind::Obj;
        let mut v = match self.expression(at)? {
            Opd::Key(k) => {
                kind = k;
                self.blank();
                if self.cur().is_none() {
                    return self.end();
                }
                p = self.i;
                let o = self.expression(at)?;
                self.plain(o)?
            }
            Opd::V(v @ MV::Str(_)) => v,
            Opd::V(_) => return self.err(p, "bad include keyword"),
        };
        self.blank();
        match self.cur() {
            None => return self.end(),
            Some('>') => self.i += 1,
            Some(_) => {
                return self.err(self.i, "include not closed");
            }
        }
        let name = match &mut v {
            MV::Str(s) => s.to_string(),
            _ => return self.err(p, "include path is not a string"),
        };
        let full = match &self.file {
            Some(f) => match Path::new(f).parent() {
                Some(d) => d.join(&name),
                None => return self.err(p, "bad include path"),
            },
            None => PathBuf::from(&name),
        };
        if !full.is_file() {
            return self.err(p, "bad include path");
        }
        let canon = match full.canonicalize() {
            Ok(c) => c,
            Err(_) => return self.err(p, "bad include path"),
        };
        if canon.to_str().is_none() || full.to_str().is_none() {
            return self.err(p, "bad include path");
        }
        if self.ld.active.contains(&canon) {
            return self.err(p, "include cycle");
        }
        if let Some(v) = self.ld.cache.get(&(canon.clone(), kind)) {
            return Ok(v.clone());
        }
        let text = match std::fs::read(&full).ok().and_then(|b| String::from_utf8(b).ok()) {
            Some(t) => t,
            None => return self.err(p, "include file cannot be read"),
        };
        if self.ld.read > 3_000_000 {
            return Err(Stop::Unspec("too much included text"));
        }
        let fname = full.to_str().unwrap().to_string();
        let v = if kind == Kind::Str {
            MV::str(&text)
        } else {
            self.ld.active.push(canon.clone());
            let r = {
                let mut sub = P::new(&text, Some(fname), self.ld);
                match kind {
                    Kind::Obj => sub.document(at.depth).map(MV::Obj),
                    k => sub.file_values(at.depth, k == Kind::Arr),
                }
            };
            self.ld.active.pop();
            r?
        };
        self.ld.cache.insert((canon, kind), v.clone());
        Ok(v)
    }
}

fn outcome(r: R<Rc<MObj>>) -> Outcome {
    match r {
        Ok(o) => Outcome::Ok(o),
        Err(Stop::Err(e)) => Outcome::Err(e),
        Err(Stop::Unspec(u)) => Outcome::Unspec(u),
    }
}

pub fn read_text(text: &str) -> Outcome {
    let mut ld = Loader::default();
    outcome(P::new(text, None, &mut ld).document(1))
}

pub fn read_file(path: &str) -> Outcome {
    let text = match std::fs::read(path).ok().and_then(|b| String::from_utf8(b).ok()) {
        Some(t) => t,
        None => {
            return Outcome::Err(RErr { what: "file cannot be read", file: None, line: 0, col: None, newline: false })
        }
    };
    let mut ld = Loader::default();
    if let Ok(c) = Path::new(path).canonicalize() {
        ld.active.push(c);
    }
    let r = P::new(&text, Some(path.to_string()), &mut ld).document(1);
    outcome(r)
}

/// Names of everything in use, so that unused imports stay out of the way.
#[allow(dead_code)]
fn _unused() -> (BigInt, HashSet<u8>) {
    (BigInt::one(), HashSet::new())
}
